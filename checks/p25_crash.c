/* P25: saving the configuration is interrupted at, or fails at, every operation
 * on the file system. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "fsi.h"
#include "settings.h"
#include "keyfile.h"
#include "admin.h"
#include <errno.h>
#include <ftw.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);
gboolean process_cmd(admin_handle h, const char *cmd);
void __wrap_log_custom_load(struct log_file_config *d) {}
gpointer __wrap_ssl_create_server_credentials(const char *c, GKeyFile *f, const char *g) { return NULL; }

static char dir[300], snap[300];
static struct ctrlproxy_config *C;

/* ---- sets of files ---- */
struct file { char *name, *text; };
struct set { struct file f[24]; int n; };
static struct set old, new, now;
static struct set *into;
static const char *base;
static int onefile(const char *p, const struct stat *st, int f, struct FTW *b)
{
	char *t; gsize n; FILE *fp;
	if (f != FTW_F || into->n == 24) return 0;
	fp = fopen(p, "r");
	if (!fp) mc_fail("%s cannot be read", p);
	t = g_malloc0(st->st_size + 1);
	n = fread(t, 1, st->st_size, fp);
	t[n] = 0;
	fclose(fp);
	into->f[into->n].name = g_strdup(p + strlen(base) + 1);
	into->f[into->n++].text = t;
	return 0;
}
static void take(struct set *s)
{
	int i;
	for (i = 0; i < s->n; i++) { g_free(s->f[i].name); g_free(s->f[i].text); }
	s->n = 0;
	into = s; base = dir;
	nftw(dir, onefile, 10, FTW_PHYS);
}
static const char *get(const struct set *s, const char *name)
{
	int i;
	for (i = 0; i < s->n; i++) if (!strcmp(s->f[i].name, name)) return s->f[i].text;
	return NULL;
}
/* the order of networks is that of the directory, and blank lines mean nothing */
static int bystr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static int same(const char *a, const char *b)
{
	char **v[2], **x, **y;
	int i, r;
	if (!strcmp(a, b)) return 1;
	for (i = 0; i < 2; i++) { v[i] = g_strsplit(i ? b : a, "\n", 0); qsort(v[i], g_strv_length(v[i]), sizeof(char *), bystr); }
	for (x = v[0]; *x && !**x; x++);
	for (y = v[1]; *y && !**y; y++);
	while (*x && *y && !strcmp(*x, *y)) { x++; y++; }
	r = !*x && !*y;
	g_strfreev(v[0]); g_strfreev(v[1]);
	return r;
}
static int rmone(const char *p, const struct stat *s, int f, struct FTW *b) { return remove(p); }
static void lay(const struct set *s, const char *where)
{
	char p[600], *d; int i; FILE *fp;
	nftw(where, rmone, 10, FTW_DEPTH | FTW_PHYS);
	if (mkdir(where, 0700)) mc_fail("mkdir %s", where);
	for (i = 0; i < s->n; i++) {
		snprintf(p, sizeof(p), "%s/%s", where, s->f[i].name);
		d = g_path_get_dirname(p); mkdir(d, 0700); g_free(d);
		fp = fopen(p, "w");
		if (!fp) mc_fail("cannot write %s", p);
		fwrite(s->f[i].text, 1, strlen(s->f[i].text), fp);
		fclose(fp);
	}
}
/* ---- what was written but may not be on the disk ---- */
static char dirty[8][300]; static int ndirty;
static void set_dirty(const char *p) { int i; for (i = 0; i < ndirty; i++) if (!strcmp(dirty[i], p)) return; if (ndirty < 8) snprintf(dirty[ndirty++], 300, "%s", p); }
static int unset_dirty(const char *p) { int i; for (i = 0; i < ndirty; i++) if (!strcmp(dirty[i], p)) { strcpy(dirty[i], dirty[--ndirty]); return 1; } return 0; }
/* ---- operations ---- */
static int armed, crashed, ops, faults, half;
static void crash(int power)
{
	int i, j;
	take(&now);
	if (power) for (i = 0; i < ndirty; i++) for (j = 0; j < now.n; j++) if (!strcmp(dirty[i] + strlen(dir) + 1, now.f[j].name)) {
		if (power == 1) now.f[j].text[0] = 0;
		else now.f[j].text[strlen(now.f[j].text) / 2] = 0;
		mc_cover("unwritten data is lost");
	}
	crashed = 1;
	fsi_pick = NULL;
}
static int pick(const char *what, const char *path, size_t n)
{
	int wr = !strcmp(what, "write"), r = 0;
	if (!strncmp(path, snap, strlen(snap))) return FSI_OK;
	if (!strcmp(what, "read")) return FSI_OK;
	ops++;
	if (half) {                              /* the rest of a torn write: stop here */
		half = 0;
		mc_trace("  stopped after half of a write");
		crash(0);
		return FSI_OK;
	}
	if (faults) {
		static const char *const names[] = { "goes well", "fails", "fails, and all writing from then on", "process ends before", "half of it is written, then the process ends", "power fails before" , "power fails before, with files written in part" };
		int k = mc_choose_l(wr ? 5 : ndirty ? 5 : 3, what);
		if (!wr && k >= 2) k = k == 2 ? 3 : k + 2;           /* (no full disk and no torn writes) */
		if (k) { mc_trace("  %s of %s: %s", what, path + strlen(dir), names[k]); faults--; mc_cover(names[k]); }
		fsi_errno = wr || !strcmp(what, "mkdir") || !strcmp(what, "open") ? ENOSPC : EIO;
		switch (k) {
		case 1: return FSI_FAIL;
		case 2: armed = 2; return FSI_FAIL;
		case 3: crash(0); return FSI_OK;
		case 4: half = 1; set_dirty(path); return FSI_SHORT;
		case 5: case 6: crash(k - 4); return FSI_OK;
		}
	}
	if (armed == 2 && (wr || !strcmp(what, "mkdir"))) { fsi_errno = ENOSPC; return FSI_FAIL; }
	if (wr) set_dirty(path);
	if (!strcmp(what, "fsync")) unset_dirty(path);
	if (!strcmp(what, "rename")) {
		/* the data moves along */
		unset_dirty(path);
		if (fsi_from && unset_dirty(fsi_from)) set_dirty(path);
	}
	if (!strcmp(what, "unlink")) unset_dirty(path);
	return r;
}
/* ---- configurations ---- */
static void out(struct admin_handle *h, const char *data) { mc_trace("  %s", data); }
static void admin(const char *cmd)
{
	struct admin_handle h = { W, NULL, NULL, NULL, out };
	mc_trace("admin: %s", cmd); mc_step();
	process_cmd(&h, cmd);
}
static struct network_config *net(struct ctrlproxy_config *c, const char *name)
{
	GList *gl;
	for (gl = c->networks; gl; gl = gl->next) if (!strcmp(((struct network_config *)gl->data)->name, name)) return gl->data;
	return NULL;
}
static void channel(struct network_config *n, const char *name, const char *key)
{
	struct channel_config *c = g_new0(struct channel_config, 1);
	c->name = g_strdup(name); c->key = g_strdup(key); c->autojoin = TRUE;
	n->channels = g_list_append(n->channels, c);
}
static void listener(const char *port, const char *pw)
{
	struct listener_config *l = g_new0(struct listener_config, 1);
	l->port = g_strdup(port); l->password = g_strdup(pw);
	C->listeners = g_list_append(C->listeners, l);
}
static void password(const char *nick, const char *pass, const char *network)
{
	struct keyfile_entry *e = g_new0(struct keyfile_entry, 1);
	e->nick = g_strdup(nick); e->pass = g_strdup(pass); e->network = g_strdup(network);
	W->nickserv_nicks = g_list_append(W->nickserv_nicks, e);
}
static void unload(void)
{
	while (W->networks) { struct irc_network *n = W->networks->data; disconnect_network(n); unload_network(n); }
	if (C) free_config(C);
	C = W->config = NULL;
	W->nickserv_nicks = NULL;
}
static void load(void)
{
	C = W->config = load_configuration(dir, TRUE);
	if (!C) mc_fail("the configuration cannot be loaded");
	load_networks(W, C);
	W->nickserv_nicks = NULL;
	nickserv_load(W);
}
/* with what kinds of files there are, from what there was to something else */
static const struct { const char *name, *text; } BASE[][8] = {
	{ { NULL } },
	{ { "config", "[global]\nautosave=true\n[one]\nservers=irc://irc.a.org;\nautojoin=#x;\n[irc://irc.a.org]\npassword=apw\n[two]\nservers=irc://irc.b.org;\n" },
	  { "keys", "#x\tkx\tone\n" }, { "nickserv", "me\tsecret\tone\n" }, { "listener", "[7777]\npassword=l\nssl=false\n" } },
	{ { "config", "[global]\nautoconnect=filed;one;\nlogging=none\n[one]\nservers=irc://irc.a.org;\n" },
	  { "networks/filed", "[global]\nservers=irc://irc.f.org;\n[irc://irc.f.org]\npassword=fpw\n[#old]\nkey=ok\nautojoin=true\n" },
	  { "networks/second", "[global]\nservers=irc://irc.s.org;\nnick=sec\n" }, { "networks/backup~", "x" } },
};
#define NFAULTS (mc_tier ? 3 : 2)
#define NBASE 3
#define NCHANGE 11
static int change(int b, int k)
{
	struct network_config *one = net(C, "one"), *filed = net(C, "filed");
	switch (k) {
	case 0: break;
	case 1: g_free(C->default_nick); C->default_nick = g_strdup("changed"); if (one) { g_free(one->nick); one->nick = g_strdup("newnick"); } if (filed) { g_free(filed->nick); filed->nick = g_strdup("fnick"); } break;
	case 2: admin("ADDNETWORK three"); admin("ADDSERVER three irc.t.org pwt"); channel(net(C, "three"), "#t", "kt"); break;
	case 3: if (!one) return 0; admin("DELNETWORK one"); break;
	case 4: if (!filed) return 0; admin("DELNETWORK filed"); break;
	case 5: if (!filed) return 0; admin("NETWORK RENAME filed moved"); break;
	case 6: if (!one) return 0; admin("NETWORK RENAME one renamed"); break;
	case 7: listener("7000", "l7"); password("me", "another", "one"); password("you", "second", NULL); break;
	case 8: if (b != 1) return 0; C->listeners = NULL; one->channels = NULL; W->nickserv_nicks = NULL; break;
	case 9: { int i; for (i = 0; one && i < 200; i++) { char *t = g_strdup_printf("#channel%d", i); channel(one, t, "key"); g_free(t); } if (!one) return 0; break; }
	case 10: if (!filed) return 0; channel(filed, "#more", "km"); channel(net(C, "second"), "#s", "ks"); g_free(C->motd_file); C->motd_file = g_strdup("m"); break;
	}
	return 1;
}
static void save(void) { save_configuration(C, dir); nickserv_save(W, dir); }
static int special(const char *name) { return name[strlen(name) - 1] == '~' || g_str_has_suffix(name, ".new"); }
static void each(const struct set *s)
{
	int i;
	for (i = 0; i < s->n; i++) {
		const char *n = s->f[i].name, *a = get(&old, n), *b = get(&new, n), *c = get(&now, n);
		if (special(n) && strcmp(n, "networks/backup~")) continue;
		if (!c ? (a && b) : !(a && same(a, c)) && !(b && same(b, c))) {
			mc_trace("--- %s was %s\n--- should become %s\n--- is %s", n, a ? mc_esc(a) : "absent", b ? mc_esc(b) : "absent", c ? mc_esc(c) : "absent");
			mc_fail("the file %s is %s", n, c ? "neither as it was nor as it should become" : "lost");
		}
	}
}
static int has(struct ctrlproxy_config *c, const char *a, const char *b) { return net(c, a) || (b && net(c, b)); }
static int haskey(struct ctrlproxy_config *c, const char *n, const char *name, const char *key)
{
	struct network_config *nc = net(c, n); GList *gl;
	for (gl = nc ? nc->channels : NULL; gl; gl = gl->next) { struct channel_config *h = gl->data; if (!strcmp(h->name, name) && h->key && !strcmp(h->key, key)) return 1; }
	return 0;
}
/* what there is now must be usable, and contain everything that is in both */
static void usable(int b, int k)
{
	struct ctrlproxy_config *c;
	each(&old); each(&new); each(&now);
	lay(&now, snap);
	if (!get(&now, "config") && !get(&old, "config")) return;          /* the very first one */
	c = load_configuration(snap, TRUE);
	if (!c) mc_fail("what is left cannot be loaded");
	if (b == 1) {
		if (k != 3 && !has(c, "one", k == 6 ? "renamed" : NULL)) mc_fail("network one is lost");
		if (!has(c, "two", NULL)) mc_fail("network two is lost");
		if (k != 3 && k != 6 && k != 8 && !haskey(c, "one", "#x", "kx")) mc_fail("the key of #x is lost");
	}
	if (b == 2) {
		if (k != 3 && !has(c, "one", k == 6 ? "renamed" : NULL)) mc_fail("network one is lost");
		if (k != 4 && !has(c, "filed", k == 5 ? "moved" : NULL)) mc_fail("network filed is lost");
		if (!has(c, "second", NULL)) mc_fail("network second is lost");
		if (k != 4 && k != 5 && !haskey(c, "filed", "#old", "ok")) mc_fail("the key of #old is lost");
		if (k == 5 && net(c, "moved") && !net(c, "filed") && !haskey(c, "moved", "#old", "ok")) mc_fail("the key of #old is lost");
	}
	{ GList *gl, *l = NULL; struct global *g = W; struct ctrlproxy_config *keep = W->config; GList *kn = W->nickserv_nicks; int n = 0;
	  g->config = c; g->nickserv_nicks = NULL; nickserv_load(g);
	  for (gl = g->nickserv_nicks; gl; gl = gl->next) { struct keyfile_entry *e = gl->data; n += !strcmp(e->nick, "me") && (!strcmp(e->pass, "secret")); }
	  (void)l;
	  if (b == 1 && k != 8 && n != 1) mc_fail("a password is lost");
	  g->config = keep; g->nickserv_nicks = kn; }
	free_config(c);
}
static void run(void)
{
	int b, k, i;
	struct ctrlproxy_config *dflt;
	b = mc_choose_l(NBASE, "files");
	k = mc_choose_l(NCHANGE, "change");
	w_begin();
	fsi_reset(); fsi_root = w_dir;
	ndirty = armed = crashed = ops = half = 0;
	dflt = W->config;
	snprintf(dir, sizeof(dir), "%s/conf", w_dir); snprintf(snap, sizeof(snap), "%s/snap", w_dir);
	for (i = 0; i < now.n; i++) { g_free(now.f[i].name); g_free(now.f[i].text); }
	now.n = 0;
	for (i = 0; BASE[b][i].name; i++) { now.f[i].name = g_strdup(BASE[b][i].name); now.f[i].text = g_strdup(BASE[b][i].text); now.n++; }
	lay(&now, dir);
	C = NULL;
	/* how it should be */
	if (b == 0) { C = W->config = init_configuration(); C->config_dir = g_strdup(dir); C->keyfile = g_key_file_new(); } else load();
	if (!change(b, k)) { if (b == 0) { C = NULL; } unload(); W->config = dflt; w_end(); return; }
	take(&old);
	save();
	take(&new);
	unload();
	/* the same again, with what goes wrong */
	lay(&old, dir);
	if (b == 0) { C = W->config = init_configuration(); C->config_dir = g_strdup(dir); C->keyfile = g_key_file_new(); } else load();
	change(b, k);
	mc_trace("save");
	faults = NFAULTS; armed = 1;
	fsi_pick = pick;
	save();
	fsi_pick = NULL;
	if (half) { half = 0; crash(0); }
	mc_outcome(ops);
	if (crashed) {
		int i;
		usable(b, k); mc_cover("interrupted");
		/* start from what is left, and save that */
		unload();
		if (get(&now, "config")) {
			struct set copy = now;
			memset(&now, 0, sizeof(now));
			lay(&copy, dir);
			load();
			mc_trace("start and save again");
			
			save();
			unload();
			take(&now);
			for (i = 0; i < copy.n; i++) if (!special(copy.f[i].name) && strcmp(copy.f[i].name, "keys") && !get(&now, copy.f[i].name)) mc_fail("after starting and saving again the file %s is lost", copy.f[i].name);
			old = now; new = now;
			usable(b, k);
			memset(&old, 0, sizeof(old)); memset(&new, 0, sizeof(new));
			mc_cover("started after an interruption");
		}
	}
	else {
		int failed = faults != (NFAULTS);
		take(&now);
		if (!failed) {
			mc_cover("saved");
			old.n = 0;
			each(&new); each(&now);
			for (i = 0; i < now.n; i++) if (strcmp(now.f[i].name, "networks/backup~") && special(now.f[i].name)) mc_fail("%s is left behind", now.f[i].name);
		} else {
			usable(b, k);
			/* and with room on the disk again */
			armed = 0; faults = 0;
			mc_trace("save again");
			save();
			take(&now);
			for (i = 0; i < new.n; i++) { const char *c = get(&now, new.f[i].name); if (!c || !same(c, new.f[i].text)) { mc_trace("--- should become %s\n--- is %s", mc_esc(new.f[i].text), c ? mc_esc(c) : "absent"); mc_fail("saving again does not bring the file %s up to date", new.f[i].name); } }
			for (i = 0; i < now.n; i++) if (!get(&new, now.f[i].name) && !special(now.f[i].name)) mc_fail("saving again leaves the file %s", now.f[i].name);
			mc_cover("failed");
		}
	}
	if (fsi_open_fds()) mc_fail("%d files stay open", fsi_open_fds());
	unload();
	W->config = dflt;
	fsi_reset();
	w_end();
}
static void init(void) { w_init(); init_admin(); }
static const struct mc_check chk = { "P25", init, run, 30, 20,
	"Three sets of configuration files (none, everything in the main files, networks in files of their own) and eleven changes; while the result is saved, at every open, write, fsync, rename, unlink and mkdir: the operation fails, the disk is full from then on, the process ends before it or halfway through a write, or power is lost together with whatever was not flushed (two of these failures; thorough: three). Afterwards every file is the old or the new one, what is there can be loaded and has every network, key and password that is in both, and saving again completes" };
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
