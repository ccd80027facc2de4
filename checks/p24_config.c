/* P24: what is saved is what is loaded again. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "settings.h"
#include "admin.h"
#include <ftw.h>
#include <dirent.h>
#ifdef MEANING
#define PART 4
#else
#define PART mc_choose_l(4, "part")
#endif
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);
gboolean process_cmd(admin_handle h, const char *cmd);
void __wrap_log_custom_load(struct log_file_config *d) {}
gpointer __wrap_ssl_create_server_credentials(const char *c, GKeyFile *f, const char *g) { return NULL; }

static struct ctrlproxy_config *C;
static char dir[256];

/* ---- the configuration in effect, as text ---- */
static GString *D;
static void s_(const char *n, const char *v) { g_string_append_printf(D, "%s=%s%s%s\n", n, v ? "'" : "", v ? v : "unset", v ? "'" : ""); }
static void i_(const char *n, long v) { g_string_append_printf(D, "%s=%ld\n", n, v); }
static int bystr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void lines(GPtrArray *a)
{
	unsigned i;
	qsort(a->pdata, a->len, sizeof(char *), bystr);
	for (i = 0; i < a->len; i++) g_string_append(D, a->pdata[i]);
	g_ptr_array_free(a, TRUE);
}
static char *dump(struct ctrlproxy_config *c)
{
	GList *gl, *g2;
	GPtrArray *a;
	GString *all = D = g_string_new(NULL);
	struct listener_config *dl = NULL;
	s_("admin-user", c->admin_user); s_("charset", c->client_charset); s_("replication", c->replication);
	s_("motd", c->motd_file ? c->motd_file : ""); s_("nick", c->default_nick); s_("username", c->default_username); s_("fullname", c->default_realname);
	i_("offset", c->report_time_offset); i_("time", c->report_time); i_("who", c->cache.max_who_age); i_("autosave", !!c->autosave); i_("admin-log", !!c->admin_log);
	i_("learn-nickserv", !!c->learn_nickserv); i_("learn-network", !!c->learn_network_name); i_("implicit", !!c->create_implicit);
	i_("auto", !!c->auto_listener); i_("autoport", c->listener_autoport);
	i_("away", !!c->auto_away.enabled); s_("away-msg", c->auto_away.message); s_("away-nick", c->auto_away.nick); i_("away-limit", c->auto_away.client_limit); i_("away-time", c->auto_away.max_idle_time);
	if (!c->log_file) s_("log", NULL);
	else {
		struct log_file_config *l = c->log_file;
		i_("irssi", l->is_irssi); s_("file", l->logfilename); s_("join", l->join); s_("part", l->part); s_("topic", l->topic); s_("notopic", l->notopic); s_("msg", l->msg); s_("action", l->action); s_("kick", l->kick); s_("mode", l->mode); s_("quit", l->quit); s_("notice", l->notice); s_("nickchange", l->nickchange);
	}
	a = g_ptr_array_new();
	for (gl = c->listeners; gl; gl = gl->next) {
		struct listener_config *l = gl->data;
		D = g_string_new("listener\n");
		i_(" default", !!l->is_default); s_(" port", l->port); s_(" address", l->address); s_(" network", l->network); i_(" ssl", !!l->ssl);
		s_(" password", l->password ? l->password : l->is_default ? c->password : NULL);
		for (g2 = l->allow_rules; g2; g2 = g2->next) { struct allow_rule *r = g2->data; s_(" user", r->username); s_(" with", r->password); }
		if (l->is_default) dl = l;
		g_ptr_array_add(a, g_string_free(D, FALSE));
	}
	D = all; lines(a);
	s_("password", dl && dl->password ? dl->password : c->password);
	a = g_ptr_array_new();
	for (gl = c->networks; gl; gl = gl->next) {
		struct network_config *n = gl->data;
		GPtrArray *b;
		int k;
		if (n->implicit) continue;
		D = g_string_new(NULL);
		s_("network", n->name); s_(" nick", n->nick); s_(" fullname", n->fullname); s_(" username", n->username); s_(" password", n->password);
		i_(" connect", !!n->autoconnect); i_(" ignore", !!n->ignore_first_nick); i_(" queue", n->queue_speed); i_(" interval", (int)n->reconnect_interval); i_(" type", n->type);
		for (k = 0; n->autocmd && n->autocmd[k]; k++) s_(" cmd", n->autocmd[k]);
		if (n->type == NETWORK_TCP) {
			s_(" bind", n->type_settings.tcp.default_bind_address);
			for (g2 = n->type_settings.tcp.servers; g2; g2 = g2->next) { struct tcp_server_config *t = g2->data; s_(" host", t->host); s_("  port", t->port); i_("  ssl", !!t->ssl); s_("  password", t->password); s_("  bind", t->bind_address); }
		} else if (n->type == NETWORK_PROGRAM) s_(" program", n->type_settings.program_location);
		else if (n->type == NETWORK_VIRTUAL) s_(" virtual", n->type_settings.virtual_name);
		{ GString *nd = D; b = g_ptr_array_new();
		for (g2 = n->channels; g2; g2 = g2->next) { struct channel_config *h = g2->data; if (!h->key && !h->autojoin) continue; D = g_string_new(NULL); s_(" channel", h->name); s_("  key", h->key); i_("  join", !!h->autojoin); g_ptr_array_add(b, g_string_free(D, FALSE)); }
		D = nd; lines(b); }
		g_ptr_array_add(a, g_string_free(D, FALSE));
	}
	D = all; lines(a);
	return g_string_free(D, FALSE);
}
/* ---- the files ---- */
static GString *F;
static void lines_sorted(GPtrArray *a) { qsort(a->pdata, a->len, sizeof(char *), bystr); g_ptr_array_add(a, NULL); }
static int onefile(const char *p, const struct stat *st, int f, struct FTW *b)
{
	char *t; gsize n;
	if (f == FTW_F && g_file_get_contents(p, &t, &n, NULL)) { /* blank lines mean nothing, nor does the order of groups, entries and keys */
		GPtrArray *a = g_ptr_array_new();
		char **v = g_strsplit(t, "\n", 0), *grp = g_strdup("");
		gsize i;
		for (i = 0; v[i]; i++) {
			if (!v[i][0]) continue;
			if (v[i][0] == '[') { g_free(grp); grp = g_strdup(v[i]); }
			g_ptr_array_add(a, v[i][0] == '[' ? g_strdup(v[i]) : g_strdup_printf("%s %s", grp, v[i]));
		}
		lines_sorted(a);
		g_strfreev(v); g_free(t); g_free(grp);
		t = g_strjoinv("\n", (char **)a->pdata);
		g_strfreev((char **)g_ptr_array_free(a, FALSE));
		n = strlen(t);
		g_string_append_printf(F, "== %s\n", p + strlen(dir));
		g_string_append(F, t); g_string_append_c(F, '\n');
		g_free(t);
	}
	return 0;
}
static char *files(void)
{
	GPtrArray *a = g_ptr_array_new();
	char **v; int i;
	GString *r = g_string_new(NULL);
	F = g_string_new(NULL);
	nftw(dir, onefile, 10, FTW_PHYS);
	v = g_strsplit(F->str, "== /", 0);
	for (i = 0; v[i]; i++) g_ptr_array_add(a, v[i]);
	qsort(a->pdata, a->len, sizeof(char *), bystr);
	for (i = 0; i < (int)a->len; i++) g_string_append(r, a->pdata[i]);
	g_ptr_array_free(a, TRUE); g_strfreev(v); g_string_free(F, TRUE);
	return g_string_free(r, FALSE);
}
static void differ(const char *what, const char *a, const char *b)
{
	char **x = g_strsplit(a, "\n", 0), **y = g_strsplit(b, "\n", 0);
	int i;
	for (i = 0; x[i] && y[i] && !strcmp(x[i], y[i]); i++);
	mc_trace("--- before\n%s\n--- after\n%s\n--- files\n%s", mc_esc(a), mc_esc(b), mc_esc(files()));
	mc_fail("%s: %s has become %s", what, x[i] ? mc_esc(x[i]) : "nothing", y[i] ? mc_esc(y[i]) : "nothing");
}
/* ---- doing it ---- */
static void save(void)
{
	char *a, *b;
	mc_trace("save"); mc_step();
	save_configuration(C, dir);
	a = files();
	save_configuration(C, dir);
	b = files();
	if (strcmp(a, b)) differ("saving twice gives other files", a, b);
	g_free(a); g_free(b);
}
static void unload(void)
{
	while (W->networks) { struct irc_network *n = W->networks->data; disconnect_network(n); unload_network(n); }
}
static void load(void)
{
	mc_trace("load"); mc_step();
	unload();
	if (C) free_config(C);
	C = W->config = load_configuration(dir, TRUE);
	if (!C) mc_fail("what was saved cannot be loaded");
	load_networks(W, C);
}
static void check_cycle(void)
{
	char *a, *b;
	save();
	a = dump(C);
	load();
	b = dump(C);
	if (strcmp(a, b)) differ("after saving and loading", a, b);
	g_free(a);
	{ char *f1 = files(), *f2; save(); f2 = files(); if (strcmp(f1, f2)) differ("saving what was loaded gives other files", f1, f2); g_free(f1); g_free(f2); }
	mc_outcome(mc_hash_str(b, MC_H0));
	g_free(b);
}
static void out(struct admin_handle *h, const char *data) { mc_trace("  %s", data); }
static void admin(const char *fmt, ...)
{
	struct admin_handle h = { W, NULL, NULL, NULL, out };
	char b[300]; va_list ap;
	va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
	mc_trace("admin: %s", b); mc_step();
	process_cmd(&h, b);
}
static struct network_config *net(const char *name)
{
	GList *gl;
	for (gl = C->networks; gl; gl = gl->next) if (!strcmp(((struct network_config *)gl->data)->name, name)) return gl->data;
	return NULL;
}
static struct listener_config *dflt(void)
{
	GList *gl;
	for (gl = C->listeners; gl; gl = gl->next) if (((struct listener_config *)gl->data)->is_default) return gl->data;
	return NULL;
}
/* ---- the settings and their values ---- */
static const char *const STR[] = { NULL, "a", "x y", " lead", "trail ", "se;mi", "h#ash", "back\\slash \\s\\n", "tab\tx", "\xe9t\xe9", "\xc3\xbcn", "=eq", "[b]", "", ";", "true" };
#define NSTR ((int)(sizeof(STR)/sizeof(STR[0])))
static const int INT[] = { -1, 0, 1, 5, -7, 2147483647 };
#define NINT ((int)(sizeof(INT)/sizeof(INT[0])))
#define setstr(f, v) do { g_free(f); (f) = g_strdup(STR[v]); mc_trace("%s := %s", #f, STR[v] ? mc_esc(STR[v]) : "unset"); } while (0)
#define setint(f, v) do { (f) = INT[v]; mc_trace("%s := %d", #f, INT[v]); } while (0)
#define setbool(f, v) do { (f) = v; mc_trace("%s := %d", #f, v); } while (0)
static void add_server(struct network_config *n, const char *host, const char *port, int ssl, const char *pw, const char *bind)
{
	struct tcp_server_config *t = g_new0(struct tcp_server_config, 1);
	t->host = g_strdup(host); t->port = g_strdup(port); t->ssl = ssl; t->password = g_strdup(pw); t->bind_address = g_strdup(bind);
	n->type_settings.tcp.servers = g_list_append(n->type_settings.tcp.servers, t);
}
static void set_servers(struct network_config *n, int v)
{
	n->type_settings.tcp.servers = NULL;     /* (leaked; no connection uses them) */
	mc_trace("servers of %s := %d", n->name, v);
	switch (v) {
	case 0: break;
	case 1: add_server(n, "irc.a.org", "6667", 0, NULL, NULL); break;
	case 2: add_server(n, "irc.a.org", "6667", 0, "pw1", NULL); break;
	case 3: add_server(n, "irc.a.org", "6667", 0, "p;w 2", "10.0.0.1"); add_server(n, "irc.b.org", "7000", 0, NULL, "h"); break;
	case 4: add_server(n, "::1", "6667", 0, "v6pw", "::2"); break;
	case 5: add_server(n, "irc.a.org", "6697", 1, "spw", NULL); add_server(n, "irc.a.org", "6697", 0, "plain", NULL); break;
	case 6: add_server(n, "irc.a.org", "ircs-u", 0, NULL, "b"); break;
	case 7: add_server(n, "irc.b.org", "7000", 0, "bpw", NULL); break;
	}
}
#define NSRV 8
static void set_channels(struct network_config *n, int v)
{
	static const struct { int v; const char *name, *key; int join; } T[] = {
		{ 1, "#x", NULL, 1 }, { 2, "#x", "key", 1 }, { 3, "#x", "key", 0 }, { 4, "#x", NULL, 1 }, { 4, "#y", "k;2", 0 }, { 4, "&z", "k 3", 1 },
		{ 5, "#se;mi", "s", 1 }, { 5, "#\xe9t\xe9", "\xe9", 1 }, { 6, "#[b]", "b", 1 }, { 6, "+p", NULL, 1 }, { 7, "#y", NULL, 0 }, { 8, "!c", "k", 1 }, };
	unsigned i;
	n->channels = NULL;
	mc_trace("channels of %s := %d", n->name, v);
	for (i = 0; i < sizeof(T)/sizeof(T[0]); i++) if (T[i].v == v) {
		struct channel_config *c = g_new0(struct channel_config, 1);
		c->name = g_strdup(T[i].name); c->key = g_strdup(T[i].key); c->autojoin = T[i].join;
		n->channels = g_list_append(n->channels, c);
	}
}
#define NCHN 8
static void set_cmds(struct network_config *n, int v)
{
	static const char *const T[][3] = { { NULL }, { "MODE me +i", NULL }, { "PRIVMSG x :a;b", "JOIN #c", NULL }, { " lead ", "\xe9", NULL }, { "a\\b;", "", NULL } };
	int i;
	g_strfreev(n->autocmd);
	n->autocmd = v ? g_new0(char *, 3) : NULL;
	for (i = 0; v && i < 2; i++) n->autocmd[i] = g_strdup(T[v][i]);
	mc_trace("commands of %s := %d", n->name, v);
}
static void set_listeners(int v)
{
	static const struct { int v, dfl; const char *port, *addr, *pw, *net, *user, *upw; } T[] = {
		{ 1, 1, "6667", NULL, NULL, NULL, NULL, NULL }, { 2, 1, "6667", "127.0.0.1", "dpw", "one", NULL, NULL },
		{ 3, 0, "7000", NULL, "lpw", NULL, NULL, NULL }, { 4, 0, "7000", "::1", NULL, "one", NULL, NULL }, { 4, 0, "7001", "localhost", "x;y", NULL, "u", "p:q" },
		{ 5, 1, "1080", NULL, NULL, NULL, "u1", "p1" }, { 6, 0, "1080", NULL, NULL, NULL, "u;1", "p 1" }, { 6, 1, "6668", NULL, "dp2", NULL, NULL, NULL },
		{ 7, 0, "6667", NULL, NULL, NULL, "u1", NULL }, };
	unsigned i;
	C->listeners = NULL;
	mc_trace("listeners := %d", v);
	for (i = 0; i < sizeof(T)/sizeof(T[0]); i++) if (T[i].v == v) {
		struct listener_config *l = g_new0(struct listener_config, 1);
		l->is_default = T[i].dfl; l->port = g_strdup(T[i].port); l->address = g_strdup(T[i].addr); l->password = g_strdup(T[i].pw); l->network = g_strdup(T[i].net);
		if (T[i].user) { struct allow_rule *r = g_new0(struct allow_rule, 1); r->username = g_strdup(T[i].user); r->password = g_strdup(T[i].upw); l->allow_rules = g_list_append(NULL, r); }
		if (l->is_default && l->password) { g_free(C->password); C->password = g_strdup(l->password); }
		C->listeners = g_list_append(C->listeners, l);
	}
}
#define NLIS 8
/* number of values; v < 0 asks for it */
static int setting(int k, int v)
{
	struct network_config *n = net("one"), *m = net("two");
	if (v >= 0) mc_step();
	switch (k) {
	case 0: if (v < 0) return NSTR; setstr(C->admin_user, v); break;
	case 1: if (v < 0) return NSTR; setstr(C->client_charset, v); break;
	case 2: if (v < 0) return NSTR; setstr(C->replication, v); break;
	case 3: if (v < 0) return NSTR; setstr(C->motd_file, v); break;
	case 4: if (v < 0) return NSTR; setstr(C->default_nick, v); break;
	case 5: if (v < 0) return NSTR; setstr(C->default_username, v); break;
	case 6: if (v < 0) return NSTR; setstr(C->default_realname, v); break;
	case 7: if (v < 0) return NSTR; setstr(C->password, v); if (dflt()) { g_free(dflt()->password); dflt()->password = g_strdup(STR[v]); } break;
	case 8: if (v < 0) return NSTR; setstr(C->auto_away.message, v); break;
	case 9: if (v < 0) return NSTR; setstr(C->auto_away.nick, v); break;
	case 10: if (v < 0) return NINT; setint(C->report_time_offset, v); break;
	case 11: if (v < 0) return NINT; setint(C->cache.max_who_age, v); break;
	case 12: if (v < 0) return NINT; setint(C->auto_away.client_limit, v); break;
	case 13: if (v < 0) return NINT; setint(C->auto_away.max_idle_time, v); break;
	case 14: if (v < 0) return NINT; setint(C->listener_autoport, v); break;
	case 15: if (v < 0) return 2; setbool(C->autosave, v); break;
	case 16: if (v < 0) return 2; setbool(C->admin_log, v); break;
	case 17: if (v < 0) return 2; setbool(C->learn_nickserv, v); break;
	case 18: if (v < 0) return 2; setbool(C->learn_network_name, v); break;
	case 19: if (v < 0) return 2; setbool(C->create_implicit, v); break;
	case 20: if (v < 0) return 2; setbool(C->auto_listener, v); break;
	case 21: if (v < 0) return 2; setbool(C->auto_away.enabled, v); break;
	case 22: if (v < 0) return 3; C->report_time = v; mc_trace("report time := %d", v); break;
	case 23: if (v < 0) return NLIS; set_listeners(v); break;
	case 24: if (v < 0) return NSTR; setstr(n->nick, v); break;
	case 25: if (v < 0) return NSTR; setstr(n->username, v); break;
	case 26: if (v < 0) return NSTR; setstr(n->fullname, v); break;
	case 27: if (v < 0) return NSTR; setstr(n->type_settings.tcp.default_bind_address, v); break;
	case 28: if (v < 0) return NINT; setint(n->queue_speed, v); break;
	case 29: if (v < 0) return NINT; setint(n->reconnect_interval, v); break;
	case 30: if (v < 0) return 5; set_cmds(n, v); break;
	case 31: if (v < 0) return NSRV; set_servers(n, v); break;
	case 32: if (v < 0) return NCHN + 1; set_channels(n, v); break;
	case 33: if (v < 0) return 2; n->autoconnect = v; mc_trace("autoconnect one := %d", v); break;
	case 34: if (v < 0) return NSRV; set_servers(m, v); break;
	case 35: if (v < 0) return NCHN + 1; set_channels(m, v); break;
	case 36: if (v < 0) return 2; m->autoconnect = v; mc_trace("autoconnect two := %d", v); break;
	case 37: if (v < 0) return NSTR; setstr(m->nick, v); break;
	default: return -1;
	}
	return 0;
}
#define NSET 38
static void put(const char *name, const char *text)
{
	char *p = g_build_filename(dir, name, NULL);
	g_file_set_contents(p, text, -1, NULL);
	g_free(p);
}
static void start(const char *config)
{
	char *p;
	put("config", config);
	p = g_build_filename(dir, "networks", NULL);
	mkdir(p, 0700);
	g_free(p);
}
static const char *TEXT[] = {
	"", "# only this\n", "[one]\nservers=irc.a.org\n",
	"[global]\nautoconnect=one\n[one]\nservers=irc.a.org\n[irc.a.org]\n",
	"[global]\nlogging=custom\nlogfilename=/tmp/%N\nlog-format-join=%n joins\nlog-format-msg=<%n> %m\n",
	"[log-custom]\nlogfilename=/x/%c\njoin=%n\nmode=%p;%c\n[global]\n",
	"[global]\nlogging=irssi\nlogdir=/var/log\n", "[global]\nlogging=irssi\nlogfile=/var/log/%N\n", "[global]\nlogging=irssi\n", "[log-irssi]\nlogfile=/l\n[global]\n", "[log-irssi]\n[global]\n", "[global]\nlogging=none\n",
	"[global]\nport=6667\npassword=x\n[socks]\nport=1081\nallow=u:p;v:w;z\n", "[global]\n[socks]\nallow=u:p\n", "[global]\n[socks]\nallow=\n",
	"[global]\n[auto-away]\nmessage=gone\nnick=me_away\ntime=30\nonly_noclient=true\n", "[global]\n[auto-away]\nclient_limit=2\n",
	"[global]\nmax_who_age=30\nreport-time=true\nautosave=false\nclient-charset=iso8859-1\n", "[global]\nmax-who-age=5\nreport-time=false\nlistener-auto=true\nlistener-autoport=9000\nadmin-user=ctrl\n",
	"[global]\n[listener]\npassword=lp\nauto=true\nautoport=8000\n[admin]\nwithout_privmsg=false\nlog=false\n[client]\ncharset=utf8\n",
	"# comment\n[global]\nunknown=1\nautoconnect=admin;one;irc.z.org;irc://irc.y.org:7000\n[admin]\nvirtual=admin\n[one]\nservers=irc://irc.a.org:6667;ircs://irc.b.org:6697\npassword=npw\nignore_first_nick=true\nnick=me\nautojoin=#a;#b\n#keep this\nautocmd=A b;C d\n[irc://irc.a.org:6667]\npassword=sp\nssl=true\n",
	"[global]\nport=7000\nbind=::1\nssl=true\ndefault-network=one\ncertfile=/c\nkeyfile=/k\n[prog]\nprogram=/bin/prog -x\nqueue-speed=7\nreconnect-interval=0\n",
	"[global]\nautoconnect=irc.a.org\n[one]\nservers=irc.a.org\n[irc.a.org]\nservers=irc.c.org:6668\n[two]\nservers=irc.b.org:6667;irc://irc.a.org:6667\n[irc://irc.a.org:6667]\npassword=shared\n",
};
#define NTEXT ((int)(sizeof(TEXT)/sizeof(TEXT[0])))
static const char *NETFILE = "[global]\nservers=irc://irc.f.org:6667\nnick=filer\nautojoin=#f\n[irc://irc.f.org:6667]\npassword=fpw\n[#old]\nkey=ok\nautojoin=true\n[#oldkey]\nkey=k2\n";
static const char *EMPTY = "[global]\n[one]\nservers=irc://irc.a.org:6667\n[two]\n";
/* Lines written by hand and what they mean: g goes to [global], t is text of its own after it, x is what has to be in effect.
 * Two fragments with a letter in common are about the same setting. */
static const struct { const char *about, *g, *t, *x, *not; } MEAN[] = {
	{ "", "", "", "offset=0\ntime=1\nwho=0\nautosave=1\nadmin-log=1\nlearn-nickserv=1\nlearn-network=1\nimplicit=1\nauto=0\nautoport=0\naway=0\naway-msg=unset\naway-nick=unset\naway-limit=-1\naway-time=-1\nlog=unset\n" },
	{ "", "", "", "admin-user=unset\ncharset=unset\nreplication=unset\nmotd='motd'\nnick=unset\nusername=unset\nfullname=unset\noffset=0\n" },
	{ "t", "report-time=never\n", "", "\ntime=1\n" }, { "t", "report-time=false\n", "", "\ntime=1\n" }, { "t", "report-time=always\n", "", "\ntime=0\n" }, { "t", "report-time=replication\n", "", "\ntime=2\n" }, { "t", "report-time = true\n", "", "\ntime=2\n" }, { "t", "report-time=Always\n", "", "\ntime=0\n" },
	{ "o", "report-time-offset=-60\n", "", "\noffset=-60\n" }, { "o", "report-time-offset=0\n", "", "\noffset=0\n" },
	{ "w", "max_who_age=30\n", "", "\nwho=30\n" }, { "w", "max-who-age=5\n", "", "\nwho=5\n" },
	{ "s", "autosave=false\n", "", "\nautosave=0\n" }, { "s", "autosave=true\n", "", "\nautosave=1\n" },
	{ "c", "client-charset=iso8859-1\n", "", "\ncharset='iso8859-1'\n" }, { "c", "default-client-charset=latin2\n", "", "\ncharset='latin2'\n" }, { "c", "", "[client]\ncharset=utf8\n", "\ncharset='utf8'\n" },
	{ "m", "motd-file=/m/otd\n", "", "\nmotd='/m/otd'\n" }, { "m", "motd-file=\n", "", "\nmotd=''\n" },
	{ "n", "default-nick=dn\n", "", "\nnick='dn'\n" }, { "u", "default-username=du\n", "", "\nusername='du'\n" }, { "f", "default-fullname=D F\n", "", "\nfullname='D F'\n" },
	{ "r", "replication=highlight\n", "", "\nreplication='highlight'\n" },
	{ "k", "learn-nickserv=false\n", "", "\nlearn-nickserv=0\n" }, { "k", "learn-nickserv=true\n", "", "\nlearn-nickserv=1\n" },
	{ "l", "learn-network-name=false\n", "", "\nlearn-network=0\n" }, { "l", "learn-network-name=true\n", "", "\nlearn-network=1\n" },
	{ "i", "create-implicit=false\n", "", "\nimplicit=0\n" }, { "i", "create-implicit=true\n", "", "\nimplicit=1\n" },
	{ "a", "admin-user=ctrl\n", "", "admin-user='ctrl'\n" }, { "a", "", "[admin]\nwithout_privmsg=false\n", "admin-user='ctrlproxy'\n" }, { "a", "", "[admin]\nwithout_privmsg=true\n", "admin-user=unset\n" }, { "a", "admin-user=mine\n", "[admin]\nwithout_privmsg=true\n", "admin-user='mine'\n" }, { "a", "admin-user=mine\n", "[admin]\nwithout_privmsg=false\n", "admin-user='mine'\n" },
	{ "ag", "", "[admin]\nlog=false\n", "\nadmin-log=0\n" }, { "ag", "", "[admin]\nlog=true\n", "\nadmin-log=1\n" }, { "g", "admin-log=false\n", "", "\nadmin-log=0\n" }, { "g", "admin-log=true\n", "", "\nadmin-log=1\n" },
	{ "P", "listener-auto=true\nlistener-autoport=9000\n", "", "\nauto=1\nautoport=9000\n" }, { "P", "listener-auto=false\n", "", "\nauto=0\n" }, { "Pp", "", "[listener]\nauto=true\nautoport=8000\npassword=lp\n", "\nauto=1\nautoport=8000\n" }, { "Pp", "", "[listener]\npassword=lp\n", "\npassword='lp'\n" },
	{ "A", "", "[auto-away]\nmessage=gone\nnick=me_away\ntime=30\nonly_noclient=true\n", "\naway=1\naway-msg='gone'\naway-nick='me_away'\naway-limit=0\naway-time=30\n" },
	{ "A", "", "[auto-away]\nonly_noclient=false\n", "\naway=1\naway-msg=unset\naway-nick=unset\naway-limit=-1\naway-time=-1\n" }, { "A", "", "[auto-away]\nclient_limit=2\n", "\naway=1\naway-msg=unset\naway-nick=unset\naway-limit=2\naway-time=-1\n" }, { "A", "", "[auto-away]\n", "\naway=1\naway-msg=unset\naway-nick=unset\naway-limit=-1\naway-time=-1\n" },
	{ "A", "", "[auto-away]\nclient_limit=3\nonly_noclient=true\n", "\naway-limit=3\n" },
	{ "A", "auto-away-enable=true\nauto-away-message=I'm away\nauto-away-time=300\n", "", "\naway=1\naway-msg='I'm away'\naway-nick=unset\naway-limit=-1\naway-time=300\n" }, { "A", "auto-away-enable=false\nauto-away-nick=an\nauto-away-client-limit=0\n", "", "\naway=0\naway-msg=unset\naway-nick='an'\naway-limit=0\naway-time=-1\n" },
	{ "p", "port=6667\n", "", "listener\n default=1\n port='6667'\n address=unset\n network=unset\n ssl=0\n password=unset\n" },
	{ "p", "port=6667\npassword=pw\nbind=::1\ndefault-network=one\nallow=u:p:q;v:w;z\n", "", "listener\n default=1\n port='6667'\n address='::1'\n network='one'\n ssl=0\n password='pw'\n user='u'\n with='p:q'\n user='v'\n with='w'\n user='z'\n with=unset\n" },
	{ "p", "port=6697\nssl=true\n", "", "listener\n default=1\n port='6697'\n address=unset\n network=unset\n ssl=1\n password=unset\n" }, { "p", "port=6697\nssl=false\n", "", "listener\n default=1\n port='6697'\n address=unset\n network=unset\n ssl=0\n" },
	{ "p", "password=pw\n", "", "\npassword='pw'\n" },
	{ "pS", "port=1\n", "[socks]\nport=1081\nallow=u:p;v:w\n", "listener\n default=0\n port='1081'\n address=unset\n network=unset\n ssl=0\n password=unset\n user='u'\n with='p'\n user='v'\n with='w'\n" },
	{ "pS", "", "[socks]\nallow=u:p\n", "listener\n default=1\n port='1080'\n address=unset\n network=unset\n ssl=0\n password=unset\n user='u'\n with='p'\n" },
	{ "L", "logging=custom\nlogfilename=/tmp/%N\nlog-format-join=%n joins\nlog-format-part=P\nlog-format-topic=T\nlog-format-notopic=O\nlog-format-msg=<%n> %m\nlog-format-notice=N\nlog-format-action=A\nlog-format-kick=K\nlog-format-mode=M\nlog-format-quit=Q\nlog-format-nickchange=C\n", "",
	  "\nirssi=0\nfile='/tmp/%N'\njoin='%n joins'\npart='P'\ntopic='T'\nnotopic='O'\nmsg='<%n> %m'\naction='A'\nkick='K'\nmode='M'\nquit='Q'\nnotice='N'\nnickchange='C'\n" },
	{ "L", "", "[log-custom]\nlogfilename=/x/%c\njoin=%n\npart=P\ntopic=T\nnotopic=O\nmsg=m\nnotice=N\naction=A\nkick=K\nmode=M\nquit=Q\nnickchange=C\n",
	  "\nirssi=0\nfile='/x/%c'\njoin='%n'\npart='P'\ntopic='T'\nnotopic='O'\nmsg='m'\naction='A'\nkick='K'\nmode='M'\nquit='Q'\nnotice='N'\nnickchange='C'\n" },
	{ "L", "", "[log-custom]\nmsg=%m\n", "\nirssi=0\nfile=unset\njoin=unset\npart=unset\ntopic=unset\nnotopic=unset\nmsg='%m'\n" },
	{ "L", "logging=none\n", "", "\nlog=unset\n" }, { "L", "logging=irssi\nlogdir=/var/log\n", "", "\nirssi=1\nfile='/var/log/%N/%@'\n" }, { "L", "logging=irssi\nlogfile=/var/log/%N\n", "", "\nirssi=1\nfile='/var/log/%N'\n" }, { "L", "logging=irssi\n", "", "\nirssi=1\nfile='DIR/log_irssi/%N/%@'\n" }, { "L", "", "[log-irssi]\nlogfile=/l\n", "\nirssi=1\nfile='/l/%N/%@'\n" }, { "L", "", "[log-irssi]\n", "\nirssi=1\nfile='DIR/log_irssi/%N/%@'\n" },
	{ "1", "", "[one]\n", "network='one'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=0\n ignore=0\n queue=0\n interval=-1\n type=0\n bind=unset\nEND" },
	{ "1x", "autoconnect=one\n", "[one]\nservers=irc.a.org\n", "network='one'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=1\n ignore=0\n queue=0\n interval=-1\n type=0\n bind=unset\n host='irc.a.org'\n  port='6667'\n  ssl=0\n  password=unset\n  bind=unset\nEND" },
	{ "1x", "autoconnect=ONE;two\n", "[one]\n[two]\n", "network='two'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=1\n" }, { "1x", "autoconnect=ONE;two\n", "[one]\n[two]\n", "network='one'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=1\n" },
	{ "1x", "autoconnect=irc.b.org\n", "[one]\nservers=irc.a.org;irc.b.org\n", "network='one'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=1\n" },
	{ "1x", "autoconnect=irc.c.org:7000\n", "", "network='irc.c.org:7000'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=1\n ignore=0\n queue=0\n interval=-1\n type=0\n bind=unset\n host='irc.c.org'\n  port='7000'\n  ssl=0\n  password=unset\n  bind=unset\nEND" },
	{ "1", "", "[one]\nservers=irc://irc.a.org:6668;ircs://irc.b.org;irc.c.org:7;irc.d.org\npassword=npw\nignore_first_nick=true\nnick=me\nfullname=Me Too\nusername=mu\nautojoin=#a;#b;&c\nautocmd=A b;C d\nbind=10.1.1.1\nqueue-speed=3\nreconnect-interval=60\n[irc://irc.a.org:6668]\npassword=sp\nbind=h\n[irc://irc.c.org:7]\nssl=true\n[irc.d.org]\npassword=dp\n",
	  "network='one'\n nick='me'\n fullname='Me Too'\n username='mu'\n password='npw'\n connect=0\n ignore=1\n queue=3\n interval=60\n type=0\n cmd='A b'\n cmd='C d'\n bind='10.1.1.1'\n host='irc.a.org'\n  port='6668'\n  ssl=0\n  password='sp'\n  bind='h'\n host='irc.b.org'\n  port='994'\n  ssl=1\n  password=unset\n  bind=unset\n host='irc.c.org'\n  port='7'\n  ssl=0\n  password=unset\n  bind=unset\n host='irc.d.org'\n  port='6667'\n  ssl=0\n  password='dp'\n  bind=unset\n channel='#a'\n  key=unset\n  join=1\n channel='#b'\n  key=unset\n  join=1\n channel='&c'\n  key=unset\n  join=1\nEND" },
	{ "1", "", "[one]\nignore_first_nick=false\nreconnect-interval=0\n", "network='one'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=0\n ignore=0\n queue=0\n interval=0\n type=0\n" },
	{ "&", "", "[&old]\nkey=x\n", NULL, "network='&old'" }, { "#", "", "[#old]\nkey=x\n", NULL, "network='#old'" }, { "/", "", "[irc://irc.z.org]\npassword=x\n", NULL, "network='irc:" }, { "/", "", "[IRCS://irc.z.org:7]\npassword=x\n", NULL, "network='IRCS:" },
	{ "2", "", "[prog]\nprogram=/bin/prog -x\n", "network='prog'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=0\n ignore=0\n queue=0\n interval=-1\n type=1\n program='/bin/prog -x'\n" },
	{ "a", "", "[admin]\nvirtual=admin\n", "network='admin'\n nick=unset\n fullname=unset\n username=unset\n password=unset\n connect=0\n ignore=0\n queue=0\n interval=-1\n type=2\n virtual='admin'\n" },
};
#define NMEAN ((int)(sizeof(MEAN)/sizeof(MEAN[0])))
/* the same for the other files */
static const struct { const char *name, *text, *x, *not; } FILES[] = {
	{ "listener", "[7777]\npassword=l\nssl=false\n", "listener\n default=0\n port='7777'\n address=unset\n network=unset\n ssl=0\n password='l'\n" },
	{ "listener", "[::1:7778]\nnetwork=one\nallow=a:b\n", "listener\n default=0\n port='7778'\n address='::1'\n network='one'\n ssl=0\n password=unset\n user='a'\n with='b'\n" },
	{ "listener", "[localhost:ircd]\nssl=true\n[80]\n", "listener\n default=0\n port='ircd'\n address='localhost'\n network=unset\n ssl=1\n" },
	{ "listener", "[localhost:ircd]\nssl=true\n[80]\n", "listener\n default=0\n port='80'\n address=unset\n network=unset\n ssl=0\n" },
	{ "networks/filed", "[global]\nservers=irc://irc.f.org:6667\nnick=filer\nautojoin=#f\n[irc://irc.f.org:6667]\npassword=fpw\n[#old]\nkey=ok\nautojoin=true\n[&amp]\nkey=k2\n[+no]\nautojoin=false\n",
	  "network='filed'\n nick='filer'\n fullname=unset\n username=unset\n password=unset\n connect=0\n ignore=0\n queue=0\n interval=-1\n type=0\n bind=unset\n host='irc.f.org'\n  port='6667'\n  ssl=0\n  password='fpw'\n  bind=unset\n channel='#f'\n  key=unset\n  join=1\n channel='#old'\n  key='ok'\n  join=1\n channel='&amp'\n  key='k2'\n  join=0\nEND" },
	{ "networks/.hidden", "[global]\n", NULL, "network='.hidden'" }, { "networks/backup~", "[global]\n", NULL, "network='backup~'" }, { "networks/x~y", "[global]\n", "network='x~y'\n", NULL },
	{ "keys", "; #no\tkey\n#a\tka\tone\n", " channel='#a'\n  key='ka'\n", "#no" }, { "keys", "#b\tkb\n", " channel='#b'\n  key='kb'\n" }, { "keys", "#c\tkc\t*\n#d\tkd\tother\n", " channel='#c'\n  key='kc'\n", "#d" }, { "keys", "#e\tke\tONE\nbad line\n#f\tkf\tone\n", " channel='#e'\n  key='ke'\n  join=0\n channel='#f'\n  key='kf'\n" },
};
#define NFILES ((int)(sizeof(FILES)/sizeof(FILES[0])))
static void expect(const char *what, const char *x, const char *not)
{
	char *d0 = dump(C), **v, *d;
	v = g_strsplit(d0, dir, 0); d = g_strjoinv("DIR", v); g_strfreev(v); g_free(d0);
	v = g_strsplit(d, "\nnetwork=", 0); d0 = g_strjoinv("\nEND\nnetwork=", v); g_strfreev(v); g_free(d); d = g_strconcat(d0, "END", NULL); g_free(d0);
	if (x && !strstr(d, x)) {
		mc_trace("--- in effect\n%s", mc_esc(d));
		mc_fail("%s: loaded does not mean %s", mc_esc(what), mc_esc(x));
	}
	if (not && strstr(d, not)) mc_fail("%s: there is %s", mc_esc(what), not);
	mc_outcome(mc_hash_str(d, MC_H0));
	g_free(d);
}
static int compatible(int i, int j) { return i == j || (MEAN[i].about[0] && MEAN[j].about[0] && !strpbrk(MEAN[i].about, MEAN[j].about)); }
static void meaning(void)
{
	int i, j, cyc, f, n, m[NMEAN];
	char *t;
	f = mc_choose_l(NFILES + 1, "file");
	i = mc_choose_l(NMEAN, "lines");
	if (f && strchr(MEAN[i].about, '1')) f = 0;
	for (j = i, n = 0; j < NMEAN; j++) if (compatible(i, j)) m[n++] = j;
	j = m[mc_choose_l(f && !mc_tier ? 1 : n, "other lines")];
	cyc = mc_choose_l(2, "saved before");
	t = g_strconcat("[global]\n", MEAN[i].g, j != i ? MEAN[j].g : "", MEAN[i].t, j != i ? MEAN[j].t : "", f ? "[one]\n" : "", NULL);
	mc_trace("config: %s", mc_esc(t)); mc_step();
	start(t);
	g_free(t);
	if (f) { mc_trace("%s: %s", FILES[f - 1].name, mc_esc(FILES[f - 1].text)); put(FILES[f - 1].name, FILES[f - 1].text); }
	load();
	if (cyc) check_cycle();
	expect(MEAN[i].g[0] ? MEAN[i].g : MEAN[i].t, MEAN[i].x, MEAN[i].not);
	if (j != i && MEAN[j].about[0]) expect(MEAN[j].g[0] ? MEAN[j].g : MEAN[j].t, MEAN[j].x, MEAN[j].not);
	if (f) expect(FILES[f - 1].text, FILES[f - 1].x, FILES[f - 1].not);
	mc_cover("lines mean what they say");
}
static void run(void)
{
	int part, k, k2, i, depth, n;
	part = PART;
	w_begin();
	snprintf(dir, sizeof(dir), "%s", w_dir);
	C = NULL;
	switch (part) {
	case 0:                                  /* one setting through three values */
		k = mc_choose_l(NSET, "setting");
		start(EMPTY); load();
		for (i = 0; i < 3; i++) {
			n = setting(k, -1);
			setting(k, mc_choose_l(i == 2 && n > 5 && k < 23 && !mc_tier ? 5 : n, "value"));
			if (i < 2 && mc_choose_l(2, "save only")) save();
			else check_cycle();
		}
		break;
	case 1: {                                /* two settings, then one of them again */
		int a, b, big;
		k = mc_choose_l(NSET, "setting");
		k2 = mc_choose_l(NSET, "other setting");
		start(EMPTY); load();
		big = mc_tier || (k >= 23 && k2 >= 23);
		a = setting(k, -1); b = setting(k2, -1);
		setting(k, mc_choose_l(big ? a : a > 3 ? 3 : a, "value"));
		setting(k2, mc_choose_l(big ? b : b > 3 ? 3 : b, "other value"));
		check_cycle();
		setting(k, big && k < 30 && !mc_tier ? 0 : mc_choose_l(a > 3 && !mc_tier ? 3 : a, "new value"));
		check_cycle();
		break; }
	case 2:                                  /* networks coming, going and changing their names */
		start(EMPTY);
		put("networks/filed", NETFILE);
		load();
		depth = mc_tier ? 6 : 4;
		
		for (i = 0; i < depth; i++) {
			static const char *const ops[] = { "DELNETWORK one", "NETWORK RENAME one three", "NETWORK RENAME two one", "NETWORK RENAME three two", "ADDNETWORK one", "ADDNETWORK three", "DELNETWORK filed", "NETWORK RENAME filed three", "NETWORK RENAME one filed", "ADDNETWORK filed",
				"ADDSERVER one irc.a.org:6667 pwx", "ADDSERVER filed irc.f.org", "ADDNETWORK global", "ADDNETWORK [x]", "ADDNETWORK #c", "NETWORK RENAME one ../up", "NETWORK ADD irc://x", "ADDNETWORK auto-away", "NETWORK RENAME two x/y", NULL };
			for (n = 0; ops[n]; n++);
			k = mc_choose_l(n + 2, "operation");
			if (k < n) admin("%s", ops[k]);
			else if (k == n) check_cycle();
			else { struct network_config *nc = net("one") ? net("one") : net("three"); if (nc) { set_channels(nc, 2); nc->autoconnect = 1; } }
			{
				uint64_t d = MC_H0;
				char *t; GList *gl;
				t = dump(C); d = mc_hash_str(t, d); g_free(t);
				t = files(); d = mc_hash_str(t, d); g_free(t);
				for (gl = C->networks; gl; gl = gl->next) {
					struct network_config *nc = gl->data;
					d = mc_hash_str(nc->filename ? nc->filename + strlen(dir) : "-", mc_hash_str(nc->groupname ? nc->groupname : "-", mc_hash_str(nc->name, d)));
					{ gsize l; t = nc->keyfile ? g_key_file_to_data(nc->keyfile, &l, NULL) : NULL; d = mc_hash_str(t ? t : "-", d); g_free(t); }
				}
				if (mc_state(d, depth - i)) break;
			}
		}
		check_cycle();
		break;
	case 3:                                  /* files written by hand, then a change */
		i = mc_choose_l(NTEXT, "configuration");
		start(TEXT[i]);
		if (mc_choose_l(2, "more files")) {
			put("networks/filed", NETFILE); put("networks/.hidden", "x"); put("networks/backup~", "y");
			put("keys", "; comment\n#a\tka\tone\n#k\tkk\tfiled\n#all\tka\n#star\tks\t*\n");
			put("listener", "[7777]\npassword=l\nssl=false\n[::1:7778]\nnetwork=one\n");
		}
		load();
		check_cycle();
		if (!net("one") || !net("two")) { k = mc_choose_l(24, "setting"); }
		else k = mc_choose_l(NSET, "setting");
		n = setting(k, -1);
		setting(k, mc_choose_l(n > 4 && !mc_tier ? 4 : n, "value"));
		check_cycle();
		break;
	case 4: meaning(); break;                /* lines written by hand mean what they say */
	}
	if (part == 2) mc_cover("networks changed");
	mc_cover("saved and loaded");
	unload();
	free_config(C);
	W->config = NULL;
	C = NULL;
	W->networks = NULL;
	w_end();
	W->config = init_configuration();
	W->config->keyfile = g_key_file_new();
	vt_reset();
}
static void init(void) { w_init(); init_admin(); }
#ifdef MEANING
static const struct mc_check chk = { "P35", init, run, 50, 20,
	"Every pair of some eighty settings written by hand in the main configuration file (in current and former syntax, and with the defaults of everything left out), and each kind of other file (listeners, networks, keys) with each of them, against what the documentation says they mean, both right after loading and after saving and loading again" };
#else
static const struct mc_check chk = { "P24", init, run, 50, 20,
	"Every setting of a network, server, channel, listener, log, away or global kind through every sequence of three of its values, with saves and loads in between; every pair of settings with values and a later change; every sequence of adding, deleting and renaming networks (kept in the main file and in files of their own) up to the depth; twenty handwritten configurations in current and former syntax followed by every change; after each save the loaded configuration is compared with the one in effect, and files of repeated saves with each other" };
#endif
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
