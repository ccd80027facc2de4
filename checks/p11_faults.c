/* P11: faults of the backlog's storage cost at most the backlog. */
#include "world.h"
#include "dump.h"
#include "fsi.h"
#include "linestack.h"
#include <errno.h>
#include <unistd.h>
#include <sys/stat.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static int faults, sticky, nfaults, ncalls, bucket;
static char stickywhat[20];
static int pick(const char *what, const char *path, size_t n)
{
	int k, a = FSI_OK;
	int wr = !strcmp(what, "write"), rd = !strcmp(what, "read");
	if (sticky && !strcmp(what, stickywhat)) return FSI_FAIL;
	if (!faults || !strcmp(what, "close") || !strcmp(what, "fsync")) return FSI_OK;
	/* the first fault: at every 16th call, starting with each (keeps the search tree broad) */
	if (ncalls++ % 16 != bucket && !nfaults) return FSI_OK;
	/* nothing | fails | (read/write) half or one byte | interrupted | end of file / and all further calls fail */
	k = mc_choose(wr ? 5 : rd ? 5 : 2);
	if (!k) return FSI_OK;
	faults--; nfaults++;
	fsi_errno = wr || !strcmp(what, "mkdir") || !strcmp(what, "open") ? ENOSPC : EIO;
	switch (k) {
	case 1: a = FSI_FAIL; break;
	case 2: a = FSI_SHORT; break;
	case 3: a = FSI_EINTR; break;
	case 4: if (rd) a = FSI_EOF; else { sticky = 1; strcpy(stickywhat, what); a = FSI_SHORT; } break;
	}
	mc_trace("fault: %s of %s (%d bytes) %s", what, path + strlen(w_dir), (int)n, a == FSI_FAIL ? "fails" : a == FSI_EINTR ? "is interrupted" : a == FSI_EOF ? "finds the end of the file" : sticky ? "is cut short, later ones fail" : "is cut short");
	return a;
}
static void arm(int n) { faults = n; fsi_pick = pick; }
static void disarm(void) { fsi_pick = NULL; sticky = 0; }

static const char *M[] = {
	":al!u@h JOIN #x", ":me!myuser@my.host PRIVMSG #x :one", ":al!u@h TOPIC #x :the topic",
	":al!u@h PRIVMSG #x :a longer text that is of some length", ":al!u@h NICK bob", ":bob!u@h PRIVMSG me :six" };
#define NM 6
static struct { char *raw; char *dump; } St[1100];
static int nst;
static struct irc_network_state *st;
static struct linestack_context *ls;

static void put(const char *raw)
{
	struct irc_line *l = irc_parse_line(raw);
	state_handle_data(st, l);
	mc_trace("store %s", raw);
	mc_step();
	if (linestack_insert_line(ls, l, FROM_SERVER, st)) { St[nst].raw = g_strdup(raw); St[nst].dump = state_dump(st); nst++; }
	else mc_trace("  (refused)");
	free_line(l);
}
static int pos, exact;
static gboolean on_line(struct irc_line *l, time_t t, void *u)
{
	char *s = irc_line_string(l);
	while (pos < nst && strcmp(St[pos].raw, s)) {
		if (exact) mc_fail("message %d %s is not returned, %s comes instead", pos, St[pos].raw, mc_esc(s));
		pos++;
	}
	if (pos >= nst) mc_fail("%s is returned, which was not stored (again)", mc_esc(s));
	pos++;
	g_free(s);
	return TRUE;
}
static int walk(int ex, int upto)
{
	gboolean r;
	int n;
	pos = 0; exact = ex;
	r = linestack_traverse(ls, NULL, NULL, on_line, NULL);
	n = pos;
	if (ex) {
		if (pos < upto) mc_fail("only %d of %d stored messages are returned", pos, upto);
	}
	mc_step();
	return r;
}
static void state(guint64 *m, int mustwork, int complete)
{
	struct irc_network_state *s = linestack_get_state(ls, m);
	char *g;
	int at = m ? (int)*m : nst;
	if (!s) { if (mustwork) mc_fail("the state at message %d can not be reconstructed", at); return; }
	g = state_dump(s);
	if (complete && at > 0 && strcmp(g, St[at - 1].dump)) mc_fail("the state at message %d is wrong: %s", at, mc_esc(dump_diff(St[at - 1].dump, g)));
	g_free(g);
	free_network_state(s);
	mc_step();
}
/* every call failing */
static void storage(void)
{
	char d[300];
	int i, phase, refused;
	phase = mc_choose_l(4, "phase");
	st = network_state_init("me", "myuser", "my.host");
	snprintf(d, sizeof(d), "%s/ls", w_dir);
	if (phase == 1) { char f[400]; mkdir(d, 0700); snprintf(f, sizeof(f), "%s/lines", d); { FILE *o = fopen(f, "w"); fputs("old contents that do not matter\n", o); fclose(o); } }
	if (phase <= 1) arm(mc_tier ? 2 : 1);
	ls = create_linestack(d, TRUE, st);
	if (phase == 1) disarm();
	if (!ls) { MC_ASSERT(nfaults, "the backlog can not be created"); mc_cover("no backlog"); goto out; }
	if (phase == 2) {
		/* around the periodic snapshot */
		struct irc_line *f = irc_parse_line(":me!myuser@my.host PRIVMSG n :f");
		for (i = 0; i < 998; i++) { if (!linestack_insert_line(ls, f, FROM_SERVER, st)) mc_fail("storing fails"); St[nst].raw = g_strdup(":me!myuser@my.host PRIVMSG n :f"); St[nst].dump = NULL; nst++; }
		free_line(f);
		arm(mc_tier ? 2 : 1);
	}
	put(":me!myuser@my.host JOIN #x");
	for (i = 0; i < NM; i++) put(M[i]);
	refused = phase == 2 ? 998 + NM + 1 - nst : NM + 1 - nst;
	if (phase == 3) arm(2);
	{
		int before = nfaults;
		gboolean r;
		guint64 mid = phase == 2 ? 1001 : 3;
		if (phase != 2) { r = walk(0, 0); if (nfaults == before && !sticky) MC_ASSERT(r, "a complete walk reports a problem"); }
		if (mid <= (guint64)nst) state(&mid, 0, 0);
		state(NULL, 0, 0);
		if (phase == 3 && nfaults == 0 && !sticky) MC_ASSERT(pos == nst, "messages are missing without a fault");
	}
	disarm();
	/* the disk works again: everything that was accepted is there */
	MC_ASSERT(walk(1, nst), "walking what was stored reports a problem");
	{
		guint64 k;
		for (k = phase == 2 ? 999 : 1; k <= (guint64)nst; k++) state(&k, 1, !refused);
		state(NULL, 1, !refused);
	}
	put(":al!u@h PRIVMSG #x :afterwards");
	MC_ASSERT(St[nst - 1].raw && !strcmp(St[nst - 1].raw, ":al!u@h PRIVMSG #x :afterwards"), "nothing is stored any more after a fault");
	MC_ASSERT(walk(1, nst), "walking what was stored reports a problem");
	if (refused) mc_cover("some messages were refused");
	free_linestack_context(ls);
out:
	MC_ASSERT(fsi_open_fds() == 0, "%d files stay open", fsi_open_fds());
	free_network_state(st);
	mc_outcome(MC_H0 + nst * 7 + nfaults * 1001 + phase);
	mc_cover("storage calls failing");
}
/* files cut off */
static void cut(void)
{
	char d[300], f[400];
	int which = mc_choose_l(3, "file"), i;
	struct stat sb;
	long size, at;
	struct { guint64 o; time_t t; guint64 s; } rec;
	st = network_state_init("me", "myuser", "my.host");
	snprintf(d, sizeof(d), "%s/ls", w_dir);
	ls = create_linestack(d, TRUE, st);
	put(":me!myuser@my.host JOIN #x");
	for (i = 0; i < NM; i++) put(M[i]);
	if (which == 2 && mc_choose_l(2, "with a channel") && !linestack_insert_state(ls, st)) mc_fail("no snapshot");
	snprintf(f, sizeof(f), "%s/%s", d, which == 0 ? "lines" : which == 1 ? "index" : "states/0");
	if (which == 2) { snprintf(f, sizeof(f), "%s/states/%d", d, NM + 1); if (stat(f, &sb)) snprintf(f, sizeof(f), "%s/states/0", d); }
	if (stat(f, &sb)) mc_fail("no file %s", f);
	size = sb.st_size;
	if (size < 2000 || mc_tier) at = mc_choose_l(size > 4000 ? 4000 : size, "cut at");
	else at = mc_choose_l(400, "cut at") * (size / 400) + mc_choose_l(2, "one more");
	if (size > 4000 && mc_tier) at = at * (size / 4000) + mc_choose_l(size / 4000, "fine");
	mc_trace("%s is cut at byte %ld of %ld", f + strlen(w_dir), at, size);
	if (truncate(f, at)) abort();
	if (which < 2) {
		int k, need = 0;
		gboolean r;
		pos = 0; exact = 0;
		r = linestack_traverse(ls, NULL, NULL, on_line, NULL);
		MC_ASSERT(!r, "the walk of a damaged backlog reports success");
		/* what is wholly there must be returned */
		if (which == 1) need = at / sizeof(rec);
		else { long o = 0; for (k = 0; k < nst; k++) { o += strlen(St[k].raw) + 2; if (o <= at) need = k + 1; } }
		MC_ASSERT(pos >= need, "only %d messages are returned although %d are undamaged", pos, need);
		mc_step();
		for (k = 1; k <= need; k++) { guint64 m = k; state(&m, 1, 1); }
		{ struct irc_network_state *s = linestack_get_state(ls, NULL); MC_ASSERT(!s, "a state is made up from a damaged backlog"); }
	} else {
		struct irc_network_state *s = linestack_get_state(ls, NULL);
		if (s) mc_fail("a state is made up from a damaged snapshot");
		MC_ASSERT(walk(1, nst), "walking what was stored reports a problem");
	}
	/* further messages can still be stored and found */
	{
		linestack_marker m = linestack_get_marker(ls);
		int n0 = nst;
		put(":al!u@h PRIVMSG #x :afterwards");
		if (nst > n0) { pos = n0; exact = 1; MC_ASSERT(linestack_traverse(ls, m, NULL, on_line, NULL) && pos == nst, "a message stored later is not found"); }
		linestack_free_marker(m);
	}
	free_linestack_context(ls);
	free_network_state(st);
	mc_outcome(MC_H0 + at * 4 + which);
	mc_cover("files cut off");
}
/* the proxy as a whole */
static void expect(struct wcl *c, const char *want)
{
	const char *g;
	while ((g = w_cl_next(c))) if (strstr(g, want)) return;
	mc_fail("%s is not forwarded", want);
}
static void whole(void)
{
	struct irc_network *n;
	struct mem *m;
	struct wcl *a, *b;
	static char *methods[] = { "none", "simple", "lastdisconnect", "highlight" };
	char *l;
	int got = 0;
	W->config->replication = methods[mc_choose_l(4, "replication")];
	n = w_network("net", "me");
	arm(mc_tier ? 2 : 1);
	m = w_up(n, "me", NULL);
	a = w_client(n, "me");
	w_cl_skip(a);
	w_srv(m, ":me!myuser@my.host JOIN #x"); expect(a, " JOIN #x");
	w_srv(m, ":srv.net 353 me = #x :me al");
	w_srv(m, ":al!u@h PRIVMSG #x :hello"); expect(a, ":al!u@h PRIVMSG #x :hello");
	w_srv_drain(m);
	w_cl(a, "PRIVMSG #x :mine");
	while ((l = w_srv_line(m))) { got |= !strcmp(l, "PRIVMSG #x :mine"); g_free(l); }
	MC_ASSERT(got, "a message of the user is not forwarded");
	w_srv(m, ":al!u@h PRIVMSG #x :answer"); expect(a, ":al!u@h PRIVMSG #x :answer");
	w_cl_leave(a);
	w_srv(m, ":al!u@h PRIVMSG #x :alone");
	b = w_client(n, "me");
	expect(b, " 001 me :Welcome to the ctrlproxy");
	w_cl_skip(b);
	w_srv(m, ":al!u@h PRIVMSG #x :again"); expect(b, ":al!u@h PRIVMSG #x :again");
	disarm();
	w_srv(m, ":al!u@h PRIVMSG #x :later"); expect(b, ":al!u@h PRIVMSG #x :later");
	mc_outcome(MC_H0 + nfaults);
	w_teardown();
	W->config->replication = NULL;
	mc_cover("forwarding");
}
static void run(void)
{
	int p;
	fsi_reset(); fsi_root = w_dir;
	w_begin();
	vt_reset();
	faults = sticky = nfaults = nst = ncalls = 0;
	p = mc_choose_l(3, "part");
	bucket = p == 1 ? 0 : mc_choose_l(16, "first fault at call modulo 16");
	if (p == 0) storage(); else if (p == 1) cut(); else { mc_isolate(); whole(); }
	fsi_reset();
	{ int i; for (i = 0; i < nst; i++) { g_free(St[i].raw); g_free(St[i].dump); } }
	w_end();
}
static void init(void) { w_init(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P11", .init = init, .run = run, .batch = 40, .hang_secs = 30,
		.rule = "every file system call (open, mkdir, write, read, seek, unlink) made while a backlog is created, 7 messages are stored (also across the periodic snapshot), walked and reconstructed, failing in each way: error, cut short, interrupted, end of file, disk full from then on; one fault (thorough two; two while reading); line, index and snapshot files cut off at every byte; a whole proxy forwarding messages with each replication method while each of its storage calls fails" };
	return mc_main(argc, argv, &chk);
}
