/* P30: filters run in priority order, each once, until one stops the message. */
#include "world.h"
#include "hooks.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
gboolean run_server_filter(struct irc_network *s, const struct irc_line *l, enum data_direction dir);
gboolean run_log_filter(struct irc_network *s, const struct irc_line *l, enum data_direction dir);
gboolean new_client_hook_execute(struct irc_client *c);
static struct wcl *lc;
static void run_lose_hooks(void);

#define NN 4
static const char *NAMES[2][NN] = {{"a", "b", "a", "A"}, {"ab", "a", "abc", "b"}}, **NAME = NAMES[0];   /* two registrations may share a name */
static const int PRIO[] = {0, -1, 1000, 2147483647, -2147483647 - 1, 1};
static void run_lose_hooks(void)
{
	lc = w_client_raw(NULL);
	w_cl_leave(lc);
	lc = NULL;
}
/* reference: registrations per class, in order of registration */
struct reg { int cls, id, prio, seq; };
static struct reg R[16];
static int nr, seq;
static int stops[2][NN], calls[64], ncalls, curcls, selfdel;
static struct irc_line *L;
static int dirw;
static int ud[4][NN];

static int called(int cls, int id)
{
	MC_ASSERT(cls == curcls, "a filter registered for something else is run");
	MC_ASSERT(ncalls < 60, "filters are run over and over");
	calls[ncalls++] = id;
	return 1;
}
static gboolean f_common(int cls, struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u)
{
	int id = (int *)u - ud[cls];
	MC_ASSERT(id >= 0 && id < NN, "wrong user data");
	MC_ASSERT(l == L && d == dirw && n == (void *)&ud, "wrong arguments");
	called(cls, id);
	if (selfdel == id + 1) { if (cls == 0) del_server_filter(NAME[id]); else del_log_filter(NAME[id]); }
	return !stops[0][id];
}
static gboolean f_server(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u) { return f_common(0, n, l, d, u); }
static gboolean f_log(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u) { return f_common(1, n, l, d, u); }
static gboolean h_new(struct irc_client *c, void *u)
{
	int id = (int *)u - ud[2];
	MC_ASSERT(id >= 0 && id < NN && c == (void *)&calls, "wrong arguments");
	called(2, id);
	if (selfdel == id + 1) del_new_client_hook(NAME[id]);
	return !stops[0][id];
}
static void h_lose(struct irc_client *c, void *u)
{
	int id = (int *)u - ud[3];
	MC_ASSERT(id >= 0 && id < NN && lc && c == lc->c, "wrong arguments");
	called(3, id);
	if (selfdel == id + 1) del_lose_client_hook(NAME[id]);
}
static void add(int cls, int id, int prio)
{
	mc_trace("add class %d filter %d \"%s\" priority %d", cls, id, NAME[id], prio);
	mc_step();
	switch (cls) {
	case 0: add_server_filter(NAME[id], f_server, &ud[0][id], prio); break;
	case 1: add_log_filter(NAME[id], f_log, &ud[1][id], prio); break;
	case 2: add_new_client_hook(NAME[id], h_new, &ud[2][id]); prio = 0; break;
	default: add_lose_client_hook(NAME[id], h_lose, &ud[3][id]); prio = 0;
	}
	R[nr].cls = cls; R[nr].id = id; R[nr].prio = prio; R[nr].seq = seq++;
	nr++;
}
static int order(const void *a, const void *b)
{
	const struct reg *x = a, *y = b;
	return x->prio != y->prio ? (x->prio < y->prio ? -1 : 1) : x->seq - y->seq;
}
static void rmreg(int i) { memmove(&R[i], &R[i + 1], (nr - i - 1) * sizeof(R[0])); nr--; }
static int sharing(int cls, const char *name)
{
	int i, n = 0;
	for (i = 0; i < nr; i++) if (R[i].cls == cls && !strcmp(NAME[R[i].id], name)) n++;
	return n;
}
static void del(int cls, const char *name)
{
	int i, n = sharing(cls, name);
	mc_trace("remove class %d \"%s\"", cls, name);
	mc_step();
	switch (cls) {
	case 0: del_server_filter(name); break;
	case 1: del_log_filter(name); break;
	case 2: del_new_client_hook(name); break;
	default: del_lose_client_hook(name);
	}
	if (n == 0) return;
	if (n == 1) { for (i = 0; i < nr; i++) if (R[i].cls == cls && !strcmp(NAME[R[i].id], name)) { rmreg(i); return; } }
}
/* run class; compare with the reference */
static void fire(int cls, int expectself)
{
	struct reg want[16];
	int n = 0, i, j, r = 1, stopped = 0, used[16] = {0};
	curcls = cls;
	ncalls = 0;
	mc_step();
	dirw = (nr + cls) & 1 ? TO_SERVER : FROM_SERVER;
	for (i = 0; i < nr; i++) if (R[i].cls == cls) want[n++] = R[i];
	qsort(want, n, sizeof(want[0]), order);
	switch (cls) {
	case 0: r = run_server_filter((void *)&ud, L, dirw); break;
	case 1: r = run_log_filter((void *)&ud, L, dirw); break;
	case 2: r = new_client_hook_execute((void *)&calls); break;
	default: run_lose_hooks();
	}
	mc_trace("message to class %d: %d filters ran, result %d", cls, ncalls, r);
	/* every filter run is a registered one, in order of priority (order among equals is free), each once */
	for (i = 0; i < ncalls; i++) {
		int prio = 0, ok = 0;
		MC_ASSERT(!stopped, "a filter runs after the message was stopped");
		for (j = 0; j < n; j++) if (!used[j] && want[j].id == calls[i]) { used[j] = 1; prio = want[j].prio; ok = 1; break; }
		MC_ASSERT(ok, "a filter that is not registered, or already ran, is run");
		for (j = 0; j < n; j++) if (cls < 2 && want[j].prio < prio) MC_ASSERT(used[j], "a filter runs before one of lower priority number");
		if (cls < 3 && stops[0][calls[i]]) stopped = 1;
	}
	if (!stopped) {
		MC_ASSERT(ncalls == n, "%d of %d filters were run", ncalls, n);
		MC_ASSERT(r, "a message nobody stopped is stopped");
	} else MC_ASSERT(!r, "a stopped message is processed further");
	{ uint64_t h = MC_H0 + cls + 31 * r; for (i = 0; i < ncalls; i++) h = mc_hash(&calls[i], sizeof(int), h); mc_outcome(h); }
	if (stopped) mc_cover("stopped");
	if (n >= 3) mc_cover("three or more filters");
}
/* the filters on a network with a client: a stopped message gets nowhere */
static int netstop[2][3], nethits[2][3], netorder[20], nno;
static gboolean nf(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u)
{
	int k = (int *)u - ud[0];
	if (l->argc < 3 || strcmp(l->args[0], "PRIVMSG")) return TRUE;
	nethits[d == TO_SERVER][k]++;
	netorder[nno++] = k;
	return !netstop[d == TO_SERVER][k];
}
static int lognum[2];
static gboolean nl(struct irc_network *n, const struct irc_line *l, enum data_direction d, void *u)
{
	if (l->argc >= 3 && !strcmp(l->args[0], "PRIVMSG")) lognum[d == TO_SERVER]++;
	return *(int *)u;
}
static int seen(struct wcl *c, const char *s) { const char *l; int n = 0; while ((l = w_cl_next(c))) if (strstr(l, s)) n++; return n; }
static void network_part(void)
{
	struct irc_network *N;
	struct mem *M;
	struct wcl *C, *D;
	static const int pr[6][3] = {{1,2,3},{1,3,2},{2,1,3},{2,3,1},{3,1,2},{3,2,1}};
	static const char *nm[] = {"f0", "f1", "f2"};
	int i, d, p = mc_choose_l(6, "priorities"), first, hits = 0, logres = mc_choose(2), o[3];
	for (d = 0; d < 2; d++) for (i = 0; i < 3; i++) { netstop[d][i] = mc_choose(2); nethits[d][i] = 0; }
	lognum[0] = lognum[1] = 0;
	w_begin();
	for (i = 0; i < 3; i++) { add_server_filter(nm[i], nf, &ud[0][i], pr[p][i]); o[pr[p][i] - 1] = i; }
	add_log_filter("lf", nl, &logres, 0);
	N = w_network("net", "me");
	M = w_up(N, "me", NULL);
	w_srv(M, ":me!myuser@my.host JOIN #a");
	C = w_client(N, "me");
	D = w_client(N, "me");
	w_cl_skip(C); w_cl_skip(D);
	w_srv_drain(M);
	for (d = 0; d < 2; d++) {
		int stopped = 0, k, want = 0;
		nno = 0;
		if (d == 0) w_srv(M, ":x!y@z PRIVMSG #a :text-%d", d); else w_cl(C, "PRIVMSG #a :text-%d", d);
		for (k = 0; k < 3 && !stopped; k++) { MC_ASSERT(k < nno && netorder[k] == o[k], "filters of the network run in another order"); want++; stopped = netstop[d][o[k]]; }
		MC_ASSERT(nno == want, "%d filters see a message that passes %d", nno, want);
		mc_trace("%s a stopped=%d", d ? "to server" : "from server", stopped);
		if (d == 0) {
			MC_ASSERT(seen(C, "text-0") == !stopped, stopped ? "a stopped message reaches the client" : "a message nobody stopped does not reach the client");
			MC_ASSERT(seen(D, "text-0") == !stopped, stopped ? "a stopped message reaches the client" : "a message nobody stopped does not reach the client");
			MC_ASSERT(lognum[0] == 1, "a received message is logged %d times", lognum[0]);
		} else {
			char *l; int n = 0;
			while ((l = w_srv_line(M))) { if (strstr(l, "text-1")) n++; g_free(l); }
			MC_ASSERT(n == !stopped, stopped ? "a stopped message reaches the server" : "a message nobody stopped does not reach the server");
			MC_ASSERT(lognum[1] == !stopped, "logged %d times", lognum[1]);
		}
		w_cl_skip(C); w_cl_skip(D);
		hits = hits * 2 + stopped;
	}
	for (i = 0; i < 3; i++) del_server_filter(nm[i]);
	del_log_filter("lf");
	w_teardown();
	w_end();
	mc_cover("network");
	mc_outcome(hits + 4 * p);
}
static void clean(void)
{
	static const char *all[] = {"a", "b", "A", "ab", "abc"};
	int k, i;
	for (k = 0; k < 12; k++) for (i = 0; i < 5; i++) { del_server_filter(all[i]); del_log_filter(all[i]); del_new_client_hook(all[i]); del_lose_client_hook(all[i]); }
}
static void init(void) { w_init(); }
static void run(void)
{
	int cls = mc_choose_l(5, "class"), n, i, mode, np = cls < 2 ? (mc_tier ? 6 : 5) : 1;
	nr = seq = selfdel = 0;
	clean();
	NAME = NAMES[0];
	if (cls == 4) { network_part(); return; }
	memset(stops, 0, sizeof(stops));
	L = irc_parse_line("PRIVMSG #a :x");
	/* one of another class that must stay untouched */
	add((cls + 1) % 4, 0, 0);
	n = mc_choose_l(4, "registrations") + 1;
	NAME = NAMES[mc_choose_l(2, "names")];
	for (i = 0; i < n; i++) add(cls, i, PRIO[mc_choose(np)]);
	mode = mc_choose_l(3, "mode");
	if (mode == 0) {
		for (i = 0; i < n; i++) stops[0][i] = mc_choose_l(2, "stops");
		fire(cls, 0);
		memset(stops, 0, sizeof(stops));
		fire(cls, 0);
	} else if (mode == 1) {
		/* removals and additions by name */
		int k, m = mc_tier ? 3 : 2;
		for (k = 0; k < m; k++) {
			int op = mc_choose_l(5, "operation");
			const char *nm = op == 0 ? "a" : op == 1 ? "b" : op == 2 ? (NAME == NAMES[0] ? "A" : "ab") : op == 3 ? "nobody" : "";
			if (op < 4) {
				/* which of two of the same name goes is left open */
				if (sharing(cls, nm) > 1) { mc_cover("shared name"); 
					int want = sharing(cls, nm), got;
					del(cls, nm);
					/* find out which by running */
					{ int j, h[16], c = 0, before = nr;
					  curcls = cls; ncalls = 0; dirw = FROM_SERVER;
					  switch (cls) { case 0: run_server_filter((void *)&ud, L, dirw); break; case 1: run_log_filter((void *)&ud, L, dirw); break; case 2: new_client_hook_execute((void *)&calls); break; default: run_lose_hooks(); }
					  for (j = 0; j < nr; j++) h[j] = 0;
					  for (j = 0; j < nr; j++) if (R[j].cls == cls) { int q, f = 0; for (q = 0; q < ncalls; q++) if (calls[q] == R[j].id) f = 1; if (!f) { MC_ASSERT(!strcmp(NAME[R[j].id], nm), "a filter of another name was removed"); rmreg(j); j--; c++; } }
					  MC_ASSERT(c >= 1, "the filter was not removed"); }
				} else del(cls, nm);
			}
			else { if (nr < 10) { int id = mc_choose(n); int dup = 0, j; for (j = 0; j < nr; j++) if (R[j].cls == cls && R[j].id == id) dup = 1; if (!dup) add(cls, id, PRIO[mc_choose(np)]); } }
			fire(cls, 0);
		}
	} else {
		/* a filter removes itself while it runs */
		selfdel = mc_choose_l(n, "removes itself") + 1;
		if (sharing(cls, NAME[selfdel - 1]) > 1) mc_done();
		mc_trace("filter %d removes itself while running", selfdel - 1);
		fire(cls, 1);
		for (i = 0; i < nr; i++) if (R[i].cls == cls && R[i].id == selfdel - 1) { rmreg(i); break; }
		selfdel = 0;
		fire(cls, 0);
	}
	fire((cls + 1) % 4, 0);
	clean();
	for (i = 0; i < 4; i++) { nr = 0; fire(i, 0); }
	free_line(L);
}
int main(int argc, char **argv)
{
	static struct mc_check c = { .id = "P30", .init = init, .run = run, .batch = 200, .hang_secs = 10,
		.rule = "4 kinds of hooks x up to 4 registrations (shared names) x 5-6 priorities each x every set of stopping filters; all sequences of 2 (thorough 3) removals/additions by name, each followed by a message; removal of a filter by itself while running" };
	return mc_main(argc, argv, &c);
}
