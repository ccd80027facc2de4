/* P21: every sequence of requests, connection outcomes, losses and clock steps
 * on one network, against a model of what the connection has to be. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "connection.h"
#include <signal.h>
#include <errno.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

enum { OFF, PENDING, CONNECTING, UP };
static const char *stname[] = { "off", "waiting to reconnect", "connecting", "connected" };
static struct irc_network *N, *CTL;
static struct network_config *NC;
static struct mem *SC;
static struct wcl *A;
static struct { int st, cur, n; gint64 due; int logged, gone; } M;
static int interval;
/* one attempt: outcome per address */
static const struct { int addrs, res[2], st; const char *d; } PLAN[] = {
	{ 1, { 0 }, UP, "at once" }, { 1, { 1 }, CONNECTING, "in progress" }, { 1, { 2 }, OFF, "refused" }, { 0, { 0 }, OFF, "no such name" },
	{ 2, { 2, 0 }, UP, "refused, then at once" }, { 2, { 2, 1 }, CONNECTING, "refused, then in progress" }, { 2, { 3, 2 }, OFF, "no socket, then refused" }, { 1, { 3 }, OFF, "no socket" },
};
#define NPLAN ((int)(sizeof(PLAN)/sizeof(PLAN[0])))
static int plan, nth, attempts, first;
static char host[64];
static int resolves(const char *h)
{
	if (h == NULL || h[0] != 's') return 1;
	if (++attempts > 1) mc_fail("a second attempt is made at once");
	snprintf(host, sizeof(host), "%s", h);
	/* in the quick tier later attempts have fewer outcomes */
	if (mc_tier) plan = mc_choose_l(NPLAN, "connecting");
	else if (first) plan = mc_choose_l(NPLAN - 1, "connecting");
	else plan = (int[]){ 0, 1, 3, 6 }[mc_choose_l(4, "connecting")];
	first = 0;
	mc_trace("   attempt on %s: %s", h, PLAN[plan].d);
	nth = 0;
	return PLAN[plan].addrs;
}
static int prog;
static int connects(int i) { if (!attempts || prog) return 0; if (nth >= 2) mc_fail("more sockets than addresses"); return PLAN[plan].res[nth++]; }
/* ---- networks that are a program ---- */
static int children, watched;         /* programs started; those somebody will wait for */
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
extern int __real_socketpair(int, int, int, int *);
int __wrap_socketpair(int d, int t, int p, int *sv)
{
	if (!prog) return __real_socketpair(d, t, p, sv);
	if (++attempts > 1) mc_fail("a second attempt is made at once");
	plan = (int[]){ 0, 2, 3 }[mc_choose_l(mc_tier || first ? 3 : 2, "starting the program")];
	first = 0;
	mc_trace("   attempt to start the program: %s", plan == 0 ? "works" : plan == 2 ? "no process can be started" : "no descriptors are left");
	if (plan == 3) { errno = EMFILE; return -1; }
	sv[0] = socket(AF_INET, SOCK_STREAM, 0);
	sv[1] = socket(AF_INET, SOCK_STREAM, 0);
	return 0;
}
extern pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	if (!prog) return __real_fork();
	if (plan == 2) { errno = EAGAIN; return -1; }
	return 40000 + ++children;
}
extern guint __real_g_child_watch_add(GPid, GChildWatchFunc, gpointer);
guint __wrap_g_child_watch_add(GPid pid, GChildWatchFunc f, gpointer d) { if (pid <= 40000) return __real_g_child_watch_add(pid, f, d); watched++; return 900000 + pid; }
guint __wrap_g_child_watch_add_full(gint pr, GPid pid, GChildWatchFunc f, gpointer d, GDestroyNotify n) { watched++; return 900000 + pid; }
extern pid_t __real_waitpid(pid_t, int *, int);
pid_t __wrap_waitpid(pid_t pid, int *st, int o)
{
	if (!prog || (pid != -1 && pid <= 40000)) return __real_waitpid(pid, st, o);
	if (watched < children) { watched++; if (st) *st = 0; return pid == -1 ? 40000 + watched : pid; }
	errno = ECHILD; return -1;
}
static struct mem *live(void)
{
	int i, n = 0; struct mem *m = NULL;
	for (i = 1; i < nwconns; i++) if (wconns[i].fd >= 0) { /* 0 is the other network */
		struct wconn *c = &wconns[i];
		if (c->closed || (c->m && c->m->closed)) continue;
		if (c->m == NULL || c->m->dropped) mc_fail("the socket of attempt %d on %s is never closed", i, c->host);
		n++; m = c->m;
	}
	if (n > 1) mc_fail("%d connections at the same time", n);
	return m;
}
static int next(void) { return prog ? -1 : M.n ? (M.cur + 1) % M.n : -1; }
static void add_server(int i)
{
	w_cl(A, "CTRLPROXY ADDSERVER net s%d:6667", i);
	M.n++;
}
/* an attempt has to have been made on server want (or alt) */
static void attempted(int want, int alt)
{
	int got;
	if (attempts != 1) mc_fail("no attempt to connect is made");
	if (prog) {
		M.st = plan ? OFF : UP; M.logged = 0;
		if (plan && vt_count_data(N)) { M.st = PENDING; M.due = vt_now + interval; }
		mc_cover(plan ? "the program can not be started" : "program");
		return;
	}
	got = atoi(host + 1);
	if (got != want && got != alt) mc_fail("the attempt is made on server %d instead of %d", got, want);
	M.cur = got;
	M.st = PLAN[plan].st;
	M.logged = 0;
	mc_cover(PLAN[plan].d);
	if (M.st == OFF) { M.cur = next(); M.st = PENDING; M.due = vt_now + interval; }
}
static void lost(void) { M.cur = next(); M.st = PENDING; M.due = vt_now + interval; M.logged = 0; }
static void look(void)
{
	struct mem *m = live();
	int st, timers;
	if (M.gone) {
		if (m) mc_fail("a removed network still has a connection");
		if (vt_count_data(N)) mc_fail("a removed network still has a timer");
		return;
	}
	timers = vt_count_data(N);
	st = m == NULL ? (timers ? PENDING : OFF) : m->connected ? UP : CONNECTING;
	if (st != M.st) mc_fail("the network is %s instead of %s", stname[st], stname[M.st]);
	if (timers != (M.st == PENDING || (M.st == UP && !prog))) mc_fail("%d timers while %s", timers, stname[M.st]);
	if (M.st == PENDING) {
		int i;
		for (i = 0; i < vt_count(); i++) if (vt_get(i)->data == N && vt_get(i)->due != M.due) mc_fail("the next attempt is in %d s instead of %d", (int)(vt_get(i)->due - vt_now) / 1000, (int)(M.due - vt_now) / 1000);
	}
	if (w_addrs_live) mc_fail("%d address lists are not freed", w_addrs_live);
	if (m && M.st == UP) {
		if (!strstr(m->out->str, "NICK me")) mc_fail("no registration is sent");
	}
	/* shown states agree */
	w_cl_skip(A);
	w_cl(A, "CTRLPROXY LISTNETWORKS");
	{
		const char *l; int ok = 0;
		static const char *say[] = { "Not connected", "Reconnecting", "Connect in progress", "connected" };
		while ((l = w_cl_next(A))) {
			const char *p = strstr(l, ":net: ");
			if (p == NULL) continue;
			ok = 1;
			if (!g_str_has_prefix(p + 6, say[M.st]) && !(M.st == UP && strstr(p, "onnected, logging in"))) mc_fail("the network is shown as %s while %s", p + 6, stname[M.st]);
		}
		if (!ok) mc_fail("the network is not listed");
	}
	w_srv_drain(SC);
}
static void op(int k)
{
	struct mem *m = live();
	attempts = 0;
	mc_step();
	switch (k) {
	case 0:
		w_cl(A, "CTRLPROXY CONNECT net");
		if (M.st == OFF) { if (M.n || prog) attempted(M.cur < 0 ? 0 : M.cur, -1); }
		else if (M.st == PENDING) attempted(M.cur, next());
		else if (attempts) mc_fail("another attempt is made while %s", stname[M.st]);
		break;
	case 1: w_cl(A, "CTRLPROXY DISCONNECT net"); M.st = OFF; M.logged = 0; break;
	case 2:
		w_cl(A, "CTRLPROXY NEXTSERVER net");
		if (M.n || prog) attempted(M.cur < 0 ? 0 : next(), -1);
		else M.st = OFF;
		break;
	case 3: case 4: case 5: case 6:
		/* the connection is lost */
		if (k == 3) { mc_trace("server closes"); m->eof = m->hup = 1; }
		else if (k == 4) { mc_trace("read error"); m->rderr = m->hup = m->errcond = 1; }
		else if (k == 5) { mc_trace("write error"); m->broken = 1; mem_feed(m, "PING :a\r\nPING :b\r\n"); m->eof = m->hup = 1; }
		else { mc_trace("server closes with last words"); mem_feed(m, ":srv.net NOTICE me :hi\r\nERROR :Closing link\r\n"); m->eof = m->hup = 1; }
		pump();
		lost();
		break;
	case 7: case 8: case 9: case 10:
		if (k == 7) { mc_trace("connected"); m->connected = 1; pump(); M.st = UP; }
		else { mc_trace("connecting fails"); if (k != 8) m->errcond = 1; if (k != 9) m->hup = 1; if (k == 10) { m->connected = 1; m->rderr = 1; } pump(); lost(); }
		break;
	case 11: case 12:
		mc_trace("%d s pass", k == 11 ? interval / 2000 : interval / 1000);
		{
			gint64 end = vt_now + (k == 11 ? interval / 2 : interval);
			while (M.st == PENDING && M.due <= end) {
				int was = M.cur; gint64 due = M.due;
				attempts = 0;
				vt_advance(M.due - vt_now);
				pump();
				attempted(was, -1);
				/* who waited once goes on waiting */
				if (prog && M.st == OFF) mc_fail("no other attempt follows when the program can not be started");
				if (M.st == PENDING) M.due = due + interval;
			}
			attempts = 0;
			vt_advance(end - vt_now);
			pump();
			if (attempts) mc_fail("an attempt is made while %s", stname[M.st]);
		}
		break;
	case 13: w_login(m, "me", NULL); M.logged = 1; break;
	case 14: add_server(M.n); break;
	case 15: w_cl(A, "CTRLPROXY DELNETWORK net"); M.gone = 1; M.st = OFF; break;
	}
	pump();
	if (attempts && !(k == 0 || k == 2 || k == 11 || k == 12)) mc_fail("an attempt is made");
	look();
}
/* everything about the network the next steps depend on */
static uint64_t digest(int start)
{
	uint64_t h = mc_hash(&M.st, 3 * sizeof(int), start);
	gint64 v[12] = { 0 };
	int i, k = 0;
	struct mem *m = live();
	h += prog;
	v[k++] = N->connection.state; v[k++] = g_list_index(NC->type_settings.tcp.servers, N->connection.data.tcp.current_server);
	v[k++] = N->reconnect_id != 0; v[k++] = N->connection.data.tcp.ping_id; v[k - 1] = v[k - 1] != 0; v[k++] = N->connection.data.tcp.connect_id != 0;
	v[k++] = N->connection.transport != NULL; v[k++] = N->external_state != NULL; v[k++] = N->linestack != NULL; v[k++] = M.st == PENDING ? M.due - vt_now : 0;
	v[k++] = M.logged; v[k++] = m ? m->nwrites : 0; v[k++] = NC->autoconnect * 2 + first;
	h = mc_hash(v, sizeof(v), h);
	for (i = 0; i < vt_count(); i++) if (vt_get(i)->data == N) { v[0] = vt_get(i)->due - vt_now; h = mc_hash(v, 8, h); }
	return h;
}
static void run(void)
{
	int depth = mc_tier ? 16 : 9, i, start;
	w_begin();
	vt_reset();
	interval = 10000;
	first = 1;
	attempts = 0;
	w_resolve = NULL; w_connect = NULL;
	memset(&M, 0, sizeof(M));
	CTL = w_network("ctl", "me");
	SC = w_up(CTL, "me", NULL);
	w_resolve = resolves; w_connect = connects;
	A = w_client(CTL, "me");
	NC = w_netconfig("net", "me");
	g_list_free(NC->type_settings.tcp.servers); NC->type_settings.tcp.servers = NULL;
	NC->reconnect_interval = interval / 1000;
	W->config->networks = g_list_append(W->config->networks, NC);
	N = load_network(W, NC);
	M.cur = -1;
	M.n = 0;
	start = mc_choose_l(7, "servers");
	prog = start >= 5;
	children = watched = 0;
	if (prog) {
		NC->type = NETWORK_PROGRAM;
		NC->type_settings.program_location = g_strdup("/usr/bin/ircgw");
		NC->autoconnect = start == 5;
	} else if (start == 0) NC->autoconnect = FALSE;
	else {
		if (start == 4) start = 2;
		else NC->autoconnect = TRUE;
		for (i = 0; i < (start == 3 ? 1 : start); i++) add_server(i);
		if (start == 3) NC->type_settings.tcp.default_bind_address = g_strdup("10.0.0.1");
	}
	if (NC->autoconnect) {
		GList *l = g_list_append(NULL, N);
		attempts = 0;
		autoconnect_networks(l);
		pump();
		g_list_free(l);
		attempted(0, -1);
	}
	look();
	for (i = 0; i < depth && !M.gone; i++) {
		int can[16], n = 0, k;
		for (k = 0; k < 16; k++) {
			if (k >= 3 && k <= 6 && M.st != UP) continue;
			if (k >= 7 && k <= 10 && M.st != CONNECTING) continue;
			if (!mc_tier && i > 1 && (k == 4 || k == 5 || k == 8 || k == 9)) continue;
			if (k == 13 && (M.st != UP || M.logged)) continue;
			if (k == 14 && (M.n >= 3 || prog)) continue;
			can[n++] = k;
		}
		op(can[mc_choose_l(n, "step")]);
		mc_outcome(mc_hash(&M.st, 3 * sizeof(int), M.logged));
		if (!M.gone && mc_state(digest(start), depth - i - 1)) break;
	}
	mc_trace("the proxy is stopped");
	w_resolve = NULL; w_connect = NULL;
	w_teardown();
	if (live()) mc_fail("a connection is left over");
	if (w_addrs_live) mc_fail("an address list is left over");
	if (prog) {
		for (i = 1; i < nwconns; i++) if (wconns[i].fd >= 0 && !wconns[i].closed && !(wconns[i].m && wconns[i].m->closed)) mc_fail("a descriptor of the program is left over");
		if (watched < children) { struct sigaction sa; if (sigaction(SIGCHLD, NULL, &sa) || !(sa.sa_handler == SIG_IGN || (sa.sa_flags & SA_NOCLDWAIT))) mc_fail("%d of %d programs stay as zombies when they end", children - watched, children); }
	}
	w_end();
}
static void init(void) { w_init(); init_admin(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P21", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "all sequences of up to 9 (thorough: 16) of 16 steps (connect, disconnect, next server, four kinds of loss, four ends of a slow connect, clock steps of half and one interval, login, another server, removing the network) from seven starts (two of them a network that is a program, whose start works or fails in two ways), every attempt to connect having 7 (later ones 4; thorough: 8) outcomes over one or two addresses. After every step a model says whether there is a connection, an attempt or a timer, on which server and when. Sequences that reach a state (of the model and of the network) seen before with as many steps left are not continued" };
	return mc_main(argc, argv, &chk);
}
