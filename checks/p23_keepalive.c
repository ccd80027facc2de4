/* P23: a clock, a server that talks or is silent, and the proxy's probes. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "connection.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static struct irc_network *N;
static struct mem *m;
static struct wcl *C;
static gint64 last;          /* when the server was last heard */
static gint64 probe;         /* when it was last probed */
static gint64 started;
static int probes, pongs, logged, up, hasclient;
static gint64 lost_at;
static char pong[4][64];
static int interval = 20000;

static void collect(void)
{
	char *l;
	pongs = 0;
	while ((l = w_srv_line(m))) {
		struct irc_line *p = irc_parse_line(l);
		if (p && p->argc && !strcmp(p->args[0], "PING")) {
			probes++; probe = vt_now;
			if (p->argc < 2 || !p->args[1][0]) mc_fail("a probe without text");
			if (vt_now - last < 30000) mc_fail("a server heard %d s ago is probed", (int)(vt_now - last) / 1000);
		}
		if (p && p->argc && !strcmp(p->args[0], "PONG") && pongs < 4) snprintf(pong[pongs++], 64, "%s", p->argc > 1 ? p->args[p->argc - 1] : "");
		free_line(p);
		g_free(l);
	}
}
static void watch(void)
{
	int now_up = m && !m->closed && !m->dropped;
	gint64 silent = vt_now - last;
	if (up && now_up) {
		collect();
		if (silent >= 127000) mc_fail("a server silent for %d s is not given up", (int)silent / 1000);
		if (silent >= 67000 && (probe < last || vt_now - probe > 30000)) mc_fail("a server silent for %d s is not probed", (int)silent / 1000);
	} else if (up) {
		if (silent <= 120000) mc_fail("a server heard %d s ago is given up", (int)silent / 1000);
		up = 0;
		lost_at = vt_now;
		mc_cover("given up");
		if (N->connection.state != NETWORK_CONNECTION_STATE_RECONNECT_PENDING) mc_fail("no reconnect is started");
	}
	if (!up) {
		struct wconn *c = w_conn(N);
		if (c) {
			if (vt_now - lost_at < interval) mc_fail("a new connection after %d s", (int)(vt_now - lost_at) / 1000);
			m = c->m; up = 1; logged = 0;
			last = started = vt_now; probes = 0; probe = -1;
			mc_cover("again");
			collect();
		} else if (vt_now - lost_at > interval + 1000) mc_fail("no new connection after %d s", (int)(vt_now - lost_at) / 1000);
	}
}
static void heard(void) { last = vt_now; }
/* lets time pass second by second */
static void pass(int s)
{
	mc_trace("%d s pass", s);
	while (s-- > 0) { vt_advance(1000); pump(); watch(); }
}
static const struct { const char *l, *pong; } SAY[] = {
	{ ":al!u@h PRIVMSG me :hi", NULL }, { "PING :some text", "some text" }, { "PING 12345", "12345" }, { "PING :", "" }, { ":srv.net PING :x:y", "x:y" },
	{ ":srv.net NOTICE me :PING x", NULL }, { "PING", NULL }, { ":srv.net 372 me :- motd", NULL }, { ":al!u@h NOTICE me :\001PING 1\001", NULL }, { "PING ::colon", ":colon" }, { "pInG lower", "lower" },
};
#define NSAY ((int)(sizeof(SAY)/sizeof(SAY[0])))
static const int STEP[] = { 1, 4, 5, 6, 55, 59, 60, 61, 64, 119, 120, 121, 126, 140 };
#define NSTEP ((int)(sizeof(STEP)/sizeof(STEP[0])))
static void run(void)
{
	int i, depth = mc_tier ? 7 : 4, k;
	struct wconn *c;
	w_begin();
	vt_reset();
	hasclient = mc_choose_l(2, "client");
	logged = mc_choose_l(2, "logged in");
	N = w_network("net", "me");
	((struct network_config *)N->private_data)->reconnect_interval = interval / 1000;
	N->reconnect_interval = interval / 1000;
	connect_network(N);
	pump();
	c = w_conn(N);
	if (!c) mc_fail("no connection");
	m = c->m;
	last = started = vt_now; probes = 0; probe = -1; up = 1;
	if (logged) { w_login(m, "me", NULL); heard(); }
	w_srv_drain(m);
	if (hasclient) C = w_client(N, "me");
	for (i = 0; i < depth; i++) {
		gint64 v[6];
		const struct vtimer *t = NULL;
		uint64_t h;
		int j;
		if (up) k = mc_choose_l(NSTEP + NSAY + 3, "step");
		else k = mc_choose_l(NSTEP, "step");
		if (k < NSTEP) pass(STEP[k]);
		else if (k < NSTEP + NSAY) {
			const char *want = SAY[k - NSTEP].pong;
			w_srv(m, "%s", SAY[k - NSTEP].l);
			heard();
			collect();
			if (want && (pongs != 1 || strcmp(pong[0], want))) mc_fail("%s is answered with %d PONG %s", SAY[k - NSTEP].l, pongs, pongs ? pong[0] : "");
			if (!want && strcmp(SAY[k - NSTEP].l, "PING") && pongs) mc_fail("%s is answered with PONG", SAY[k - NSTEP].l);
			watch();
		} else if (k == NSTEP + NSAY) {
			if (probe > last) { w_srv(m, ":srv.net PONG srv.net :ctrlproxy"); heard(); mc_cover("probe answered"); watch(); }
		} else if (k == NSTEP + NSAY + 1) {
			/* a line in two pieces counts when it is complete */
			mem_feed(m, "PING :cut"); pump(); watch();
			vt_advance(1000); pump(); watch();
			vt_advance(1000); pump(); watch();
			if (up) { mem_feed(m, " here\r\n"); pump(); heard(); collect(); if (pongs != 1 || strcmp(pong[0], "cut here")) mc_fail("a probe in pieces is not answered"); }
		} else {
			/* always answering, for a long time */
			int s;
			mc_trace("600 s with every probe answered");
			for (s = 0; s < 600; s++) {
				if (probe > last) { mem_feed(m, ":srv.net PONG srv.net :ctrlproxy\r\n"); pump(); heard(); }
				vt_advance(1000); pump(); watch();
				if (!up) mc_fail("the connection is given up");
			}
			mc_cover("kept");
		}
		v[0] = up ? vt_now - last : -1; v[1] = up ? 0 : vt_now - lost_at; v[2] = up && probe >= last; v[3] = logged * 2 + hasclient; v[4] = up && probe >= last ? vt_now - probe : 0; v[5] = N->connection.state;
		h = mc_hash(v, sizeof(v), 7);
		for (j = 0; j < vt_count(); j++) { t = vt_get(j); v[0] = t->due - vt_now; h = mc_hash(v, 8, h); }
		mc_outcome(h);
		if (mc_state(h, depth - i - 1)) break;
	}
	w_teardown();
	w_end();
}
static void init(void) { w_init(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P23", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "all sequences of up to 4 (thorough: 7) of 14 clock steps around the limits, 11 messages, answers to probes, a probe in pieces and ten minutes of answered probes, before and after login, with and without client; looked at every second. A sequence that comes to a state (ages, timers, connection) seen before with as many steps left is not continued" };
	return mc_main(argc, argv, &chk);
}
