/* P36: what can not be sent to the server is refused, never swallowed or sent later. */
#include "world.h"
#include "keyfile.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

/* what a client says; the word the refusal has to name (NULL: any); flag: L the
 * proxy handles it itself and answers with that word, '-' nothing is due */
static const struct { const char *t, *about; char f; } Q[] = {
	{ "PRIVMSG al :zq hi", "al", 0 },
	{ "PRIVMSG #x :zq hi", "#x", 0 },
	{ "NOTICE al :zq hi", "al", 0 },
	{ "PRIVMSG al :\001VERSION\001", "al", 0 },
	{ "PRIVMSG al :\001ACTION zq\001", "al", 0 },
	{ "NOTICE al :\001PING zq\001", "al", 0 },
	{ "privmsg al :zq", "al", 0 },
	{ "JOIN #zq", "#zq", 0 },
	{ "join #zq key", "#zq", 0 },
	{ "PART #x :zq", "#x", 0 },
	{ "TOPIC #x :zq", "TOPIC", 0 },
	{ "MODE #x +o zq", "MODE", 0 },
	{ "MODE me +i", "MODE", 0 },
	{ "MODE #x", "MODE", 0 },
	{ "WHO #x", "WHO", 0 },
	{ "NAMES #x", "NAMES", 0 },
	{ "TOPIC #x", "TOPIC", 0 },
	{ "USERHOST me", "USERHOST", 0 },
	{ "WHOIS zq", "WHOIS", 0 },
	{ "NICK zq", "NICK", 0 },
	{ "AWAY :zq", "AWAY", 0 },
	{ "INVITE zq #x", "INVITE", 0 },
	{ "KICK #x zq", "KICK", 0 },
	{ "OPER zq zq", "OPER", 0 },
	{ "LIST", "LIST", 0 },
	{ "FOO zq", "FOO", 0 },
	{ ":me!u@h FOO zq", "FOO", 0 },
	{ "PRIVMSG", NULL, 0 },
	{ "NOTICE al", "al", 0 },
	{ "JOIN", NULL, 0 },
	{ "PART", NULL, 0 },
	{ "MODE", NULL, 0 },
	{ "PING zq", "PONG", 'L' },
	{ "PONG zq", NULL, '-' },
	{ "USER zq 0 * :zq", "462", 'L' },
	{ "PASS zq", "462", 'L' },
	{ "CTRLPROXY ECHO zq", "zq", 'L' },
	{ "PRIVMSG ctrlproxy :echo zq", "zq", 'L' },
};
#define NQ ((int)(sizeof(Q)/sizeof(Q[0])))
enum { ST_NEW, ST_TCP, ST_LOGIN, ST_WELCOME, ST_LOST, ST_REFUSED, ST_DISCONNECTED, ST_UP, NST };
static const char *const STN[] = { "never connected", "connecting", "logging in", "welcomed", "connection lost", "connection refused", "disconnected", "connected" };

static struct irc_network *N;
static struct mem *S;
static struct wcl *C[2];
static int state, refuse;
static int connects(int idx) { return refuse ? 2 : 0; }

static void attach(int i) { if (!C[i]) { C[i] = w_client(N, "me"); w_cl_drain(C[i]); } w_cl_skip(C[i]); }
static void go(int st)
{
	struct wconn *w;
	state = st;
	if (st == ST_NEW) return;
	if (st == ST_REFUSED) {
		refuse = 1;
		connect_network(N);
		pump();
		return;
	}
	connect_network(N);
	if (st == ST_TCP) return;
	pump();
	w = w_conn(N);
	if (!w) mc_fail("no connection was made");
	S = w->m;
	w_srv_drain(S);
	if (st == ST_LOGIN) return;
	if (st == ST_WELCOME) { w_srv(S, ":srv.net 001 me :Welcome"); w_srv(S, ":srv.net 375 me :motd"); return; }
	w_login(S, "me", NULL);
	w_srv(S, ":srv.net 302 me :me=+mu@mh");
	w_srv(S, ":me!mu@mh JOIN #x");
	w_srv(S, ":srv.net 353 me = #x :me @al");
	w_srv(S, ":srv.net 366 me #x :End");
	w_srv_drain(S);
	if (st == ST_UP) return;
	if (st == ST_LOST) { S->eof = S->hup = 1; pump(); }
	else { disconnect_network(N); pump(); }
	S = NULL;
}
static int closed_conns(void) { return S != NULL && !S->closed; }
static void check_server(const char *when)
{
	char *l;
	if (!closed_conns()) return;
	while ((l = w_srv_line(S))) {
		if (strstr(l, "zq") || strstr(l, "\001VERSION") || !strncmp(l, "MODE", 4) || !strncmp(l, "WHO", 3) || !strncmp(l, "NAMES", 5) || !strncmp(l, "TOPIC", 5) || !strncmp(l, "LIST", 4) || !strncmp(l, "PRIVMSG", 7))
			mc_fail("%s, the server is sent %s", when, mc_esc(l));
		g_free(l);
	}
}
static void say(int c, int k)
{
	const char *g;
	int n = 0, right = 0;
	w_cl_skip(C[0]); if (C[1]) w_cl_skip(C[1]);
	w_cl(C[c], "%s", Q[k].t);
	if (state == ST_UP) {
		/* nothing of this applies: never refused */
		while ((g = w_cl_next(C[c]))) if (strstr(g, "not connected")) mc_fail("connected, %s is answered with %s", mc_esc(Q[k].t), mc_esc(g));
		if (S) w_srv_drain(S);
		if (C[!c]) w_cl_skip(C[!c]);
		return;
	}
	w_cl_drain(C[c]);
	while ((g = w_cl_next(C[c]))) {
		struct irc_line *l = irc_parse_line(g);
		if (strstr(g, "NOTICE * :")) { free_line(l); continue; }
		n++;
		if (strstr(g, "(null)")) mc_fail("the client is sent %s", mc_esc(g));
		if (Q[k].f == 'L') {
			int i;
			for (i = 0; i < l->argc; i++) if (strstr(l->args[i], Q[k].about)) { right = 1; break; }
		} else {
			int e = atoi(l->args[0]);
			if (e < 400 || e > 599) mc_fail("%s, %s is answered with %s", STN[state], mc_esc(Q[k].t), mc_esc(g));
			if (Q[k].about && (l->argc < 4 || g_ascii_strcasecmp(l->args[2], Q[k].about))) mc_fail("%s, %s is answered with %s", STN[state], mc_esc(Q[k].t), mc_esc(g));
			right = 1;
		}
		free_line(l);
	}
	if (Q[k].f == '-') { if (n) mc_fail("%s, %s is answered", STN[state], mc_esc(Q[k].t)); }
	else if (!right) mc_fail("%s, %s is swallowed", STN[state], mc_esc(Q[k].t));
	else if (n > 1 && Q[k].f != 'L') mc_fail("%s, %s is answered %d times", STN[state], mc_esc(Q[k].t), n);
	/* for nobody else */
	if (C[!c]) while ((g = w_cl_next(C[!c])))
		if (!strstr(g, "NOTICE * :")) mc_fail("%s, another client is sent %s", STN[state], mc_esc(g));
	if (C[c]->m->closed) mc_fail("%s, %s gets the client disconnected", STN[state], mc_esc(Q[k].t));
	check_server(STN[state]);
}
static void run(void)
{
	int st, early, n, i;
	w_begin();
	vt_reset();
	C[0] = C[1] = NULL; S = NULL; refuse = 0;
	w_connect = connects;
	g_free(W->config->admin_user);
	W->config->admin_user = g_strdup("ctrlproxy");
	N = w_network("net", "me");
	{ struct network_config *nc = N->private_data; nc->disable_cache = mc_choose_l(2, "cache"); }
	st = mc_choose_l(NST, "state");
	early = mc_choose_l(2, "attached");
	if (early) { attach(0); attach(1); }
	go(st);
	attach(0);
	if (early) w_cl_skip(C[1]);
	n = mc_tier ? 3 : 2;
	for (i = 0; i < n; i++) {
		int k = mc_choose_l(NQ + 1, "line");
		if (k == NQ) break;
		say(i & early, k);
		mc_outcome(mc_hash_str(Q[k].t, st));
	}
	/* then the connection is made: nothing of that is sent */
	if (st != ST_UP) {
		refuse = 0;
		if (st == ST_NEW || st == ST_DISCONNECTED) connect_network(N);
		if (st == ST_LOST || st == ST_REFUSED) vt_advance((N->reconnect_interval + 2) * 1000);
		pump();
		{ struct wconn *w = w_conn(N); if (!w) mc_fail("%s, no connection is made", STN[st]); S = w->m; }
		check_server("on logging in");
		if (st == ST_WELCOME) w_srv(S, ":srv.net 376 me :End"); else w_login(S, "me", NULL);
		check_server("logged in");
		/* and what is said now is sent */
		w_cl_skip(C[0]);
		w_cl(C[0], "PRIVMSG al :now");
		{ char *l = w_srv_line(S); if (!l || strcmp(l, "PRIVMSG al :now")) mc_fail("connected again, the server is sent %s", l ? mc_esc(l) : "nothing"); g_free(l); }
	}
	mc_cover(STN[st]);
	for (i = 0; i < 2; i++) if (C[i]) w_cl_leave(C[i]);
	pump();
	w_teardown();
	w_connect = NULL;
	w_end();
}
static void init(void) { w_init(); init_admin(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P36", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "8 states of the connection, the client there before or arriving afterwards, every sequence of up to 2 (thorough 3) of 38 messages by one or two clients, then the connection is made" };
	return mc_main(argc, argv, &chk);
}
