/* P08: attached clients stay in step with the network, also across reconnects. */
#include "world.h"
#include "keyfile.h"
#include "rec.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);

static struct irc_network *N;
static struct mem *S;
static struct rec net;
#include "events.h"
static struct { struct wcl *w; struct rec r; int on; } C[2];
static int up;   /* 1 logged in, -1 logging in, 0 no connection */
static const char *ISUP[] = {
	"PREFIX=(ov)@+ CHANTYPES=#& CHANMODES=beI,k,l,imnpst NETWORK=TestNet CASEMAPPING=rfc1459",
	"PREFIX=(qaohv)~&@%+ CHANTYPES=#&! CHANMODES=beI,kf,lj,imnpstrz NETWORK=TestNet CASEMAPPING=ascii STATUSMSG=@+ MODES=6 NICKLEN=30",
};

static void look(void)
{
	int i;
	const char *g;
	for (i = 0; i < 2; i++) if (C[i].on) {
		while ((g = w_cl_next(C[i].w))) {
			if (strstr(g, "(null)")) mc_fail("client %d is sent %s", i, mc_esc(g));
			rec_feed(&C[i].r, g);
		}
		/* what the server said was contradictory already */
		if (net.bad[0]) C[i].r.bad[0] = 0;
		if (C[i].r.bad[0]) mc_fail("client %d: %s", i, mc_esc(C[i].r.bad));
		if (up > 0) {
			char *a = rec_text(&net, 1 | 4 | 16), *b = rec_text(&C[i].r, 1 | 4 | 16);
			if (strcmp(a, b)) mc_fail("the network is\n%s, for client %d it is\n%s", mc_esc(a), i, mc_esc(b));
			g_free(a); g_free(b);
			if (strcmp(net.pm, C[i].r.pm) || strcmp(net.pc, C[i].r.pc) || net.map != C[i].r.map) mc_fail("client %d does not know the features of the network", i);
		} else if (up == 0) {
			/* nobody else is there any more */
			unsigned k, j;
			for (k = 0; k < C[i].r.ch->len; k++) {
				struct rchan *c = C[i].r.ch->pdata[k];
				for (j = 0; j < c->m->len; j++) if (!rec_eq(&C[i].r, ((struct rmem *)c->m->pdata[j])->nick, C[i].r.nick)) mc_fail("without a server client %d still sees %s on %s", i, ((struct rmem *)c->m->pdata[j])->nick, c->name);
			}
		}
	}
}
static void attach(int i, const char *nick)
{
	if (C[i].on) return;
	rec_init(&C[i].r);
	C[i].w = w_client(N, nick);
	C[i].on = 1;
	/* whoever attaches during a login is told again what there is at its end */
	C[i].r.rejoin = up <= 0;
	look();
	w_srv_drain(S);
}
static void leave(int i) { if (!C[i].on) return; w_cl_leave(C[i].w); C[i].on = 0; rec_free(&C[i].r); }
static void login(int isup, int taken, int early, int cut)
{
	char *l, nick[64] = "me";
	while ((l = w_srv_line(S))) { if (!strncmp(l, "NICK ", 5)) snprintf(nick, sizeof(nick), "%s", l + 5); g_free(l); }
	rec_init(&net);
	up = -1;
	if (taken) {
		w_srv(S, ":srv.net 433 * %s :Nickname is already in use", nick);
		while ((l = w_srv_line(S))) { if (!strncmp(l, "NICK ", 5)) snprintf(nick, sizeof(nick), "%s", l + 5); g_free(l); }
	}
	srv(":srv.net 001 %s :Welcome", nick);
	if (early == 1) attach(1, "me");
	srv(":srv.net 004 %s srv.net ircd-1 iwso biklmnopstve", nick);
	srv(":srv.net 005 %s %s :are supported", nick, ISUP[isup]);
	if (early == 2) attach(1, "other");
	if (early >= 3) {
		/* the server joins the user to something at once */
		srv(":%s!mu@mh JOIN #w", nick);
		srv(":srv.net 353 %s = #w :%s al", nick, nick);
		srv(":srv.net 366 %s #w :End", nick);
		if (early == 4) attach(1, "me");
		if (early == 5) srv(":%s MODE %s :+x", nick, nick);
	}
	if (cut) return;
	/* to be up when the last message has been handled */
	mem_feed(S, ":srv.net 376 x :End\r\n"); mc_trace("S> :srv.net 376 (end)"); pump();
	up = 1;
}
static void lose(void)
{
	mc_trace("the server is gone");
	S->eof = S->hup = 1;
	up = 0;
	pump();
	rec_free(&net);
	{ int i; for (i = 0; i < 2; i++) if (C[i].on) C[i].r.rejoin = 1; }
}
/* the answers to what the proxy asks to join after logging in */
static void rejoin(int outcome)
{
	char *l;
	int k = 0;
	GPtrArray *ask = g_ptr_array_new();
	while ((l = w_srv_line(S))) g_ptr_array_add(ask, l);
	for (; k < (int)ask->len; k++) {
		l = ask->pdata[k];
		if (!strncmp(l, "JOIN ", 5)) {
			char ch[200];
			snprintf(ch, sizeof(ch), "%.*s", (int)strcspn(l + 5 + (l[5] == ':'), " "), l + 5 + (l[5] == ':'));
			if (rec_chan(&net, ch)) { /* already there: nothing happens */ }
			else if (outcome == 1) srv(":srv.net 473 %s %s :Cannot join channel (+i)", net.nick, ch);
			else if (outcome == 2) srv(":srv.net 475 %s %s :Cannot join channel (+k)", net.nick, ch);
			else {
				srv(":%s!mu@mh JOIN :%s", net.nick, ch);
				if (outcome != 3) { srv(":srv.net 353 %s = %s :@%s zoe +al", net.nick, ch, net.nick); srv(":srv.net 366 %s %s :End", net.nick, ch); }
			}
		}
		g_free(l);
	}
	g_ptr_array_free(ask, TRUE);
}
static void reconnect(int isup, int taken, int early, int cut)
{
	struct wconn *c;
	vt_advance(120000);
	pump();
	c = w_conn(N);
	if (!c) mc_fail("no connection is made");
	S = c->m;
	look();
	login(isup, taken, early, cut);
}
static void start(int isup)
{
	struct network_config *nc;
	w_begin();
	vt_reset();
	memset(C, 0, sizeof(C));
	up = 0;
	N = w_network("net", "me");
	nc = N->private_data;
	nc->ignore_first_nick = TRUE;
	nc->reconnect_interval = N->reconnect_interval = 60;
	if (!connect_network(N)) mc_fail("connecting failed");
	pump();
	S = w_conn(N)->m;
	login(isup, 0, 0, 0);
	w_srv_drain(S);
	srv(":me!mu@mh JOIN #x");
	srv(":srv.net 353 me = #x :%sme al @bo", isup == 1 ? "~" : "");
	srv(":srv.net 366 me #x :End");
}
static void finish(void)
{
	int i;
	char *a = rec_text(&net, -1);
	mc_outcome(mc_hash_str(a, MC_H0));
	g_free(a);
	for (i = 0; i < 2; i++) leave(i);
	rec_free(&net);
	w_teardown();
	w_end();
}
static void run(void)
{
	int part = mc_choose_l(3, "part"), i, n, isup;
	isup = mc_choose_l(part && !mc_tier ? 1 : 2, "features");
	if (part == 0) {
		/* a client attached from the start sees the events as they happen */
		static const char *nk[] = { "me", "other", "me2" };
		static const int some[] = { 0, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 19, 20, 21, 26, 27, 28, 30, 32, 33, 37, 38 };
		int nick = mc_choose_l(3, "nick");
		start(isup);
		attach(0, nk[nick]);
		n = mc_tier || nick == 0 ? 3 : 2;
		for (i = 0; i < n; i++) {
			event(n == 2 || mc_tier ? mc_choose_l(NEV, "event") : some[mc_choose_l(25, "event")]);
			look();
			if (i == 0) attach(1, "me");
		}
		mc_cover("live events");
	} else {
		static const int few[] = { 3, 7, 9, 13, 17, 19, 21, 26, 28, 30 };
		int taken, early, out;
		start(isup);
		attach(0, mc_choose_l(2, "nick") ? "other" : "me");
		n = part == 1 ? 1 : mc_tier ? 3 : 2;
		for (i = 0; i < n; i++) { event(few[mc_choose_l(i == 1 && !mc_tier ? 6 : 10, "event")]); look(); }
		taken = mc_choose_l(2, "nick in use");
		early = mc_choose_l(7, "while logging in");
		out = mc_choose_l(4, "rejoining");
		if (early == 6) attach(1, "me");
		lose();
		look();
		if (part == 1) {
			int when = mc_choose_l(3, "attaching");
			if (when == 1) attach(1, "me");
			if (when == 2) leave(0);
			look();
		}
		i = part == 1 ? mc_choose_l(2, "new features") : isup;
		if (part == 2 && mc_choose_l(2, "lost while logging in")) {
			/* another loss before the login is complete */
			reconnect(i, taken, early, 1);
			lose();
			look();
			early = 0;
		}
		reconnect(i, taken, early, 0);
		rejoin(out);
		look();
		event(few[mc_choose_l(part == 1 || mc_tier ? 10 : 2, "event")]);
		look();
		if (part == 1 && out == 0 && mc_choose_l(2, "again")) {
			lose();
			look();
			reconnect(isup, 0, 0, 0);
			rejoin(0);
			look();
		}
		mc_cover("reconnect");
	}
	finish();
}
static void init(void) { w_init(); init_admin(); init_replication(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P08", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "every sequence of 3 (thorough 4) of 40 server events seen live by two clients; every 1-2 (3) of 10 events, a lost connection, clients arriving or leaving at any point of it, a new login with the nick free or taken, with other features, with channels joined by the server, the channels rejoined, refused or incomplete, another event and another loss. Independent strict clients read what is sent and are compared with one reading what the server sent after every step" };
	return mc_main(argc, argv, &chk);
}
