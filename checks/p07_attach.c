/* P07: a client that attaches gets an accurate picture of the network state. */
#include "world.h"
#include "keyfile.h"
#include "rec.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);

static struct irc_network *N;
static struct mem *S;
static struct rec net, cl;
static int longname;
static const char *ISUP[] = {
	"PREFIX=(ov)@+ CHANTYPES=#& CHANMODES=beI,k,l,imnpst NETWORK=TestNet CASEMAPPING=rfc1459",
	"PREFIX=(qaohv)~&@%+ CHANTYPES=#&! CHANMODES=beI,kf,lj,imnpstrz NETWORK=TestNet CASEMAPPING=ascii STATUSMSG=@+ MODES=6 NICKLEN=30",
	"CALLERID CASEMAPPING=strict-rfc1459 KICKLEN=160 MODES=4 NICKLEN=15 PREFIX=(ov)@+ STATUSMSG=@+ TOPICLEN=350 CHANLIMIT=#&:15 CHANMODES=beI,k,l,imnpsta NETWORK=SomeRatherLongNameOfANetworkThatNobodyWouldEverChooseForTheirOwn CHANTYPES=#& EXCEPTS=e INVEX=I SILENCE=15 MAXLIST=beI:60 AWAYLEN=160 CHANNELLEN=200 ELIST=CMNTU SAFELIST MAXTARGETS=4 KNOCK WALLCHOPS USERIP CPRIVMSG CNOTICE",
	"NETWORK=TestNet NICKLEN=9",
};
#include "events.h"
static void attach(const char *nick)
{
	struct wcl *c = w_client(N, nick);
	const char *g;
	char *a, *b;
	int fl = 1 | 4 | 8 | 16;
	unsigned i;
	rec_init(&cl);
	while ((g = w_cl_next(c))) {
		/* what the proxy splits; a single text or name may be as long as the server made it */
		if (strlen(g) > 510 && (strstr(g, " 005 ") || (strstr(g, " 353 ") && strchr(strstr(g, " :"), ' ') && strchr(strstr(g, " :") + 1, ' ')))) mc_fail("a message of %d bytes is sent", (int)strlen(g) + 2);
		if (strstr(g, "(null)")) mc_fail("the client is sent %s", mc_esc(g));
		if (strstr(g, " 004 ") || strstr(g, " 254 ")) {
			/* what the server announced on login, possibly with modes from CHANMODES; the number of channels */
			struct irc_line *w = irc_parse_line(g);
			if (!strcmp(w->args[0], "004") && (w->argc != 6 || strcmp(w->args[4], "iwso") || strncmp(w->args[5], "biklmnopstve", 12)))
				mc_fail("the modes iwso and biklmnopstve are announced as %s", mc_esc(g));
			if (!strcmp(w->args[0], "254") && (w->argc < 3 || atoi(w->args[2]) != (int)net.ch->len))
				mc_fail("%d channels are announced as %s", (int)net.ch->len, mc_esc(g));
			free_line(w);
		}
		rec_feed(&cl, g);
	}
	if (cl.bad[0]) mc_fail("client: %s", mc_esc(cl.bad));
	MC_ASSERT(cl.welcome, "the client is not welcomed");
	a = rec_text(&net, fl); b = rec_text(&cl, fl);
	if (strcmp(a, b)) mc_fail("the network is\n%s, for the client it is\n%s", mc_esc(a), mc_esc(b));
	g_free(a); g_free(b);
	if (strcmp(net.pm, cl.pm) || strcmp(net.pc, cl.pc)) mc_fail("prefixes are (%s)%s instead of (%s)%s", cl.pm, cl.pc, net.pm, net.pc);
	if (strcmp(net.types, cl.types)) mc_fail("channel types are %s instead of %s", cl.types, net.types);
	if (net.map != cl.map) mc_fail("the case mapping is %d instead of %d", cl.map, net.map);
	w_srv_drain(S);
	/* asking for the modes: what the proxy answers itself is right */
	for (i = 0; i < net.ch->len; i++) {
		struct rchan *x = net.ch->pdata[i], *y;
		char *l;
		w_cl(c, "MODE %s", x->name);
		if ((l = w_srv_line(S))) { g_free(l); continue; }
		while ((g = w_cl_next(c))) rec_feed(&cl, g);
		y = rec_chan(&cl, x->name);
		if (!y) mc_fail("channel lost");
		strcpy(x->modes, x->modes);
		{
			char p[64], q[64]; int k;
			strcpy(p, x->modes); strcpy(q, y->modes);
			qsort(p, strlen(p), 1, rec_cmpc); qsort(q, strlen(q), 1, rec_cmpc);
			if (strcmp(p, q)) mc_fail("the modes of %s are given as %s instead of %s", x->name, q, p);
			for (k = 0; k < 256; k++) if (g_strcmp0(x->arg[k], y->arg[k])) mc_fail("the parameter of mode %c is given as %s instead of %s", k, y->arg[k], x->arg[k]);
		}
		mc_cover("modes answered");
	}
	if (cl.bad[0]) mc_fail("client: %s", mc_esc(cl.bad));
	a = rec_text(&cl, -1);
	mc_outcome(mc_hash_str(a, MC_H0));
	g_free(a);
	w_cl_leave(c);
	rec_free(&cl);
}
/* before: 0 or which features an earlier server announced, whose connection was lost */
static int before;
static void start(int isup)
{
	struct network_config *nc;
	char *l;
	w_begin();
	vt_reset();
	N = w_network(longname ? "anetworkwithsomeratherlongname" : "net", "me");
	nc = N->private_data;
	nc->ignore_first_nick = FALSE;
	if (before) {
		if (!connect_network(N)) mc_fail("connecting failed");
		pump();
		S = w_conn(N)->m;
		w_srv_drain(S);
		w_srv(S, ":srv.net 001 me :Welcome");
		w_srv(S, ":srv.net 004 me srv.net ircd-1 abcxyz ABC");
		w_srv(S, ":srv.net 005 me %s :are supported", ISUP[before - 1]);
		w_srv(S, ":srv.net 376 me :End");
		S->eof = S->hup = 1; pump();
		vt_advance((N->reconnect_interval + 2) * 1000); pump();
		MC_ASSERT(w_conn(N), "not connected again");
		S = w_conn(N)->m;
		w_srv_drain(S);
		w_login(S, "me", ISUP[isup]);
		w_srv_drain(S);
	} else S = w_up(N, "me", ISUP[isup]);
	rec_init(&net);
	rec_feed(&net, ":srv.net 001 me :x");
	l = g_strdup_printf(":srv.net 005 me %s :are supported", ISUP[isup]);
	rec_feed(&net, l);
	g_free(l);
}
static void run(void)
{
	int part = mc_choose_l(5, "part"), isup, i, n;
	static const char *nicks[] = { "me", "other", "ME", "me2" };
	isup = mc_choose_l(part == 4 ? 4 : 3, "features");
	before = part == 4 ? 1 + mc_choose_l(4, "features before") : 0;
	longname = part == 3 && mc_choose_l(2, "name");
	if (part <= 1 || part == 4) {
		/* part 0: up to two (thorough three) events on top of a joined channel; part 1: more of them, from a smaller set */
		static const int few[] = { 0, 3, 7, 8, 11, 13, 15, 19, 21, 24, 26, 28, 30, 32 };
		int nick = mc_choose_l(part == 1 ? 2 : part ? 1 : 4, "nick");
		start(isup);
		if (part < 4 && mc_choose_l(2, "address")) srv(":srv.net 302 me :me=+mu@mh");
		srv(":me!mu@mh JOIN #x");
		srv(":srv.net 353 me = #x :%sme al @bo", isup == 1 ? "~" : "");
		srv(":srv.net 366 me #x :End");
		if (part == 0) {
			n = mc_tier ? 3 : 2;
			for (i = 0; i < n; i++) event(mc_choose_l(NEV, "event"));
		} else {
			n = part == 4 ? 1 + mc_tier : mc_tier ? 5 : 3;
			for (i = 0; i < n; i++) event(few[mc_choose_l(14, "event")]);
		}
		attach(nicks[nick]);
		mc_cover(part == 4 ? "second connection" : part ? "more events" : "events");
	} else if (part == 2) {
		/* many people: every length of the list around the limits */
		static const int nl[] = { 1, 4, 9, 15, 30, 60 }, cn[] = { 2, 30, 120, 200 };
		int len = nl[mc_choose_l(6, "length of nicks")], ch = cn[mc_choose_l(4, "length of the channel")], max, k, pre = mc_choose_l(3, "status");
		char c[300], b[400];
		GString *g;
		start(isup);
		memset(c, 'c', sizeof(c)); c[0] = '#'; c[ch] = 0;
		max = mc_choose_l(mc_tier ? 130 : 70, "people");
		if (len == 1 && max > 25) max = 25;
		srv(":me!mu@mh JOIN %s", c);
		g = g_string_new("me");
		for (i = 0; i < max; i++) {
			memset(b, 'n', sizeof(b));
			if (len == 1) b[0] = 'a' + i, b[1] = 0;
			else { k = sprintf(b, "a%02x", i); if (len == 4) b[k++] = 'z', b[k] = 0; else { b[k] = 'n'; b[len] = 0; } }
			g_string_append_printf(g, " %s%s", pre == 1 ? "@" : pre == 2 && i % 3 == 0 ? "+" : "", b);
			if (g->len + strlen(c) > 400) { srv(":srv.net 353 me = %s :%s", c, g->str); g_string_truncate(g, 0); }
		}
		if (g->len) srv(":srv.net 353 me = %s :%s", c, g->str[0] == ' ' ? g->str + 1 : g->str);
		g_string_free(g, TRUE);
		srv(":srv.net 366 me %s :End", c);
		attach("me");
		mc_cover("many people");
	} else {
		/* names and topics as long as they can be, many channels */
		int k = mc_choose_l(4, "what"), len;
		char b[600];
		start(isup);
		srv(":me!mu@mh JOIN #x");
		if (k == 0) {
			len = 380 + mc_choose_l(100, "length");
			memset(b, 't', sizeof(b)); b[len] = 0;
			srv(":srv.net 332 me #x :%s", b);
		} else if (k == 1) {
			len = 1 + mc_choose_l(470, "length");
			memset(b, 'n', sizeof(b)); b[len] = 0;
			rec_feed(&net, ":srv.net 353 me = #x :me"); w_srv(S, ":srv.net 353 me = #x :me");
			srv(":%s JOIN #x", b);
		} else if (k == 2) {
			len = 1 + mc_choose_l(440, "length");
			memset(b, 'c', sizeof(b)); b[0] = '#'; b[len + 1] = 0;
			srv(":me!mu@mh JOIN %s", b);
			srv(":s 353 me = %s :me al", b);
			srv(":s 366 me %s :End", b);
		} else {
			len = mc_choose_l(60, "channels");
			for (i = 0; i < len; i++) { srv(":me!mu@mh JOIN #c%d", i); if (i % 3 == 0) srv(":srv.net 332 me #c%d :topic %d", i, i); if (i % 2) srv(":srv.net 353 me = #c%d :@me al", i); }
		}
		attach(mc_choose_l(2, "nick") ? "other" : "me");
		mc_cover("long names");
	}
	rec_free(&net);
	w_teardown();
	w_end();
}
static void init(void) { w_init(); init_admin(); init_replication(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P07", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "every sequence of 2 (thorough 3) of 40 server events and of 3 (5) of 14 on top of a joined channel, three feature sets and four nicks of the client, then a client attaches; names lists of 0-69 (129) people with nicks of 1-60 characters in channels with names of 2-200; topics, nicks and channel names of every length up to the limit; up to 59 channels. An independent strict client reads what is sent and is compared with one reading what the server sent" };
	return mc_main(argc, argv, &chk);
}
