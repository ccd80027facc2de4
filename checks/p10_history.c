/* P10: the state at any point of the backlog can be reconstructed. */
#include "world.h"
#include "dump.h"
#include "linestack.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
/* %L is replaced by a long name */
static const char *E[] = {
	":me!myuser@my.host JOIN #x",
	":srv.net 353 me = #x :@me +al bob",
	":srv.net 366 me #x :End",
	":me!myuser@my.host JOIN &y[",
	":srv.net 353 me @ &Y{ :me @+al carl_long_nick_name",
	":al!au@ah JOIN #x",
	":dave!~d@some.host.example JOIN #X",
	":al!au@ah MODE #x +ov bob me",
	":al!au@ah MODE #x -o+b al *!*@evil",
	":al!au@ah MODE #x +beI a!b@c d e",
	":al!au@ah MODE #x -b+k *!*@evil key:with:colons",
	":al!au@ah MODE #x +lim 10",
	":al!au@ah MODE #x -kl key:with:colons",
	":al!au@ah TOPIC #x :topic\twith: \303\274\377 odd bytes ",
	":al!au@ah TOPIC #x :",
	":srv.net 332 me #x :known topic",
	":srv.net 333 me #x al 1234567890",
	":srv.net 331 me #x :No topic is set",
	":srv.net 324 me #x +ntk sesame",
	":srv.net 329 me #x 999999999",
	":al!au@ah NICK carol",
	":me!myuser@my.host NICK moi",
	":al!au@ah PART #x :bye",
	":al!au@ah KICK #x bob :out",
	":bob!bu@bh QUIT :gone",
	":al!au@ah KICK #x me :out",
	":me!myuser@my.host MODE me :+iw",
	":al!au@ah PRIVMSG #x :text",
	":me!myuser@my.host PART &y[",
	":me!myuser@my.host JOIN #%L",
	":srv.net 353 me = #x :~q.{}|nick&al",
};
#define NE ((int)(sizeof(E)/sizeof(E[0])))
static const char *SUP[] = { NULL,
	"PREFIX=(qaohv)~&@%+ CHANTYPES=#& CHANMODES=beI,k,l,imnpst NETWORK=Other CASEMAPPING=ascii NAMESX",
	"PREFIX=(ov)@+ CHANTYPES=#& CHANMODES=b,kI,le,imnpst NETWORK=Third CASEMAPPING=strict-rfc1459 NICKLEN=30 MODES=3" };
#define MAXP 12
static struct { guint64 at; char *dump; } P[MAXP];
static int np;
static struct irc_network *n;
static char longname[] = "channel_with_a_name_of_a_hundred_characters_that_goes_on_and_on_and_on_until_the_very_end_of_the_name_";

static void point(void)
{
	linestack_marker m = linestack_get_marker(n->linestack);
	P[np].at = *m;
	P[np].dump = state_dump(n->external_state);
	np++;
	linestack_free_marker(m);
}
static void check(guint64 *m, const char *want, const char *what)
{
	struct irc_network_state *s = linestack_get_state(n->linestack, m);
	char *g;
	if (!s) mc_fail("the state %s can not be reconstructed", what);
	g = state_dump(s);
	if (strcmp(g, want)) mc_fail("the state %s is not what it was then: %s", what, mc_esc(dump_diff(want, g)));
	g_free(g);
	free_network_state(s);
	mc_step();
}
static void fill(int k)
{
	static struct irc_line *f;
	if (!f) f = irc_parse_line(":zed!z@z PRIVMSG nobody :filler");
	mc_trace("%d messages are stored", k);
	while (k--) if (!linestack_insert_line(n->linestack, f, FROM_SERVER, n->external_state)) mc_fail("storing fails");
}
static void ev(struct mem *m, int k)
{
	const char *p = strstr(E[k], "%L");
	if (p) w_srv(m, "%.*s%s", (int)(p - E[k]), E[k], longname);
	else w_srv(m, "%s", E[k]);
}
static void run(void)
{
	struct mem *m;
	struct wconn *wc;
	int i, k, ne, fillat, pre, sup, longreplay = 0;
	struct wcl *c = NULL;
	uint64_t h = MC_H0;
	w_begin();
	np = 0;
	sup = mc_choose_l(3, "server features");
	/* 1: joined before the end of the greeting, 2: a client asks */
	pre = mc_tier || sup == 0 ? mc_choose_l(3, "before") : 0;
	ne = mc_tier ? 3 : 2;
	fillat = ne - mc_choose_l(ne + 1, "snapshot"); /* before the i-th event; ne: never */
	n = w_network("net", "me");
	if (!connect_network(n)) mc_fail("connecting failed");
	pump();
	wc = w_conn(n);
	m = wc->m;
	w_srv(m, ":srv.net 001 me :Welcome me!myuser@my.host");
	w_srv(m, ":srv.net 005 me %s :are supported", SUP[sup] ? SUP[sup] : "PREFIX=(ov)@+ CHANTYPES=#& CHANMODES=beI,k,l,imnpst NETWORK=TestNet CASEMAPPING=rfc1459");
	if (pre == 1) { ev(m, 0); ev(m, 1); w_srv(m, ":me!myuser@my.host MODE me :+x"); }
	w_srv(m, ":srv.net 376 me :End of /MOTD command.");
	if (pre != 1) { ev(m, 0); ev(m, 1); ev(m, 2); }
	if (pre == 2) { c = w_client(n, "me"); w_cl(c, "MODE #x"); w_cl(c, "TOPIC #x"); w_cl(c, "NAMES #x"); }
	w_srv_drain(m);
	point();
	for (i = 0; i < ne; i++) {
		if (fillat == i) {
			/* the next snapshot is due at the message before, at, or after this event */
			int at = 998 + (mc_tier || fillat == 0 ? mc_choose_l(3, "offset") : 1);
			guint64 *mk = linestack_get_marker(n->linestack);
			if (at > (int)*mk) fill(at - *mk);
			g_free(mk);
		}
		k = mc_choose_l(NE, "event");
		ev(m, k);
		point();
		if (i == 0) longreplay = k % 6 == 0;
	}
	/* something fixed after it all */
	ev(m, 8); point();
	fill(3);
	if (!mc_tier || fillat != 0) { ev(m, 13); point(); }
	for (i = 0; i < np; i++) {
		char what[60];
		/* a long replay takes long: only some of them */
		if (fillat < ne && P[i].at > 900 && P[i].at < 1000 && (i > 1 || !longreplay)) continue;
		sprintf(what, "at message %d", (int)P[i].at);
		check(&P[i].at, P[i].dump, what);
		h = mc_hash_str(P[i].dump, h);
	}
	check(NULL, P[np - 1].dump, "now");
	{ guint64 z = 0; struct irc_network_state *s = linestack_get_state(n->linestack, &z); MC_ASSERT(s, "the state at the start can not be reconstructed"); free_network_state(s); }
	mc_outcome(h);
	for (i = 0; i < np; i++) g_free(P[i].dump);
	mc_cover(fillat < ne ? "across a snapshot" : "without a snapshot");
	w_teardown();
	w_end();
}
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P10", .init = w_init, .run = run, .batch = 20, .hang_secs = 30,
		.rule = "3 feature sets of the server x joined before/after logging in or with a client asking for the records x every sequence of 2 (thorough 3) events over 31 (joins, NAMES, modes, keys, limits, lists, topics with any bytes, nick changes, parts, kicks, quits, long names) x the periodic snapshot just before, at or after an event or not at all; the state is reconstructed at every point in between" };
	return mc_main(argc, argv, &chk);
}
