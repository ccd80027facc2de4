/* P13: replies reach the client that asked, and only that client. */
#include "world.h"
#include "keyfile.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

/* A query and what the server sends for it, in order. '>' lines are replies for
 * the asker only, '*' lines are for everybody. %s: own nick */
struct q { const char *q; const char *r[5]; };
static const struct q Q[] = {
	{ "WHOIS al", { ">311 %s al u h * :real", ">312 %s al srv.net :x", ">318 %s al :End" } },
	{ "WHOIS nobody", { ">401 %s nobody :No such nick", ">318 %s nobody :End" } },
	{ "PRIVMSG al :hi", { NULL } },
	{ "PRIVMSG nobody :hi", { ">401 %s nobody :No such nick" } },
	{ "PRIVMSG gone :hi", { ">301 %s gone :I am away" } },
	{ "MODE #x", { ">324 %s #x +nt" } },
	{ "MODE #x +b", { ">367 %s #x a!*@* al 5", ">368 %s #x :End" } },
	{ "MODE #x e", { ">348 %s #x e!*@*", ">349 %s #x :End" } },
	{ "MODE #x +I", { ">346 %s #x i!*@*", ">347 %s #x :End" } },
	{ "TOPIC #x :", { "*:%s!mu@mh TOPIC #x :" } },
	{ "TOPIC #x", { ">332 %s #x :topic" } },
	{ "MODE #x +o al", { "*:%s!mu@mh MODE #x +o al" } },
	{ "MODE #x +o nobody", { ">401 %s nobody :No such nick" } },
	{ "MODE #z +t", { ">482 %s #z :You're not channel operator" } },
	{ "TOPIC #z", { ">331 %s #z :No topic is set" } },
	{ "TOPIC #x :new", { "*:%s!mu@mh TOPIC #x :new" } },
	{ "TOPIC #z :new", { ">482 %s #z :You're not channel operator" } },
	{ "TOPIC #n :new", { ">403 %s #n :No such channel" } },
	{ "JOIN #y", { "*:%s!mu@mh JOIN #y", "*332 %s #y :topic", "*353 %s = #y :%s al", "*366 %s #y :End" } },
	{ "JOIN #bad", { ">473 %s #bad :Cannot join channel (+i)" } },
	{ "PART #n", { ">403 %s #n :No such channel" } },
	{ "NAMES #x", { ">353 %s = #x :%s @al", ">366 %s #x :End" } },
	{ "WHO #x", { ">352 %s #x u h srv.net al H :0 real", ">315 %s #x :End" } },
	{ "WHO al", { ">352 %s #y u h srv.net al H :0 real", ">315 %s al :End" } },
	{ "LIST", { ">322 %s #x 3 :topic", ">323 %s :End" } },
	{ "LIST #x", { ">263 %s LIST :Please wait" } },
	{ "USERHOST al", { ">302 %s :al=+u@h" } },
	{ "FOO bar", { ">421 %s FOO :Unknown command" } },
	{ "BAR", { NULL } },
	{ "SUMMON", { ">421 %s SUMMON :Unknown command" } },
	{ "WHOIS", { ">431 %s :No nickname given" } },
	{ "NICK taken", { ">433 %s taken :Nickname is already in use" } },
	{ "AWAY :gone", { ">306 %s :You have been marked as being away" } },
	{ "KICK #x nobody", { ">441 %s nobody #x :They aren't on that channel" } },
	{ "INVITE al #x", { ">341 %s al #x" } },
	{ "STATS u", { ">242 %s :Server Up 1 days", ">219 %s u :End" } },
	{ "VERSION", { ">351 %s ircd-1 srv.net :x" } },
	{ "TIME", { ">391 %s srv.net :now" } },
	{ "MOTD", { ">375 %s :- motd", ">372 %s :- x", ">376 %s :End" } },
	{ "WHOWAS nobody", { ">406 %s nobody :There was no such nickname", ">369 %s nobody :End" } },
	{ "KICK", { ">461 %s KICK :Not enough parameters" } },
	{ "NOTICE nobody :x", { NULL } },
};
#define NQ ((int)(sizeof(Q)/sizeof(Q[0])))
static struct irc_network *N;
/* the replies the protocol lists for each command: "query|answer;answer" */
static const char *const RFC[] = {
	"WHOIS al|311 %s al u h * :r;301 %s al :gone;319 %s al :@#x;312 %s al srv :s;313 %s al :is an operator;317 %s al 5 6 :idle;307 %s al :identified;330 %s al acc :is;671 %s al :secure;276 %s al :fp;378 %s al :from;379 %s al :modes;320 %s al :id;326 %s al :privs;309 %s al :srv;308 %s al :op;275 %s al :ssl;338 %s al 1.2.3.4 :ip;318 %s al :End",
	"WHOIS zz al|402 %s zz :No such server",
	"WHOIS|431 %s :No nickname given",
	"WHO #x|352 %s #x u h srv al H :0 r;352 %s #x u h srv bo G :0 r;315 %s #x :End",
	"WHO al|352 %s * u h srv al H :0 r;315 %s al :End",
	"NAMES #x|353 %s = #x :me al;353 %s = #x :bo;366 %s #x :End",
	"NAMES #x zz|402 %s zz :No such server",
	"LIST|321 %s Channel :Users;322 %s #x 3 :t;322 %s #y 2 :t;323 %s :End",
	"LIST #x zz|402 %s zz :No such server",
	"LIST *|416 %s LIST :Too many",
	"TOPIC #x|332 %s #x :t",
	"TOPIC #y|331 %s #y :No topic",
	"TOPIC #y|442 %s #y :not on",
	"TOPIC #y|403 %s #y :No such channel",
	"TOPIC #x :n|482 %s #x :not op",
	"TOPIC #y :n|442 %s #y :not on",
	"TOPIC|461 %s TOPIC :Not enough",
	"WHOWAS al|314 %s al u h * :r;312 %s al srv :time;314 %s al u2 h * :r;312 %s al srv :time;369 %s al :End",
	"WHOWAS al|406 %s al :no;369 %s al :End",
	"WHOWAS|431 %s :No nickname given",
	"STATS l|211 %s l 1 2 3 4 5 :6;219 %s l :End",
	"STATS m|212 %s PING 3;212 %s PONG 3;219 %s m :End",
	"STATS c|213 %s C h * n 1 2;214 %s N h * n 1 2;219 %s c :End",
	"STATS i|215 %s I h * h 1 2;219 %s i :End",
	"STATS k|216 %s K h * u 1 2;219 %s k :End",
	"STATS h|244 %s H h * n;241 %s L h * n 3;219 %s h :End",
	"STATS o|243 %s O h * n;219 %s o :End",
	"STATS u|242 %s :Server Up 1;219 %s u :End",
	"STATS u zz|402 %s zz :No such server",
	"VERSION|351 %s v srv :c",
	"VERSION zz|402 %s zz :No such server",
	"LINKS|364 %s * srv :0 s;364 %s a srv :1 s;365 %s * :End",
	"LINKS zz *|402 %s zz :No such server",
	"TIME zz|402 %s zz :No such server",
	"TRACE al|205 %s User 1 al",
	"TRACE|200 %s Link v d n;201 %s Try. 1 s;202 %s H.S. 1 s;203 %s ???? 1 a;204 %s Oper 1 a;206 %s Serv 1 a;208 %s new 0 a",
	"TRACE zz|402 %s zz :No such server",
	"SUMMON u|342 %s u :Summoning",
	"SUMMON u|444 %s u :not logged in",
	"SUMMON u|424 %s :File error",
	"SUMMON|411 %s :No recipient",
	"USERS|392 %s :UserID;393 %s :u t h;394 %s :End",
	"USERS|392 %s :UserID;395 %s :Nobody;394 %s :End",
	"USERS|446 %s :disabled",
	"USERHOST al|302 %s :al=+a@b",
	"USERHOST|461 %s USERHOST :Not enough",
	"ISON al bo|303 %s :al",
	"ISON|461 %s ISON :Not enough",
	"JOIN|461 %s JOIN :Not enough",
	"JOIN #q|474 %s #q :banned",
	"JOIN #q|473 %s #q :invite",
	"JOIN #q|475 %s #q :key",
	"JOIN #q|471 %s #q :full",
	"JOIN #q|476 %s #q :mask",
	"JOIN #q|403 %s #q :No such channel",
	"JOIN #q|405 %s #q :too many",
	"PART|461 %s PART :Not enough",
	"PART #q|403 %s #q :No such channel",
	"PART #q|442 %s #q :not on",
	"NICK|431 %s :No nickname given",
	"NICK 1a|432 %s 1a :Erroneous",
	"NICK al|433 %s al :in use",
	"NICK al|437 %s al :unavailable",
	"NICK al|436 %s al :collision",
	"NICK x|484 %s :restricted",
	"NICK x|438 %s x :too fast",
	"OPER a b|381 %s :You are",
	"OPER a b|491 %s :No O-lines",
	"OPER a b|464 %s :Password",
	"OPER|461 %s OPER :Not enough",
	"MODE me|221 %s +i",
	"MODE #x|324 %s #x +nt",
	"MODE #x b|367 %s #x *!*@a;367 %s #x *!*@b;368 %s #x :End",
	"MODE #x e|348 %s #x *!*@a;349 %s #x :End",
	"MODE #x I|346 %s #x *!*@a;347 %s #x :End",
	"MODE #x +z|472 %s z :unknown",
	"MODE #x +k k|467 %s #x :set",
	"MODE #x +k k|482 %s #x :not op",
	"MODE #x +o zz|441 %s zz #x :not there",
	"MODE #x +o zz|401 %s zz :No such nick",
	"MODE #q +t|403 %s #q :No such channel",
	"MODE +q +t|477 %s +q :no modes",
	"MODE me +z|501 %s :Unknown flag",
	"MODE al +i|502 %s :Cannot",
	"MODE|461 %s MODE :Not enough",
	"SQUIT zz :c|402 %s zz :No such server",
	"SQUIT zz :c|481 %s :denied",
	"INVITE al #x|341 %s al #x",
	"INVITE al #x|482 %s #x :not op",
	"INVITE al #q|442 %s #q :not on",
	"INVITE zz #x|401 %s zz :No such nick",
	"INVITE al #x|443 %s al #x :is on",
	"INVITE|461 %s INVITE :Not enough",
	"KICK|461 %s KICK :Not enough",
	"KICK #q al|403 %s #q :No such channel",
	"KICK #q al|476 %s #q :mask",
	"KICK #x zz|441 %s zz #x :not there",
	"KICK #x al|482 %s #x :not op",
	"KICK #q al|442 %s #q :not on",
	"PRIVMSG al :x|301 %s al :gone",
	"PRIVMSG|411 %s :No recipient",
	"PRIVMSG al|412 %s :No text",
	"PRIVMSG #q :x|404 %s #q :Cannot",
	"PRIVMSG $x :x|413 %s x :toplevel",
	"PRIVMSG $* :x|414 %s * :wildcard",
	"PRIVMSG a,b :x|407 %s a,b :too many",
	"PRIVMSG zz :x|401 %s zz :No such nick",
	"PRIVMSG #q :x|403 %s #q :No such channel",
	"MOTD|375 %s :start;372 %s :line;372 %s :line;376 %s :End",
	"MOTD|422 %s :No MOTD",
	"LUSERS|251 %s :users;252 %s 1 :ops;253 %s 1 :unknown;254 %s 2 :channels;255 %s :clients",
	"LUSERS * zz|402 %s zz :No such server",
	"CONNECT zz|402 %s zz :No such server",
	"CONNECT zz|481 %s :denied",
	"CONNECT|461 %s CONNECT :Not enough",
	"ADMIN|256 %s srv :info;257 %s :a;258 %s :b;259 %s :c",
	"ADMIN zz|402 %s zz :No such server",
	"INFO|371 %s :a;371 %s :b;374 %s :End",
	"INFO zz|402 %s zz :No such server",
	"SERVLIST|234 %s a b c d 1 :i;235 %s * * :End",
	"SQUERY zz :x|401 %s zz :No such nick",
	"SQUERY al :x|301 %s al :gone",
	"SQUERY|411 %s :No recipient",
	"SQUERY a|412 %s :No text",
	"KILL zz :c|401 %s zz :No such nick",
	"KILL al :c|481 %s :denied",
	"KILL srv :c|483 %s :cannot",
	"KILL|461 %s KILL :Not enough",
	"AWAY|305 %s :back",
	"AWAY :x|306 %s :away",
	"REHASH|382 %s f :Rehashing",
	"REHASH|481 %s :denied",
	"DIE|481 %s :denied",
	"RESTART|481 %s :denied",
	"WALLOPS|461 %s WALLOPS :Not enough",
	"FROB x|421 %s FROB :Unknown command",
	"FROB|421 %s FROB :Unknown command",
	"WHOIS al|263 %s WHOIS :busy",
	"WHO #x|263 %s WHO :busy",
	"NAMES #x|263 %s NAMES :busy",
	"LIST|263 %s LIST :busy",
	"LUSERS|263 %s LUSERS :busy",
};
#define NRFC ((int)(sizeof(RFC)/sizeof(RFC[0])))
static struct mem *S;
static struct wcl *C[3];
static int gone[3];
static struct { int c, q, at; } out[16];
static int nout, first;

static int find(const char *q)
{
	int i;
	for (i = 0; i < (int)(sizeof(Q)/sizeof(Q[0])); i++) if (!strcmp(Q[i].q, q)) return i;
	abort();
}
static char *fill(const char *f) { return g_strdup_printf(f, "me", "me"); }
static void expect(int i, const char *want)
{
	const char *g = w_cl_next(C[i]);
	struct irc_line *a, *b;
	int j, same;
	if (!g) mc_fail("client %d is not sent %s", i, mc_esc(want));
	a = irc_parse_line(g); b = irc_parse_line(want);
	/* the user's own address is shown as that client program knows it */
	same = a->argc == b->argc && (streq(a->origin, b->origin) || (!strncmp(b->origin, "me!", 3) && a->origin && !strncmp(a->origin, "me!", 3)));
	for (j = 0; same && j < a->argc; j++) same = !strcmp(a->args[j], b->args[j]);
	if (!same) mc_fail("client %d is sent %s instead of %s", i, mc_esc(g), mc_esc(want));
	free_line(a); free_line(b);
}
static void look(struct wcl *c)
{
	w_cl_drain(c);
	/* remarks of the proxy itself are not replies */
	while (c->seen < c->lines->len && strstr(c->lines->pdata[c->seen], "NOTICE * :")) c->seen++;
}
static void settled(void)
{
	int i;
	for (i = 0; i < 3; i++) if (C[i] && !gone[i]) {
		const char *g = w_cl_next(C[i]);
		if (g) mc_fail("client %d is sent %s, which is not for it", i, mc_esc(g));
	}
}
static void ask(int c, int k)
{
	char *l;
	if (gone[c]) return;
	w_cl(C[c], "%s", Q[k].q);
	l = w_srv_line(S);
	if (!l) mc_fail("the query does not reach the server");
	if (strcmp(l, Q[k].q)) mc_fail("the server is sent %s instead of %s", mc_esc(l), Q[k].q);
	g_free(l);
	l = w_srv_line(S);
	if (l) mc_fail("the server is sent %s as well", mc_esc(l));
	out[nout].c = c; out[nout].q = k; out[nout].at = 0; nout++;
	/* what is said is shown to the other clients; not looked at here */
	{ int i; for (i = 0; i < 3; i++) if (C[i] && !gone[i]) { look(C[i]); if (!strncmp(Q[k].q, "PRIVMSG", 7) || !strncmp(Q[k].q, "NOTICE", 6)) w_cl_skip(C[i]); } }
	settled();
}
/* the server sends its next line; 0: it has nothing to say */
static int answer(void)
{
	while (first < nout && Q[out[first].q].r[out[first].at] == NULL) first++;
	if (first >= nout) return 0;
	{
		const char *r = Q[out[first].q].r[out[first].at++];
		char *t = fill(r + 1), *f = t[0] == ':' ? g_strdup(t) : g_strdup_printf(":srv.net %s", t);
		int i;
		w_srv(S, "%s", f);
		for (i = 0; i < 3; i++) if (C[i] && !gone[i]) {
			look(C[i]);
			if (r[0] == '*' || i == out[first].c) expect(i, f);
		}
		settled();
		g_free(t); g_free(f);
	}
	return 1;
}
static void attach(int i)
{
	C[i] = w_client(N, "me");
	w_cl_drain(C[i]);
	w_cl_skip(C[i]);
}
static void run(void)
{
	int i, part, when, n;
	w_begin();
	vt_reset();
	C[0] = C[1] = C[2] = NULL;
	gone[0] = gone[1] = gone[2] = nout = first = 0;
	part = mc_choose_l(5, "part");
	N = w_network("net", "me");
	{ struct network_config *nc = N->private_data; nc->disable_cache = TRUE; }
	S = w_up(N, "me", NULL);
	if (part != 3) w_srv(S, ":srv.net 302 me :me=+mu@mh");
	w_srv(S, ":me!mu@mh JOIN #x");
	w_srv(S, ":srv.net 353 me = #x :me @al");
	w_srv(S, ":srv.net 366 me #x :End");
	w_srv(S, ":me!mu@mh JOIN #z");
	w_srv_drain(S);
	attach(0); attach(1);
	w_cl_skip(C[0]);
	if (part == 0) {
		/* two queries, the answers at any time and in pieces, clients leaving */
		int leave = mc_choose_l(4, "leaver"), lw = leave < 3 ? mc_choose_l(3, "when") : 0;
		when = mc_choose_l(3, "answers");
		ask(0, mc_choose_l(NQ, "first"));
		if (when == 1) answer();
		if (when == 2) while (answer());
		if (leave < 2 && lw == 0) { w_cl_leave(C[leave]); pump(); gone[leave] = 1; }
		if (leave == 2 && lw == 0) attach(2);
		ask(1, mc_choose_l(NQ, "second"));
		if (leave < 2 && lw == 1 && !gone[leave]) { w_cl_leave(C[leave]); pump(); gone[leave] = 1; }
		if (leave == 2 && lw == 1) attach(2);
		if (lw == 2) {
			answer();
			if (leave < 2) { w_cl_leave(C[leave]); pump(); gone[leave] = 1; }
			if (leave == 2) attach(2);
		}
		mc_cover("two queries");
	} else if (part == 1) {
		/* three queries */
		int pat = mc_choose_l(mc_tier ? 3 : 2, "askers");
		static const int who[3][3] = { { 0, 1, 0 }, { 0, 1, 1 }, { 0, 0, 1 } };
		when = mc_choose_l(mc_tier ? 4 : 1, "answers");
		for (i = 0; i < 3; i++) {
			ask(who[pat][i], i == 2 && !mc_tier ? 3 * mc_choose_l(NQ / 3, "query") : mc_choose_l(NQ, "query"));
			if (when & 1) answer();
			if (when & 2) while (answer());
		}
		mc_cover("three queries");
	} else if (part == 2) {
		/* what was not answered is not confused with later answers, also much later */
		int k = mc_choose_l(NQ, "query");
		n = mc_choose_l(3, "messages") * 20;
		for (i = 0; i < n; i++) { ask(0, find(i & 1 ? "PRIVMSG al :hi" : "NOTICE nobody :x")); nout = first = 0; vt_skip(30000); }
		MC_ASSERT(g_list_length(N->queries->entries) <= 25, "%d unanswered messages are kept", g_list_length(N->queries->entries));
		ask(1, k);
		while (answer());
		ask(0, k);
		mc_cover("many messages");
	} else if (part == 4) {
		/* each reply of the protocol to each query; another query before or after, a third one at the end */
		static const char *const other[] = { NULL, "TIME", "WHO al", "PRIVMSG al :hi" };
		int k = mc_choose_l(NRFC, "query"), c = mc_choose_l(2, "asker"), b = mc_choose_l(4, "before"), a = mc_choose_l(4, "after");
		char **qa = g_strsplit(RFC[k], "|", 2), **r = g_strsplit(qa[1], ";", 0), *l;
		/* who of two that said something is told what was wrong can't be known */
		if (b == 3 && strchr("PSI", qa[0][0])) b = 0;
		if (b) { ask(!c, find(other[b])); }
		w_cl(C[c], "%s", qa[0]);
		l = w_srv_line(S);
		if (!l || strcmp(l, qa[0])) mc_fail("the server is sent %s instead of %s", l ? mc_esc(l) : "nothing", qa[0]);
		g_free(l);
		for (i = 0; i < 2; i++) { look(C[i]); if (g_str_has_prefix(qa[0], "PRIVMSG")) w_cl_skip(C[i]); }
		settled();
		if (a) { ask(!c, find(other[a])); }
		/* what was asked before is answered before */
		{ int was = nout, j; nout = b ? 1 : 0; while (answer()); nout = was;
		for (j = 0; r[j]; j++) {
			char *t = fill(r[j]), *f = g_strdup_printf(":srv.net %s", t);
			w_srv(S, "%s", f);
			look(C[0]); look(C[1]);
			expect(c, f);
			settled();
			g_free(t); g_free(f);
		} }
		while (answer());
		ask(!c, find("TIME"));
		ask(c, find("WHO al"));
		mc_outcome(mc_hash_str(RFC[k], MC_H0));
		g_strfreev(qa); g_strfreev(r);
		mc_cover("protocol replies");
	} else {
		/* the proxy's own question and unasked replies */
		int k = mc_choose_l(NQ, "query"), k2 = mc_choose_l(NQ, "query");
		ask(0, k);
		ask(1, k2);
		w_srv(S, ":srv.net 302 me :me=+mu@mh");
		look(C[0]); look(C[1]);
		settled();
		while (answer());
		w_srv(S, ":srv.net 404 me #x :Cannot send to channel");
		look(C[0]); look(C[1]);
		expect(0, ":srv.net 404 me #x :Cannot send to channel");
		expect(1, ":srv.net 404 me #x :Cannot send to channel");
		mc_cover("own query");
	}
	while (answer());
	{ uint64_t h = MC_H0; for (i = 0; i < nout; i++) h = mc_hash_str(Q[out[i].q].q, h); mc_outcome(h); }
	for (i = 0; i < 3; i++) if (C[i] && !gone[i]) w_cl_leave(C[i]);
	pump();
	w_teardown();
	w_end();
}
static void init(void) { w_init(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P13", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "42 queries with the server's answers (none, one, several lines, errors, broadcast): every pair asked by two clients with every timing of the answers and a client leaving or arriving at any point; every triple (quick: every third query as the last) asked by two clients in two (thorough three) patterns; 144 answers the protocol lists, with another query before and after; unanswered messages before, the proxy's own query" };
	return mc_main(argc, argv, &chk);
}
