/* P15: what the proxy answers itself is what the server would have said. */
#include "world.h"
#include "keyfile.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

/* the truth, kept by the server */
struct mb { char nick[16], user[16], host[32], real[32]; int status, in; };  /* status: 0, '+', '@' */
struct truth { struct mb m[5]; int on; char topic[32], setter[32]; long ttime; char key[8]; int limit, inv; char ban[3][32]; int created; };
static struct truth T, known;     /* now; when the last delivered line was sent */
static struct { char *line; struct truth t; } wire[200];
static int nwire, at;
static struct irc_network *N;
static struct mem *S;
static struct wcl *C[2];
static int off, isup;

static void __attribute__((format(printf,1,2))) send_(const char *f, ...)
{
	va_list ap;
	va_start(ap, f);
	wire[nwire].line = g_strdup_vprintf(f, ap);
	wire[nwire].t = T;
	nwire++;
	va_end(ap);
}
static void deliver(int n)
{
	for (; n > 0 && at < nwire; n--, at++) {
		known = wire[at].t;
		w_srv(S, "%s", wire[at].line);
	}
}
static struct mb *who(const char *nick)
{
	int i;
	for (i = 0; i < 5; i++) if (T.m[i].nick[0] && !strcasecmp(T.m[i].nick, nick)) return &T.m[i];
	return NULL;
}
static void set(int i, const char *nick, const char *user, const char *host, const char *real, int st, int in)
{
	struct mb *m = &T.m[i];
	strcpy(m->nick, nick); strcpy(m->user, user); strcpy(m->host, host); strcpy(m->real, real);
	m->status = st; m->in = in;
}
/* all answers as the server gives them, in a comparable form */
static void ans_names(const struct truth *t, GString *o)
{
	GPtrArray *a = g_ptr_array_new();
	int i;
	for (i = 0; i < 5; i++) if (t->m[i].in) g_ptr_array_add(a, g_strdup_printf("%.1s%s", t->m[i].status == '@' ? "@" : t->m[i].status == '+' ? "+" : "", t->m[i].nick));
	for (i = 0; i < (int)a->len; i++) g_string_append_printf(o, "%s\n", (char *)a->pdata[i]);
	for (i = 0; i < (int)a->len; i++) g_free(a->pdata[i]);
	g_ptr_array_free(a, TRUE);
}
static int cmpstr(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static char *sorted(char *s)
{
	char **v = g_strsplit(s, "\n", -1), *r;
	int n = g_strv_length(v);
	qsort(v, n, sizeof(char *), cmpstr);
	r = g_strjoinv("\n", v);
	g_strfreev(v);
	g_free(s);
	return r;
}
static char *expected(const struct truth *t, char q)
{
	GString *o = g_string_new("");
	int i;
	switch (q) {
	case 'n': ans_names(t, o); break;
	case 't':
		if (t->topic[0]) g_string_append_printf(o, "topic %s\nset %s %ld\n", t->topic, t->setter, t->ttime);
		else g_string_append(o, "no topic\n");
		break;
	case 'm':
		g_string_append(o, "n\nt\n");
		if (t->inv) g_string_append(o, "i\n");
		if (t->key[0]) g_string_append_printf(o, "k %s\n", t->key);
		if (t->limit) g_string_append_printf(o, "l %d\n", t->limit);
		break;
	case 'b':
		for (i = 0; i < 3; i++) if (t->ban[i][0]) g_string_append_printf(o, "%s\n", t->ban[i]);
		break;
	case 'w':
		for (i = 0; i < 5; i++) if (t->m[i].in) g_string_append_printf(o, "%s %s %s srv.net H%.1s 0 %s\n", t->m[i].nick, t->m[i].user, t->m[i].host, t->m[i].status == '@' ? "@" : t->m[i].status == '+' ? "+" : "", t->m[i].real);
		break;
	}
	return sorted(g_string_free(o, FALSE));
}
/* what the client was told, in the same form; complains about anything else */
static char *told(struct wcl *c, char q, const char *me)
{
	GString *o = g_string_new("");
	const char *g;
	int end = 0;
	while ((g = w_cl_next(c))) {
		struct irc_line *l = irc_parse_line(g);
		int code = atoi(l->args[0]), i;
		if (q == 'm' && end == 1 && code == 329 && l->argc == 4 && !strcmp(l->args[3], "1234")) { end = 2; free_line(l); continue; }
		if (end) mc_fail("after the end of the answer there is %s", mc_esc(g));
		if (l->argc < 4 || strcmp(l->args[1], me)) mc_fail("not an answer for %s: %s", me, mc_esc(g));
#define CHAN(i) if (l->argc <= (i) || strcasecmp(l->args[i], "#x")) mc_fail("an answer about another channel: %s", mc_esc(g))
		if (q == 'n' && code == 353) {
			char **v;
			CHAN(3);
			v = g_strsplit(l->args[4], " ", -1);
			for (i = 0; v[i]; i++) if (v[i][0]) g_string_append_printf(o, "%s\n", v[i]);
			g_strfreev(v);
		} else if (q == 'n' && code == 366) { CHAN(2); end = 1; }
		else if (q == 't' && code == 331) { CHAN(2); g_string_append(o, "no topic\n"); end = 1; }
		else if (q == 't' && code == 332) { CHAN(2); g_string_append_printf(o, "topic %s\n", l->args[3]); }
		else if (q == 't' && code == 333 && l->argc > 4) { CHAN(2); g_string_append_printf(o, "set %.*s %s\n", (int)strcspn(l->args[3], "!"), l->args[3], l->args[4]); end = 1; }
		else if (q == 'm' && code == 324) {
			int k = 4;
			CHAN(2);
			if (l->args[3][0] != '+') mc_fail("modes without +: %s", mc_esc(g));
			for (i = 1; l->args[3][i]; i++) {
				char m = l->args[3][i];
				if (m == 'k' || m == 'l') {
					if (k >= l->argc) mc_fail("a value is missing: %s", mc_esc(g));
					g_string_append_printf(o, "%c %s\n", m, l->args[k++]);
				} else g_string_append_printf(o, "%c\n", m);
			}
			if (k != l->argc) mc_fail("too many values: %s", mc_esc(g));
			end = 1;
		} else if (q == 'b' && code == 367) { CHAN(2); g_string_append_printf(o, "%s\n", l->args[3]); }
		else if (q == 'b' && code == 368) { CHAN(2); end = 1; }
		else if (q == 'w' && code == 352 && l->argc == 9) { CHAN(2); g_string_append_printf(o, "%s %s %s %s %s %s\n", l->args[6], l->args[3], l->args[4], l->args[5], l->args[7], l->args[8]); }
		else if (q == 'w' && code == 315) { CHAN(2); end = 1; }
		else mc_fail("not part of the answer: %s", mc_esc(g));
		free_line(l);
	}
	if (!end) mc_fail("the answer has no end");
	return sorted(g_string_free(o, FALSE));
}
/* the server's answer to a query which reached it */
static void answer(char q)
{
	const char *me = T.m[0].nick;
	int i;
	if (!T.on) { if (q != '-') send_(":srv.net 442 %s #x :You're not on that channel", me); return; }
	switch (q) {
	case 'n':
		/* in two messages */
		for (i = 0; i < 5; i++) if (T.m[i].in && (i == 0 || i == 1)) break;
		{
			GString *a = g_string_new(""), *b = g_string_new("");
			for (i = 0; i < 5; i++) if (T.m[i].in) g_string_append_printf(i < 2 ? a : b, "%.1s%s ", T.m[i].status == '@' ? "@" : T.m[i].status == '+' ? "+" : "", T.m[i].nick);
			send_(":srv.net 353 %s = #x :%s", me, a->str);
			if (b->len) send_(":srv.net 353 %s = #x :%s", me, b->str);
			g_string_free(a, TRUE); g_string_free(b, TRUE);
		}
		send_(":srv.net 366 %s #x :End of /NAMES list.", me);
		break;
	case 't':
		if (T.topic[0]) { send_(":srv.net 332 %s #x :%s", me, T.topic); send_(":srv.net 333 %s #x %s %ld", me, T.setter, T.ttime); }
		else send_(":srv.net 331 %s #x :No topic is set.", me);
		break;
	case 'm': {
		GString *f = g_string_new("+nt"), *v = g_string_new("");
		if (T.inv) g_string_append(f, "i");
		if (T.limit) { g_string_append(f, "l"); g_string_append_printf(v, " %d", T.limit); }
		if (T.key[0]) { g_string_append(f, "k"); g_string_append_printf(v, " %s", T.key); }
		send_(":srv.net 324 %s #x %s%s", me, f->str, v->str);
		send_(":srv.net 329 %s #x 1234", me);
		g_string_free(f, TRUE); g_string_free(v, TRUE);
		break; }
	case 'b':
		for (i = 0; i < 3; i++) if (T.ban[i][0]) send_(":srv.net 367 %s #x %s al!u@h 1234", me, T.ban[i]);
		send_(":srv.net 368 %s #x :End of Channel Ban List", me);
		break;
	case 'w':
		for (i = 0; i < 5; i++) if (T.m[i].in) send_(":srv.net 352 %s #x %s %s srv.net %s H%.1s :0 %s", me, T.m[i].user, T.m[i].host, T.m[i].nick, T.m[i].status == '@' ? "@" : T.m[i].status == '+' ? "+" : "", T.m[i].real);
		send_(":srv.net 315 %s #x :End of /WHO list.", me);
		break;
	case 'a':
		if (T.m[1].nick[0]) send_(":srv.net 352 %s #x %s %s srv.net %s H%.1s :0 %s", me, T.m[1].user, T.m[1].host, T.m[1].nick, T.m[1].status == '@' ? "@" : T.m[1].status == '+' ? "+" : "", T.m[1].real);
		send_(":srv.net 315 %s al :End of /WHO list.", me);
		break;
	}
}
static void joined(void)
{
	const char *me = T.m[0].nick;
	T.on = 1;
	T.m[0].in = 1;
	send_(":%s!mu@mh JOIN #x", me);
	if (T.topic[0]) answer('t');
	answer('n');
}
#define SRC(i) T.m[i].nick, T.m[i].user, T.m[i].host
#define NEV 24
static int event(int e)
{
	struct mb *al = &T.m[1], *bo = &T.m[2], *me = &T.m[0];
	int i;
	if (!T.on) {
		if (e != 20) return 0;
		joined();
		return 1;
	}
	switch (e) {
	case 0: case 1: case 2:
		if (!bo->in) return 0;
		i = e == 0 ? '@' : e == 1 ? '+' : 0;
		if (i == bo->status || (i && bo->status)) return 0;
		if (i) { bo->status = i; send_(":srv.net MODE #x +%c %s", i == '@' ? 'o' : 'v', bo->nick); }
		else { int was = bo->status; bo->status = 0; send_(":srv.net MODE #x -%c %s", was == '@' ? 'o' : 'v', bo->nick); }
		break;
	case 3: if (T.ban[0][0]) return 0; strcpy(T.ban[0], "a!*@*"); send_(":al!u@h MODE #x +b a!*@*"); break;
	case 4: if (!T.ban[0][0]) return 0; T.ban[0][0] = 0; send_(":al!u@h MODE #x -b a!*@*"); break;
	case 5: if (T.ban[1][0]) return 0; strcpy(T.ban[1], "*!*@evil"); strcpy(T.key, "two"); send_(":al!u@h MODE #x +bk *!*@evil two"); break;
	case 6: if (T.key[0]) return 0; strcpy(T.key, "one"); send_(":al!u@h MODE #x +k one"); break;
	case 7: if (!T.key[0]) return 0; send_(":al!u@h MODE #x -k %s", T.key); T.key[0] = 0; wire[nwire - 1].t = T; break;
	case 8: T.limit = T.limit == 5 ? 6 : 5; T.inv = 1; send_(":al!u@h MODE #x +li %d", T.limit); break;
	case 9: if (!T.limit) return 0; T.limit = 0; T.inv = 0; send_(":al!u@h MODE #x -li"); break;
	case 10: strcpy(T.topic, "a new: one"); strcpy(T.setter, "al"); T.ttime = time(NULL); send_(":al!u@h TOPIC #x :a new: one"); break;
	case 11: T.topic[0] = 0; send_(":al!u@h TOPIC #x :"); break;
	case 12: if (T.m[3].in) return 0; set(3, "zoe", "zu", "zh", "Zoe  Z", 0, 1); send_(":zoe!zu@zh JOIN #x"); break;
	case 13: if (!al->in) return 0; send_(":%s!%s@%s PART #x", SRC(1)); al->in = 0; al->status = 0; wire[nwire - 1].t = T; break;
	case 14: if (!al->in) return 0; { char old[16]; strcpy(old, al->nick); strcpy(al->nick, strcmp(old, "al") ? "al" : "AL2"); send_(":%s!u@h NICK :%s", old, al->nick); } break;
	case 15: if (!bo->in) return 0; send_(":%s!%s@%s QUIT :bye", SRC(2)); bo->in = 0; bo->status = 0; wire[nwire - 1].t = T; break;
	case 16: if (!bo->in) return 0; send_(":%s!%s@%s KICK #x %s :out", SRC(1), bo->nick); bo->in = 0; bo->status = 0; wire[nwire - 1].t = T; break;
	case 17: { char old[16]; strcpy(old, me->nick); strcpy(me->nick, strcmp(old, "me") ? "me" : "me2"); send_(":%s!mu@mh NICK %s", old, me->nick); } break;
	case 18: send_(":%s!mu@mh PART #x :bye", me->nick); T.on = 0; me->in = 0; me->status = 0; wire[nwire - 1].t = T; break;
	case 19: send_(":al!u@h KICK #x %s", me->nick); T.on = 0; me->in = 0; me->status = 0; wire[nwire - 1].t = T; break;
	case 20: /* leaves and joins again at once */
		send_(":%s!mu@mh PART #x :bye", me->nick); T.on = 0; me->in = 0; me->status = 0; wire[nwire - 1].t = T;
		strcpy(T.ban[2], "while@away"); T.limit = 9;
		joined();
		break;
	case 21: /* somebody else using the same nick */
		if (!al->in || strcmp(al->nick, "al")) return 0;
		send_(":al!u@h PRIVMSG %s :hi", me->nick);
		send_(":al!u@h PART #x"); al->in = 0; al->status = 0; wire[nwire - 1].t = T;
		set(1, "al", "u2", "h2", "The other Al", 0, 1);
		send_(":al!u2@h2 JOIN #x");
		break;
	case 22: /* somebody lists the names again, as part of something else */
		answer('n');
		break;
	case 23: if (!bo->in || bo->status) return 0; bo->status = '@'; T.key[0] = 0; strcpy(T.key, "three"); send_(":srv.net MODE #x +ok bo three"); break;
	}
	return 1;
}
/* queries; kind of answer; '-' never answered by the proxy */
static const struct { const char *q; char k; } Q[] = {
	{ "MODE #x", 'm' }, { "MODE #x b", 'b' }, { "MODE #x +b", 'b' }, { "NAMES #x", 'n' }, { "TOPIC #x", 't' }, { "WHO #x", 'w' },
	{ "MODE #x be", '-' }, { "MODE #x bb", '-' }, { "MODE #x :", '-' }, { "names #X", 'n' }, { "NAMES #x,#y", '-' }, { "NAMES", '-' }, { "WHO #x o", '-' }, { "WHO al", 'a' },
	{ "WHO *", '-' }, { "TOPIC #x :mine", '-' }, { "MODE #x +o al", '-' }, { "MODE #x e", '-' }, { "MODE %s", '-' }, { "TOPIC #y", '-' }, { "MODE #x +b x!*@*", '-' }, { "TOPIC #x :", '-' }, { "MODE #X", 'm' }, { "WHO #X", 'w' }, { "USERHOST al", '-' },
};
#define NQ ((int)(sizeof(Q)/sizeof(Q[0])))
static int answered;
static void query(int c, int i)
{
	static const char *nm[128];
	char *q = g_strdup_printf(Q[i].q, known.m[0].nick), *l, *got = NULL;
	w_cl_skip(C[0]); w_cl_skip(C[1]);
	w_cl(C[c], "%s", q);
	while ((l = w_srv_line(S))) {
		if (got) mc_fail("%s reaches the server twice", q);
		got = l;
	}
	w_cl_drain(C[c]);
	if (w_cl_next(C[!c])) mc_fail("the other client is sent something");
	if (got) {
		struct irc_line *a = irc_parse_line(got), *b = irc_parse_line(q);
		int k;
		if (a->argc != b->argc) mc_fail("%s becomes %s", q, mc_esc(got));
		for (k = 0; k < a->argc; k++) if (strcmp(a->args[k], b->args[k])) mc_fail("%s becomes %s", q, mc_esc(got));
		free_line(a); free_line(b);
		if (w_cl_next(C[c])) mc_fail("%s is both answered and passed on", q);
		g_free(got);
		if (Q[i].k != '-') answer(Q[i].k);
		mc_outcome(i);
		answered = 0;
	} else {
		char *have, *want;
		if (off) mc_fail("%s is answered although the cache is off", q);
		if (Q[i].k == '-' || Q[i].k == 'a') mc_fail("%s does not reach the server", q);
		if (!known.on) mc_fail("%s is answered without being on the channel", q);
		have = told(C[c], Q[i].k, known.m[0].nick);
		want = expected(&known, Q[i].k);
		if (strcmp(have, want)) mc_fail("%s is answered with\n%s\ninstead of\n%s", q, have, want);
		mc_outcome(mc_hash_str(have, i));
		g_free(have); g_free(want);
		if (!nm[(int)Q[i].k]) nm[(int)Q[i].k] = g_strdup_printf("answered %c", Q[i].k);
		mc_cover(nm[(int)Q[i].k]);
		answered = 1;
	}
	g_free(q);
}
static void run(void)
{
	int part = mc_choose_l(4, "part"), i, n, c;
	w_begin();
	vt_reset();
	memset(&T, 0, sizeof(T));
	answered = 0;
	nwire = at = 0;
	i = part == 3 ? mc_choose_l(2, "off") : 2;
	off = i == 1;
	W->config->cache.max_who_age = i == 0 ? 0 : 60;
	N = w_network("net", "me");
	if (off) ((struct network_config *)N->private_data)->disable_cache = 1;
	S = w_up(N, "me", "CHANMODES=beI,k,l,imnpst PREFIX=(ov)@+ CHANTYPES=#");
	w_srv_drain(S);
	for (i = 0; i < 2; i++) C[i] = w_client(N, i ? "other" : "me");
	w_srv_drain(S);
	set(0, "me", "mu", "mh", "My Name", 0, 0);
	set(1, "al", "u", "h", "Al Al", '@', 1);
	set(2, "bo", "bu", "bh", "", 0, 1);
	if (mc_choose_l(2, "topic")) { strcpy(T.topic, "old one"); strcpy(T.setter, "bo"); T.ttime = 999; }
	strcpy(T.ban[0], "a!*@*");
	T.inv = 1;
	strcpy(T.key, "k0");
	known = T;
	if (part == 0) {
		/* queries while the first information arrives, then again with everything there */
		joined();
		deliver(mc_choose_l(nwire + 1, "arrived"));
		query(0, i = mc_choose_l(mc_tier ? NQ : 14, "query"));
		deliver(mc_choose_l(nwire - at + 1, "arrived"));
		query(1, mc_choose_l(2, "the same") ? i : mc_choose_l(mc_tier ? NQ : 5, "query"));
		deliver(mc_tier ? mc_choose_l(nwire - at + 1, "arrived") : mc_choose_l(3, "arrived") * (nwire - at) / 2);
		query(1, i);
		deliver(1000);
		query(0, i);
	} else {
		/* everything known, then things change */
		static const char first[] = "mbntw";
		joined();
		deliver(1000);
		n = mc_choose_l(6, "asked before");
		for (i = 0; i < 5; i++) if (n == 5 || n == i) { query(0, i == 0 ? 0 : i == 1 ? 2 : i == 2 ? 3 : i == 3 ? 4 : 5); deliver(1000); }
		(void)first;
		n = part == 3 ? 1 : mc_tier ? 3 : 2;
		for (i = 0; i < n; i++) {
			int e = mc_choose_l(NEV + 2, "event");
			if (e == NEV) { vt_advance(30000); continue; }
			if (e == NEV + 1) { vt_advance(31000); continue; }
			if (!event(e)) goto out;
			if (part == 2) { deliver(mc_choose_l(MIN(nwire - at, 6) + 1, "arrived")); break; }
			else deliver(1000);
		}
		c = mc_choose_l(2, "client");
		i = mc_choose_l(mc_tier || part == 2 ? NQ : 12, "query");
		query(c, i);
		if (part == 2) {
			deliver(mc_choose_l(MIN(nwire - at, 3) + 1, "arrived"));
			query(!c, i);
			deliver(1000);
			query(c, i);
		} else {
			deliver(1000);
			query(c, i);
			/* having seen the whole answer there is no need to ask again */
			if (!off && Q[i].k != '-' && Q[i].k != 'a' && known.on && (W->config->cache.max_who_age || Q[i].k != 'w')) { if (answered) mc_cover("answered after asking"); }
		}
	}
out:
	for (i = 0; i < nwire; i++) g_free(wire[i].line);
	w_teardown();
	w_end();
}
static void init(void) { w_init(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P15", .init = init, .run = run, .batch = 300, .hang_secs = 30,
		.rule = "a server that keeps the truth about one channel and announces every change. All of: three queries out of 25 forms at every pair of points while the join burst and the answers arrive; every pair (thorough: triple) of 24 events and clock steps after every prior knowledge, then each query, also while a change is under way, also with the cache or the WHO cache off. Whatever is not passed on to the server is compared with the truth as of the last message delivered" };
	(void)who; (void)isup;
	return mc_main(argc, argv, &chk);
}
