/* P09: the backlog returns exactly the messages stored, in order. */
#include "world.h"
#include "linestack.h"
#include <unistd.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

struct msg { const char *raw; int to; int stored; };
static char longraw[1500];
static struct msg A[] = {
	{ ":al!u@h PRIVMSG #x :hello there", 0, 1 },
	{ ":al!u@h PRIVMSG #X :caps", 0, 1 },
	{ ":al!u@h PRIVMSG me :private", 0, 1 },
	{ ":al!u@h NOTICE #y,#x,z :several targets", 0, 1 },
	{ ":al!u@h PRIVMSG #x :\001ACTION waves\001", 0, 1 },
	{ ":al!u@h PRIVMSG #x :\001VERSION\001", 0, 0 },
	{ ":al!u@h JOIN #x", 0, 1 },
	{ ":al!u@h NICK bob", 0, 1 },
	{ ":srv 353 me = #x :a b", 0, 1 },
	{ ":srv 372 me :- motd", 0, 0 },
	{ ":me!u@h PRIVMSG #x :mine", 1, 1 },
	{ ":me!u@h JOIN #z", 1, 0 },
	{ longraw, 0, 1 },
	{ ":al!u@h PRIVMSG #x", 0, 1 },
	{ ":me!u@h PRIVMSG al,bob,#x :two", 1, 1 },
	{ ":al!u@h QUIT :bye", 0, 1 },
	{ ":al!u@h PRIVMSG #x{ :\303\274\377 odd  spaces ", 0, 1 },
	{ ":al!u@h PRIVMSG #x,y :\001ACTION\001", 0, 1 },
	{ "NOTICE #x :", 0, 1 },
	{ ":al!u@h NOTICE me :\001PING 1\001", 0, 0 },
	{ ":al!u@h KICK #x me :out", 0, 1 },
	{ ":al!u@h MODE #x +o me", 0, 1 },
	{ ":al!u@h TOPIC #x :new topic", 0, 1 },
	{ ":al!u@h PART #x", 0, 1 },
	{ ":al!u@h INVITE me #x", 0, 0 },
	{ ":me!u@h NOTICE al :ok", 1, 1 },
	{ ":srv 001 me :hi", 0, 0 },
};
#define NA ((int)(sizeof(A)/sizeof(A[0])))
#define MAXH 8
static struct irc_network_state *st;
static struct { struct irc_line *l; time_t t; } H[2600];
static int nh;
static struct linestack_context *ls;
static char dir[300];

static void store(int k)
{
	struct irc_line *l = irc_parse_line(A[k].raw);
	if (!l) abort();
	vt_skip(7919000);
	mc_trace("store %s %s", A[k].to ? "to server" : "from server", mc_esc(A[k].raw));
	mc_step();
	MC_ASSERT(linestack_insert_line(ls, l, A[k].to ? TO_SERVER : FROM_SERVER, st), "storing fails");
	if (A[k].stored) { H[nh].l = l; H[nh].t = time(NULL); nh++; }
	else free_line(l);
}
static int same(const struct irc_line *a, const struct irc_line *b)
{
	int i;
	if (!streq(a->origin, b->origin) || a->argc != b->argc) return 0;
	for (i = 0; i < a->argc; i++) if (strcmp(a->args[i], b->args[i])) return 0;
	return 1;
}
static int fold(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c == '[' ? '{' : c == ']' ? '}' : c == '\\' ? '|' : c == '~' ? '^' : c; }
static int nameeq(const char *a, const char *b)
{
	for (; *a && *b; a++, b++) if (fold((unsigned char)*a) != fold((unsigned char)*b)) return 0;
	return *a == *b;
}
/* 1: said in this conversation */
static int said(const struct irc_line *l) { return !strcasecmp(l->args[0], "PRIVMSG") || !strcasecmp(l->args[0], "NOTICE"); }
static int concerns(const struct irc_line *l, const char *obj)
{
	char **t;
	int i, r = 0;
	if (l->argc < 2) return 0;
	t = g_strsplit(l->args[1], ",", 0);
	for (i = 0; t[i]; i++) r |= nameeq(t[i], obj);
	g_strfreev(t);
	return r;
}
struct walk { int at, to, n, stop; const char *obj; };
static int due(int i, const char *obj) { return obj == NULL || concerns(H[i].l, obj); }
static gboolean on_line(struct irc_line *l, time_t t, void *u)
{
	struct walk *w = u;
	while (w->at < w->to && !due(w->at, w->obj)) w->at++;
	if (w->at >= w->to) mc_fail("the walk yields %s, which is outside of the range or was returned already", mc_esc(irc_line_string(l)));
	if (!same(l, H[w->at].l)) mc_fail("message %d comes back as %s instead of %s", w->at, mc_esc(irc_line_string(l)), mc_esc(irc_line_string(H[w->at].l)));
	if (t != H[w->at].t) mc_fail("message %d comes back with time %ld instead of %ld", w->at, (long)t, (long)H[w->at].t);
	w->at++; w->n++;
	return w->n != w->stop;
}
static void walk(linestack_marker f, linestack_marker t, const char *obj, int stop)
{
	struct walk w = { f ? *f : 0, t ? *t : nh, 0, stop, obj };
	int i, n = 0;
	gboolean r;
	if (w.to > nh) w.to = nh;
	for (i = w.at; i < w.to; i++) n += due(i, obj);
	r = obj ? linestack_traverse_object(ls, obj, f, t, on_line, &w) : linestack_traverse(ls, f, t, on_line, &w);
	if (stop && n >= stop) MC_ASSERT(w.n == stop && !r, "the walk goes on after it was stopped");
	else {
		if (w.n != n) mc_fail("the walk of %s from %d to %d ends after %d of %d messages", obj ? obj : "everything", f ? (int)*f : -1, t ? (int)*t : -1, w.n, n);
		MC_ASSERT(r, "the complete walk reports a problem");
	}
	mc_step();
}
static void replay(struct wcl *c, linestack_marker f, linestack_marker t, const char *obj, int dataonly, int timed, int off)
{
	int i, to = t ? *t : nh;
	gboolean r;
	w_cl_skip(c);
	r = obj ? linestack_send_object(ls, obj, f, t, c->c, dataonly, timed, off) : linestack_send(ls, f, t, c->c, dataonly, timed, off);
	MC_ASSERT(r, "the complete replay reports a problem");
	for (i = f ? *f : 0; i < to && i < nh; i++) {
		const char *g;
		char stamp[40], *e;
		struct irc_line *l, *x;
		time_t at = H[i].t + off;
		int text = said(H[i].l) && H[i].l->argc > 2;
		if (!due(i, obj) || (dataonly && !text)) continue;
		g = w_cl_next(c);
		if (!g) mc_fail("message %d is not replayed", i);
		x = linedup(H[i].l);
		if (timed && text) {
			strftime(stamp, sizeof(stamp), "[%H:%M:%S]", gmtime(&at));
			if (x->args[2][0] == '\001') e = g_strdup_printf("\001ACTION %s%s", stamp, x->args[2] + 7);
			else e = g_strdup_printf("%s %s", stamp, x->args[2]);
			g_free(x->args[2]);
			x->args[2] = e;
		}
		l = irc_parse_line(g);
		if (!same(l, x)) mc_fail("message %d is replayed as %s instead of %s", i, mc_esc(g), mc_esc(irc_line_string(x)));
		free_line(l); free_line(x);
	}
	{ const char *g = w_cl_next(c); if (g) mc_fail("%s is replayed as well", mc_esc(g)); }
	mc_step();
}
static const char *objs[] = { "#x", "#X", "me", "al", "#none", "#x[", "#y" };
static void run(void)
{
	linestack_marker mk[MAXH + 2];
	int i, j, k, n, nm = 0, mode = mc_choose_l(3, "part");
	struct wcl *c = NULL;
	if (!st) st = network_state_init("me", "u", "h");
	vt_reset();
	vt_now = 0;
	nh = 0;
	sprintf(dir, "%s/ls%d", w_dir, 0);
	ls = create_linestack(dir, TRUE, st);
	MC_ASSERT(ls != NULL, "the backlog can not be created");
	if (mode == 0) {
		/* every sequence, every pair of markers */
		n = mc_tier ? 4 : 3;
		for (i = 0; i < n; i++) {
			mk[nm++] = linestack_get_marker(ls);
			store(mc_choose(NA));
		}
		mk[nm++] = linestack_get_marker(ls);
		mk[nm++] = NULL;
		for (i = 0; i < nm; i++) for (j = 0; j < nm; j++) {
			walk(mk[i], mk[j], NULL, 0);
			for (k = 0; k < (int)(sizeof(objs)/sizeof(objs[0])); k++) walk(mk[i], mk[j], objs[k], 0);
		}
		walk(NULL, NULL, NULL, 1);
		walk(NULL, NULL, "#x", 1);
		walk(mk[1], NULL, NULL, 2);
		mc_cover("ranges");
	} else if (mode == 1) {
		/* replays to a client */
		int f, t, o = mc_choose_l(3, "object"), fl = mc_choose_l(4, "kind");
		n = mc_tier ? 3 : 2;
		c = w_client_raw(NULL);
		for (i = 0; i < n; i++) {
			mk[nm++] = linestack_get_marker(ls);
			store(mc_choose(NA));
		}
		mk[nm++] = linestack_get_marker(ls);
		mk[nm++] = NULL;
		for (f = 0; f < nm; f++) for (t = 0; t < nm; t++)
			replay(c, mk[f], mk[t], o == 0 ? NULL : o == 1 ? "#x" : "me", fl & 1, fl >> 1, f == t ? 0 : f < t ? 3600 : -7200);
		mc_cover("replays");
	} else {
		/* long histories: around the periodic snapshots and with markers there */
		static const int at[] = { 0, 1, 999, 1000, 1001, 1999, 2000, 2001, 2100 };
		int step = 1 + mc_choose_l(mc_tier ? NA - 1 : 5, "step"), f = mc_choose_l(9, "from"), t = mc_choose_l(10, "to");
		int ki = mc_choose_l(NA, "message");
		linestack_marker a = NULL, b = NULL;
		if (mc_tier == 0 && ki % 5 != f % 5) { free_linestack_context(ls); return; }
		for (i = 0; i < 2105; i++) {
			if (nh == at[f] && !a) a = linestack_get_marker(ls);
			if (t < 9 && nh == at[t] && !b) b = linestack_get_marker(ls);
			k = (ki + i * step) % NA;
			store(A[k].stored ? k : 0);
		}
		walk(a, b, NULL, 0);
		walk(a, b, "#x", 0);
		walk(b, a, NULL, 0);
		linestack_free_marker(a); linestack_free_marker(b);
		mc_cover("long histories");
	}
	/* reading single messages */
	{
		struct irc_line *l = NULL; time_t tm;
		for (i = 0; i < nh; i += 1 + nh / 50) {
			MC_ASSERT(linestack_read_entry(ls, i, &l, &tm), "message %d can not be read", i);
			MC_ASSERT(same(l, H[i].l) && tm == H[i].t, "message %d is altered", i);
			free_line(l);
		}
		MC_ASSERT(!linestack_read_entry(ls, nh, &l, &tm), "a message that was never stored can be read");
	}
	{ uint64_t h = MC_H0; for (i = 0; i < nh && i < 10; i++) h = mc_hash_str(H[i].l->args[0], h); mc_outcome(h + nh); }
	for (i = 0; i < nm; i++) linestack_free_marker(mk[i]);
	for (i = 0; i < nh; i++) free_line(H[i].l);
	free_linestack_context(ls);
	if (c) { w_cl_leave(c); pump(); }
}
static void run1(void) { w_begin(); run(); }
static void init(void)
{
	int i;
	char *p;
	setenv("TZ", "UTC", 1); tzset();
	w_init();
	p = longraw + sprintf(longraw, ":al!u@h PRIVMSG #x :");
	for (i = 0; i < 1100; i++) *p++ = 'a' + i % 23;
}
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P09", .init = init, .run = run1, .batch = 50, .hang_secs = 30,
		.rule = "every sequence of 3 (thorough 4) stores over 27 messages (channel, private, several targets, actions, CTCP, events, numerics, own messages, 1100 byte text, any bytes) with a marker before each: walks between every pair of markers, of everything and of 7 conversations, and stopped walks; replays of 2 (3) stores to a client, plain/text only x timed or not x everything or a conversation; histories of 2105 messages with markers on and beside every snapshot boundary" };
	return mc_main(argc, argv, &chk);
}
