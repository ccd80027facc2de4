/* P14: every message is delivered exactly once to everybody concerned. */
#include "world.h"
#include "keyfile.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

#define NCL 3
/* ---- what the server says: everybody attached gets it, once and unaltered.
 * flags: S stamped with the time when the user wants that, P answered with PONG
 * and kept, N kept by the proxy, 4 an answer: only without a query before it */
struct sl { const char *t; char f; };
static const struct sl SL[] = {
	{ ":al!u@h PRIVMSG me :hi", 'S' },
	{ ":al!u@h PRIVMSG #x :hi there  two blanks ", 'S' },
	{ ":al!u@h PRIVMSG #x ::)", 'S' },
	{ ":al!u@h PRIVMSG #x :", 'S' },
	{ ":al!u@h PRIVMSG #x :\001ACTION waves\001", 'A' },
	{ ":al!u@h PRIVMSG me :\001VERSION\001", 0 },
	{ ":al!u@h NOTICE me :\001VERSION x\001", 0 },
	{ ":al!u@h NOTICE me :note", 0 },
	{ ":al!u@h NOTICE #x :note", 0 },
	{ ":srv.net NOTICE me :*** hello", 0 },
	{ ":srv.net PRIVMSG $*.net :all", 'S' },
	{ ":bo!u@h JOIN #x", 0 },
	{ ":bo!u@h JOIN :#x", 0 },
	{ ":al!u@h PART #x :bye", 0 },
	{ ":al!u@h QUIT :bye", 0 },
	{ ":al!u@h KICK #x me :out", 0 },
	{ ":al!u@h KICK #x bo", 0 },
	{ ":al!u@h NICK al2", 0 },
	{ ":al!u@h MODE #x +o me", 0 },
	{ ":al!u@h TOPIC #x :new", 0 },
	{ ":al!u@h INVITE me :#y", 0 },
	{ ":al!u@h WALLOPS :all", 0 },
	{ ":srv.net WALLOPS :all", 0 },
	{ ":srv.net FOO a b :c d", 0 },
	{ "NOTICE me :no origin", 0 },
	{ ":me!mu@mh JOIN #y", 'O' },
	{ ":me!mu@mh PART #x", 'O' },
	{ ":me!mu@mh MODE #x +t", 'O' },
	{ ":me!mu@mh TOPIC #x :mine", 'O' },
	{ ":me!mu@mh PRIVMSG me :myself", 'O' },
	{ ":ME!mu@mh INVITE al :#x", 'O' },
	{ ":me MODE me :+i", 'O' },
	{ ":me!mu@mh NICK me2", 'K' },
	{ ":mee!u@h PRIVMSG #x :not me", 'S' },
	{ ":srv.net 404 me #x :Cannot send to channel", '4' },
	{ ":srv.net 042 me ABC :your unique ID", 0 },
	{ ":srv.net 005 me FOO=BAR :are supported by this server", 0 },
	{ ":srv.net 999 me :what", 0 },
	{ "PING :123", 'P' },
	{ ":srv.net PONG srv.net :abc", 'N' },
	{ "ERROR :Closing link", 0 },
	{ ":al!u@h notice me :lower case", 0 },
	{ "ping :123", 'P' },
	/* people and the user's own address, which clients see as they know it */
	{ ":srv.net 302 me :al=+u@h me=+mu@mh", 'H' },
	{ ":srv.net 302 me :me=-mu@mh al=-u@h", 'H' },
	{ ":srv.net 302 me :al*=+u@h me*=+mu@mh", 'H' },
	{ ":srv.net 302 me :al=+u@h bo=-u@h2", 'U' },
	{ ":srv.net 352 me #x mu mh srv.net me H@ :0 Real Name", 'h' },
	{ ":srv.net 352 me #x mu mh srv.net ME H@ :0 Real Name", 'h' },
	{ ":srv.net 352 me #x u mh srv.net al H :0 Real Name", '4' },
	{ ":srv.net 311 me me mu mh * :Real Name", 'h' },
	{ ":srv.net 314 me Me mu mh * :Real Name", 'h' },
	{ ":srv.net 311 me al mu mh * :Real Name", '4' },
};
/* ---- what a client says. flags: E shown to the others, C only to the server,
 * L handled by the proxy, ? the others may be shown it */
static const struct sl CL[] = {
	{ "PRIVMSG #x :hi", 'E' },
	{ "PRIVMSG al :hi  there ", 'E' },
	{ "PRIVMSG #x ::)", 'E' },
	{ "PRIVMSG al,#x :both", 'E' },
	{ "PRIVMSG #x :\001ACTION waves\001", 'E' },
	{ "NOTICE al :note", 'E' },
	{ "privmsg #x :lower case", 'E' },
	{ "notice #x :lower case", 'E' },
	{ "Join #q", 'C' },
	{ "mode #x +o al", 'C' },
	{ "PRIVMSG me :myself", 'E' },
	{ "PRIVMSG ctrlproxyx :not the proxy", 'E' },
	{ ":fake!a@b PRIVMSG #x :origin", 'E' },
	{ "PRIVMSG al :\001FINGER\001", 'C' },
	{ "NOTICE al :\001PING 5\001", 'C' },
	{ "PRIVMSG al :\001DCC SEND f 1 2 3\001", 'C' },
	{ "PRIVMSG #x", '?' },
	{ "PRIVMSG", '?' },
	{ "JOIN #z", 'C' },
	{ "PART #x :bye", 'C' },
	{ "MODE #x +o al", 'C' },
	{ "TOPIC #x :new", 'C' },
	{ "WHOIS al", 'C' },
	{ "WHO al", 'C' },
	{ "NICK other", 'C' },
	{ "AWAY :gone", 'C' },
	{ "FOO a b :c d", 'C' },
	{ "KICK #x al :out", 'C' },
	{ "OPER a b", 'C' },
	{ "PRIVMSG ctrlproxy :help", 'L' },
	{ "PRIVMSG CtrlProxy :echo hi", 'L' },
	{ "CTRLPROXY ECHO hi", 'L' },
	{ "ctrlproxy nonsense", 'L' },
	{ "PING :1", 'L' },
	{ "PONG :1", 'L' },
	{ "PONG", 'L' },
	{ "USER a b c :d", 'L' },
	{ "PASS secret", 'L' },
	{ "privmsg CTRLPROXY :echo hi", 'L' },
	{ "ping :1", 'L' },
	{ "user a b c :d", 'L' },
	{ "pass secret", 'L' },
	{ "QUIT :bye", 'Q' },
	{ "quit", 'Q' },
};
#define NSL ((int)(sizeof(SL)/sizeof(SL[0])))
#define NCL_ ((int)(sizeof(CL)/sizeof(CL[0])))

static struct irc_network *N;
static struct mem *S;
static struct { struct wcl *w; int on, blocked, dead, talked; char *mask; GPtrArray *due; } C[NCL];
static GPtrArray *sdue;
static int stamp;

/* a line that is due: flag char, then the text; upper case '?' optional */
static void due(int i, char f, const char *t) { if (C[i].on && !C[i].dead) g_ptr_array_add(C[i].due, g_strdup_printf("%c%s", f ? f : '-', t)); }

static int is_stamped(const char *t) { return t[0] == '[' && strlen(t) > 10 && t[9] == ']' && t[10] == ' ' && t[3] == ':' && t[6] == ':'; }
static int same_mask(int i, const char *user, const char *host)
{
	char *m = g_strdup_printf("%s@%s", user, host);
	int ok = 1;
	const char *known = C[i].mask ? strchr(C[i].mask, '!') + 1 : NULL;
	if (known) ok = !strcmp(known, m);
	else C[i].mask = g_strdup_printf("me!%s", m);
	g_free(m);
	return ok;
}
/* answers about the user: like those of the server, but with the address the client knows */
static int match_own(int i, const struct irc_line *a, const struct irc_line *b)
{
	int n = atoi(b->args[0]), at = n == 352 ? 3 : n == 302 ? -1 : 3, j;
	if (a->argc != b->argc || g_strcmp0(a->origin, b->origin)) return 0;
	if (at == -1) {
		char **x = g_strsplit(a->args[2], " ", 0), **y = g_strsplit(b->args[2], " ", 0);
		int ok = g_strv_length(x) == g_strv_length(y) && !strcmp(a->args[0], b->args[0]) && !strcmp(a->args[1], b->args[1]);
		for (j = 0; ok && x[j]; j++) {
			char *e = strchr(x[j], '='), *h = strchr(x[j], '@');
			int p = !strncmp(y[j], "me=", 3) ? 3 : !strncmp(y[j], "me*=", 4) ? 4 : 0;
			if (!p) { ok = !strcmp(x[j], y[j]); continue; }
			ok = e && h && e - x[j] == p - 1 && !strncmp(x[j], y[j], p + 1);
			if (!ok) break;
			*h = 0;
			ok = same_mask(i, e + 2, h + 1);
		}
		g_strfreev(x); g_strfreev(y);
		return ok;
	}
	for (j = 0; j < a->argc; j++)
		if (j != at && j != at + 1 && strcmp(a->args[j], b->args[j])) return 0;
	return same_mask(i, a->args[at], a->args[at + 1]);
}
static int match(int i, const char *want, const char *got)
{
	char f = want[0];
	struct irc_line *a = irc_parse_line(got), *b = irc_parse_line(want + 1);
	int j, ok = a->argc == b->argc;
	if (f == 'H' || f == 'h') { ok = match_own(i, a, b); free_line(a); free_line(b); return ok; }
	if (ok && (f == 'O' || f == 'E' || f == '?')) {
		/* the user as that client knows itself */
		ok = a->origin && !g_ascii_strncasecmp(a->origin, "me", 2) && (a->origin[2] == '!' || a->origin[2] == 0);
		if (ok && strstr(a->origin, "(null)")) ok = 0;
		if (ok && a->origin[2] == '!') {
			if (!strchr(a->origin, '@')) ok = 0;
			if (!C[i].mask) C[i].mask = g_strdup(a->origin);
			else if (strcmp(strchr(C[i].mask, '!'), strchr(a->origin, '!'))) ok = 0;
		}
		if (ok && f == 'E' && a->origin[2] != '!') ok = 0;
	} else if (ok && f == 'K') {
		/* a change of the own nick, shown as the client or the server knows the user */
		ok = a->origin && !strncmp(a->origin, "me!", 3);
	} else if (ok)
		ok = !g_strcmp0(a->origin, b->origin);
	for (j = 0; ok && j < a->argc; j++) {
		const char *x = a->args[j], *y = b->args[j];
		if (j == 2 && stamp && !g_ascii_strcasecmp(b->args[0], "PRIVMSG")) {
			if (!strncmp(y, "\001ACTION ", 8)) {
				if (strncmp(x, "\001ACTION ", 8) || !is_stamped(x + 8)) { ok = 0; break; }
				x += 8 + 11; y += 8;
			} else if (y[0] != '\001') {
				if (!is_stamped(x)) { ok = 0; break; }
				x += 11;
			}
		} else if (j == 2 && stamp && f == 'E' && is_stamped(x))
			x += 11;                          /* notices of the user are stamped as well */
		ok = !strcmp(x, y);
	}
	free_line(a); free_line(b);
	return ok;
}
static int remark(const char *l) { return strstr(l, "NOTICE * :") != NULL; }
/* everything due has arrived, in that order, and nothing else */
static void look_clients(void)
{
	int i;
	unsigned k;
	for (i = 0; i < NCL; i++) if (C[i].on && !C[i].dead && !C[i].blocked) {
		const char *g;
		k = 0;
		while ((g = w_cl_next(C[i].w))) {
			if (remark(g) || (C[i].talked && !strncmp(g, ":ctrlproxy!", 11))) continue;
			while (k < C[i].due->len && ((char *)C[i].due->pdata[k])[0] == '?' && !match(i, C[i].due->pdata[k], g)) k++;
			if (k >= C[i].due->len) mc_fail("client %d is sent %s, which it should not get", i, mc_esc(g));
			if (!match(i, C[i].due->pdata[k], g)) mc_fail("client %d is sent %s instead of %s", i, mc_esc(g), mc_esc((char *)C[i].due->pdata[k] + 1));
			k++;
		}
		for (; k < C[i].due->len; k++)
			if (((char *)C[i].due->pdata[k])[0] != '?') mc_fail("client %d is not sent %s", i, mc_esc((char *)C[i].due->pdata[k] + 1));
		for (k = 0; k < C[i].due->len; k++) g_free(C[i].due->pdata[k]);
		g_ptr_array_set_size(C[i].due, 0);
	}
}
static void look_server(void)
{
	char *l;
	unsigned k = 0;
	while ((l = w_srv_line(S))) {
		if (k >= sdue->len) mc_fail("the server is sent %s, which it should not get", mc_esc(l));
		{
			struct irc_line *a = irc_parse_line(l), *b = irc_parse_line(sdue->pdata[k]);
			int j, ok = a->argc == b->argc && a->origin == NULL;
			for (j = 0; ok && j < a->argc; j++) ok = !strcmp(a->args[j], b->args[j]);
			if (!ok) mc_fail("the server is sent %s instead of %s", mc_esc(l), mc_esc(sdue->pdata[k]));
			free_line(a); free_line(b);
		}
		g_free(l);
		k++;
	}
	if (k < sdue->len) mc_fail("the server is not sent %s", mc_esc(sdue->pdata[k]));
	for (k = 0; k < sdue->len; k++) g_free(sdue->pdata[k]);
	g_ptr_array_set_size(sdue, 0);
}
static void srv_due(const struct sl *s)
{
	int i;
	if (s->f == 'P') { g_ptr_array_add(sdue, g_strdup("PONG :123")); return; }
	if (s->f == 'N') return;
	for (i = 0; i < NCL; i++) due(i, s->f == 'O' || s->f == 'K' || s->f == 'H' || s->f == 'h' ? s->f : 0, s->t);
}
static int ours;  /* lines handled by the proxy: the sender's answers are not looked at */
static void cl_due(int c, const struct sl *s)
{
	int i;
	const char *t = s->t;
	if (t[0] == ':') t = strchr(t, ' ') + 1;
	if (s->f == 'L' || s->f == 'Q') { ours = C[c].talked = 1; return; }
	g_ptr_array_add(sdue, g_strdup(t));
	if (s->f == 'E' || s->f == '?')
		for (i = 0; i < NCL; i++) if (i != c) due(i, s->f, t);
}
static void server_says(int k) { srv_due(&SL[k]); w_srv(S, "%s", SL[k].t); }
static void leave(int c) { w_cl_leave(C[c].w); C[c].on = 0; }
static void client_says(int c, int k)
{
	if (!C[c].on || C[c].dead) return;
	ours = 0;
	cl_due(c, &CL[k]);
	w_cl(C[c].w, "%s", CL[k].t);
	if (CL[k].f == 'Q') {
		C[c].on = 0;
		MC_ASSERT(C[c].blocked || C[c].w->m->closed, "a client that quits is not disconnected");
		return;
	}
	if (ours && !C[c].blocked) {
		const char *g;
		w_cl_drain(C[c].w);
		/* the sender may be answered, and what it is told is for it: never a message of somebody */
		while ((g = w_cl_next(C[c].w))) {
			struct irc_line *a = irc_parse_line(g);
			if (a->origin && !strncmp(a->origin, "al!", 3)) mc_fail("client %d is sent %s", c, mc_esc(g));
			if (!g_ascii_strcasecmp(CL[k].t, "PING :1") && (a->argc < 3 || strcmp(a->args[0], "PONG") || strcmp(a->args[a->argc - 1], "1"))) mc_fail("a PING is answered with %s", mc_esc(g));
			free_line(a);
		}
	}
}
static void attach(int i, const char *nick)
{
	const char *l;
	C[i].w = w_client(N, nick);
	C[i].on = 1;
	/* what it learns about itself when it attaches */
	w_cl_drain(C[i].w);
	while ((l = w_cl_next(C[i].w))) {
		const char *e = strchr(l, ' ');
		if (!C[i].mask && !strncmp(l, ":me!", 4) && e && memchr(l, '@', e - l)) C[i].mask = g_strndup(l + 1, e - l - 1);
	}
	w_cl_skip(C[i].w);
}
static int on_dead(struct mem *m, size_t n) { return MEM_ERROR; }
static int on_block(struct mem *m, size_t n) { return MEM_AGAIN; }
static void start(int hostknown, int cache)
{
	int i;
	struct network_config *nc;
	w_begin();
	vt_reset();
	memset(C, 0, sizeof(C));
	for (i = 0; i < NCL; i++) C[i].due = g_ptr_array_new();
	sdue = g_ptr_array_new();
	/* time stamps can also be for what is replayed later only */
	W->config->report_time = stamp == 1 ? REPORT_TIME_ALWAYS : stamp == 2 ? REPORT_TIME_REPLICATION : REPORT_TIME_NEVER;
	stamp = stamp == 1;
	g_free(W->config->admin_user);
	W->config->admin_user = g_strdup("ctrlproxy");
	N = w_network("net", "me");
	nc = N->private_data;
	nc->disable_cache = !cache;
	S = w_up(N, "me", NULL);
	if (hostknown == 1) w_srv(S, ":srv.net 302 me :me=+mu@mh");
	if (hostknown != 2) w_srv(S, ":me!mu@mh JOIN #x");
	if (hostknown != 2) w_srv(S, ":srv.net 353 me = #x :me @al");
	if (hostknown != 2) w_srv(S, ":srv.net 366 me #x :End");
	w_srv_drain(S);
}
static void finish(void)
{
	int i;
	unsigned k;
	for (i = 0; i < NCL; i++) {
		if (C[i].blocked && C[i].on) {
			C[i].blocked = 0;
			C[i].w->m->on_write = NULL;
			C[i].w->m->writable = 1;
			pump();
		}
	}
	look_clients();
	look_server();
	for (i = 0; i < NCL; i++) if (C[i].w) {
		if (C[i].on) w_cl_leave(C[i].w);
		g_free(C[i].mask);
	}
	pump();
	w_srv_drain(S);
	w_teardown();
	for (i = 0; i < NCL; i++) { for (k = 0; k < C[i].due->len; k++) g_free(C[i].due->pdata[k]); g_ptr_array_free(C[i].due, TRUE); }
	g_ptr_array_free(sdue, TRUE);
	w_end();
}
static void run(void)
{
	int part = mc_choose_l(3, "part"), i, n, cfg;
	cfg = mc_choose_l(part == 0 ? 18 : 2, "configuration");
	if (part == 0) {
		/* every message of the server and of a client, alone, in every configuration */
		int host = cfg % 3, cl, k;
		stamp = cfg / 3 % 3;
		start(host, cfg / 9);
		cl = mc_choose_l(4, "clients");
		for (i = 0; i < cl; i++) attach(i, i == 1 ? "ME" : "me");
		for (i = 0; i < cl; i++) w_cl_skip(C[i].w);
		w_srv_drain(S);
		if (mc_choose_l(2, "side") == 0) {
			k = mc_choose_l(NSL, "line");
			/* without clients, CTCP requests are answered by the proxy */
			if (cl == 0 && SL[k].t[0] == ':' && strstr(SL[k].t, "\001VERSION")) { finish(); return; }
			/* the proxy's own question is still open */
			if (host != 1 && strchr("HU", SL[k].f)) { finish(); return; }
			server_says(k);
			look_clients();
			if (cl && strchr("Hh", SL[k].f)) server_says(25);
			mc_outcome(mc_hash_str(SL[k].t, cfg + 100 * cl));
			mc_cover("server message");
		} else if (cl) {
			k = mc_choose_l(NCL_, "line");
			/* only what the cache does not answer */
			client_says(mc_choose_l(cl, "sender"), k);
			mc_outcome(mc_hash_str(CL[k].t, cfg + 100 * cl));
			mc_cover("client message");
		}
	} else if (part == 1) {
		/* sequences */
		stamp = cfg;
		start(1, 0);
		for (i = 0; i < NCL; i++) attach(i, "me");
		for (i = 0; i < NCL; i++) w_cl_skip(C[i].w);
		n = mc_tier ? 3 : 2;
		for (i = 0; i < n; i++) {
			int k = mc_choose_l(NSL + NCL_, "line");
			/* the user's nick stays what it is */
			if (k < NSL) { if (SL[k].f != 'K' && SL[k].f != '4' && SL[k].f != 'h') server_says(k); }
			else client_says(i, k - NSL);
			look_clients();
			look_server();
		}
		mc_cover("sequence");
	} else {
		/* clients that do not read, are gone, leave; everything arriving at once */
		static const int s[] = { 0, 1, 11, 15, 26, 35 }, c[] = { 0, 5, 10, 18, 30, 42 };
		int st[NCL], together;
		stamp = cfg;
		together = mc_choose_l(2, "at once");
		start(1, 0);
		for (i = 0; i < NCL; i++) attach(i, "me");
		for (i = 0; i < NCL; i++) w_cl_skip(C[i].w);
		for (i = 0; i < NCL; i++) {
			st[i] = mc_choose_l(4, "client");
			if (st[i] == 1) { C[i].blocked = 1; C[i].w->m->on_write = on_block; C[i].w->m->writable = 0; }
			if (st[i] == 2) { C[i].dead = 1; C[i].w->m->on_write = on_dead; }
			if (st[i] == 3) { C[i].dead = 1; C[i].w->m->broken = 1; C[i].w->m->hup = C[i].w->m->eof = 1; }
		}
		n = mc_tier ? 3 : 2;
		for (i = 0; i < n; i++) {
			int k = mc_choose_l(6 + 6, "line"), who = i;
			if (together) {
				/* one main loop iteration finds all of it */
				if (k < 6) { srv_due(&SL[s[k]]); mem_feed(S, SL[s[k]].t); mem_feed(S, "\r\n"); mc_trace("S> %s (waiting)", mc_esc(SL[s[k]].t)); }
				else if (!C[who].dead && c[k - 6] < 29) { cl_due(who, &CL[c[k - 6]]); mem_feed(C[who].w->m, CL[c[k - 6]].t); mem_feed(C[who].w->m, "\r\n"); mc_trace("client %d> %s (waiting)", who, mc_esc(CL[c[k - 6]].t)); }
				if (i < n - 1) continue;
				pump();
				/* the order between the connections is open: compare as sets */
				{
					int j; unsigned a, b;
					for (j = 0; j < NCL; j++) if (C[j].on && !C[j].dead) {
						const char *g;
						if (C[j].blocked) { C[j].blocked = 0; C[j].w->m->on_write = NULL; C[j].w->m->writable = 1; pump(); }
						while ((g = w_cl_next(C[j].w))) {
							if (remark(g)) continue;
							for (a = 0; a < C[j].due->len; a++) if (match(j, C[j].due->pdata[a], g)) break;
							if (a >= C[j].due->len) mc_fail("client %d is sent %s, which it should not get", j, mc_esc(g));
							g_free(g_ptr_array_remove_index(C[j].due, a));
						}
						if (C[j].due->len) mc_fail("client %d is not sent %s", j, mc_esc((char *)C[j].due->pdata[0] + 1));
					}
					char *l;
					while ((l = w_srv_line(S))) {
						for (b = 0; b < sdue->len; b++) if (!strcmp(sdue->pdata[b], l)) break;
						if (b >= sdue->len) mc_fail("the server is sent %s, which it should not get", mc_esc(l));
						g_free(g_ptr_array_remove_index(sdue, b));
						g_free(l);
					}
					if (sdue->len) mc_fail("the server is not sent %s", mc_esc(sdue->pdata[0]));
				}
			} else {
				if (k < 6) server_says(s[k]);
				else client_says(who, c[k - 6]);
				look_clients();
				look_server();
			}
		}
		mc_cover(together ? "all at once" : "unreadable clients");
	}
	finish();
}
static void init(void) { w_init(); init_admin(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P14", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "52 messages of the server and 44 of a client, each with 0-3 clients in 18 configurations (time stamps, answers from the record, own address known, learnt from a join or unknown), every sequence of 2 (thorough 3) of them with three clients, and every sequence of 2 (3) of 12 of them with each client reading, blocked, failing or hanging up, one after the other or all found in one main loop iteration" };
	return mc_main(argc, argv, &chk);
}
