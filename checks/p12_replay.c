/* P12: a returning client is replayed exactly the backlog it should get. */
#include "world.h"
#include "keyfile.h"
#include "linestack.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);

enum { NONE, SIMPLE, LAST, HIGH };
static const char *names[] = { "none", "simple", "lastdisconnect", "highlight" };
static struct irc_network *N;
static struct mem *S;
static char me[64];
static int method, timed, serial, live;
static struct it { char *raw; int text, own, hl; time_t t; } B[64];
static int nb, mark[4];
static struct wcl *C[8];
static int nc;

static void stored(const char *raw, int own)
{
	struct irc_line *l = irc_parse_line(raw);
	B[nb].raw = g_strdup(raw);
	B[nb].text = (!strcmp(l->args[0], "PRIVMSG") || !strcmp(l->args[0], "NOTICE"));
	B[nb].own = own;
	B[nb].hl = B[nb].text && l->argc > 2 && (strstr(l->args[2], "bob") || strstr(l->args[2], "urgent"));
	B[nb].t = time(NULL);
	nb++;
	free_line(l);
}
static void ev(int keep, const char *fmt, ...) __attribute__((format(printf,2,3)));
static void ev(int keep, const char *fmt, ...)
{
	char b[600];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	w_srv(S, "%s", b);
	if (keep) stored(b, 0);
}
static void forget(void) { int i; for (i = 0; i < nb; i++) g_free(B[i].raw); nb = 0; mark[0] = mark[1] = mark[2] = mark[3] = 0; }
static void joined(const char *ch, const char *rest)
{
	ev(1, ":%s!mu@mh JOIN %s", me, ch);
	ev(1, ":srv.net 353 %s = %s :%s%s%s", me, ch, me, *rest ? " " : "", rest);
	ev(0, ":srv.net 366 %s %s :End", me, ch);
}
static void login(void)
{
	struct wconn *c = w_conn(N);
	char *l;
	if (!c) mc_fail("the network is not connected");
	S = c->m;
	while ((l = w_srv_line(S))) { if (!strncmp(l, "NICK ", 5)) snprintf(me, sizeof(me), "%s", l + 5); g_free(l); }
	forget();
	w_login(S, me, NULL);
	w_srv_drain(S);
	live = 1;
	joined("#x", "@al bob");
}
/* ---- what a client ends up with ---- */
static int cmp(gconstpointer a, gconstpointer b) { return strcmp(*(char **)a, *(char **)b); }
static char *picture(struct irc_network_state *s)
{
	GPtrArray *p = g_ptr_array_new_with_free_func(g_free), *q;
	GString *r = g_string_new("");
	GList *a, *b;
	guint i;
	g_string_append_printf(r, "nick %s\n", s->me.nick);
	for (a = s->channels; a; a = a->next) {
		struct irc_channel_state *c = a->data;
		GString *o = g_string_new("");
		q = g_ptr_array_new_with_free_func(g_free);
		for (b = c->nicks; b; b = b->next) {
			struct channel_nick *n = b->data;
			char pr = get_prefix_from_modes(s->info, n->modes);
			g_ptr_array_add(q, g_strdup_printf(" %s%c", n->global_nick->nick, pr ? pr : '.'));
		}
		g_ptr_array_sort(q, cmp);
		g_string_append_printf(o, "%s topic %s:", c->name, c->topic ? c->topic : "-");
		for (i = 0; i < q->len; i++) g_string_append(o, q->pdata[i]);
		g_ptr_array_free(q, TRUE);
		g_ptr_array_add(p, g_string_free(o, FALSE));
	}
	g_ptr_array_sort(p, cmp);
	for (i = 0; i < p->len; i++) g_string_append_printf(r, "%s\n", (char *)p->pdata[i]);
	g_ptr_array_free(p, TRUE);
	return g_string_free(r, FALSE);
}
static int from_outside(const char *s) { const char *e = strchr(s, ' '), *at; if (*s != ':' || !e) return 0; at = memchr(s, '!', e - s); return at && (!strncmp(at, "!au@ah ", 7) || !strncmp(at, "!mu@mh ", 7) || !strncmp(at, "!bu@bh ", 7) || !strncmp(at, "!cu@UNKNOWN PRIVMSG ", 20) || !strncmp(at, "!cu@UNKNOWN NOTICE ", 19)); }
static int numeric(const char *raw) { const char *e = strchr(raw, ' '); return e && e[1] >= '0' && e[1] <= '9'; }
static int same(const struct irc_line *a, const struct irc_line *b)
{
	int i;
	if (!streq(a->origin, b->origin) || a->argc != b->argc) return 0;
	for (i = 0; i < a->argc; i++) if (strcmp(a->args[i], b->args[i])) return 0;
	return 1;
}
static int is_it(const char *got, const struct it *w, int stamp)
{
	struct irc_line *g = irc_parse_line(got), *x = irc_parse_line(w->raw);
	int r;
	if (w->own && g->origin && strchr(g->origin, '!')) {
		/* the user's own address, as that client program knew it */
		strchr(g->origin, '!')[0] = 0;
		strchr(x->origin, '!')[0] = 0;
	}
	if (w->text && stamp && x->argc > 2) {
		char st[40], *e;
		strftime(st, sizeof(st), "[%H:%M:%S]", gmtime(&w->t));
		if (x->args[2][0] == '\001') e = g_strdup_printf("\001ACTION %s%s", st, x->args[2] + 7);
		else e = g_strdup_printf("%s %s", st, x->args[2]);
		g_free(x->args[2]);
		x->args[2] = e;
	}
	r = same(g, x);
	free_line(g); free_line(x);
	return r;
}
static void attach(void)
{
	struct wcl *c = w_client(N, "me");
	int i = nb, optional = -1, only_text = 0;
	const char *g;
	struct irc_network_state *st;
	C[nc++] = c;
	w_cl_drain(c);
	if (live) {
		if (method == SIMPLE) { i = mark[SIMPLE]; if (i < nb && B[i].own) optional = i; }
		else if (method == LAST) i = mark[LAST];
		else if (method == HIGH) { i = mark[HIGH]; mark[HIGH] = nb; only_text = 1; }
	}
	c->seen = 0;
	while ((g = w_cl_next(c))) {
		if (!from_outside(g)) continue;
		for (; i < nb; i++) {
			if (numeric(B[i].raw)) continue;
			if (only_text && !B[i].hl) continue;
			if (i == optional && !is_it(g, &B[i], timed != REPORT_TIME_NEVER)) continue;
			break;
		}
		if (i >= nb) mc_fail("the client is replayed %s, which it is not to get (again)", mc_esc(g));
		if (!is_it(g, &B[i], timed != REPORT_TIME_NEVER)) mc_fail("the client is replayed %s where %s%s is due", mc_esc(g), mc_esc(B[i].raw), B[i].text && timed != REPORT_TIME_NEVER ? " (stamped)" : "");
		i++;
	}
	for (; i < nb; i++) if (!numeric(B[i].raw) && !(only_text && !B[i].hl) && i != optional) mc_fail("the client is not replayed %s", mc_esc(B[i].raw));
	MC_ASSERT(!c->m->dropped && c->c->connected, "the client is thrown out");
	/* an independent client program's view */
	st = network_state_init("me", "cu", "UNKNOWN");
	for (i = 0; i < (int)c->lines->len; i++) {
		struct irc_line *l = irc_parse_line(c->lines->pdata[i]);
		if (l && l->argc) state_handle_data(st, l);
		if (l) free_line(l);
	}
	if (live) {
		char *a = picture(st), *b = picture(N->external_state);
		if (strcmp(a, b)) mc_fail("after the replay the client sees\n%s instead of\n%s", a, b);
		mc_outcome(mc_hash_str(a, MC_H0 + method));
		g_free(a); g_free(b);
	}
	free_network_state(st);
}
static struct wcl *first(void) { int i; for (i = 0; i < nc; i++) if (C[i]) return C[i]; return NULL; }
static void leave(int how)
{
	int i;
	for (i = 0; i < nc; i++) if (C[i]) {
		if (how) w_cl(C[i], "QUIT :bye");
		w_cl_leave(C[i]);
		pump();
		C[i] = NULL;
		if (live) mark[LAST] = nb;
		return;
	}
}
static int alhere, aln;
static void step(int k)
{
	const char *al = aln ? "al2" : "al";
	vt_skip(61000);
	serial++;
	if (!live && k < 14) k = 14;
	switch (k) {
	case 0: ev(1, ":%s!au@ah PRIVMSG #x :hello %d", al, serial); break;
	case 1: ev(1, ":%s!au@ah NOTICE #x :hi bob: %d", al, serial); break;
	case 2: ev(1, ":%s!au@ah PRIVMSG %s :\001ACTION is urgent %d\001", al, me, serial); break;
	case 3: if (alhere) { ev(1, ":%s!au@ah PART #x :bye", al); alhere = 0; } else { ev(1, ":%s!au@ah JOIN #x", al); alhere = 1; } break;
	case 4: ev(1, ":%s!au@ah NICK %s", al, aln ? "al" : "al2"); aln = !aln; break;
	case 5: ev(1, ":bob!bu@bh MODE #x %co bob", serial & 1 ? '+' : '-'); break;
	case 6: ev(1, ":%s!au@ah TOPIC #x :topic %d", al, serial); break;
	case 7: { struct irc_channel_state *c = find_channel(N->external_state, "#y"); if (c) ev(1, ":bob!bu@bh KICK #y %s :out", me); else joined("#y", "bob"); break; }
	case 8: { const char *o = strcmp(me, "me2") ? "me2" : "me"; char old[64]; strcpy(old, me); strcpy(me, o); ev(1, ":%s!mu@mh NICK %s", old, me); break; }
	case 9: ev(0, ":%s!au@ah PRIVMSG %s :\001VERSION\001", al, me); w_srv_drain(S); break;
	case 10: { /* somebody looks at the listener and goes away */
		struct wcl *c = w_client_raw(N);
		if (serial & 1) w_cl(c, "NICK x");
		w_cl_leave(c); pump();
		break; }
	case 11: case 12: { /* the user says something */
		struct wcl *c = first();
		char b[100];
		if (!c) { attach(); c = first(); }
		sprintf(b, "%s #x :%s %d", k == 11 ? "PRIVMSG" : "NOTICE", k == 11 ? "mine urgent" : "note", serial);
		mark[SIMPLE] = nb;
		{ char *r = g_strdup_printf(":%s %s", N->external_state->me.hostmask, b); stored(r, 1); g_free(r); }
		w_cl(c, "%s", b);
		w_srv_drain(S);
		break; }
	case 13: ev(1, ":bob!bu@bh PRIVMSG %s :private bob %d", me, serial); break;
	case 14: if (nc < 8) attach(); break;
	case 15: leave(serial & 1); break;
	case 16: if (live) { S->eof = 1; S->hup = 1; pump(); live = 0; forget(); } break;
	case 17: if (!live) { vt_advance(120000); pump(); login(); alhere = 1; aln = 0; } break;
	}
	if (k < 14) { int i; for (i = 0; i < nc; i++) if (C[i]) w_cl_drain(C[i]); }
}
static void run(void)
{
	static const int few[] = { 0, 1, 3, 8, 11, 14, 15, 16, 17 };
	int i, n, had, small;
	w_begin();
	vt_reset();
	vt_now = 0;
	nc = serial = 0;
	forget();
	method = mc_choose_l(4, "method");
	timed = mc_choose_l(3, "time reports");
	had = mc_choose_l(2, "attached before");
	W->config->replication = g_strdup(names[method]);
	W->config->report_time = timed;
	N = w_network("net", "me");
	{ struct network_config *c = N->private_data; c->reconnect_interval = 60; }
	if (!connect_network(N)) mc_fail("connecting failed");
	pump();
	login();
	alhere = 1; aln = 0;
	if (had) attach();
	small = timed == REPORT_TIME_NEVER && method != NONE && mc_choose_l(2, "longer");
	n = (timed == REPORT_TIME_NEVER && method != NONE) + (mc_tier ? 3 : 2) + small;
	for (i = 0; i < n; i++) step(small ? few[mc_choose_l(9, "event")] : mc_choose_l(18, "event"));
	if (nc < 8) step(14);
	for (i = 0; i < nc; i++) if (C[i]) w_cl_leave(C[i]);
	pump();
	mc_cover(names[method]);
	forget();
	w_teardown();
	w_end();
	g_free(W->config->replication);
	W->config->replication = NULL;
}
static void init(void)
{
	const char *m[] = { "bob", "urgent" };
	setenv("TZ", "UTC", 1); tzset();
	w_init();
	init_replication();
	g_key_file_set_string_list(W->config->keyfile, "global", "match", m, 2);
	config_load_notify(W);
}
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P12", .init = init, .run = run, .batch = 20, .hang_secs = 30,
		.rule = "every replication method x time reporting x initial attachment: every sequence of 3 events (2 with time stamps; thorough 4 and 3) over 18 and of 4 (5) over 9 of them (texts, highlights, actions, own messages, join/part/nick/mode/topic/kick of others and the user, CTCP request, unregistered connection, attach, leave, loss of the server, reconnect), then an attach; each attach is compared line by line with the due messages and the resulting picture with the network's" };
	return mc_main(argc, argv, &chk);
}
