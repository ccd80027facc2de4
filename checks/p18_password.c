/* P18: nobody gets through a password-protected listener without the password. */
#include "world.h"
#include "keyfile.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);

static const char *M[] = {
	"PASS pw", "PASS bad", "PASS", "PASS :", "PASS pw:two", "PASS bad:two", "PASS pw:nosuch", "PASS pw:", "PASS other", "pass pw",
	"NICK al", "USER u 0 * :Real", "PRIVMSG #x :evil", "JOIN #evil", "CTRLPROXY LISTNETWORKS", ":x!y@z PASS pw", "", "PASS pw extra", "PASS :pw pw",
	"PASS p1", "PASS u1:p1", "PASS pwx", "PASS p", "PASS PW", "PASS pw:IRC.TWO.ORG", "PASS pw:one", "PING x", "PASS :pw:two", "PASSpw", "USER u", "NICK", " PASS pw", "PASS bad:pw", "CONNECT irc.two.org",
};
#define NM ((int)(sizeof(M)/sizeof(M[0])))
static struct irc_network *N[2];
static struct mem *S[2];
static struct irc_listener *L;
static struct wcl X;
static int cfg, tied, implicit, up2;

/* ---- what should happen ---- */
static struct { int ok, closed, any, nick, user, reg; char net[64], made[64]; GPtrArray *say; } E;
static int right(const char *p)
{
	switch (cfg) {
	case 0: case 2: case 3: case 1: case 5: return !strcmp(p, "pw");
	case 4: return 0;
	default: return 1;
	}
}
static void model(const char *line)
{
	char **v = g_new0(char *, 20), *s = g_strdup(line), *p = s;
	int n = 0;
	if (*p == ':') { p += strcspn(p, " "); while (*p == ' ') p++; }
	while (*p) {
		while (*p == ' ') p++;
		if (*p == ':' && n) { v[n++] = p + 1; break; }
		v[n++] = p;
		p += strcspn(p, " ");
		if (*p) *p++ = 0;
	}
	if (E.closed || n == 0 || !v[0][0] || line[0] == ' ') goto out;
	if (!E.ok) {
		if (strcasecmp(v[0], "PASS")) g_ptr_array_add(E.say, "451");
		else if (n < 2) g_ptr_array_add(E.say, "461");
		else {
			char *c = strchr(v[1], ':'), *pw = c ? g_strndup(v[1], c - v[1]) : g_strdup(v[1]);
			if (!right(pw)) g_ptr_array_add(E.say, "464");
			else {
				const char *want = c && c[1] ? c + 1 : NULL;
				E.ok = 1;
				strcpy(E.net, tied ? "one" : "");
				if (want) {
					if (!strcasecmp(want, "two") || !strcasecmp(want, "irc.two.org")) strcpy(E.net, "two");
					else if (!strcasecmp(want, "one")) strcpy(E.net, "one");
					else if (implicit) { strcpy(E.net, want); strcpy(E.made, want); }
					else { E.ok = 0; E.closed = 1; g_ptr_array_add(E.say, "464"); }
				}
				if (E.ok) { g_ptr_array_add(E.say, "OK"); mc_cover("let in"); }
			}
			g_free(pw);
		}
	} else if (!E.reg) {
		if (!strcasecmp(v[0], "NICK") && n > 1) E.nick = 1;
		if (!strcasecmp(v[0], "USER") && n > 4) E.user = 1;
		if (!strcasecmp(v[0], "CONNECT") && n > 1) { strcpy(E.net, "two"); }
		if (E.nick && E.user) { E.reg = 1; if (!E.net[0]) { E.closed = 1; E.reg = 0; } }
	}
out:
	g_free(v); g_free(s);
}
/* ---- what does ---- */
static int in_list(struct irc_network *n) { return n ? g_list_length(n->clients) : 0; }
static struct irc_network *netof(const char *name) { return find_network(W->networks, name); }
static void look(int final)
{
	const char *g;
	GList *gl;
	int i, total = 0;
	w_cl_drain(&X);
	while (X.seen < X.lines->len) {
		g = X.lines->pdata[X.seen++];
		if (strstr(g, "secret") && !E.reg) mc_fail("traffic reaches a client that is not let in: %s", mc_esc(g));
		if (strstr(g, "secret") && !strstr(g, E.net)) mc_fail("traffic of another network: %s", mc_esc(g));
		if (E.say->len) {
			const char *want = E.say->pdata[0];
			char **v = g_strsplit(g, " ", 3);
			int fine = !strcmp(want, "OK") ? !strcmp(g, "NOTICE AUTH :PASS OK") : v[0] && v[1] && !strcmp(v[1], want);
			g_strfreev(v);
			if (!fine) mc_fail("the answer is %s instead of %s", mc_esc(g), want);
			g_ptr_array_remove_index(E.say, 0);
		} else if (!E.ok) mc_fail("without having been let in the client is sent %s", mc_esc(g));
	}
	if (E.say->len) mc_fail("there is no answer %s", (char *)E.say->pdata[0]);
	for (gl = W->networks; gl; gl = gl->next) total += in_list(gl->data);
	if (total != E.reg) mc_fail("%d clients are on the networks instead of %d", total, E.reg);
	if (E.reg && !in_list(netof(E.net))) mc_fail("the client is not on network %s", E.net);
	if (!implicit && g_list_length(W->networks) != 2) mc_fail("there are other networks");
	if (implicit) for (gl = W->networks; gl; gl = gl->next) {
		struct irc_network *n = gl->data;
		if (n != N[0] && n != N[1] && !(E.ok && !strcmp(n->name, E.made))) mc_fail("there is a network %s", n->name);
	}
	if (E.closed && !X.m->dropped && !X.m->closed) mc_fail("the connection is not closed");
	if (!E.closed && !E.any && (X.m->dropped || X.m->closed)) mc_fail("the connection is closed");
	for (i = 0; i < 2; i++) {
		char *l;
		if (!S[i]) continue;
		while ((l = w_srv_line(S[i]))) {
			if (!E.reg && (strstr(l, "evil") || strstr(l, "NICK al"))) mc_fail("a server is sent %s", l);
			if (strstr(l, "evil") && strcmp(E.net, i ? "two" : "one")) mc_fail("the wrong server is sent %s", l);
			if (strstr(l, "evil")) mc_cover("used after registering");
			g_free(l);
		}
	}
}
static void traffic(void)
{
	int i;
	for (i = 0; i < 2; i++) if (S[i]) w_srv(S[i], ":al!u@h PRIVMSG #x :secret of %s", i ? "two" : "one");
}
static void run(void)
{
	struct listener_config *lc;
	GString *all = g_string_new("");
	int part, n, i, seg, msgs[8], cut = 0, stop;
	GPtrArray *lines = g_ptr_array_new();
	part = mc_choose_l(3, "part");
	cfg = mc_choose_l(part == 0 ? 7 : part == 1 ? 1 : 2, "passwords");
	tied = part ? 1 : !mc_choose_l(2, "no network");
	int v = i = part ? 0 : mc_choose_l(mc_tier ? 4 : cfg ? 2 : 3, "implicit networks, one down");
	implicit = i & 1;
	up2 = i < 2;
	n = part == 1 || mc_tier ? 3 : 2;
	seg = part == 2 ? 4 : mc_choose_l(part ? 2 : mc_tier ? 4 : cfg < 2 ? 3 : 2, "segmentation");
	for (i = 0; i < n; i++) msgs[i] = mc_choose_l(NM, M[0]);
	stop = (seg > 1 || v) && !mc_tier ? 0 : mc_choose_l(2, "stop the listener");
	w_begin();
	vt_reset();
	W->config->create_implicit = implicit;
	W->config->password = cfg == 1 || cfg == 5 ? g_strdup("pw") : cfg == 2 ? g_strdup("other") : NULL;
	N[0] = w_network("one", "me");
	N[1] = w_network("two", "me");
	S[0] = w_up(N[0], "me", NULL);
	S[1] = up2 ? w_up(N[1], "me", NULL) : NULL;
	for (i = 0; i < 2; i++) if (S[i]) { w_srv(S[i], ":me!mu@mh JOIN #x"); w_srv_drain(S[i]); }
	lc = g_new0(struct listener_config, 1);
	if (cfg == 0 || cfg == 2 || cfg == 3) lc->password = g_strdup("pw");
	if (cfg == 3 || cfg == 4) {
		struct allow_rule *r = g_new0(struct allow_rule, 1);
		r->username = g_strdup("u1"); r->password = g_strdup("p1");
		lc->allow_rules = g_list_append(NULL, r);
		r = g_new0(struct allow_rule, 1);
		r->username = g_strdup("u2");
		lc->allow_rules = g_list_append(lc->allow_rules, r);
	}
	if (tied) lc->network = g_strdup("one");
	L = listener_init(W, lc);
	if (cfg == 5) { L->config = NULL; W->unix_domain_socket_listener = L; }
	memset(&E, 0, sizeof(E));
	E.say = g_ptr_array_new();
	memset(&X, 0, sizeof(X));
	X.m = mem_new("client");
	X.lines = g_ptr_array_new();
	listener_new_pending_client(L, mem_ioc(X.m));
	pump();
	for (i = 0; i < n; i++) g_ptr_array_add(lines, (char *)M[msgs[i]]);
	g_ptr_array_add(lines, "NICK fin");
	g_ptr_array_add(lines, "USER u 0 * :R");
	g_ptr_array_add(lines, "JOIN #evil");
	if (seg == 0) {
		/* line by line, with traffic in between */
		for (i = 0; i < (int)lines->len; i++) {
			if (i == n && stop) break;
			mc_trace("C> %s", (char *)lines->pdata[i]);
			mc_step();
			mem_feed(X.m, lines->pdata[i]); mem_feed(X.m, i & 1 ? "\r\n" : "\n");
			pump();
			model(lines->pdata[i]);
			look(0);
			traffic();
			look(0);
		}
	} else {
		for (i = 0; i < (stop ? n : (int)lines->len); i++) g_string_append_printf(all, "%s\r\n", (char *)lines->pdata[i]);
		mc_trace("C> %s", mc_esc(all->str));
		if (seg == 2) for (i = 0; i < (int)all->len; i++) { mem_feedn(X.m, all->str + i, 1); pump(); }
		else {
			if (seg == 3) cut = 1;
			if (seg == 4) cut = mc_choose_l(MIN((int)all->len, 40), "cut at");
			if (cut) { mem_feedn(X.m, all->str, cut); pump(); traffic(); }
			mem_feedn(X.m, all->str + cut, all->len - cut);
			pump();
		}
		for (i = 0; i < (stop ? n : (int)lines->len); i++) { mc_step(); model(lines->pdata[i]); }
		E.any = 0;
		look(0);
		traffic();
		look(1);
	}
	if (stop) {
		int was = E.ok;
		mc_trace("the listener is stopped");
		if (mc_choose_l(2, "client first")) { X.m->eof = X.m->hup = 1; pump(); E.any = 1; }
		if (L == W->unix_domain_socket_listener) W->unix_domain_socket_listener = NULL;
		listener_stop(L);
		free_listener(L);
		L = NULL;
		pump();
		if (!was) {
			E.any = 1;
			mem_feed(X.m, "PASS pw\r\nNICK late\r\nUSER u 0 * :R\r\nJOIN #evil\r\n");
			pump();
			traffic();
			E.closed = 1;
			look(1);
		}
	}
	mc_outcome(mc_hash(&E, 24, cfg));
	X.m->eof = X.m->hup = 1;
	pump();
	if (!X.m->dropped && !X.m->closed) mc_fail("a connection that ended is not released");
	if (L) { if (L == W->unix_domain_socket_listener) W->unix_domain_socket_listener = NULL; listener_stop(L); free_listener(L); }
	w_teardown();
	g_ptr_array_free(E.say, TRUE);
	g_ptr_array_free(lines, TRUE);
	g_string_free(all, TRUE);
	w_end();
}
static void init(void) { w_init(); init_admin(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P18", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "every sequence of 2 (one configuration, thorough: all: 3) of 34 messages to a listener with 7 password configurations, with and without own network, implicit networks on and off, in one piece, by line, by byte and cut at every position; then a registration and a message, with server traffic in between and the listener stopped under it. An independent reading of the messages says what has to be answered, to which network the client belongs and when" };
	return mc_main(argc, argv, &chk);
}
