/* P19: the SOCKS front door only opens to allowed users and hosts. */
#include "world.h"
#include "keyfile.h"
#include <netdb.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);
int __wrap_getnameinfo(const struct sockaddr *a, socklen_t l, char *h, socklen_t hl, char *s, socklen_t sl, int f)
{
	if (h && hl) snprintf(h, hl, "localhost");
	if (s && sl) snprintf(s, sl, "1");
	return 0;
}

static struct irc_network *N[2];
static struct mem *S[2];
static struct wcl X;
static int cfg, implicit, conn2;
static int connects(int i) { return conn2; }

#define B(...) ((const unsigned char[]){ __VA_ARGS__ }), sizeof((const unsigned char[]){ __VA_ARGS__ })
/* greetings: number of methods and methods after the version */
static void add_bytes(GString *g, const unsigned char *b, size_t n) { (g_string_append_len)(g, (const char *)b, n); }

static GString *greeting(int i)
{
	GString *g = g_string_new("");
	int k;
#define ADD(...) add_bytes(g, (const unsigned char[]){ __VA_ARGS__ }, sizeof((const unsigned char[]){ __VA_ARGS__ }))
	g_string_append_c(g, 5);
	switch (i) {
	case 0: ADD(1, 2); break;
	case 1: ADD(1, 0); break;
	case 2: ADD(0); break;
	case 3: ADD(2, 0, 2); break;
	case 4: ADD(2, 1, 2); break;
	case 5: ADD(1, 0xff); break;
	case 6: ADD(1, 1); break;
	case 7: ADD(200); for (k = 0; k < 199; k++) ADD(0x80 + k % 100); ADD(2); break;
	case 8: ADD(255); for (k = 0; k < 255; k++) ADD(3 + k % 250); break;
	case 9: ADD(3, 2, 2, 0); break;
	case 10: ADD(255); ADD(2); for (k = 0; k < 254; k++) ADD(0xff); break;
	}
	return g;
}
#define NG 11
static const char *long255(char c) { static char b[256]; memset(b, c, 255); b[255] = 0; return b; }
static void cred(GString *g, int ver, const char *u, int ul, const char *p, int pl)
{
	g_string_append_c(g, ver);
	g_string_append_c(g, ul); g_string_append_len(g, u, ul);
	g_string_append_c(g, pl); g_string_append_len(g, p, pl);
}
static GString *auth(int i)
{
	GString *g = g_string_new("");
	switch (i) {
	case 0: cred(g, 1, "u1", 2, "p1", 2); break;
	case 1: cred(g, 1, "any", 3, "pw", 2); break;
	case 2: cred(g, 1, "u1", 2, "bad", 3); break;
	case 3: cred(g, 1, "", 0, "", 0); break;
	case 4: cred(g, 1, "u1", 2, "", 0); break;
	case 5: cred(g, 1, "u2", 2, "", 0); break;
	case 6: cred(g, 1, long255('x'), 255, "p1", 2); break;
	case 7: { char *u = g_strdup(long255('u')); cred(g, 1, u, 255, long255('y'), 255); g_free(u); break; }
	case 8: cred(g, 1, "u1\0x", 4, "p1", 2); break;
	case 9: cred(g, 1, "u1", 2, "p1\0", 3); break;
	case 10: cred(g, 2, "u1", 2, "p1", 2); break;
	case 11: cred(g, 1, "U1", 2, "p1", 2); break;
	case 12: cred(g, 1, "u1", 2, "p2", 2); break;
	case 13: cred(g, 1, "u3", 2, "p2", 2); break;
	case 14: cred(g, 1, "", 0, "pw", 2); break;
	case 15: cred(g, 1, "u1", 2, "p1x", 3); break;
	case 16: cred(g, 1, "u1", 2, "p", 1); break;
	case 17: cred(g, 1, "u1x", 3, "p1", 2); break;
	case 18: cred(g, 1, "u1", 2, "P1", 2); break;
	case 19: cred(g, 1, "any", 3, "pwx", 3); break;
	}
	return g;
}
#define NA 20
static void req(GString *g, int ver, int cmd, const char *h, int hl, int port)
{
	g_string_append_c(g, ver); g_string_append_c(g, cmd); g_string_append_c(g, 0); g_string_append_c(g, 3);
	g_string_append_c(g, hl); g_string_append_len(g, h, hl);
	g_string_append_c(g, port >> 8); g_string_append_c(g, port & 255);
}
static GString *request(int i)
{
	GString *g = g_string_new("");
	switch (i) {
	case 0: req(g, 5, 1, "irc.one.org", 11, 6667); break;
	case 1: req(g, 5, 1, "irc.two.org", 11, 6667); break;
	case 2: req(g, 5, 1, "one", 3, 6667); break;
	case 3: req(g, 5, 1, "nosuch.org", 10, 6667); break;
	case 4: req(g, 5, 1, long255('h'), 255, 6667); break;
	case 5: req(g, 5, 1, "", 0, 6667); break;
	case 6: ADD(5, 1, 0, 1, 127, 0, 0, 1, 26, 11); break;
	case 7: ADD(5, 1, 0, 4, 0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,1, 26, 11); break;
	case 8: ADD(5, 1, 0, 9, 1, 2, 3); break;
	case 9: req(g, 5, 2, "irc.one.org", 11, 6667); break;
	case 10: req(g, 5, 3, "irc.one.org", 11, 6667); break;
	case 11: req(g, 4, 1, "irc.one.org", 11, 6667); break;
	case 12: req(g, 5, 1, "irc.one.org", 11, 6668); break;
	case 13: req(g, 5, 1, "irc.one.org\0x", 13, 6667); break;
	case 14: req(g, 5, 1, "IRC.One.org", 11, 6667); break;
	case 15: req(g, 5, 0x81, "irc.one.org", 11, 6667); break;
	case 16: req(g, 5, 1, "irc.two", 7, 6667); break;
	case 17: req(g, 5, 1, "irc.one.organic", 15, 6667); break;
	}
	return g;
}
#define NR 18

static int allowed(int a)
{
	switch (cfg) {
	case 0: return a == 0;
	case 1: case 3: return a == 1 || a == 14;
	case 2: return a == 0 || a == 1 || a == 14;
	default: return a != 8 && a != 9 && a != 10;
	}
}
static size_t got;
static int byte(int i) { return (unsigned char)X.m->out->str[got + i]; }
static size_t left(void) { return X.m->out->len - got; }
static int gone(void) { return X.m->dropped || X.m->closed; }
static int clients(void)
{
	GList *gl; int t = 0;
	for (gl = W->networks; gl; gl = gl->next) t += g_list_length(((struct irc_network *)gl->data)->clients);
	return t;
}
static void refused(const char *what)
{
	if (!gone()) mc_fail("%s is refused, but the connection stays open", what);
	if (left()) mc_fail("something follows the refusal of %s", what);
	if (clients()) mc_fail("%s is refused, but there is a client", what);
}
/* what it was sent for the messages; nmsg of them have arrived completely */
static void judge(int g, int a, int r, int nmsg)
{
	static const char hasuser[NG] = { 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1 };
	const char *host = NULL;
	int rep, n;
	got = 0;
	if (nmsg < 1) { if (left() || gone()) mc_fail("an answer to an incomplete greeting"); return; }
	if (left() < 2) mc_fail("there is no answer to the greeting");
	if (byte(0) != 5) mc_fail("the greeting is answered with version %d", byte(0));
	rep = byte(1);
	got += 2;
	if (!hasuser[g]) { if (rep != 0xff) mc_fail("method %d is chosen, which was not offered or needs nothing", rep); refused("the greeting"); mc_cover("no method"); return; }
	if (rep != 2) mc_fail("method %d is chosen", rep);
	if (nmsg < 2) { if (left() || gone()) mc_fail("an answer to incomplete credentials"); return; }
	if (left() < 2) mc_fail("there is no answer to the credentials");
	if (byte(0) != 1) mc_fail("the credentials are answered with version %d", byte(0));
	rep = byte(1);
	got += 2;
	if (!allowed(a)) { if (!rep) mc_fail("wrong credentials are accepted"); refused("the user"); mc_cover("wrong user"); return; }
	if (rep) mc_fail("right credentials are refused");
	if (nmsg < 3) { if (left() || gone()) mc_fail("an answer to an incomplete request"); return; }
	if (left() < 7) mc_fail("there is no answer to the request");
	if (byte(0) != 5 || byte(2) != 0) mc_fail("the answer to the request is malformed");
	rep = byte(1);
	n = byte(3) == 1 ? 4 : byte(3) == 4 ? 16 : byte(3) == 3 ? 1 + byte(4) : -1;
	if (n < 0 || left() < (size_t)(4 + n + 2)) mc_fail("the address in the answer is malformed");
	if (!rep && byte(3) == 1 && (byte(8) || byte(9))) mc_fail("the answer has port %d", byte(8) << 8 | byte(9));
	got += 4 + n + 2;
	if (r == 0 || r == 14 || r == 2) host = "one";
	else if (r == 1) host = "two";
	else if (implicit && (r == 3 || r == 4 || r == 12 || r >= 16)) host = r >= 16 ? (r == 16 ? "irc.two" : "irc.one.organic") : r == 3 ? "nosuch.org" : r == 4 ? long255('h') : "irc.one.org";
	if (rep) {
		if (host && !strcmp(host, "one")) mc_fail("the request is refused with %d", rep);
		if (host && !strcmp(host, "two") && conn2 == 0) mc_cover("refused while connecting");
		refused("the request");
		mc_cover("wrong request");
		return;
	}
	if (!host) mc_fail("the request is accepted");
	if (gone()) mc_fail("the request is accepted and the connection closed");
	if (nmsg < 4) return;
	if (clients() != 1 || !find_network(W->networks, host) || !find_network(W->networks, host)->clients) mc_fail("the client is not on %s", host);
	if (!strstr(X.m->out->str + got, " 001 ")) mc_fail("there is no greeting");
	mc_cover("connected");
}
static void run(void)
{
	int part, g, a, r, seg, i, k, fin;
	struct listener_config *lc;
	struct irc_listener *L;
	GString *m[4];
	part = mc_choose_l(4, "part");
	cfg = mc_choose_l(part == 3 && !mc_tier ? 2 : 5, "users");
	implicit = part == 2 ? mc_choose_l(2, "implicit") : part == 3;
	conn2 = part == 2 ? mc_choose_l(3, "connecting") : 0;
	g = part == 0 || mc_tier ? mc_choose_l(NG, "greeting") : 0;
	a = part == 1 || part == 0 || mc_tier ? mc_choose_l(NA, "credentials") : cfg == 1 || cfg == 3 ? 1 : 0;
	r = part == 2 || mc_tier ? mc_choose_l(NR, "request") : part == 3 ? (int[]){ 0, 3, 4, 5, 6, 7 }[mc_choose_l(6, "request")] : mc_choose_l(2, "request") * 3;
	seg = part == 3 ? 3 : mc_choose_l(3, "segmentation");
	fin = part == 3 ? 0 : mc_choose_l(2, "the end");
	w_begin();
	vt_reset();
	w_connect = NULL;
	W->config->create_implicit = implicit;
	W->config->password = cfg == 3 ? g_strdup("pw") : NULL;
	N[0] = w_network("one", "me");
	N[1] = w_network("two", "me");
	S[0] = w_up(N[0], "me", NULL);
	w_connect = connects;
	lc = g_new0(struct listener_config, 1);
	if (cfg == 1 || cfg == 2) lc->password = g_strdup("pw");
	if (cfg == 0 || cfg == 2) {
		static const char *rule[][2] = { { "u1", "p1" }, { "u2", NULL }, { "u3", "p3" }, { NULL, "p2" } };
		for (i = 0; i < 4; i++) {
			struct allow_rule *ar = g_new0(struct allow_rule, 1);
			ar->username = g_strdup(rule[i][0]); ar->password = g_strdup(rule[i][1]);
			lc->allow_rules = g_list_append(lc->allow_rules, ar);
		}
	}
	L = listener_init(W, lc);
	memset(&X, 0, sizeof(X));
	X.m = mem_new("client");
	X.m->fd = 100063;
	X.lines = g_ptr_array_new();
	listener_new_pending_client(L, mem_ioc(X.m));
	pump();
	m[0] = greeting(g); m[1] = auth(a); m[2] = request(r); m[3] = g_string_new("NICK al\r\nUSER u 0 * :R\r\n");
	mc_trace("greeting %d credentials %d request %d", g, a, r);
	mc_step();
	if (seg == 3) {
		/* every cut; up to there only what is complete is answered */
		GString *all = g_string_new("");
		size_t cut, end = 0;
		for (i = 0; i < 4; i++) g_string_append_len(all, m[i]->str, m[i]->len);
		cut = all->len > 290 ? mc_choose_l(all->len / 7, "cut at") * 7 : mc_choose_l(all->len, "cut at");
		mem_feedn(X.m, all->str, cut);
		pump();
		for (k = 0; k < 4; k++) { end += m[k]->len; if (end > cut) break; }
		/* some requests can be judged by their beginning */
		if (!(k == 2 && r > 5)) judge(g, a, r, k);
		if (mc_choose_l(2, "continue")) { mem_feedn(X.m, all->str + cut, all->len - cut); pump(); judge(g, a, r, 4); }
		g_string_free(all, TRUE);
	} else if (seg == 0) {
		for (i = 0; i < 4; i++) {
			mem_feedn(X.m, m[i]->str, m[i]->len);
			pump();
			judge(g, a, r, i + 1);
			if (fin && i == 1) break;
		}
	} else if (seg == 1) {
		for (i = 0; i < 4; i++) mem_feedn(X.m, m[i]->str, m[i]->len);
		if (fin) X.m->eof = X.m->hup = 1;
		pump();
		if (!fin) judge(g, a, r, 4);
	} else {
		for (i = 0; i < 4; i++) {
			int step = m[i]->len > 100 ? 9 : 1;
			for (k = 0; k < (int)m[i]->len; k += step) { mem_feedn(X.m, m[i]->str + k, MIN(step, (int)m[i]->len - k)); pump(); }
			judge(g, a, r, i + 1);
			if (fin && i == 2) break;
		}
	}
	mc_outcome(mc_hash(X.m->out->str, MIN(X.m->out->len, 20), cfg));
	if (mc_choose_l(2, "stop")) { listener_stop(L); free_listener(L); L = NULL; pump(); }
	X.m->eof = X.m->hup = 1;
	pump();
	if (!gone()) mc_fail("a connection that ended is not released");
	if (L) { listener_stop(L); free_listener(L); }
	for (i = 0; i < 4; i++) g_string_free(m[i], TRUE);
	w_connect = NULL;
	w_teardown();
	w_end();
}
static void init(void) { w_init(); init_admin(); config_load_notify(W); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P19", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "11 greetings, 20 credentials and 18 requests (thorough: all combinations), with 5 configurations of users and passwords, implicit networks on and off, the server of the requested network reachable, slow or not, sent per message, in one piece, by byte (long messages: 9 at a time), and cut at every position (long ones: every 7th) with and without the rest following, the listener stopped under it. An independent reading of RFC 1928 and 1929 says what has to be answered and whether there is a client, on which network" };
	return mc_main(argc, argv, &chk);
}
