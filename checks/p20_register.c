/* P20: registration of a client in any order, on networks in any phase, and the
 * nick the client believes to have. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "connection.h"
void config_load_notify(struct global *);
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static struct irc_network *N[2];
static struct mem *S[2];
static int phase[2];               /* 0 not connected, 1 logging in, 2 connected */
static char srvnick[2][64], asked[2][64];
static struct wcl *X;
static int ignore_first, startnet, gone, closed, reg, net, havenick, haveuser, unsure;
static char nick[64], believed[64], user[64];
static GPtrArray *want;            /* answers that are due */
static char expect_nick[64];       /* NICK the server has to be sent in this step */
static int wasreg; static char cmd[64]; /* the message given in this step by a registered client */
static int comp;                   /* other clients */
static int evil;                   /* an evil message is to reach the server in this step */

static struct { char *a[16]; int n; char *o; } P;
static void parse(const char *s)
{
	static char b[1100];
	char *p = b;
	snprintf(b, sizeof(b), "%s", s);
	P.n = 0; P.o = NULL;
	if (*p == ':') { P.o = p + 1; p += strcspn(p, " "); if (*p) *p++ = 0; }
	while (*p && P.n < 15) {
		while (*p == ' ') p++;
		if (*p == ':' && P.n) { P.a[P.n++] = p + 1; break; }
		if (!*p) break;
		P.a[P.n++] = p;
		p += strcspn(p, " ");
		if (*p) *p++ = 0;
	}
	P.a[P.n] = NULL;
}
static int fold(const char *a, const char *b)
{
	for (; *a && *b; a++, b++) {
		int x = g_ascii_tolower(*a), y = g_ascii_tolower(*b);
		if (x == '[') x = '{'; if (x == ']') x = '}'; if (x == '\\') x = '|'; if (x == '^') x = '~';
		if (y == '[') y = '{'; if (y == ']') y = '}'; if (y == '\\') y = '|'; if (y == '^') y = '~';
		if (x != y) return 0;
	}
	return *a == *b;
}
static void look(void)
{
	int i, n001 = 0, nend = 0, welcome = 0, total = -comp;
	char *l;
	GList *gl;
	w_cl_drain(X);
	for (; X->seen < X->lines->len; X->seen++) {
		const char *g = X->lines->pdata[X->seen];
		parse(g);
		if (P.n == 0) mc_fail("the client is sent an empty line");
		if (want->len && !strcmp(P.a[0], want->pdata[0])) { g_ptr_array_remove_index(want, 0); continue; }
		if (strstr(g, "secret") && !reg) mc_fail("traffic reaches a client that has not registered: %s", mc_esc(g));
		if (!reg) {
			if (strcmp(P.a[0], "NOTICE") && strcmp(P.a[0], "PING") && strcmp(P.a[0], "ERROR")) mc_fail("the client is sent %s before having registered", mc_esc(g));
			if (!strcmp(P.a[0], "ERROR") && !closed) mc_fail("the client is told %s", mc_esc(g));
			continue;
		}
		if (!strcmp(P.a[0], "001")) {
			n001++;
			if (P.n < 2 || strcmp(P.a[1], nick)) mc_fail("the client is welcomed as %s instead of %s", P.n > 1 ? P.a[1] : "", nick);
			strcpy(believed, P.a[1]);
		}
		if (!strcmp(P.a[0], "376") || !strcmp(P.a[0], "422")) nend++;
		if (!strcmp(P.a[0], "NICK") && P.o && P.n > 1) {
			char *e = strchr(P.o, '!');
			if (e) *e = 0;
			if (fold(P.o, believed)) snprintf(believed, sizeof(believed), "%s", P.a[1]);
		}
		if (!strcmp(P.a[0], "451")) mc_fail("the client is told to register although it has");
	}
	if (want->len) mc_fail("there is no answer %s", (char *)want->pdata[0]);
	welcome = n001 > 0;
	if (n001 > 1) mc_fail("the client is welcomed %d times", n001);
	if (welcome && reg != 1) mc_fail("the client is welcomed again");
	if (reg == 1 && !gone) {
		if (!welcome || !nend) mc_fail("the client has given nick and user data and is not welcomed");
		reg = 2;
		mc_cover("registered");
	}
	/* who is where */
	for (gl = W->networks; gl; gl = gl->next) total += g_list_length(((struct irc_network *)gl->data)->clients);
	if (total != (reg && !gone && !closed)) mc_fail("%d clients are on the networks instead of %d", total, reg && !gone && !closed);
	if (total && g_list_length(N[net]->clients) != 1 + (comp ? 1 : 0)) mc_fail("the client is not on the network it asked for");
	if (closed && !gone && !X->m->dropped && !X->m->closed) mc_fail("the connection is not closed");
	if (!closed && !gone && (X->m->dropped || X->m->closed)) mc_fail("the connection is closed");
	/* what the servers are sent */
	for (i = 0; i < 2; i++) {
		if (!S[i]) continue;
		while ((l = w_srv_line(S[i]))) {
			parse(l);
			if (!strcasecmp(P.a[0], "NICK") && !(wasreg && P.n < 2)) {
				if (i != net || !reg || strcmp(P.a[1], expect_nick)) mc_fail("the server is sent %s", l);
				expect_nick[0] = 0;
				if (phase[i] == 1) { strcpy(srvnick[i], P.a[1]); mc_cover("nick asked for while logging in"); }
				else { strcpy(asked[i], P.a[1]); mc_cover("nick asked for"); }
			} else if (strstr(l, "evil")) {
				if (i != net || !evil) mc_fail("the server is sent %s", l);
				evil = 0;
				mc_cover("used");
			} else if (wasreg && !strcasecmp(P.a[0], cmd)) {
			} else if (strcmp(P.a[0], "PONG") && strcmp(P.a[0], "USERHOST") && strcmp(P.a[0], "WHO") && strcmp(P.a[0], "MODE") && strcmp(P.a[0], "PING"))
				mc_fail("the server is sent %s", l);
			g_free(l);
		}
	}
	if (expect_nick[0] && !gone) mc_fail("the server is not asked for the nick %s", expect_nick);
	if (evil && !gone) mc_fail("a message of the registered client does not reach the server");
	/* what the client believes */
	if (reg && !gone && !closed && phase[net] == 2 && !fold(believed, srvnick[net])) mc_fail("the client believes its nick to be %s, it is %s", believed, srvnick[net]);
}
static void give(const char *line)
{
	g_ptr_array_set_size(want, 0);
	expect_nick[0] = 0; evil = 0;
	parse(line);
	wasreg = reg; snprintf(cmd, sizeof(cmd), "%s", P.n ? P.a[0] : "");
	if (!gone && !closed && P.n) {
		const char *c = P.a[0];
		if (!reg) {
			if (!strcasecmp(c, "NICK")) { if (P.n < 2) g_ptr_array_add(want, "461"); else { havenick = 1; strcpy(nick, P.a[1]); } }
			else if (!strcasecmp(c, "USER")) { if (P.n < 5) g_ptr_array_add(want, "461"); else { haveuser = 1; strcpy(user, P.a[1]); } }
			else if (!strcasecmp(c, "PASS")) unsure = 1;  /* without effect; may complain about a missing parameter */
			else if (!strcasecmp(c, "CONNECT")) {
				if (P.n < 2) g_ptr_array_add(want, "461");
				else if (!strcmp(P.a[1], "irc.one.org")) net = 0;
				else if (!strcmp(P.a[1], "irc.two.org")) net = 1;
				else net = -1;
			} else g_ptr_array_add(want, "451");
			if (havenick && haveuser) {
				if (net < 0) { closed = 1; mc_cover("no network"); }
				else {
					reg = 1;
					if (phase[net] && !fold(nick, srvnick[net]) && !ignore_first) strcpy(expect_nick, nick);
				}
			}
		} else {
			if (!strcasecmp(c, "USER") || !strcasecmp(c, "PASS")) g_ptr_array_add(want, "462");
			else if (!strcasecmp(c, "QUIT")) closed = 1;
			else if (!strcasecmp(c, "PING")) g_ptr_array_add(want, "PONG");
			else if (!strcasecmp(c, "NICK")) { if (phase[net] == 2) { if (P.n > 1) strcpy(expect_nick, P.a[1]); else unsure = 1; } }
			else if (strstr(line, "evil")) evil = phase[net] == 2;
			if (phase[net] == 0 && (!strcasecmp(c, "PRIVMSG") || !strcasecmp(c, "NOTICE"))) g_ptr_array_add(want, "401");
			if (phase[net] == 0 && !strcasecmp(c, "JOIN")) g_ptr_array_add(want, "403");
		}
	}
	if (unsure && P.n < 2 && reg == 0 && !strcasecmp(P.a[0], "PASS")) {
		w_cl(X, "%s", line);
		w_cl_drain(X);
		if (X->seen < X->lines->len && strstr(X->lines->pdata[X->seen], " 461 ")) X->seen++;
	} else w_cl(X, "%s", line);
	unsure = 0;
}
static const char *M[] = {
	"NICK al", "USER u 0 * :Real", "NICK me", "NICK", "NICK BE", "USER u 0 *", "PRIVMSG #x :evil", "PASS pw", "CONNECT irc.two.org", "CONNECT irc.nosuch.org", "QUIT :bye",
	/* thorough, or the second part */
	"USER v w x y z", "CONNECT irc.one.org 6667", "CONNECT", "PASS", "JOIN #evil", "PING x", "nick ce extra", ":forged!a@b NICK de", "CAP LS 302", "NICK ME",
};
#define NM ((int)(sizeof(M)/sizeof(M[0])))
#define SHORT 11
static void set_up(int i, int ph)
{
	N[i] = w_network(i ? "two" : "one", "me");
	phase[i] = ph;
	S[i] = NULL;
	strcpy(srvnick[i], "me");
	asked[i][0] = 0;
	if (ph == 0) return;
	if (ph == 2) { S[i] = w_up(N[i], "me", NULL); w_srv(S[i], ":me!mu@mh JOIN #x"); }
	else { connect_network(N[i]); pump(); S[i] = w_conn(N[i])->m; }
	w_srv_drain(S[i]);
}
static int connects(int idx) { return 0; }
static int refuses(int idx) { return 2; }
static void run(void)
{
	int part, depth, k, i, ph;
	part = mc_choose_l(3, "part");
	ph = mc_choose_l(3, "network: down, logging in, up");
	ignore_first = part ? 0 : mc_choose_l(2, "ignore the first nick");
	startnet = part ? 0 : mc_choose_l(2, "no network") ? -1 : 0;
	depth = mc_tier ? 9 : part == 1 ? 4 : part ? 5 : 6;
	w_begin();
	vt_reset();
	want = g_ptr_array_new();
	w_connect = connects;
	comp = 0;
	gone = closed = reg = havenick = haveuser = unsure = evil = 0;
	expect_nick[0] = nick[0] = user[0] = 0;
	net = startnet;
	set_up(0, ph); set_up(1, 2);
	if (part == 2) {
		/* somebody else is there already */
		w_client(N[0], "me"); w_client(N[1], "me");
		comp = 2;
		for (i = 0; i < 2; i++) if (S[i]) w_srv_drain(S[i]);
	}
	w_connect = refuses;               /* a network that is down stays down */
	((struct network_config *)N[0]->private_data)->ignore_first_nick = ignore_first;
	((struct network_config *)N[1]->private_data)->ignore_first_nick = ignore_first;
	X = w_client_raw(startnet < 0 ? NULL : N[0]);
	if (!X->c) mc_fail("no client");
	look();
	for (i = 0; i < depth; i++) {
		int a = net < 0 ? 0 : net;
		char op[8]; int n = 0, msgs = part == 1 || mc_tier ? NM : SHORT;
		enum { SECRET, RENAME, OK, REFUSED, FINISH, LEAVE, TICK, OTHER };
		uint64_t h;
		if (S[a]) {
			op[n++] = SECRET;
			if (phase[a] == 2) { op[n++] = RENAME; op[n++] = OTHER; if (asked[a][0]) { op[n++] = OK; op[n++] = REFUSED; } }
			else op[n++] = FINISH;
		}
		if (!gone && !closed) { op[n++] = LEAVE; if (!reg) op[n++] = TICK; }
		if (n == 0 && (gone || closed)) break;
		k = mc_choose_l(n + (gone || closed ? 0 : msgs), "event");
		g_ptr_array_set_size(want, 0);
		expect_nick[0] = 0; evil = 0;
		wasreg = 0;
		if (k >= n) give(M[k - n]);
		else switch (op[k]) {
		case SECRET: w_srv(S[a], ":al!u@h PRIVMSG %s :secret", srvnick[a]); break;
		case RENAME: { char o[64]; strcpy(o, srvnick[a]); strcpy(srvnick[a], strcmp(o, "forced") ? "forced" : "me"); w_srv(S[a], ":%s!mu@mh NICK :%s", o, srvnick[a]); break; }
		case OTHER: w_srv(S[a], ":zed!z@z NICK :zoe"); break;
		case OK: { char o[64]; strcpy(o, srvnick[a]); strcpy(srvnick[a], asked[a]); asked[a][0] = 0; w_srv(S[a], ":%s!mu@mh NICK %s", o, srvnick[a]); mc_cover("nick got"); break; }
		case REFUSED: w_srv(S[a], ":srv.net 433 %s %s :Nickname is already in use.", srvnick[a], asked[a]); asked[a][0] = 0; mc_cover("nick not got"); break;
		case FINISH: phase[a] = 2; w_login(S[a], srvnick[a], NULL); w_srv_drain(S[a]); break;
		case LEAVE: gone = 1; w_cl_leave(X); break;
		case TICK: {
			int t, j;
			for (t = 0; t < 11; t++) { vt_advance(28000); pump(); for (j = 0; j < 2; j++) if (S[j]) { mem_feed(S[j], ":srv.net PONG srv.net ctrlproxy\r\n"); pump(); w_srv_drain(S[j]); } } w_cl_drain(X); if (X->seen == X->lines->len) mc_fail("the client is not probed"); break; }
		}
		look();
		h = mc_hash_str(nick, mc_hash_str(user, mc_hash_str(believed, MC_H0)));
		h = mc_hash_str(srvnick[0], mc_hash_str(srvnick[1], mc_hash_str(asked[0], mc_hash_str(asked[1], h))));
		{ int v[] = { part, ph, ignore_first, startnet, phase[0], gone, closed, reg, net, havenick, haveuser }; h = mc_hash(v, sizeof(v), h); }
		if (!gone && !closed && X->c) {
			struct irc_login_details *d = X->c->login_details;
			char *b = g_strdup_printf("%s/%s/%d/%s/%d", d->nick ? d->nick : "-", d->username ? d->username : "-", X->c->network ? (X->c->network == N[1]) + 1 : 0, X->c->state ? X->c->state->me.nick : "-", X->c->authenticated);
			h = mc_hash_str(b, h);
			g_free(b);
		}
		mc_outcome(h);
		if (mc_state(h, depth - i - 1)) break;
	}
	g_ptr_array_free(want, TRUE);
	w_teardown();
	w_end();
}
static void init(void) { w_init(); config_load_notify(W); }
static const struct mc_check chk = { "P20", init, run, 100, 20,
	"Every sequence of registration and other messages (two nicks in either case, complete and incomplete user data, PASS, CONNECT to known and unknown networks, ordinary commands, QUIT), interleaved with server messages, forced and accepted and refused nick changes, the end of the server login, probes and the client's departure; networks down, logging in and up, with and without a network chosen beforehand, with and without ignore-first-nick, with and without another client; states seen before are not expanded again" };
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
