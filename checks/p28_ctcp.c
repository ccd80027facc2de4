/* P28: CTCP requests from the network are answered when nobody is there to do
 * so, replies go to the client that asked. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "vtime.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static struct irc_network *N[2];
static struct mem *M[2];
static char *low(const char *s) { return g_ascii_strdown(s, -1); }

/* ---- part 1: texts ---- */
static const char *tok[] = { "\001", " ", "PING", "VERSION", "1", "version", "ACTION", "TIME", "FINGER", "SOURCE", "CLIENTINFO", "ERRMSG", "XYZ", "%s", "QUIET", "OWN", "DCC" };
#define NTOK ((int)G_N_ELEMENTS(tok))
static char who[20];
static void own_handler(struct ctcp_handle *h, const char **args)
{
	if (ctcp_get_network(h) != N[0]) mc_fail("handler is called for another network");
	if (strcmp(ctcp_get_nick(h), who)) mc_fail("handler is told the nick %s", ctcp_get_nick(h));
	ctcp_reply(h, "OWN", "mine", args[0], NULL);
}
static const struct ctcp_handler quiet = { "QUIET", NULL }, own = { "OWN", own_handler };

/* is l an answer to the request text (without the first \001)? 0 no, 1 yes */
static int answers(const char *l, const char *nick, const char *cmd, const char *arg)
{
	struct irc_line *x = irc_parse_line(l);
	int r = 0; const char *t; size_t n;
	char *want, *u = g_ascii_strup(cmd, -1);
	if (x->origin || x->argc != 3 || strcmp(x->args[0], "NOTICE") || strcmp(x->args[1], nick)) goto out;
	t = x->args[2]; n = strlen(t);
	if (n < 3 || t[0] != 1 || t[n - 1] != 1 || strchr(t + 1, 1) != t + n - 1) goto out;
	want = g_strdup_printf("\001%s ", u);
	if (!strcmp(u, "PING")) {
		char *w = arg ? g_strdup_printf("\001PING %s\001", arg) : g_strdup("\001PING\001");
		r = !strcmp(t, w); g_free(w);
	} else if (!strcmp(u, "OWN")) { char *w = g_strdup_printf("\001OWN mine %s\001", cmd); r = !strcmp(t, w); g_free(w); }
	else if (g_str_has_prefix(t, want)) {
		const char *v = t + strlen(want);
		if (!strcmp(u, "VERSION")) r = g_str_has_prefix(v, "ctrlproxy:");
		else if (!strcmp(u, "FINGER")) r = !strcmp(v, "My Name\001");
		else if (!strcmp(u, "CLIENTINFO")) r = strstr(v, "VERSION") && strstr(v, "PING") && strstr(v, "CLIENTINFO") && strstr(v, "ACTION") && strstr(v, "TIME") && strstr(v, "OWN") && strstr(v, "QUIET");
		else if (!strcmp(u, "TIME")) { char *e = g_strdup(v); struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_isdst = -1; e[strlen(e) - 1] = 0; r = strptime(e, "%a %b %d %H:%M:%S %Y", &tm) != NULL && (tm.tm_isdst = -1, mktime(&tm)) == time(NULL); g_free(e); }
		else r = v[0] != 1;
	}
	g_free(want);
out:
	g_free(u); free_line(x);
	return r;
}
static const char *known[] = { "PING", "VERSION", "TIME", "FINGER", "SOURCE", "CLIENTINFO", "OWN", NULL };
static void expect_answer(const char *text, int asked, const char *nick)
{
	char *end = strchr(text + 1, 1), *body = NULL, *l, *l2, *sp;
	int i;
	l = w_srv_line(M[0]);
	l2 = l ? w_srv_line(M[0]) : NULL;
	if (l2) mc_fail("more than one line (%s, %s) is sent after %s", mc_esc(l), mc_esc(l2), mc_esc(text));
	if (!asked || !end) {
		if (l) mc_fail("%s is sent after %s", mc_esc(l), mc_esc(text));
		return;
	}
	body = g_strndup(text + 1, end - text - 1);
	sp = strchr(body, ' ');
	if (sp) *sp++ = 0;
	for (i = 0; known[i] && g_ascii_strcasecmp(known[i], body); i++);
	if (known[i]) {
		if (!l) mc_fail("%s is not answered", mc_esc(text));
		if (!answers(l, nick, body, sp)) mc_fail("%s is answered with %s", mc_esc(text), mc_esc(l));
		mc_cover("answered");
		mc_outcome(mc_hash_str(l, mc_hash_str(body, MC_H0)));
	} else if (l) {
		char *p = g_strdup_printf("NOTICE %s :\001ERRMSG", nick);
		if (!g_str_has_prefix(l, p) || l[strlen(l) - 1] != 1 || g_str_has_prefix(body, "ACTION") || !strcasecmp(body, "QUIET"))
			mc_fail("%s is answered with %s", mc_esc(text), mc_esc(l));
		g_free(p);
		mc_cover("error");
	}
	g_free(body); g_free(l);
}
static void texts(void)
{
	static const char *origins[] = { "al!u@h", "al", "al!@h", "srv.net", NULL, "!u@h", "me!mu@mh", "a%n!u@h" };
	static const char *cmds[] = { "PRIVMSG", "NOTICE", "privmsg" };
	static const char *targets[] = { "me", "#c", "@#c", "ME" };
	int o = 0, c = 0, t = 0, n, i, full, ncl;
	char text[200] = "\001", nick[20];
	struct wcl *C[2] = { NULL, NULL };
	char *line;
	full = mc_choose_l(2, "full");
	ncl = mc_choose_l(full ? 2 : 3, "clients");
	if (!full) { o = mc_choose_l(8, "origin"); c = mc_choose_l(3, "command"); t = mc_choose_l(4, "target"); }
	n = mc_choose_l((full ? (mc_tier ? 6 : ncl ? 4 : 5) : 3), "length");
	for (i = 0; i < n; i++) strcat(text, tok[mc_choose(n >= 4 + (mc_tier > 0) ? 10 : NTOK)]);
	line = g_strdup_printf("%s%s%s%s %s :%s", origins[o] ? ":" : "", origins[o] ? origins[o] : "", origins[o] ? " " : "", cmds[c], targets[t], text);
	w_begin(); vt_reset();
	N[0] = w_network("net", "me");
	M[0] = w_up(N[0], "me", "PREFIX=(ov)@+ CHANTYPES=#");
	w_srv(M[0], ":me!mu@mh JOIN #c");
	for (i = 0; i < ncl; i++) { C[i] = w_client(N[0], "me"); }
	w_srv_drain(M[0]);
	for (i = 0; i < ncl; i++) w_cl_skip(C[i]);
	strcpy(who, origins[o] ? origins[o] : ""); who[strcspn(who, "!@")] = 0;
	w_srv(M[0], "%s", line);
	pump();
	strcpy(nick, origins[o] ? origins[o] : ""); nick[strcspn(nick, "!@")] = 0;
	expect_answer(text, c != 1 && ncl == 0 && nick[0], nick);
	for (i = 0; i < ncl; i++) {
		const char *l;
		int k = 0;
		w_cl_drain(C[i]);
		while ((l = w_cl_next(C[i]))) {
			struct irc_line *x;
			if (strstr(l, "NOTICE * :")) continue;
			x = irc_parse_line(l);
			if (k || x->argc != 3 || strcmp(x->args[0], cmds[c]) || strcmp(x->args[1], targets[t]) || strcmp(x->args[2], text)) mc_fail("%s is sent to client %d after %s", mc_esc(l), i, mc_esc(line));
			free_line(x);
			k++;
		}
		if (!k) mc_fail("%s is not sent to client %d", mc_esc(line), i);
		mc_cover("handed on");
	}
	/* and the proxy still answers */
	for (i = 0; i < ncl; i++) w_cl_leave(C[i]);
	w_srv_drain(M[0]);
	w_srv(M[0], ":al!u@h PRIVMSG me :\001PING a b\001");
	expect_answer("\001PING a b\001", 1, "al");
	g_free(line);
	w_teardown();
	w_end();
}

/* ---- part 2: who asked ---- */
struct rec { int cl, net; const char *nick /* NULL: a channel */, *cmd; char text[40]; gint64 when; };
static struct rec R[32]; static int nr;
static struct wcl *C[3]; static int on[3];      /* 0, 1 on network 0; 2 on network 1 */
static int netof(int c) { return c == 2; }
static struct { int cl; const char *line, *nick[2]; const char *cmd, *text; } ASK[] = {
	{ 0, "PRIVMSG al :\001VERSION\001", { "al" }, "version" },
	{ 1, "PRIVMSG AL :\001version\001", { "al" }, "version" },
	{ 0, "PRIVMSG al :\001PING 11\001", { "al" }, "ping" },
	{ 1, "PRIVMSG al :\001PING 22 x\001", { "al" }, "ping" },
	{ 0, "PRIVMSG #c :\001VERSION\001", { NULL }, "version" },
	{ 1, "PRIVMSG al,#c :\001PING 33\001", { "al", "" }, "ping" },
	{ 1, "PRIVMSG be :\001VERSION\001", { "be" }, "version" },
	{ 2, "PRIVMSG al :\001VERSION\001", { "al" }, "version" },
	{ 0, "PRIVMSG al :\001VERSION", { "?" }, "" },
	{ 0, "PRIVMSG al :\001\001", { "?" }, "" },
	{ 1, "PRIVMSG @#c :\001TIME\001", { NULL }, "time" },
};
static struct { int net; const char *nick, *cmd, *text; } REPLY[] = {
	{ 0, "al", "version", "\001VERSION mIRC\001" },
	{ 0, "Al", "version", "\001Version irssi 1\001" },
	{ 0, "be", "version", "\001VERSION x\001" },
	{ 0, "al", "ping", "\001PING 11\001" },
	{ 0, "al", "ping", "\001PING 22 x\001" },
	{ 0, "be", "ping", "\001PING 33\001" },
	{ 1, "al", "version", "\001VERSION y\001" },
	{ 0, "be", "time", "\001TIME now\001 then" },
	{ 0, "al", "?", "\001VERSION" },
};
#define NASK ((int)G_N_ELEMENTS(ASK))
#define NREPLY ((int)G_N_ELEMENTS(REPLY))
enum { LEAVE0 = 0, LEAVE1, LEAVE2, ATTACH, REQUEST, PASS, LOST, NOTHER };
static void add(int cl, const char *nick, const char *cmd, const char *line)
{
	struct rec *r = &R[nr++];
	r->cl = cl; r->net = netof(cl); r->nick = nick; r->cmd = cmd; r->when = vt_now;
	snprintf(r->text, sizeof r->text, "%s", strchr(line, ':') + 1);
}
static void expire(void)
{
	int i, j = 0;
	for (i = 0; i < nr; i++) if (vt_now - R[i].when <= 300 * 1000 && on[R[i].cl]) R[j++] = R[i];
	nr = j;
}
/* every client is sent what in says, and nothing more */
static void settle(const int *in, const char *text)
{
	int c;
	for (c = 0; c < 3; c++) {
		const char *l; int k = 0;
		if (!on[c]) continue;
		w_cl_drain(C[c]);
		while ((l = w_cl_next(C[c]))) {
			struct irc_line *x;
			if (!strncmp(l, ":net NOTICE * ", 14) || !strncmp(l, "NOTICE * ", 9) || strstr(l, " NOTICE * :") || strstr(l, "PING ")  == l) continue;
			x = irc_parse_line(l);
			if (!text || x->argc != 3 || strcmp(x->args[2], text)) mc_fail("%s is sent to client %d", mc_esc(l), c);
			free_line(x);
			k++;
		}
		if (in && k > in[c]) mc_fail("%s is sent to client %d, which did not ask (%d times)", mc_esc(text), c, k);
		if (in && k < in[c]) mc_fail("%s is not sent to client %d", mc_esc(text), c);
	}
}
static void reply(int k)
{
	int i, in[3] = { 0, 0, 0 }, best = 0, b = -1, c, n = 0;
	char *s;
	expire();
	for (i = 0; i < nr; i++) {
		struct rec *r = &R[i]; int v = 1; char *a;
		if (r->net != REPLY[k].net || strcmp(r->cmd, REPLY[k].cmd)) continue;
		a = low(REPLY[k].nick);
		if (r->nick && strcmp(r->nick, a)) { g_free(a); continue; }
		g_free(a);
		if (r->nick) v += 1;
		if (!strcmp(r->text, REPLY[k].text)) v += 2;
		if (v > best) { best = v; b = i; }
	}
	for (c = 0; c < 3; c++) if (on[c] && netof(c) == REPLY[k].net && (b < 0 || R[b].cl == c)) in[c] = 1, n++;
	w_srv(M[REPLY[k].net], ":%s!u@h NOTICE me :%s", REPLY[k].nick, REPLY[k].text);
	pump();
	for (i = 0; i < 2; i++) if ((s = w_srv_line(M[i]))) mc_fail("%s is sent to the server after a reply", mc_esc(s));
	settle(in, REPLY[k].text);
	if (b >= 0) { mc_cover(n ? "reply to the client that asked" : "?"); if (R[b].nick) { memmove(R + b, R + b + 1, (nr - b - 1) * sizeof *R); nr--; } }
	else if (n) mc_cover("reply to everybody");
	else mc_cover("reply to nobody");
}
static void other(int k)
{
	int x, s;
	char *l;
	if (k <= LEAVE2) { mc_trace("client %d leaves", k); w_cl_leave(C[k]); on[k] = 0; expire(); }
	else switch (k) {
	case ATTACH: {
		int c = on[0] ? on[1] ? 2 : 1 : 0;
		if (on[c]) return;
		C[c] = w_client(N[netof(c)], "me"); w_cl_skip(C[c]); on[c] = 1; w_srv_drain(M[netof(c)]);
		break; }
	case REQUEST: {
		int in[3] = { on[0], on[1], 0 };
		w_srv(M[0], ":al!u@h PRIVMSG me :\001VERSION\001");
		expect_answer("\001VERSION\001", !on[0] && !on[1], "al");
		settle(in, "\001VERSION\001");
		break; }
	case PASS:
		mc_trace("six minutes pass");
		for (s = 0; s < 360; s += 10) {
			vt_advance(10000); pump();
			for (x = 0; x < 2; x++) { while ((l = mem_line(M[x]))) g_free(l); mem_feed(M[x], ":srv.net PONG srv.net x\r\n"); }
			for (x = 0; x < 3; x++) if (on[x]) mem_feed(C[x]->m, "PONG x\r\n");
			pump();
		}
		settle(NULL, NULL);
		expire();
		break;
	case LOST:
		mc_trace("the connection is lost and made again");
		((struct network_config *)N[0]->private_data)->reconnect_interval = N[0]->reconnect_interval = 2;
		M[0]->eof = M[0]->hup = 1; pump();
		vt_advance(3000); pump();
		{ int i; for (i = nwconns - 1; i >= 0; i--) if (wconns[i].m && !wconns[i].m->closed && !wconns[i].closed && wconns[i].m != M[1]) break; M[0] = wconns[i].m; }
		w_login(M[0], "me", "PREFIX=(ov)@+ CHANTYPES=#");
		w_srv_drain(M[0]);
		for (x = 0; x < 3; x++) if (on[x]) { w_cl_drain(C[x]); w_cl_skip(C[x]); }
		break;
	}
}
static void routing(void)
{
	int i, x, depth = mc_tier ? 6 : 4;
	w_begin(); vt_reset();
	nr = 0;
	for (x = 0; x < 2; x++) {
		N[x] = w_network(x ? "two" : "one", "me");
		connect_network(N[x]); pump();
		for (i = nwconns - 1; i >= 0; i--) if (wconns[i].m && !wconns[i].m->closed && (x == 0 || wconns[i].m != M[0])) break;
		M[x] = wconns[i].m;
		w_login(M[x], "me", "PREFIX=(ov)@+ CHANTYPES=#");
		w_srv(M[x], ":me!mu@mh JOIN #c");
		w_srv_drain(M[x]);
	}
	for (i = 0; i < 3; i++) { C[i] = w_client(N[netof(i)], "me"); on[i] = 1; }
	for (x = 0; x < 2; x++) w_srv_drain(M[x]);
	for (i = 0; i < 3; i++) w_cl_skip(C[i]);
	for (i = 0; i < depth; i++) {
		int k = mc_choose_l(NASK + NREPLY + NOTHER, "event");
		if (k < NASK) {
			char *l; struct irc_line *a, *b; int c = ASK[k].cl, n;
			if (!on[c]) break;
			expire();
			if (ASK[k].nick[0] == NULL) { for (n = 0; n < nr; n++) if (!R[n].nick && R[n].cl == c && !strcmp(R[n].cmd, ASK[k].cmd)) break; if (n < nr) break; }
			w_cl(C[c], "%s", ASK[k].line);
			l = w_srv_line(M[netof(c)]);
			if (!l) mc_fail("%s is not sent to the server", mc_esc(ASK[k].line));
			a = irc_parse_line(l); b = irc_parse_line(ASK[k].line);
			if (a->argc != b->argc || strcmp(a->args[1], b->args[1]) || strcmp(a->args[2], b->args[2])) mc_fail("%s becomes %s", mc_esc(ASK[k].line), mc_esc(l));
			free_line(a); free_line(b); g_free(l);
			settle(NULL, NULL);
			for (n = 0; n < 2; n++) if (ASK[k].nick[n] || (!n && ASK[k].cmd[0])) { if (!ASK[k].nick[n] || ASK[k].nick[n][0] != '?') add(c, ASK[k].nick[n] && ASK[k].nick[n][0] ? ASK[k].nick[n] : NULL, ASK[k].cmd, ASK[k].line); }
		} else if (k < NASK + NREPLY) reply(k - NASK);
		else {
			if (k - NASK - NREPLY <= LEAVE2 && !on[k - NASK - NREPLY]) break;
			other(k - NASK - NREPLY);
		}
		{
			uint64_t d = MC_H0; int j;
			for (j = 0; j < nr; j++) { int v[] = { R[j].cl, R[j].net, (int)((vt_now - R[j].when) / 1000) }; d = mc_hash(v, sizeof v, mc_hash_str(R[j].text, mc_hash_str(R[j].nick ? R[j].nick : "#", d))); }
			d = mc_hash(on, sizeof on, d);
			mc_outcome(d);
			if (mc_state(d, depth - i - 1)) break;
		}
	}
	w_teardown();
	w_end();
}
static void run(void)
{
	if (mc_choose_l(2, "part")) routing(); else texts();
}
static void init(void) { w_init(); ctcp_register_handler(&quiet); ctcp_register_handler(&own); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P28", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "every text of up to 3 (thorough 4; one more from 10 of them) of 17 tokens after the CTCP mark to the proxy without clients (3 with one), of up to 2 from 8 kinds of sender, as request or reply, to the user or a channel, with up to two clients; and all sequences of 4 (thorough 6) requests of three clients on two networks (several names for one target, channels, lists), replies, departures, attachments, time outs, reconnections; each answer and recipient is compared" };
	return mc_main(argc, argv, &chk);
}
