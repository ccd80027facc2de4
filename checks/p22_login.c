/* P22: a server that answers the registration in every way, and what the proxy
 * sends it from the first byte until the connection is usable. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "connection.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static struct irc_network *N;
static struct network_config *NC;
static struct mem *m;
static struct wcl *C;
static GPtrArray *sent;      /* what the proxy has sent in this step */
static int onfwd, nicklen, welcomed, usable, quiet;
static char cur[64];         /* the nick tried or used, as the server sees it */
static char tried[16][64];
static int ntried, refusals;
static void collect(void)
{
	char *l;
	g_ptr_array_set_size(sent, 0);
	while ((l = w_srv_line(m))) g_ptr_array_add(sent, l);
}
static void fed(const char *fmt, ...) __attribute__((format(printf,1,2)));
static void fed(const char *fmt, ...)
{
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	w_srv(m, "%s", b);
	collect();
}
static const char *word(const char *l, int i)
{
	static char b[4][256]; static int k;
	struct irc_line *p = irc_parse_line(l);
	k = (k + 1) % 4;
	snprintf(b[k], 256, "%s", p && i < p->argc ? p->args[i] : "");
	free_line(p);
	return b[k];
}
static int goodnick(const char *s)
{
	int i;
	if (!s[0] || strlen(s) > 40) return 0;
	for (i = 0; s[i]; i++) if (!g_ascii_isalnum(s[i]) && !strchr("_-[]\\`^{}|", s[i])) return 0;
	return !g_ascii_isdigit(s[0]) && s[0] != '-';
}
static void take(const char *nick)
{
	int i;
	if (!goodnick(nick)) mc_fail("the nick %s is tried", nick);
	snprintf(cur, sizeof(cur), "%s", nick);
	if (nicklen && (int)strlen(cur) > nicklen) cur[nicklen] = 0;
	for (i = 0; i < ntried; i++) if (!strcmp(tried[i], cur)) return;
	if (ntried < 16) strcpy(tried[ntried++], cur);
}
static void nothing(const char *after)
{
	if (sent->len) mc_fail("after %s the proxy sends %s", after, mc_esc(sent->pdata[0]));
}
static const struct { const char *nick, *dflt; } NICKS[] = { { "me", "other" }, { NULL, "dflt" }, { "ninechars", NULL }, { "tencharsXY", NULL } };
static const char *CMDS[][4] = { { NULL }, { "MODE me +i", NULL }, { "PRIVMSG NickServ :IDENTIFY a b", "", ":bad", "OPER a b" }, { ":bad", NULL } };
static const struct { const char *name, *key; int join; } CHANS[][4] = {
	{ { NULL } }, { { "#a", "key", 1 }, { "#b", NULL, 0 }, { "#c", NULL, 1 } }, { { "#b", "k2", 0 } }, { { "#x", NULL, 1 }, { "#FWD", NULL, 1 }, { "&y", "k3", 1 } },
};
static const char *PW[][3] = { { NULL, NULL, NULL }, { "spw", NULL, "spw" }, { NULL, "npw", "npw" }, { "s p", "npw", "s p" } };
/* after this message the connection is usable */
static const char *joins[4];    /* instead of the configured ones */
static void accepted(int cmds, int chans)
{
	GPtrArray *want = g_ptr_array_new();
	int i, k, n;
	for (i = 0; i < 4 && CMDS[cmds][i]; i++) if (CMDS[cmds][i][0] && CMDS[cmds][i][0] != ':') g_ptr_array_add(want, g_strdup(CMDS[cmds][i]));
	n = want->len;
	for (i = 0; i < 4 && chans >= 0 && CHANS[chans][i].name; i++) if (CHANS[chans][i].join) g_ptr_array_add(want, g_strdup_printf(CHANS[chans][i].key ? "JOIN %s %s" : "JOIN %s", CHANS[chans][i].name, CHANS[chans][i].key));
	for (i = 0; chans < 0 && joins[i]; i++) g_ptr_array_add(want, g_strdup(joins[i]));
	usable = 1;
	/* each once; the commands in their order */
	k = 0;
	for (i = 0; i < (int)sent->len; i++) {
		const char *l = sent->pdata[i];
		int j;
		struct irc_line *a = irc_parse_line(l);
		if (!strcmp(a->args[0], "USERHOST")) { free_line(a); continue; }
		for (j = 0; j < (int)want->len; j++) {
			struct irc_line *b; int x, eq;
			if (!want->pdata[j]) continue;
			b = irc_parse_line(want->pdata[j]);
			eq = a->argc == b->argc;
			for (x = 0; eq && x < a->argc; x++) eq = !strcmp(a->args[x], b->args[x]);
			free_line(b);
			if (eq) break;
		}
		if (j == (int)want->len) mc_fail("%s is sent after the login", mc_esc(l));
		if (j < n) { if (j != k) mc_fail("the commands are not sent in their order"); k++; }
		want->pdata[j] = NULL;
		free_line(a);
	}
	for (i = 0; i < (int)want->len; i++) if (want->pdata[i]) mc_fail("%s is not sent after the login", (char *)want->pdata[i]);
	g_ptr_array_free(want, TRUE);
	if (N->connection.state != NETWORK_CONNECTION_STATE_MOTD_RECVD) mc_fail("the connection does not become usable");
	if (strcmp(N->external_state->me.nick, cur)) mc_fail("the proxy believes its nick is %s instead of %s", N->external_state->me.nick, cur);
	mc_cover("usable");
}
static void run(void)
{
	int nk, cmds, chans, pw, part, depth, i, k;
	struct tcp_server_config *sc;
	part = mc_choose_l(3, "part");
	nk = part == 1 ? 0 : mc_choose_l(4, "nick");
	nicklen = part == 2 ? 0 : mc_choose_l(2, "short nicks only") * 9;
	pw = part == 2 ? mc_choose_l(4, "password") : 0;
	cmds = part == 2 ? mc_choose_l(4, "commands") : part == 1 ? 1 : 0;
	chans = part == 2 ? mc_choose_l(4, "channels") : part == 1 ? 3 : 0;
	w_begin();
	vt_reset();
	onfwd = welcomed = usable = quiet = ntried = refusals = 0;
	if (!sent) sent = g_ptr_array_new();
	W->config->default_nick = g_strdup(NICKS[nk].dflt ? NICKS[nk].dflt : "gone");
	NC = w_netconfig("net", NICKS[nk].nick);
	if (nk == 1) { NC->username = NULL; NC->fullname = NULL; W->config->default_username = g_strdup("duser"); W->config->default_realname = g_strdup("Default Name"); }
	sc = NC->type_settings.tcp.servers->data;
	sc->password = g_strdup(PW[pw][0]);
	NC->password = g_strdup(PW[pw][1]);
	for (i = 0; i < 4 && CMDS[cmds][i]; i++);
	if (i) {
		NC->autocmd = g_new0(char *, i + 1);
		while (i--) NC->autocmd[i] = g_strdup(CMDS[cmds][i]);
	}
	for (i = 0; i < 4 && CHANS[chans][i].name; i++) {
		struct channel_config *cc = g_new0(struct channel_config, 1);
		cc->name = g_strdup(CHANS[chans][i].name); cc->key = g_strdup(CHANS[chans][i].key); cc->autojoin = CHANS[chans][i].join;
		NC->channels = g_list_append(NC->channels, cc);
	}
	N = load_network(W, NC);
	connect_network(N);
	pump();
	if (!w_conn(N)) mc_fail("no connection");
	m = w_conn(N)->m;
	collect();
	i = 0;
	if (PW[pw][2]) {
		if (i >= (int)sent->len || strcmp(word(sent->pdata[i], 0), "PASS") || strcmp(word(sent->pdata[i], 1), PW[pw][2])) mc_fail("the password %s is not sent first", PW[pw][2]);
		i++;
	}
	if (i + 2 != (int)sent->len) mc_fail("%d messages are sent on connecting", (int)sent->len);
	if (strcmp(word(sent->pdata[i], 0), "NICK") || strcmp(word(sent->pdata[i], 1), NICKS[nk].nick ? NICKS[nk].nick : NICKS[nk].dflt)) mc_fail("the nick sent is %s", (char *)sent->pdata[i]);
	take(word(sent->pdata[i], 1));
	i++;
	if (strcmp(word(sent->pdata[i], 0), "USER") || strcmp(word(sent->pdata[i], 1), nk == 1 ? "duser" : "myuser") || strcmp(word(sent->pdata[i], 4), nk == 1 ? "Default Name" : "My Name")) mc_fail("the user sent is %s", (char *)sent->pdata[i]);
	C = part == 2 ? NULL : w_client(N, tried[0][0] ? word(sent->pdata[i - 1], 1) : "me");
	if (C) { collect(); nothing("a client attached"); }
	depth = part == 2 ? 2 : mc_tier ? 8 : part == 0 ? 6 : 4;
	for (i = 0; i < depth && !usable; i++) {
		enum { REFUSE, WELCOME, NOISE, FORCE, FEATURES, JOINED, CLIENT, MOTD, NOMOTD, SETMODE, NOPE };
		int can[16], n = 0;
		if (part == 0) {
			if (!welcomed) { can[n++] = REFUSE; can[n++] = NOPE; can[n++] = WELCOME; }
			can[n++] = NOISE;
			if (welcomed) { can[n++] = FORCE; can[n++] = MOTD; }
		} else {
			if (!welcomed) { can[n++] = WELCOME; can[n++] = REFUSE; can[n++] = NOISE; if (C) can[n++] = CLIENT; }
			else { can[n++] = NOMOTD; can[n++] = MOTD; can[n++] = NOISE; can[n++] = FORCE; can[n++] = FEATURES; can[n++] = JOINED; if (C) can[n++] = CLIENT; can[n++] = SETMODE; }
		}
		k = can[mc_choose_l(n, "server")];
		switch (k) {
		case REFUSE: case NOPE: {
			int code = k == NOPE ? 437 : mc_choose_l(2, "code") ? 436 : 433, was = ntried;
			fed(":srv.net %d * %s :Nickname is already in use.", code, cur);
			refusals++;
			if (sent->len != 1 || strcmp(word(sent->pdata[0], 0), "NICK") || word(sent->pdata[0], 2)[0]) mc_fail("%d messages are sent after the nick was refused", (int)sent->len);
			take(word(sent->pdata[0], 1));
			if (ntried == was) quiet++; else quiet = 0;
			if (quiet > 1) mc_fail("the nick %s is tried again and again", cur);
			if (refusals > 1) mc_cover("refused again");
			break; }
		case WELCOME: fed(":srv.net 001 %s :Welcome", cur); nothing("001"); welcomed = 1; break;
		case NOISE: {
			static const char *const say[] = { ":srv.net NOTICE AUTH :*** Looking up", "PING :cookie 1", ":srv.net 020 * :Please wait", ":srv.net 372 me :- x", ":srv.net 451 * :You have not registered", ":srv.net 376", NULL };
			int j = mc_choose_l(part == 1 ? 5 : 2, "what");
			fed("%s", say[j]);
			if (j == 1) { if (sent->len != 1 || strcmp(word(sent->pdata[0], 0), "PONG") || strcmp(word(sent->pdata[0], 1), "cookie 1")) mc_fail("PING while logging in is not answered"); }
			else nothing(say[j]);
			break; }
		case FORCE: {
			char old[64];
			strcpy(old, cur);
			strcpy(cur, strcmp(cur, "Forced") ? "Forced" : "me");
			fed(":%s!mu@mh NICK :%s", old, cur); nothing("NICK"); break; }
		case FEATURES: fed(":srv.net 005 %s CASEMAPPING=ascii CHANTYPES=#& NICKLEN=30 :are supported", cur); nothing("005"); break;
		case JOINED: onfwd = 1; fed(":%s!mu@mh JOIN #fwd", cur); nothing("JOIN"); break;
		case SETMODE: fed(":%s MODE %s :+i", cur, cur); nothing("MODE"); break;
		case CLIENT: w_cl(C, "PRIVMSG #a :early"); w_cl(C, "JOIN #early"); collect(); nothing("a client's message"); break;
		case MOTD: fed(":srv.net 375 %s :- motd -", cur); nothing("375"); fed(":srv.net 376 %s :End of /MOTD command.", cur); accepted(cmds, chans); break;
		case NOMOTD: fed(":srv.net 422 %s :MOTD File is missing", cur); accepted(cmds, chans); break;
		}
		if (!usable && N->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD) mc_fail("the connection is reported as usable before the login is complete");
		mc_outcome(mc_hash_str(cur, k));
	}
	if (!welcomed && part != 0) { fed(":srv.net 001 %s :Welcome", cur); nothing("001"); welcomed = 1; }
	if (welcomed && !usable) { fed(":srv.net 376 %s :End", cur); accepted(cmds, chans); }
	if (usable) {
		fed(":srv.net 376 %s :End of /MOTD command.", cur); nothing("a second end of the message of the day");
		fed(":srv.net 433 %s taken :Nickname is already in use.", cur); nothing("a refused nick change");
		if (C) { w_cl(C, "PRIVMSG #a :late"); collect(); if (sent->len != 1 || strcmp(word(sent->pdata[0], 0), "PRIVMSG")) mc_fail("a client's message does not reach the server"); }
		/* and again, after the connection was lost */
		if (part == 2 && chans != 3) {
			char used[64];
			int was = chans == 1 ? mc_choose_l(7, "channels joined") : 0;
			memset(joins, 0, sizeof(joins));
			if (was) {
				fed(":%s!mu@mh JOIN :#a", cur);
				fed(":srv.net 353 %s = #a :@other %s", cur, cur); fed(":srv.net 366 %s #a :End of /NAMES list.", cur);
				joins[0] = was == 3 || was == 5 ? "JOIN #a k4" : was == 4 ? "JOIN #a" : "JOIN #a key";
				if (was == 2) fed(":srv.net 324 %s #a +ntk key", cur);
				if (was == 3) fed(":srv.net 324 %s #a +kn k4", cur);
				if (was == 4) fed(":srv.net 324 %s #a +n", cur);
				if (was == 5) fed(":other!o@h MODE #a +k k4");
				if (was == 6) { fed(":%s!mu@mh JOIN :#new", cur); fed(":%s!mu@mh JOIN :#c", cur); fed(":%s!mu@mh PART #new", cur); joins[1] = "JOIN #c"; }
				collect();
				mc_cover("again on channels");
			}
			for (i = 0; joins[i]; i++);
			if (onfwd) joins[i] = chans == 3 ? "JOIN #FWD" : "JOIN #fwd";
			N->reconnect_interval = 10;
			m->eof = m->hup = 1; pump(); vt_advance(20000); pump();
			if (!w_conn(N)) mc_fail("no connection");
			m = w_conn(N)->m;
			collect();
			if ((int)sent->len != 2 + (PW[pw][2] != NULL)) mc_fail("%d messages are sent on connecting again", (int)sent->len);
			snprintf(used, sizeof(used), "%s", cur);
			take(word(sent->pdata[sent->len - 2], 1));
			/* the one in use when the connection was lost is fine as well */
			if (strcmp(cur, used) && strcmp(cur, NICKS[nk].nick ? NICKS[nk].nick : NICKS[nk].dflt)) mc_fail("the nick on connecting again is %s", cur);
			fed(":srv.net 001 %s :Welcome", cur);
			fed(":srv.net 376 %s :End", cur);
			/* the channels it was on when the connection was lost */
			accepted(cmds, -1);
			mc_cover("again");
		}
	}
	w_teardown();
	w_end();
}
static void init(void) { w_init(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P22", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "all sequences of up to 6 (4 with more messages; thorough: 8) server answers between connecting and the end of the message of the day (nick refused for three reasons, with and without a limit on its length, welcome, forced nick change, features, channels, modes, probes and noise, a client talking), and all combinations of four nicks, passwords, command lists and channel lists; then a second end, a refused nick change and a second connection" };
	return mc_main(argc, argv, &chk);
}
