/* P27: when the user is set away and back on behalf of nobody and somebody. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "vtime.h"
#include "hooks.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void auto_away_add(struct global *global, struct auto_away_config *config);

static struct irc_network *N[2];
static struct mem *M[2];
static struct wcl *C[2][2];
/* ---- the model ---- */
static int enabled, limit, tim, refuse;
static const char *msg, *anick;
static gint64 last;                      /* when a client was active, in ms */
static int own[2], autoa[2], online[2], ncl[2];
static char nick[2][32], prev[2][32];
static char want[2][6][80]; static int nwant[2];
static int idletime(void) { return tim == -1 ? 600 : tim; }
static gint64 idle(void) { return vt_now - last; }
static int few(int x) { return limit < 0 || ncl[x] <= limit; }
static void expect(int x, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); vsnprintf(want[x][nwant[x]++], 80, fmt, ap); va_end(ap);
}
static void m_away(int x)
{
	if (!enabled || !online[x] || own[x] || autoa[x]) return;
	autoa[x] = 1;
	expect(x, "AWAY :%s", msg ? msg : "Auto Away");
	if (anick && strcmp(anick, nick[x])) { strcpy(prev[x], nick[x]); expect(x, "NICK %s", anick); mc_cover("away nick"); }
	mc_cover("set away");
}
static void m_nick(int x)
{
	char p[32];
	strcpy(p, prev[x]); prev[x][0] = 0;
	if (p[0] && anick && !strcmp(nick[x], anick)) { expect(x, "NICK %s", p); mc_cover("nick restored"); }
}
static void m_back(int x)
{
	if (!online[x] || !autoa[x]) return;
	autoa[x] = 0;
	expect(x, "AWAY");
	m_nick(x);
	mc_cover("set back");
}
/* ---- what the server is sent, and its answers ---- */
static GQueue *answers[2];
static int same(const char *a, const char *b)
{
	struct irc_line *x = irc_parse_line(a), *y = irc_parse_line(b);
	int i, r = x->argc == y->argc;
	for (i = 0; r && i < x->argc; i++) r = !strcmp(x->args[i], y->args[i]);
	free_line(x); free_line(y);
	return r;
}
static void took(int x, const char *l)
{
	if (!strncmp(l, "AWAY", 4)) { own[x] = own[x] && l[4]; g_queue_push_tail(answers[x], g_strdup_printf(l[4] ? ":srv.net 306 %s :You have been marked as being away" : ":srv.net 305 %s :You are no longer marked as being away", nick[x])); }
	if (!strncmp(l, "NICK ", 5) && strcmp(l + 5, nick[x])) {
		if (refuse) g_queue_push_tail(answers[x], g_strdup_printf(":srv.net 433 %s %s :Nickname is already in use.", nick[x], l + 5));
		else { g_queue_push_tail(answers[x], g_strdup_printf(":%s!mu@mh NICK :%s", nick[x], l + 5)); snprintf(nick[x], 32, "%s", l + 5); }
	}
}
static void settle(void)
{
	int x, i; char *l;
	pump();
	for (x = 0; x < 2; x++) {
		i = 0;
		while (online[x] && (l = w_srv_line(M[x]))) {
			if (!strncmp(l, "USERHOST", 8) || !strncmp(l, "PING", 4) || !strncmp(l, "PONG", 4)) { g_free(l); continue; }
			if (i == nwant[x]) mc_fail("%s is sent to network %d", mc_esc(l), x);
			if (!same(l, want[x][i])) mc_fail("%s is sent to network %d instead of %s", mc_esc(l), x, want[x][i]);
			i++;
			took(x, l);
			g_free(l);
		}
		if (i < nwant[x]) mc_fail("%s is not sent to network %d", want[x][i], x);
		nwant[x] = 0;
		while ((l = g_queue_pop_head(answers[x]))) { if (online[x]) w_srv(M[x], "%s", l); g_free(l); }
	}
	for (x = 0; x < 2; x++) for (i = 0; i < 2; i++) if (C[x][i]) w_cl_skip(C[x][i]);
}
/* time passes; anybody may be set away no earlier than due, and two seconds later at the latest */
static void passes(int secs)
{
	int s, x, i; char *l;
	mc_trace("%d seconds pass", secs);
	for (s = 0; s < secs; s++) {
		vt_advance(1000); pump();
		for (x = 0; x < 2; x++) {
			int n = 0;
			if (!online[x]) continue;
			while ((l = mem_line(M[x]))) {
				if (!strncmp(l, "PING", 4)) { mem_feed(M[x], ":srv.net PONG srv.net x\r\n"); g_free(l); continue; }
				mc_trace("  after %d s  P>S%d %s", s + 1, x, mc_esc(l));
				if (!n && !strncmp(l, "AWAY", 4)) {
					if (!enabled || own[x] || autoa[x] || !few(x) || idletime() < 30 || idle() < idletime() * 1000) mc_fail("set away on network %d after %d seconds", x, (int)(idle() / 1000));
					m_away(x);
				}
				if (n >= nwant[x] || !same(l, want[x][n])) mc_fail("%s is sent to network %d while time passes", mc_esc(l), x);
				n++;
				took(x, l);
				g_free(l);
			}
			if (n < nwant[x]) mc_fail("%s is not sent to network %d", want[x][n], x);
			nwant[x] = 0;
			if (enabled && !own[x] && !autoa[x] && few(x) && idletime() >= 30 && idle() > idletime() * 1000 + 2000) mc_fail("not set away on network %d after %d seconds", x, (int)(idle() / 1000));
			while ((l = g_queue_pop_head(answers[x]))) { w_srv(M[x], "%s", l); g_free(l); }
			for (i = 0; i < 2; i++) if (C[x][i] && s % 20 == 0) { w_cl_skip(C[x][i]); mem_feed(C[x][i]->m, "PONG x\r\n"); }
		}
		pump();
	}
}
static void up(int x)
{
	char *l; int i;
	for (i = nwconns - 1; i >= 0; i--) if (wconns[i].m && !wconns[i].m->closed && !wconns[i].closed && wconns[i].m != M[!x]) break;
	if (i < 0) mc_fail("no connection");
	M[x] = wconns[i].m;
	while ((l = w_srv_line(M[x]))) {
		if (!strncmp(l, "NICK ", 5)) snprintf(nick[x], 32, "%s", l + 5);
		g_free(l);
	}
	w_srv(M[x], ":srv.net 001 %s :Welcome", nick[x]);
	w_srv(M[x], ":srv.net 376 %s :End", nick[x]);
	while ((l = w_srv_line(M[x]))) { if (strncmp(l, "USERHOST", 8)) mc_fail("%s is sent after the login", mc_esc(l)); g_free(l); }
	online[x] = 1; own[x] = autoa[x] = 0; prev[x][0] = 0;
}
enum { ATTACH, LEAVE, SAY, AWAYMSG, BACK, HALF, LOST, CTCP, OTHERS, NPER };
enum { SHORT = NPER * 2, LONG, LIMIT, ENABLE, MESSAGE, ANICK, TIME, NEV };
static const char *names[] = { "client attaches", "client leaves", "client talks", "client sets itself away", "client sets itself back", "client leaves while logging in", "connection lost", "CTCP request", "others talk" };
static int event(int k)
{
	int x = k / NPER, i;
	if (k < SHORT) {
		struct wcl **c = C[x];
		switch (k % NPER) {
		case ATTACH:
			for (i = 0; i < 2 && c[i]; i++);
			if (i == 2) return 0;
			mc_trace("%s to network %d", names[ATTACH], x);
			c[i] = w_client(N[x], "me");
			ncl[x]++;
			if (strcmp(nick[x], "me")) expect(x, "NICK me");
			if (limit >= 0 && ncl[x] > limit) m_back(x);
			break;
		case LEAVE:
			for (i = 1; i >= 0 && !c[i]; i--);
			if (i < 0) return 0;
			w_cl_leave(c[i]); c[i] = NULL; ncl[x]--;
			if (limit >= 0 && few(x)) m_away(x);
			break;
		case SAY:
			for (i = 1; i >= 0 && !c[i]; i--);
			if (i < 0) return 0;
			i = mc_choose_l(2, "notice");
			w_cl(c[0] ? c[0] : c[1], i ? "NOTICE #c :hi" : "PRIVMSG #c :hi");
			last = vt_now;
			{ int y; for (y = 0; y < 2; y++) m_back(y); }
			expect(x, i ? "NOTICE #c :hi" : "PRIVMSG #c :hi");
			break;
		case AWAYMSG: case BACK:
			for (i = 0; i < 2 && !c[i]; i++);
			if (i == 2) return 0;
			w_cl(c[i], k % NPER == BACK ? "AWAY" : "AWAY :my own");
			last = vt_now;
			if (autoa[x]) { autoa[x] = 0; m_nick(x); }
			expect(x, k % NPER == BACK ? "AWAY" : "AWAY :my own");
			own[x] = k % NPER == AWAYMSG;
			if (own[x]) mc_cover("away on its own");
			break;
		case HALF: { struct wcl *h = w_client_raw(N[x]); w_cl(h, "NICK half"); w_cl_leave(h); break; }
		case LOST: {
			char was[32];
			strcpy(was, prev[x][0] && anick && !strcmp(nick[x], anick) ? prev[x] : nick[x]);
			N[x]->reconnect_interval = 5; ((struct network_config *)N[x]->private_data)->reconnect_interval = 5;
			mc_trace("network %d is lost", x);
			online[x] = 0;
			M[x]->eof = M[x]->hup = 1; pump();
			passes(6);
			up(x);
			if (strcmp(nick[x], was)) mc_fail("the nick on connecting again is %s instead of %s", nick[x], was);
			mc_cover("connected again");
			break; }
		case CTCP: w_srv(M[x], ":al!u@h PRIVMSG %s :\001PING 1\001", nick[x]); if (!ncl[x]) expect(x, "NOTICE al :\001PING 1\001"); break;
		case OTHERS: w_srv(M[x], ":al!u@h PRIVMSG %s :hi", nick[x]); w_srv(M[x], ":%s!mu@mh PRIVMSG #c :from elsewhere", nick[x]); w_srv(M[x], ":al!u@h AWAY :gone"); w_srv(M[x], ":srv.net 301 %s al :gone", nick[x]); break;
		}
	} else switch (k) {
	case SHORT: if (idletime() > 100) return 0; passes(idletime() < 30 ? 25 : idletime() - 2); break;
	case LONG: passes(idletime() < 30 ? 40 : idletime() + 4); break;
	case LIMIT: { static const int v[] = { -1, 0, 1 }; limit = v[mc_choose_l(3, "limit")]; W->config->auto_away.client_limit = limit; break; }
	case ENABLE: enabled = !enabled; W->config->auto_away.enabled = enabled; mc_trace("automatic away %s", enabled ? "on" : "off"); break;
	case MESSAGE: msg = msg ? NULL : "gone fishing"; g_free(W->config->auto_away.message); W->config->auto_away.message = g_strdup(msg); mc_trace("message %s", msg ? msg : "unset"); break;
	case ANICK: anick = anick ? NULL : "me_away"; g_free(W->config->auto_away.nick); W->config->auto_away.nick = g_strdup(anick); mc_trace("nick %s", anick ? anick : "unset"); break;
	case TIME: { static const int v[] = { 40, 10, 31, -1 }; tim = v[mc_choose_l(4, "time")]; W->config->auto_away.max_idle_time = tim; break; }
	}
	return 1;
}
static void run(void)
{
	int i, x, depth, full;
	full = mc_choose_l(2, "with changes of settings");
	limit = mc_choose_l(3, "limit") - 1;
	anick = mc_choose_l(2, "nick") ? "me_away" : NULL;
	refuse = anick && !full ? mc_choose_l(2, "nick refused") : 0;
	w_begin(); vt_reset();
	enabled = 1; tim = 40; msg = NULL;
	W->config->auto_away.enabled = 1; W->config->auto_away.client_limit = limit; W->config->auto_away.max_idle_time = 40;
	g_free(W->config->auto_away.nick); W->config->auto_away.nick = g_strdup(anick);
	g_free(W->config->auto_away.message); W->config->auto_away.message = NULL;
	for (x = 0; x < 2; x++) { own[x] = autoa[x] = online[x] = ncl[x] = nwant[x] = 0; C[x][0] = C[x][1] = NULL; M[x] = NULL; if (!answers[x]) answers[x] = g_queue_new(); }
	auto_away_add(W, &W->config->auto_away);
	last = vt_now;
	for (x = 0; x < 2; x++) {
		N[x] = w_network(x ? "two" : "one", "me");
		connect_network(N[x]); pump();
		up(x);
	}
	settle();
	depth = full ? (mc_tier ? 5 : 3) : (mc_tier ? 7 : 5);
	for (i = 0; i < depth; i++) {
		int k = mc_choose_l(full ? NEV : LONG + 1, "event");
		uint64_t d;
		if (!event(k)) break;
		settle();
		{ int v[] = { full, enabled, limit, tim, refuse, msg != NULL, anick != NULL, own[0], own[1], autoa[0], autoa[1], ncl[0], ncl[1], N[0]->external_state->is_away, N[1]->external_state->is_away, (int)(idle() / 1000), N[0]->external_state->is_away, g_list_length(N[0]->clients), g_list_length(N[1]->clients), (C[0][0] != NULL) * 2 + (C[1][0] != NULL) }; d = mc_hash(v, sizeof(v), MC_H0); }
		for (x = 0; x < 2; x++) d = mc_hash_str(nick[x], mc_hash_str(prev[x], d));
		mc_outcome(d);
		if (mc_state(d, depth - i - 1)) break;
	}
	del_new_client_hook("auto-away"); del_lose_client_hook("auto-away"); del_server_filter("auto-away");
	w_teardown();
	w_end();
}
static void init(void) { w_init(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P27", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "two networks, up to two clients on each: all sequences up to the depth (5, with changes of settings 3; thorough 7 and 5; equal states explored once) of clients attaching, leaving (also half logged in), talking and setting themselves away and back, connections lost, requests and messages of others, time passing up to just before and beyond the limit, in all settings of client limit, message, nick, time and switch; every second the messages to both servers are those of the rules" };
	return mc_main(argc, argv, &chk);
}
