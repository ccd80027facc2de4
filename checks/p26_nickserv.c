/* P26: what is learnt as a password for the nick service, and where it goes. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "keyfile.h"
#include "admin.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
void config_load_notify(struct global *);
gboolean process_cmd(admin_handle h, const char *cmd);
const char *nickserv_find_nick(struct irc_network *n, const char *nick);
void init_nickserv(void);

/* ---- the model: the passwords there are ---- */
static struct { char nick[24], net[24], pass[24]; } P[32];
static int np, learn;
static void fold(char *to, const char *s, int irc)
{
	int i;
	for (i = 0; s[i] && i < 23; i++) to[i] = irc && s[i] == '[' ? '{' : irc && s[i] == ']' ? '}' : irc && s[i] == '\\' ? '|' : irc && s[i] == '^' ? '~' : g_ascii_tolower(s[i]);
	to[i] = 0;
}
static const char *lookup(const char *nick, const char *net)
{
	char a[24], b[24]; int i, g = -1;
	fold(a, nick, 1); fold(b, net, 0);
	for (i = 0; i < np; i++) if (!strcmp(P[i].nick, a)) {
		if (!strcmp(P[i].net, b)) return P[i].pass;
		if (!strcmp(P[i].net, "*") && g < 0) g = i;
	}
	return g < 0 ? NULL : P[g].pass;
}
static void add(const char *nick, const char *net, const char *pass)
{
	fold(P[np].nick, nick, 1); fold(P[np].net, net, 0);
	strcpy(P[np++].pass, pass);
}
static void learnt(const char *nick, const char *net, const char *pass)
{
	char a[24], b[24]; int i; const char *was = lookup(nick, net);
	if (!learn || (was && !strcmp(was, pass))) return;
	fold(a, nick, 1); fold(b, net, 0);
	for (i = 0; i < np; i++) if (!strcmp(P[i].nick, a) && !strcmp(P[i].net, b)) { strcpy(P[i].pass, pass); return; }
	add(nick, net, pass);
	mc_cover("learnt");
}
/* ---- the networks ---- */
static struct irc_network *N[2];
static struct mem *M[2];
static struct wcl *C[2];
static struct wconn *conn[2];
static char nick[2][24], name[2][24];
static int reg[2];
static const char *FILES[] = { NULL, "me\tp0q\tnet\n", "me\tglq\t*\nme\tspq\tnet\nme\tzzq\n", "# c\nme\tglq\n\nbad\nN{K\tsxq\tnet\nme\tfoq\tOther\nn[k\tkkq\t*\n" };
static void read_model(int f)
{
	np = 0;
	if (f == 1) add("me", "net", "p0q");
	if (f == 2) { add("me", "*", "glq"); add("me", "net", "spq"); add("me", "*", "zzq"); }
	if (f == 3) { add("me", "*", "glq"); add("n{k", "net", "sxq"); add("me", "other", "foq"); add("n{k", "*", "kkq"); }
}
static const char *SECRETS[] = { "p0q", "glq", "spq", "sxq", "foq", "kkq", "zzq", "s1s", "s2s", "s3s", "s4s", NULL };
/* what may be sent to the nick service now, in this order */
static char want[2][4][64]; static int nwant[2];
static void expect(int x, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); vsnprintf(want[x][nwant[x]++], 64, fmt, ap); va_end(ap);
}
static void identify(int x)
{
	const char *p = lookup(nick[x], name[x]);
	if (p && !reg[x]) { expect(x, "PRIVMSG NickServ :IDENTIFY %s", p); mc_cover("identified"); }
}
static int same(const char *a, const char *b)
{
	struct irc_line *x = irc_parse_line(a), *y = irc_parse_line(b);
	int i, r = x->argc == y->argc;
	for (i = 0; r && i < x->argc; i++) r = !strcmp(x->args[i], y->args[i]);
	free_line(x); free_line(y);
	return r;
}
static void settle(void)
{
	int x, i, j; char *l;
	for (x = 0; x < 2; x++) {
		i = 0;
		while ((l = w_srv_line(M[x]))) {
			if (i < nwant[x] && same(l, want[x][i])) i++;
			else if (!g_ascii_strncasecmp(l, "PRIVMSG ", 8) || !g_ascii_strncasecmp(l, "NOTICE ", 7) || !g_ascii_strncasecmp(l, "NS ", 3)) mc_fail("%s is sent to %s%s%s", mc_esc(l), name[x], i < nwant[x] ? " instead of " : "", i < nwant[x] ? want[x][i] : "");
			else for (j = 0; SECRETS[j]; j++) if (strstr(l, SECRETS[j])) mc_fail("a password is disclosed: %s", mc_esc(l));
			g_free(l);
		}
		if (i < nwant[x]) mc_fail("%s is not sent to %s", want[x][i], name[x]);
		nwant[x] = 0;
		w_cl_drain(C[x]);
		for (; C[x]->seen < C[x]->lines->len; C[x]->seen++) for (j = 0; SECRETS[j]; j++) if (strstr(C[x]->lines->pdata[C[x]->seen], SECRETS[j])) mc_fail("a client is told a password: %s", mc_esc(C[x]->lines->pdata[C[x]->seen]));
		{
			static const char *const nicks[] = { "me", "n[k", "N{K", "third", NULL };
			for (i = 0; nicks[i]; i++) {
				const char *a = nickserv_find_nick(N[x], nicks[i]), *b = lookup(nicks[i], name[x]);
				if (g_strcmp0(a, b)) mc_fail("the password of %s on %s is %s instead of %s", nicks[i], name[x], a ? mc_esc(a) : "unknown", b ? b : "unknown");
			}
		}
	}
}
static void up(int x)
{
	char *l; int how;
	pump();
	conn[x] = w_conn(N[x]);
	if (!conn[x]) mc_fail("no connection");
	M[x] = conn[x]->m;
	while ((l = w_srv_line(M[x]))) {
		if (!strncmp(l, "NICK ", 5)) snprintf(nick[x], 24, "%s", l + 5);
		g_free(l);
	}
	reg[x] = 0;
	how = mc_choose_l(3, "login");
	if (how == 2) { /* it is known by another nick than it asked for */
		strcpy(nick[x], strcmp(nick[x], "n[k") ? "n[k" : "me");
		mc_cover("another nick at login");
	}
	w_srv(M[x], ":srv.net 001 %s :Welcome", nick[x]);
	w_srv(M[x], ":srv.net 005 %s CASEMAPPING=rfc1459 CHANTYPES=# :are supported", nick[x]);
	if (how == 1) { w_srv(M[x], ":srv.net MODE %s :+R", nick[x]); reg[x] = 1; }
	w_srv(M[x], ":srv.net 376 %s :End", nick[x]);
	identify(x);
}
static void out(struct admin_handle *h, const char *data) { mc_trace("  %s", data); }
static void event(int x, int k)
{
	struct wcl *c = C[x];
	char *me = nick[x];
	switch (k) {
	case 0: w_cl(c, "PRIVMSG NickServ :IDENTIFY s1s"); expect(x, "PRIVMSG NickServ :IDENTIFY s1s"); learnt(me, name[x], "s1s"); break;
	case 1: w_cl(c, "privmsg nickserv :identify s2s"); expect(x, "privmsg nickserv :identify s2s"); learnt(me, name[x], "s2s"); break;
	case 2: w_cl(c, "NS IDENTIFY s3s"); expect(x, "NS IDENTIFY s3s"); learnt(me, name[x], "s3s"); break;
	case 3: w_cl(c, "NOTICE NickServ :IDENTIFY s4s"); expect(x, "NOTICE NickServ :IDENTIFY s4s"); learnt(me, name[x], "s4s"); break;
	case 4: w_cl(c, "PRIVMSG other :IDENTIFY no"); expect(x, "PRIVMSG other :IDENTIFY no"); w_cl(c, "PRIVMSG NickServX :IDENTIFY no"); expect(x, "PRIVMSG NickServX :IDENTIFY no"); break;
	case 5: w_cl(c, "PRIVMSG NickServ :IDENTIFY "); expect(x, "PRIVMSG NickServ :IDENTIFY "); w_cl(c, "NS IDENTIFY :"); expect(x, "NS IDENTIFY :"); break;
	case 6: w_cl(c, "PRIVMSG NickServ :IDENTIFY a\tb"); expect(x, "PRIVMSG NickServ :IDENTIFY a\tb"); break;
	case 7: w_cl(c, "PRIVMSG NickServ :IDENTIFYx y"); expect(x, "PRIVMSG NickServ :IDENTIFYx y"); w_cl(c, "PRIVMSG NickServ :GHOST me no"); expect(x, "PRIVMSG NickServ :GHOST me no"); w_cl(c, "NS GHOST no no"); expect(x, "NS GHOST no no"); w_cl(c, "NS IDENTIFY"); expect(x, "NS IDENTIFY"); break;
	case 8: { /* another nick */
		const char *to = strcmp(me, "me") ? "me" : "n[k";
		w_cl(c, "NICK %s", to);
		if (!strcmp(to, "n[k") && mc_choose_l(2, "server's spelling")) to = "N{K";
		w_srv(M[x], ":%s!mu@mh NICK :%s", me, to);
		strcpy(me, to);
		identify(x); break; }
	case 9: w_cl(c, "NICK third"); w_srv(M[x], ":other!o@h NICK :third"); w_srv(M[x], ":srv.net 433 %s third :Nickname is already in use.", me); w_srv(M[x], ":third!o@h NICK :n[k2"); break;
	case 10: { /* somebody else takes the nick it tries to get */
		const char *to = strcmp(me, "me") ? "me" : "N{K";
		w_cl(c, "NICK %s", to);
		w_srv(M[x], ":other!o@h NICK :%s", to);
		w_srv(M[x], ":srv.net 433 %s %s :Nickname is already in use.", me, to);
		w_srv(M[x], ":%s!o@h NICK :away", to);
		break; }
	case 11: w_srv(M[x], ":NickServ!s@services. NOTICE %s :This nickname is registered and protected. Please IDENTIFY", me); w_srv(M[x], ":evil!e@h NOTICE %s :This nickname is registered. /msg NickServ IDENTIFY", me); break;
	case 12: w_srv(M[x], ":evil!e@h PRIVMSG %s :IDENTIFY evilpw", me); w_srv(M[x], ":%s!mu@mh PRIVMSG NickServ :IDENTIFY evilpw", me); w_srv(M[x], ":NickServ!e@h PRIVMSG NickServ :IDENTIFY evilpw"); w_srv(M[x], ":evil!e@h NS IDENTIFY evilpw"); break;
	case 13: reg[x] = !reg[x]; w_srv(M[x], ":%s MODE %s :%cR", me, me, reg[x] ? '+' : '-'); break;
	case 14:
		N[x]->reconnect_interval = 10; ((struct network_config *)N[x]->private_data)->reconnect_interval = 10;
		M[x]->eof = M[x]->hup = 1; pump(); vt_advance(12000);
		up(x); mc_cover("connected again"); break;
	case 15: {
		GList *gl;
		mc_trace("save and load the passwords"); mc_step();
		if (!nickserv_save(W, W->config->config_dir)) mc_fail("the passwords cannot be saved");
		for (gl = W->nickserv_nicks; gl; gl = gl->next) { struct keyfile_entry *e = gl->data; g_free(e->nick); g_free(e->pass); g_free(e->network); g_free(e); }
		g_list_free(W->nickserv_nicks);
		W->nickserv_nicks = NULL;
		nickserv_load(W);
		break; }
	case 16: learn = !learn; W->config->learn_nickserv = learn; mc_trace("learning %s", learn ? "on" : "off"); mc_step(); break;
	case 17: { /* another name for the network */
		struct admin_handle h = { W, NULL, NULL, NULL, out };
		char b[80]; const char *to = strcmp(name[x], "renamed") ? "renamed" : x ? "other" : "net"; int i;
		if (!strcmp(name[!x], to)) to = "elsewhere";
		sprintf(b, "NETWORK RENAME %s %s", name[x], to); mc_trace("admin: %s", b); mc_step();
		process_cmd(&h, b);
		for (i = 0; i < np; i++) { char o[24]; fold(o, name[x], 0); if (!strcmp(P[i].net, o)) strcpy(P[i].net, to); }
		strcpy(name[x], to); break; }
	}
}
#define NEV 18
static void run(void)
{
	int f, i, x, depth, k;
	uint64_t d;
	GList *gl;
	f = mc_choose_l(4, "passwords at the start");
	w_begin(); vt_reset();
	learn = 1; W->config->learn_nickserv = TRUE;
	W->nickserv_nicks = NULL;
	if (FILES[f]) { char *p = g_build_filename(w_dir, "nickserv", NULL); g_file_set_contents(p, FILES[f], -1, NULL); g_free(p); nickserv_load(W); }
	read_model(f);
	nwant[0] = nwant[1] = 0;
	for (x = 0; x < 2; x++) {
		strcpy(name[x], x ? "other" : "net");
		N[x] = w_network(name[x], "me");
		connect_network(N[x]);
		up(x);
		C[x] = w_client(N[x], nick[x]);
		w_cl_skip(C[x]);
	}
	settle();
	depth = mc_tier ? 5 : 3;
	for (i = 0; i < depth; i++) {
		k = mc_choose_l(NEV * 2 - 1, "event");
		event(k / NEV, k % NEV);
		pump();
		settle();
		d = mc_hash_str(nick[0], mc_hash_str(nick[1], mc_hash_str(name[0], mc_hash_str(name[1], MC_H0))));
		d = d * 31 + reg[0] * 4 + reg[1] * 2 + learn;
		for (gl = W->nickserv_nicks; gl; gl = gl->next) { struct keyfile_entry *e = gl->data; d = mc_hash_str(e->nick, mc_hash_str(e->pass, mc_hash_str(e->network ? e->network : "", d))); }
		for (k = 0; k < np; k++) d = mc_hash_str(P[k].nick, mc_hash_str(P[k].net, mc_hash_str(P[k].pass, d)));
		mc_outcome(d);
		if (mc_state(d, depth - i - 1)) break;
	}
	w_teardown();
	w_end();
}
static void init(void) { w_init(); init_admin(); init_nickserv(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P26", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "two networks with the user on both, from four files of passwords, all sequences up to the depth (3; thorough: 5; equal states explored once) of: passwords sent to the nick service in every form, texts like them sent elsewhere or from others, own and other people's nick changes, refused ones, notices of the nick service and of imitators, registration modes, new connections (under the nick asked for or another), saving and loading, learning switched on and off, networks renamed" };
	return mc_main(argc, argv, &chk);
}
