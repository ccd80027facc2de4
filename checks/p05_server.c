/* P05: no message from a server crashes the proxy or corrupts its records. */
#include "world.h"
#include "keyfile.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static struct { const char *cmd; const char *args; } T[] = {
	{"JOIN","#a"},{"JOIN","#n k"},{"JOIN","#n,#m"},{"PART","#a :bye"},{"PART","#a,#n"},{"KICK","#a u1 :out"},{"KICK","#a me :out"},
	{"KICK","#a,#a u1,me x"},{"QUIT",":bye"},{"TOPIC","#a :new"},{"NICK","u9"},{"NICK","u2"},{"PRIVMSG","#a :hi"},{"PRIVMSG","me :hi"},
	{"PRIVMSG","me :\001VERSION\001"},{"PRIVMSG","me :\001PING 1\001"},{"PRIVMSG","me :\001\001"},{"PRIVMSG","me :\001"},
	{"PRIVMSG","#a :\001ACTION x\001"},{"PRIVMSG","me :\001ACTION x"},{"PRIVMSG","me :\001X"},{"PRIVMSG","me :\001DCC SEND a 1 2 3\001"},
	{"NOTICE","me :\001VERSION x\001"},{"NOTICE","me :\001"},{"NOTICE","* :*** Looking up"},{"NOTICE","#a :hi"},{"NOTICE","me :This nickname is registered"},
	{"MODE","#a +o u1"},{"MODE","#a -o+v-k+l u1 u2 k 10"},{"MODE","#a +b x!*@*"},{"MODE","#a -b+b x!*@* y"},{"MODE","#a +e-I m n"},{"MODE","#a +\377 x"},
	{"MODE","me +iR"},{"MODE","me :+i-i"},{"MODE","u1 +i"},{"PING","x"},{"PING","x y"},{"PONG","x"},{"ERROR",":Closing Link"},{"INVITE","me #a"},
	{"WALLOPS",":x"},{"KILL","me :x"},{"AWAY",":x"},{"ACCOUNT","x"},{"","#a"},{"FOO","a b c"},{"99","x"},{"1000","x"},{"000","me"},{"-01","me"},
	{"001","me :Welcome me!u@h"},{"001","n2 :Welcome n2"},{"002","me :x"},{"003","me :x"},{"004","me srv v iwso biklm o"},
	{"005","me PREFIX=(ov)@+ CHANTYPES=# NETWORK=N :are supported"},{"005","me CASEMAPPING=ascii :x"},{"005","me CHARSET=foo :x"},{"005","me CHANMODES=,,,b :x"},{"005","me PREFIX= :x"},
	{"005","me CHARSET=utf-8 CHANLIMIT=#:20 MAXLIST=b:5 :x"},
	{"221","me +i"},{"251","me :x"},{"254","me 3 :x"},{"301","me u1 :away"},{"302","me :u1=+x@h u2*=-y@h"},{"302","me :me=+x@h"},{"303","me :u1"},{"305","me :x"},{"306","me :x"},
	{"311","me u1 x h * :real"},{"311","me me x h * :real"},{"312","me u1 srv :x"},{"314","me me x h * :r"},{"315","me #a :End"},{"317","me u1 1 2 :x"},{"318","me u1 :End"},{"319","me u1 :@#a"},
	{"321","me Channel :Users"},{"322","me #a 3 :topic"},{"323","me :End"},{"324","me #a +ntkl key 5"},{"324","me #a +k"},{"324","me #a"},{"329","me #a 123"},{"331","me #a :No"},{"332","me #a :topic"},{"333","me #a u1 99"},
	{"341","me u1 #a"},{"346","me #a m!*@* u1 5"},{"347","me #a :End"},{"348","me #a m!*@* u1 5"},{"349","me #a :End"},{"351","me v srv :x"},
	{"352","me #a x h srv u1 H@ :0 real"},{"352","me #a x h srv me G :3 real"},{"352","me * x h srv u7 H :0 r"},{"353","me = #a :@me +u1 u2"},{"353","me @ #a :@+u1"},{"353","me = #n :me"},{"366","me #a :End"},
	{"367","me #a b!*@* u1 5"},{"368","me #a :End"},{"369","me u1 :End"},{"372","me :- x"},{"375","me :-"},{"376","me :End"},{"422","me :no"},{"391","me srv :time"},
	{"401","me u1 :No such"},{"403","me #a :No"},{"404","me #a :No"},{"421","me FOO :Unknown"},{"432","me bad :x"},{"433","me me :in use"},{"433","* me :in use"},{"437","me me :x"},{"436","me me :x"},{"451","* :x"},{"461","me JOIN :x"},{"462","me :x"},
	{"463","me :x"},{"464","me :x"},{"465","me :x"},{"471","me #a :x"},{"482","me #a :x"},{"263","me x :try"},{"670","me x"},{"900","me x y :z"},
};
#define NT ((int)(sizeof(T)/sizeof(T[0])))
static const char *ORG[] = {"u1!x@h", "me!myuser@my.host", NULL, "srv.net", "u1", "!@", "zz!q@w", "me", "@u2!y@h", "u2!~y@"};
static const char *VAL[] = {"", "me", "#a", "u2", "#zz", "zz", "+ov-b", "\001", ":", "*", "@u1", "ME", "#A", "12345678901", "-", "#a,#n", "u1,u2",
	"\377", "=", "u1=", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjjkkkkkkkkkkllllllllllmmmmmmmmmmnnnnnnnnnnooooooooooppppppppppqqqqqqqqqqrrrrrrrrrr"};
#define NV ((int)(sizeof(VAL)/sizeof(VAL[0])))

static struct log_file_config lfc;
static void init(void)
{
	w_log_on = 1;
	w_init();
	init_nickserv(); init_admin(); init_replication();
	W->config->report_time = REPORT_TIME_ALWAYS;
	W->config->learn_nickserv = TRUE;
	lfc.logfilename = "/dev/null";
	lfc.nickchange = "%h %n %u %r %@ %1%2%3%4 %N %S %";
	lfc.join = lfc.part = lfc.topic = lfc.notopic = lfc.msg = lfc.action = lfc.kick = lfc.mode = lfc.quit = lfc.notice = "%b%n %u %@ %c %t %m %r %p %0%9 %%";
	log_custom_load(&lfc);
	{
		struct keyfile_entry *e = g_new0(struct keyfile_entry, 1);
		e->nick = g_strdup("me"); e->pass = g_strdup("sekrit"); e->network = g_strdup("net");
		W->nickserv_nicks = g_list_append(NULL, e);
	}
}

static void invariant(struct irc_network_state *s)
{
	GList *a, *b;
	if (s == NULL) return;
	MC_ASSERT(s->me.nick && *s->me.nick, "own nick is empty");
	for (a = s->channels; a; a = a->next) {
		struct irc_channel_state *c = a->data;
		MC_ASSERT(c->name && *c->name, "channel without a name");
		MC_ASSERT(c->network == s, "channel %s does not know its network", c->name);
		for (b = a->next; b; b = b->next)
			MC_ASSERT(irccmp(s->info, c->name, ((struct irc_channel_state *)b->data)->name), "channel %s twice", mc_esc(c->name));
		for (b = c->nicks; b; b = b->next) {
			struct channel_nick *n = b->data;
			GList *d;
			MC_ASSERT(n->channel == c, "member of %s does not point to it", c->name);
			MC_ASSERT(n->global_nick, "member of %s is nobody", c->name);
			MC_ASSERT(n->global_nick == &s->me || g_list_find(s->nicks, n->global_nick), "member of %s is not a known person", c->name);
			MC_ASSERT(g_list_find(n->global_nick->channel_nicks, n), "member of %s does not know it is on it", c->name);
			for (d = b->next; d; d = d->next)
				MC_ASSERT(((struct channel_nick *)d->data)->global_nick != n->global_nick, "%s twice on %s", n->global_nick->nick, c->name);
		}
	}
	for (a = s->nicks; a; a = a->next) {
		struct network_nick *n = a->data;
		MC_ASSERT(n->nick && *n->nick, "person without a nick");
		for (b = a->next; b; b = b->next)
			MC_ASSERT(irccmp(s->info, n->nick, ((struct network_nick *)b->data)->nick), "person %s known twice", mc_esc(n->nick));
		for (b = n->channel_nicks; b; b = b->next) {
			struct channel_nick *cn = b->data;
			MC_ASSERT(cn->global_nick == n, "channel record of %s belongs to somebody else", n->nick);
			MC_ASSERT(g_list_find(s->channels, cn->channel), "%s is on an unknown channel", n->nick);
			MC_ASSERT(g_list_find(cn->channel->nicks, cn), "%s is not listed on %s", n->nick, cn->channel->name);
		}
	}
}

static struct irc_network *N;
static struct mem *M;
static struct wcl *C;
static void build(int ti, int oi, char *out)
{
	/* the template's arguments: cut, one replaced, or one added */
	char *a[20], b[400];
	int n = 0, i, nvar, v;
	char *p;
	strcpy(b, T[ti].args);
	p = b;
	while (*p) {
		if (*p == ':') { a[n++] = p + 1; break; }
		a[n++] = p;
		p = strchr(p, ' ');
		if (!p) break;
		*p++ = 0;
	}
	nvar = 1 + n + n * NV + 2;
	v = mc_choose_l(nvar, "variant");
	if (v == 0) ;
	else if (v <= n) n = v - 1;
	else if (v <= n + n * NV) { v -= n + 1; a[v / NV] = (char *)VAL[v % NV]; }
	else { int two = v - (n + n * NV) - 1; a[n++] = "x"; if (two) a[n++] = ""; }
	*out = 0;
	if (ORG[oi]) sprintf(out, ":%s ", ORG[oi]);
	strcat(out, T[ti].cmd);
	for (i = 0; i < n; i++) {
		strcat(out, i == n - 1 ? " :" : " ");
		strcat(out, a[i]);
	}
}
static void plain(int ti, char *out)
{
	*out = 0;
	if (!strncmp(T[ti].cmd, "NICK", 4) || g_ascii_isalpha(T[ti].cmd[0])) strcpy(out, mc_choose_l(2, "who") ? ":me!myuser@my.host " : ":u1!x@h ");
	else strcpy(out, ":srv.net ");
	strcat(out, T[ti].cmd);
	strcat(out, " ");
	strcat(out, T[ti].args);
}
static void run(void)
{
	int phase = mc_choose_l(5, "phase"), mode, i, alive;
	char line[4096];
	struct wconn *wc;
	w_begin();
	W->config->report_time = phase == 2 ? REPORT_TIME_ALWAYS : REPORT_TIME_NEVER;
	N = w_network("net", "me");
	C = NULL;
	((struct network_config *)N->private_data)->autocmd = NULL;
	if (phase == 0) {
		MC_ASSERT(connect_network(N), "connect failed");
		pump();
		M = w_conn(N)->m;
		w_srv_drain(M);
	} else M = w_up(N, "me", NULL);
	if (phase >= 2) {
		w_srv(M, ":me!myuser@my.host JOIN #a");
		w_srv(M, ":srv.net 353 me = #a :@me +u1 u2");
		w_srv(M, ":srv.net 366 me #a :End");
	}
	if (phase >= 3) {
		C = w_client(N, "me");
		if (phase == 4) {
			const char *q[] = {"WHO #a", "WHOIS u1", "NAMES #a", "LIST", "TOPIC #a", "MODE #a b", "MODE #a", "USERHOST u1", "STATS u", "NICK other", "PRIVMSG u1 :\001PING 1\001", "WHOWAS u1"};
			for (i = 0; i < 12; i++) w_cl(C, "%s", q[i]);
			w_srv_drain(M);
		}
	}
	mode = mc_choose_l(mc_tier && phase == 3 ? 3 : 2, "mode");
	if (mode == 0) {
		int t = mc_choose_l(NT, "message");
		int o = mc_choose_l(mc_tier ? 10 : 4, "origin");
		build(t, o, line);
		w_srv(M, "%s", line);
		invariant(N->external_state);
	} else if (mode == 2) {
		build(mc_choose_l(NT, "message"), mc_choose_l(2, "origin"), line);
		w_srv(M, "%s", line);
		invariant(N->external_state);
		{
			int t = mc_choose_l(NT, "message");
			sprintf(line, ":%s %s %s", g_ascii_isalpha(T[t].cmd[0]) ? "u1!x@h" : "srv.net", T[t].cmd, T[t].args);
		}
		w_srv(M, "%s", line);
		invariant(N->external_state);
	} else {
		int d = 2;
		if (!mc_tier && phase != 2 && phase != 3) mc_done();
		for (i = 0; i < d; i++) {
			plain(mc_choose_l(NT, "message"), line);
			w_srv(M, "%s", line);
			invariant(N->external_state);
		}
	}
	/* it goes on working */
	alive = N->connection.transport != NULL && !M->closed;
	MC_ASSERT(alive, "the connection was given up because of a message");
	w_srv_drain(M);
	w_srv(M, "PING :still-there");
	{
		char *l;
		int ok = 0;
		while ((l = w_srv_line(M))) { if (strstr(l, "PONG") && strstr(l, "still-there")) ok = 1; g_free(l); }
		MC_ASSERT(ok, "no answer to PING any more");
	}
	if (C) {
		const char *l;
		int ok = 0;
		w_cl_skip(C);
		w_srv(M, ":u2!y@h PRIVMSG #a :are you there");
		while ((l = w_cl_next(C))) if (strstr(l, "PRIVMSG") && strstr(l, "are you there")) ok = 1;
		MC_ASSERT(ok, "the client is not served any more");
		w_cl_leave(C);
	}
	invariant(N->external_state);
	disconnect_network(N);
	MC_ASSERT(vt_count_data(N) == 0, "a timer of the closed connection is left");
	W->config->networks = g_list_remove(W->config->networks, N->private_data);
	unload_network(N);
	pump();
	MC_ASSERT(M->dropped, "the connection is not released");
	w_end();
	mc_outcome(mc_hash_str(line, MC_H0) + phase);
}
int main(int argc, char **argv)
{
	static struct mc_check c = { .id = "P05", .init = init, .run = run, .batch = 100, .hang_secs = 10,
		.rule = "5 phases (before login, idle, on a channel, with a client, with outstanding queries) x every message template x every truncation, single parameter replacement and addition x origins; then all pairs of plain messages" };
	return mc_main(argc, argv, &c);
}
