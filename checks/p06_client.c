/* P06: no message from a client crashes the proxy; others are still served. */
#include "world.h"
#include "keyfile.h"
#include <unistd.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

/* flag 1: may legitimately end the client's connection or the network's */
static struct { const char *msg; int flag; } T[] = {
	{"PASS x"},{"NICK n"},{"NICK me"},{"USER u 0 * :r"},{"QUIT :bye",1},{"JOIN #x"},{"JOIN #x key"},{"JOIN 0"},{"PART #a :x"},{"PRIVMSG #a :t"},
	{"PRIVMSG u1 :t"},{"PRIVMSG me :t"},{"PRIVMSG #a,u1 :t"},{"PRIVMSG u1 :\001PING 1\001"},{"PRIVMSG u1 :\001ACTION x\001"},{"PRIVMSG u1 :\001\001"},{"PRIVMSG u1 :\001"},
	{"PRIVMSG nickserv :IDENTIFY x"},{"NICKSERV IDENTIFY y"},{"NS :identify me z"},{"NICKSERV :GHOST me z"},{"NOTICE u1 :\001PING 1\001"},{"NOTICE u1 :\001"},{"NOTICE #a :t"},
	{"PING a"},{"PING a b"},{"PONG a"},{"MODE #a"},{"MODE #a b"},{"MODE #a +b"},{"MODE #a e"},{"MODE #a +o u1"},{"MODE #a +kl k 5"},{"MODE me"},{"MODE me +i"},{"MODE u1"},
	{"TOPIC #a"},{"TOPIC #a :x"},{"TOPIC #zz"},{"NAMES #a"},{"NAMES #a,#b"},{"NAMES"},{"WHO #a"},{"WHO"},{"WHO #a o"},{"WHO me"},{"WHOIS u1"},{"WHOIS me me"},{"WHOWAS u1"},{"LIST"},{"LIST #a"},
	{"ISON u1"},{"ISON :u1 u2"},{"USERHOST u1"},{"USERHOST me"},{"AWAY :x"},{"AWAY"},{"KICK #a u1 :x"},{"INVITE u1 #a"},{"ADMIN"},{"STATS u"},{"VERSION"},{"TIME"},{"LUSERS"},{"MOTD"},{"INFO"},
	{"LINKS"},{"MAP"},{"TRACE x"},{"OPER a b"},{"KILL u1 :x"},{"REHASH"},{"SUMMON a"},{"USERS"},{"WALLOPS :x"},{"SERVER a b"},{"SQUIT a b",1},{"CONNECT irc.net.org 6667",2},{"CONNECT net",2},{"CONNECT nowhere 1"},
	{"SILENCE +x"},{"KNOCK #a"},{"FOO x y"},{"\001"},{"CAP LS 302"},{"001 me :x"},{"353 me = #a :u1"},{"433 me n :x"},{":u1!x@h PRIVMSG #a :x"},{":me PART #a"},{": :"},{":x"},{"CTRLPROXY"},{"CTRLPROXY :"},{"CTRLPROXY : "},{"PROTOCTL NAMESX"},
};
#define NT ((int)(sizeof(T)/sizeof(T[0])))
static struct { const char *msg; int flag; } A[] = {
	{"help"},{"help network add"},{"help nosuch"},{"help set"},{"set"},{"unset"},{"unset nosuch"},{"set nosuch v"},{"network list"},{"network add new"},{"network add net"},{"network del net",1},{"network delete nosuch"},
	{"network info net"},{"network info admin"},{"network rename net ren",1},{"network rename net net"},{"network"},{"network foo"},{"network del admin",1},{"network rename admin x",1},{"network del new"},
	{"addserver net h"},{"addserver net h:1 pw"},{"addserver admin h"},{"addserver net :"},{"backlog"},{"backlog #a"},{"backlog me"},{"connect net",1},{"connect admin",1},{"connect other2"},{"disconnect net",1},{"disconnect",1},{"disconnect admin",1},
	{"nextserver net",1},{"nextserver",1},{"nextserver admin",1},{"charset utf-8"},{"charset nosuch"},{"charset utf-16",1},{"detach",1},{"echo a b"},{"saveconfig"},{"saveconfig sub"},{"dumpjoinedchannels"},{"dumpjoinedchannels net"},{"dumpjoinedchannels admin"},
	{"startlistener 1234 pw"},{"startlistener 127.0.0.1:1234 pw net"},{"startlistener : pw"},{"startlistener 1 pw nosuch"},{"stoplistener 6667"},{"stoplistener 127.0.0.1:6668"},{"stoplistener :"},{"listlistener"},
	{"addnetwork new"},{"delnetwork net",1},{"listnetworks"},
#define S(n) {"set " n},{"set " n " true"},{"set " n " 3"},{"set " n " never"},{"set " n " :"},{"set " n " %n%s%d"},{"unset " n}
	S("admin-log"),S("admin-user"),S("auto-away-enable"),S("auto-away-client-limit"),S("auto-away-message"),S("auto-away-nick"),S("auto-away-time"),S("autosave"),S("bind"),
	S("default-client-charset"),S("default-network"),S("learn-network-name"),S("learn-nickserv"),S("log_level"),S("logging"),S("max_who_age"),S("motd-file"),S("password"),S("port"),
	S("report-time"),S("report-time-offset"),S("replication"),{"set replication simple"},{"set replication highlight"},{"set replication none"},S("default-nick"),S("default-username"),S("default-fullname"),
};
#define NA ((int)(sizeof(A)/sizeof(A[0])))
static const char *VAL[] = {"", "me", "#a", "u1", "#zz", ":", "*", "\001", "+ov-b", "%s%n", "net", "-1", "99999999999",
	"\377", "aaaaaaaaaabbbbbbbbbbccccccccccddddddddddeeeeeeeeeeffffffffffgggggggggghhhhhhhhhhiiiiiiiiiijjjjjjjjjjkkkkkkkkkkllllllllllmmmmmmmmmmnnnnnnnnnnooooooooooppppppppppqqqqqqqqqqrrrrrrrrrr"};
#define NV ((int)(sizeof(VAL)/sizeof(VAL[0])))
extern struct virtual_network_ops admin_network;

static struct network_config adminnc;
static void init(void)
{
	struct listener_config *l;
	w_log_on = 1;
	w_init();
	init_nickserv(); init_admin(); init_replication();
	config_load_notify(W);
	W->config->admin_user = g_strdup("ctrlproxy");
	W->config->learn_nickserv = TRUE;
	W->config->auto_away.max_idle_time = W->config->auto_away.client_limit = -1;
	l = g_new0(struct listener_config, 1);
	l->is_default = TRUE;
	l->port = g_strdup("6667");
	W->config->listeners = g_list_append(NULL, l);
	listener_init(W, l);
	l = g_new0(struct listener_config, 1);
	l->port = g_strdup("6668"); l->address = g_strdup("127.0.0.1"); l->password = g_strdup("x");
	W->config->listeners = g_list_append(W->config->listeners, l);
	listener_init(W, l);
}
static int hold;
static int conn_result(int idx) { return hold; }

/* the words of a message; the last one may contain blanks */
static int words(char *b, char **a)
{
	int n = 0;
	char *p = b;
	if (*p == ':') { a[n++] = p; p = strchr(p, ' '); if (!p) return n; *p++ = 0; }
	while (*p) {
		if (*p == ':' && n > 0) { a[n++] = p + 1; break; }
		a[n++] = p;
		p = strchr(p, ' ');
		if (!p) break;
		*p++ = 0;
	}
	return n;
}
static int vary(char **a, int n)
{
	int v = mc_choose_l(1 + (n - 1) + (n - 1) * NV + 2, "variant");
	if (v == 0) return n;
	if (v <= n - 1) return v;
	v -= n;
	if (v < (n - 1) * NV) { a[1 + v / NV] = (char *)VAL[v % NV]; return n; }
	a[n++] = "x";
	if (v - (n - 2) * NV > 0) a[n++] = "";
	return n;
}
static void join(char *out, char **a, int n, int irc)
{
	int i;
	*out = 0;
	for (i = 0; i < n; i++) {
		if (i) strcat(out, irc && i == n - 1 ? " :" : " ");
		strcat(out, a[i]);
	}
}
static struct irc_network *N, *N2, *NA_;
static struct mem *M, *M2;
static struct wcl *C, *C1, *C2, *CA;

static int phase, flagged, route, second;
static void message(int variants)
{
	char line[3000], tmp[1500], b[1500], *a[30];
	int n, adm = route, t;
	if (adm == 0) {
		t = mc_choose_l(NT, "message");
		if (T[t].flag == 1) flagged = 1;
		strcpy(b, T[t].msg);
		n = words(b, a);
		if (variants) n = vary(a, n);
		join(line, a, n, 1);
		w_cl(C, "%s", line);
		return;
	}
	t = mc_choose_l(NA, "admin command");
	if (A[t].flag) flagged = 1;
	strcpy(b, A[t].msg);
	n = words(b, a);
	if (variants) n = vary(a, n);
	/* replaced words may name the network */
	join(tmp, a, n, 0);
	{ char *p = strstr(tmp, " net"); if (p && p[4] != 'w' && p[4] != '2' && (g_str_has_prefix(tmp, "connect") || g_str_has_prefix(tmp, "disc") || g_str_has_prefix(tmp, "next") || g_str_has_prefix(tmp, "del") || g_str_has_prefix(tmp, "network del") || g_str_has_prefix(tmp, "network re"))) flagged = 1; }
	if (strstr(tmp, "admin-user")) flagged = 1;
	if (strncmp(tmp, "help", 4) && strncmp(tmp, "list", 4) && strncmp(tmp, "backlog", 7) && strncmp(tmp, "dump", 4) && strncmp(tmp, "echo", 4)) mc_isolate();
	if (adm == 1) w_cl(C, "CTRLPROXY %s", tmp);
	else if (adm == 2) w_cl(C, "PRIVMSG ctrlproxy :%s", tmp);
	else w_cl(CA, "PRIVMSG %s :%s", ADMIN_CHANNEL, tmp);
}
static int got(struct wcl *c, const char *s)
{
	const char *l;
	int n = 0;
	while ((l = w_cl_next(c))) if (strstr(l, s)) n++;
	return n;
}
static int srvgot(struct mem *m, const char *s)
{
	char *l;
	int n = 0;
	while ((l = w_srv_line(m))) { if (strstr(l, s)) n++; g_free(l); }
	return n;
}
static void run(void)
{
	int mode, up;
	w_connect = conn_result;
	hold = 0;
	flagged = 0;
	phase = mc_choose_l(7, "phase");
	mode = mc_choose_l(2, "mode");
	if (mode && phase != 5 && !mc_tier) mc_done();
	route = phase >= 2 && (!mode || (mc_tier && (phase == 3 || phase == 5))) ? mc_choose_l(mode ? 2 : 4, "route") : 0;
	if (phase != 5 && route >= 2 && !mc_tier) mc_done();
	second = mode && route ? mc_choose_l(2, "second") : 0;
	w_begin();
	if (chdir(w_dir)) mc_fail("chdir");
	adminnc.name = g_strdup("admin");
	adminnc.type = NETWORK_VIRTUAL;
	adminnc.global = W->config;
	adminnc.nick = g_strdup("me");
	adminnc.username = g_strdup("myuser");
	adminnc.fullname = g_strdup("My Name");
	adminnc.reconnect_interval = -1;
	adminnc.type_settings.virtual_name = g_strdup("admin");
	NA_ = load_network(W, &adminnc);
	MC_ASSERT(connect_network(NA_), "admin network");
	CA = w_client(NA_, "me");
	N2 = w_network("net2", "two");
	M2 = w_up(N2, "two", NULL);
	w_srv(M2, ":two!myuser@my.host JOIN #z");
	C2 = w_client(N2, "two");
	N = w_network("net", "me");
	{ struct network_config *nc = N->private_data; nc->type_settings.tcp.servers = g_list_append(nc->type_settings.tcp.servers, g_memdup(nc->type_settings.tcp.servers->data, sizeof(struct tcp_server_config))); }
	M = NULL;
	C1 = NULL;
	switch (phase) {
	case 0: case 5: case 6:
		M = w_up(N, "me", NULL);
		w_srv(M, ":me!myuser@my.host JOIN #a");
		w_srv(M, ":srv.net 353 me = #a :@me +u1 u2");
		w_srv(M, ":srv.net 366 me #a :End");
		w_srv(M, ":u1!x@h PRIVMSG #a :hello");
		break;
	case 3: hold = 1;
	case 4:
		MC_ASSERT(connect_network(N), "connect");
		pump();
		if (phase == 4) M = w_conn(N)->m;
	}
	if (phase != 1) C1 = w_client(N, "me");
	if (phase == 0) C = w_client_raw(N);
	else if (phase == 1) C = w_client_raw(NULL);
	else C = w_client(N, "me");
	if (phase == 6) {
		M->eof = M->hup = 1;
		pump();
		MC_ASSERT(N->connection.state == NETWORK_CONNECTION_STATE_RECONNECT_PENDING, "no reconnect pending");
		M = NULL;
	}
	up = M != NULL;
	if (mode == 0) {
		message(1);
	} else {
		message(0);
		if (second) route = 0;
		if (!C->m->closed) message(0);
	}
	vt_advance(10000);
	/* everybody else is still served */
	if (!flagged) {
		if (!C2->m->closed) w_cl_skip(C2);
		w_srv_drain(M2);
		w_srv(M2, "PING :still-there");
		MC_ASSERT(srvgot(M2, "still-there") == 1, "another network's server gets no answer any more");
		w_srv(M2, ":x!y@z PRIVMSG #z :are you there");
		MC_ASSERT(got(C2, "are you there") == 1, "a client of another network is not served any more");
		w_cl(C2, "PRIVMSG #z :hello there");
		MC_ASSERT(srvgot(M2, "hello there") == 1, "messages of a client of another network get lost");
		if (up) {
			MC_ASSERT(!M->closed && N->connection.transport, "the server connection was given up");
			w_srv_drain(M);
			w_srv(M, "PING :still-there");
			MC_ASSERT(srvgot(M, "still-there") == 1, "the server gets no answer any more");
			if (phase != 4) {
				w_cl_skip(C1);
				w_srv(M, ":u2!y@h PRIVMSG #a :are you there");
				MC_ASSERT(got(C1, "are you there") == 1, "another client is not served any more");
				w_cl(C1, "PRIVMSG #a :hello there");
				MC_ASSERT(srvgot(M, "hello there") == 1, "messages of another client get lost");
			}
		}
	} else if (N2->connection.transport) {
		w_srv_drain(M2);
		w_srv(M2, "PING :still-there");
		MC_ASSERT(srvgot(M2, "still-there") == 1, "another network's server gets no answer any more");
	}
	if (!C->m->closed) w_cl_leave(C);
	if (C1 && !C1->m->closed) w_cl_leave(C1);
	vt_advance(100000);
	w_cl_leave(C2);
	w_teardown();
	w_end();
	mc_outcome(C->lines->len * 31 + phase * 7 + flagged);
}
int main(int argc, char **argv)
{
	static struct mc_check c = { .id = "P06", .init = init, .run = run, .batch = 50, .hang_secs = 20,
		.rule = "7 phases of the connection x every client command and administration command (by CTRLPROXY, to the administration user, on the administration network) x every truncation, single parameter replacement and addition; then all pairs of plain messages" };
	return mc_main(argc, argv, &c);
}
