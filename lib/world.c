#define _GNU_SOURCE
#include "world.h"
#undef calloc
#undef free
#undef malloc
#undef strdup
#include <unistd.h>
#include <errno.h>
#include <ftw.h>
#include <netdb.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>

struct global *W;
struct wconn wconns[64];
int nwconns, w_addrs_live, w_log_on;
char w_dir[200];
int (*w_resolve)(const char *host);
int (*w_connect)(int idx);
extern FILE *flog;
extern struct global *my_global;
static char lasthost[64], lastport[16];
#define FD0 100000

/* ---- interposed environment ---- */
gpointer __wrap_ssl_get_client_credentials(void) { return g_malloc(1); }
void __wrap_ssl_free_client_credentials(gpointer p) { g_free(p); }

int __wrap_getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
	int n = w_resolve ? w_resolve(node) : 1, i;
	struct addrinfo *head = NULL;
	*res = NULL;
	if (n <= 0) return EAI_NONAME;
	snprintf(lasthost, sizeof(lasthost), "%s", node ? node : "");
	snprintf(lastport, sizeof(lastport), "%s", service ? service : "");
	for (i = 0; i < n; i++) {
		struct addrinfo *a = calloc(1, sizeof(*a));
		struct sockaddr_in *sa = calloc(1, sizeof(struct sockaddr_storage));
		sa->sin_family = AF_INET;
		sa->sin_addr.s_addr = htonl(0x7f000001 + i);
		a->ai_family = AF_INET;
		a->ai_socktype = SOCK_STREAM;
		a->ai_addr = (struct sockaddr *)sa;
		a->ai_addrlen = sizeof(*sa);
		a->ai_next = head;
		head = a;
	}
	w_addrs_live++;
	*res = head;
	return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a)
{
	if (a) w_addrs_live--;
	while (a) {
		struct addrinfo *n = a->ai_next;
		free(a->ai_addr);
		free(a);
		a = n;
	}
}
extern int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p)
{
	int r;
	struct wconn *c;
	if (d != AF_INET && d != AF_INET6) return __real_socket(d, t, p);
	if (nwconns >= 64) mc_fail("more than 64 connection attempts");
	c = &wconns[nwconns];
	memset(c, 0, sizeof(*c));
	r = w_connect ? w_connect(nwconns) : 0;
	c->result = r;
	strcpy(c->host, lasthost);
	strcpy(c->port, lastport);
	if (r == 3) { nwconns++; c->fd = -1; c->closed = 1; errno = EMFILE; return -1; }
	c->fd = FD0 + nwconns;
	nwconns++;
	return c->fd;
}
extern int __real_connect(int, const struct sockaddr *, socklen_t);
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l)
{
	struct wconn *c;
	if (fd < FD0) return __real_connect(fd, a, l);
	c = &wconns[fd - FD0];
	switch (c->result) {
	case 0: return 0;
	case 1: if (c->m) c->m->connected = 0; errno = EINPROGRESS; return -1;
	default: errno = ECONNREFUSED; return -1;
	}
}
extern int __real_close(int);
int __wrap_close(int fd)
{
	if (fd < FD0) return __real_close(fd);
	if (wconns[fd - FD0].closed) mc_fail("descriptor of a connection closed twice");
	wconns[fd - FD0].closed = 1;
	return 0;
}
extern int __real_listen(int, int);
int __wrap_listen(int fd, int n) { return fd < FD0 ? __real_listen(fd, n) : 0; }
extern int __real_setsockopt(int, int, int, const void *, socklen_t);
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return fd < FD0 ? __real_setsockopt(fd, l, o, v, n) : 0; }
int (*w_bind)(int idx);
extern int __real_bind(int, const struct sockaddr *, socklen_t);
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l)
{
	if (fd < FD0) return __real_bind(fd, a, l);
	if (w_bind && w_bind(fd - FD0)) { errno = EADDRINUSE; return -1; }
	return 0;
}
extern int __real_getsockname(int, struct sockaddr *, socklen_t *);
int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l)
{
	if (fd < FD0) return __real_getsockname(fd, a, l);
	memset(a, 0, *l);
	a->sa_family = AF_INET;
	*l = sizeof(struct sockaddr_in);
	return 0;
}
extern GIOChannel *__real_g_io_channel_unix_new(int);
GIOChannel *__wrap_g_io_channel_unix_new(int fd)
{
	struct mem *m;
	char nm[32];
	if (fd < FD0) return __real_g_io_channel_unix_new(fd);
	sprintf(nm, "server%d", fd - FD0);
	m = mem_new(nm);
	m->fd = fd;
	wconns[fd - FD0].m = m;
	return mem_ioc(m);
}

/* ---- set up ---- */
void w_init(void)
{
	W = init_global();
	W->config = init_configuration();
	W->config->report_time = REPORT_TIME_NEVER;
	W->config->create_implicit = FALSE;
	W->config->keyfile = g_key_file_new();
	my_global = W;
	{ extern char my_hostname[]; strcpy(my_hostname, "proxy.host"); }
	if (w_log_on) flog = fopen("/dev/null", "w");
}
static int rmone(const char *p, const struct stat *st, int f, struct FTW *b) { return remove(p); }
void w_begin(void)
{
	const char *base = getenv("MC_SCRATCH");
	int i;
	for (i = 0; i < nwconns; i++)
		if (wconns[i].m && wconns[i].m->dropped) {
			g_string_free(wconns[i].m->in, TRUE);
			g_string_free(wconns[i].m->out, TRUE);
			g_free(wconns[i].m);
		}
	nwconns = w_addrs_live = 0;
	snprintf(w_dir, sizeof(w_dir), "%s/x%d", base ? base : "/dev/shm", (int)getpid());
	nftw(w_dir, rmone, 10, FTW_DEPTH | FTW_PHYS);
	mkdir(w_dir, 0700);
	g_free(W->config->linestack_dir);
	g_free(W->config->config_dir);
	W->config->linestack_dir = g_build_filename(w_dir, "linestack", NULL);
	W->config->config_dir = g_strdup(w_dir);
}
void w_teardown(void)
{
	while (W->networks) {
		struct irc_network *n = W->networks->data;
		disconnect_network(n);
		unload_network(n);
	}
	W->config->networks = NULL;
	pump();
	vt_reset();
}
void w_end(void)
{
	nftw(w_dir, rmone, 10, FTW_DEPTH | FTW_PHYS);
}
struct network_config *w_netconfig(const char *name, const char *nick)
{
	struct network_config *nc = network_config_init(W->config);
	struct tcp_server_config *s = g_new0(struct tcp_server_config, 1);
	nc->name = g_strdup(name);
	nc->nick = g_strdup(nick);
	nc->username = g_strdup("myuser");
	nc->fullname = g_strdup("My Name");
	nc->type = NETWORK_TCP;
	s->host = g_strdup_printf("irc.%s.org", name);
	s->port = g_strdup("6667");
	nc->type_settings.tcp.servers = g_list_append(NULL, s);
	return nc;
}
struct irc_network *w_network(const char *name, const char *nick)
{
	return load_network(W, w_netconfig(name, nick));
}
struct wconn *w_conn(struct irc_network *n)
{
	int i;
	for (i = nwconns - 1; i >= 0; i--)
		if (wconns[i].m && !wconns[i].m->closed && !wconns[i].closed) return &wconns[i];
	return NULL;
}
void w_login(struct mem *m, const char *nick, const char *isupport)
{
	w_srv(m, ":srv.net 001 %s :Welcome %s!myuser@my.host", nick, nick);
	w_srv(m, ":srv.net 004 %s srv.net ircd-1 iwso biklmnopstve", nick);
	w_srv(m, ":srv.net 005 %s %s :are supported by this server", nick, isupport ? isupport : "PREFIX=(ov)@+ CHANTYPES=#& CHANMODES=beI,k,l,imnpst NETWORK=TestNet CASEMAPPING=rfc1459");
	w_srv(m, ":srv.net 376 %s :End of /MOTD command.", nick);
}
struct mem *w_up(struct irc_network *n, const char *nick, const char *isupport)
{
	struct wconn *c;
	if (!connect_network(n)) mc_fail("connecting failed");
	pump();
	c = w_conn(n);
	if (c == NULL) mc_fail("no connection was made");
	w_srv_drain(c->m);
	w_login(c->m, nick, isupport);
	w_srv_drain(c->m);
	return c->m;
}
void w_srv(struct mem *m, const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b) - 3, fmt, ap);
	va_end(ap);
	mc_trace("S> %s", mc_esc(b));
	mc_step();
	strcat(b, "\r\n");
	mem_feed(m, b);
	pump();
}
char *w_srv_line(struct mem *m)
{
	char *l = mem_line(m);
	if (l) mc_trace("   P>S %s", mc_esc(l));
	return l;
}
int w_srv_drain(struct mem *m)
{
	char *l;
	int n = 0;
	while ((l = w_srv_line(m))) { g_free(l); n++; }
	return n;
}
static struct irc_transport *last_tr;
struct wcl *w_client_raw(struct irc_network *n)
{
	struct wcl *c = g_new0(struct wcl, 1);
	static int k;
	char nm[32];
	sprintf(nm, "client%d", ++k);
	c->m = mem_new(nm);
	c->lines = g_ptr_array_new();
	g_io_channel_set_encoding(mem_ioc(c->m), NULL, NULL);
	c->c = client_init_iochannel(n, mem_ioc(c->m), nm);
	g_io_channel_unref(mem_ioc(c->m));
	return c;
}
struct wcl *w_client(struct irc_network *n, const char *nick)
{
	struct wcl *c = w_client_raw(n);
	snprintf(c->nick, sizeof(c->nick), "%s", nick);
	mc_trace("%s attaches as %s", c->m->name, nick);
	mc_step();
	{
		char b[200];
		sprintf(b, "NICK %s\r\nUSER cu 0 * :Client User\r\n", nick);
		mem_feed(c->m, b);
	}
	pump();
	return c;
}
void w_cl(struct wcl *c, const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b) - 3, fmt, ap);
	va_end(ap);
	mc_trace("%s> %s", c->m->name, mc_esc(b));
	mc_step();
	strcat(b, "\r\n");
	mem_feed(c->m, b);
	pump();
}
void w_cl_drain(struct wcl *c)
{
	char *l;
	while ((l = mem_line(c->m))) {
		mc_trace("   P>%s %s", c->m->name, mc_esc(l));
		g_ptr_array_add(c->lines, l);
	}
}
const char *w_cl_next(struct wcl *c)
{
	w_cl_drain(c);
	return c->seen < c->lines->len ? g_ptr_array_index(c->lines, c->seen++) : NULL;
}
void w_cl_skip(struct wcl *c) { w_cl_drain(c); c->seen = c->lines->len; }
void w_cl_leave(struct wcl *c)
{
	mc_trace("%s goes away", c->m->name);
	mc_step();
	c->gone = 1;
	c->m->eof = c->m->hup = 1;
	pump();
}
