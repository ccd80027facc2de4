/* A whole proxy in one process: networks whose TCP connections end in memory,
 * clients attached over memory channels, a virtual clock. */
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "pre.h"
#include "mem.h"
#include "vtime.h"
#include "ssl.h"

struct wconn {            /* a connection attempt made by the proxy */
	int fd;
	struct mem *m;
	char host[64], port[16];
	int result;           /* 0 connected at once, 1 in progress, 2 refused, 3 socket() failed */
	int closed;           /* descriptor closed directly */
};
struct wcl {              /* a client program */
	struct mem *m;
	struct irc_client *c; /* may dangle after the client has gone */
	char nick[64];
	int gone;
	GPtrArray *lines;     /* everything received, in order */
	unsigned seen;        /* lines consumed by the harness */
};

extern struct global *W;
extern struct wconn wconns[64];
extern int nwconns;
extern int w_addrs_live;              /* address lists not freed */
extern int w_log_on;                  /* exercise the logging path as well */
extern char w_dir[200];               /* per execution scratch directory */
/* number of addresses a name resolves to; <= 0: failure */
extern int (*w_resolve)(const char *host);
/* outcome of the next connect(), see wconn.result */
extern int (*w_connect)(int idx);

/* whether bind() of that socket fails */
extern int (*w_bind)(int idx);

void w_init(void);                    /* once, before any fork */
void w_begin(void);                   /* per execution */
void w_teardown(void);                /* disconnect and unload every network */
void w_end(void);                     /* removes the scratch directory */
struct network_config *w_netconfig(const char *name, const char *nick);
struct irc_network *w_network(const char *name, const char *nick);
struct wconn *w_conn(struct irc_network *n);   /* current live connection of the only/last attempt */
struct mem *w_up(struct irc_network *n, const char *nick, const char *isupport); /* connect and log in */
void w_login(struct mem *m, const char *nick, const char *isupport);

/* server -> proxy, then run the loop */
void w_srv(struct mem *m, const char *fmt, ...) __attribute__((format(printf,2,3)));
/* proxy -> server lines: next line or NULL (g_free) */
char *w_srv_line(struct mem *m);
/* drop what the proxy has sent to the server so far (traced); returns the number of lines */
int w_srv_drain(struct mem *m);

struct wcl *w_client(struct irc_network *n, const char *nick);  /* attach and register */
struct wcl *w_client_raw(struct irc_network *n);                 /* attach only */
void w_cl(struct wcl *c, const char *fmt, ...) __attribute__((format(printf,2,3)));
/* move everything the client was sent into c->lines */
void w_cl_drain(struct wcl *c);
/* next unseen line, NULL when none; owned by c->lines */
const char *w_cl_next(struct wcl *c);
void w_cl_skip(struct wcl *c);        /* consider everything received as seen */
void w_cl_leave(struct wcl *c);       /* the client program closes its connection */
#endif
