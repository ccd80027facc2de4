/* An in-memory GIOChannel: the harness decides what a read returns, how much a
 * write accepts and when the channel is ready. */
#ifndef VERIF_MEM_H
#define VERIF_MEM_H
#include <glib.h>

enum { MEM_ALL = -1, MEM_AGAIN = -2, MEM_ERROR = -3 };

struct mem {
	GIOChannel base;
	int fd;                 /* where g_io_channel_unix_get_fd looks */
	char name[32];
	GString *in;            /* bytes the program can read */
	size_t readmax;         /* bytes a single read returns at most, 0 = any */
	int eof, rderr;         /* after the bytes: end of file / error */
	int hup;                /* report a hangup */
	int errcond;            /* report G_IO_ERR (only when asked for) */
	int connected;          /* 0: still connecting, not ready for anything */
	int writable;
	GString *out;           /* bytes the program has written */
	size_t taken;           /* bytes of out the harness has consumed */
	int broken;             /* writes fail */
	int closed;             /* channel destroyed by the program */
	int dropped;            /* last reference gone (closed or leaked) */
	int flags;
	int nwrites;
	int (*on_write)(struct mem *, size_t n);  /* bytes to accept or MEM_* */
	void *user;
};
/* The harness owns one reference; `closed' is set when the program has closed
 * or dropped the channel. */
struct mem *mem_new(const char *name);
#define mem_ioc(m) (&(m)->base)
void mem_feed(struct mem *m, const char *s);
void mem_feedn(struct mem *m, const char *s, size_t n);
/* next complete line (terminator stripped) written by the program, or NULL; g_free */
char *mem_line(struct mem *m);
/* dispatch everything that is ready; returns the number of iterations */
int pump(void);
#endif
