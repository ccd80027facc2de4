/* P32: users of the shared daemon are confined to their own account. */
#include "internals.h"
#include "irc.h"
#include "mem.h"
#include "mc.h"
#include "daemon/daemon.h"
#include "daemon/user.h"
#include "daemon/client.h"
#include "daemon/backend.h"
#include "libirc/socks.h"
#include <sys/un.h>
#include <sys/stat.h>
#include <pwd.h>
#include <grp.h>
#include <errno.h>
#include <setjmp.h>
#include <unistd.h>
extern int ctrlproxyd_main(int argc, char **argv);

/* ---- the accounts ---- */
static char dir[200], longname[260];
static struct account {
	const char *name, *pw;
	int exists;
	char confdir[500];
	int running, starts;
	uid_t uid; gid_t gid;
	int child, childsrc; GChildWatchFunc childfn; gpointer childdata;
} A[] = {
	{ "alice", "pwA" }, { "bob", "pw B" }, { "carol", NULL }, { longname, "pwL" }, { "file", NULL }, { "root", "pwR" },
};
#define NACC 6
static int passwdmode, spawn_fails, conn_fails, setuid_fails;
static struct account *account(const char *name)
{
	int i;
	for (i = 0; i < NACC; i++) if (!strcmp(A[i].name, name)) return A[i].exists ? &A[i] : NULL;
	return NULL;
}
static struct account *by_path(const char *p, const char *what, const char *last)
{
	int i;
	for (i = 0; i < NACC; i++) {
		size_t n = strlen(A[i].confdir);
		if (A[i].exists && n && !strncmp(p, A[i].confdir, n) && (last ? p[n] == '/' && !strcmp(p + n + 1, last) : p[n] == 0)) return &A[i];
	}
	mc_fail("%s: %s does not belong to any account", what, p);
}
/* the accounts that may be touched at the moment */
static int touched;
static struct account *touch(struct account *a) { touched |= 1 << (a - A); return a; }

/* ---- backends ---- */
#define MAXB 12
static struct bk {
	int used, closed;
	struct account *a;
	struct mem *m;
	GPtrArray *lines;
	int passes, answers, ok, gone;
} Bk[MAXB];
static int nb;
#define FD0 300000
extern int __real_socket(int, int, int);
int __wrap_socket(int d, int t, int p)
{
	if (nb == MAXB) mc_done();
	memset(&Bk[nb], 0, sizeof(Bk[nb]));
	Bk[nb].used = 1;
	return FD0 + nb++;
}
extern int __real_close(int);
int __wrap_close(int fd)
{
	if (fd < FD0) return __real_close(fd);
	if (Bk[fd - FD0].closed) mc_fail("a socket is closed twice");
	Bk[fd - FD0].closed = 1;
	return 0;
}
int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	const struct sockaddr_un *un = (const struct sockaddr_un *)sa;
	if (fd < FD0 || sa->sa_family != AF_UNIX) mc_fail("a connection to something strange");
	if (memchr(un->sun_path, 0, sizeof(un->sun_path)) == NULL) mc_fail("the path of the socket does not fit");
	mc_trace("connect to %s", un->sun_path);
	Bk[fd - FD0].a = touch(by_path(un->sun_path, "connection", "socket"));
	if (conn_fails || !Bk[fd - FD0].a->running) { errno = ECONNREFUSED; return -1; }
	return 0;
}
extern GIOChannel *__real_g_io_channel_unix_new(int);
GIOChannel *__wrap_g_io_channel_unix_new(int fd)
{
	char nm[32];
	if (fd < FD0) return __real_g_io_channel_unix_new(fd);
	sprintf(nm, "backend%d", fd - FD0);
	Bk[fd - FD0].m = mem_new(nm);
	Bk[fd - FD0].m->fd = fd;
	Bk[fd - FD0].lines = g_ptr_array_new();
	return mem_ioc(Bk[fd - FD0].m);
}
pid_t __wrap_read_pidfile(const char *path)
{
	struct account *a;
	if (!strncmp(path, "/nonexistent", 12)) return -1;
	a = touch(by_path(path, "pid file", "pid"));
	return a->running ? 4000 + (a - A) : -1;
}
gboolean __wrap_write_pidfile(const char *path) { return TRUE; }

/* ---- starting instances ---- */
static jmp_buf exit_jmp;
static int in_child;
static uid_t p_uid; static gid_t p_gid; static int p_groups;
extern void __real_exit(int);
void __wrap_exit(int r) { if (in_child) longjmp(exit_jmp, 1); __real_exit(r); }
int __wrap_setuid(uid_t u)
{
	if (!in_child) mc_fail("the daemon changes its own user");
	if (setuid_fails || u == (uid_t)-1) { errno = setuid_fails ? EPERM : EINVAL; return -1; }
	p_uid = u;
	return 0;
}
int __wrap_setgid(gid_t g)
{
	if (!in_child) mc_fail("the daemon changes its own group");
	if (p_uid || setuid_fails == 2 || g == (gid_t)-1) { errno = EPERM; return -1; }
	p_gid = g;
	return 0;
}
int __wrap_initgroups(const char *u, gid_t g)
{
	if (!in_child) mc_fail("the daemon changes its own groups");
	if (p_uid || setuid_fails == 2) { errno = EPERM; return -1; }
	p_groups = account(u) ? account(u) - A + 1 : -1;
	return 0;
}
int __wrap_setgroups(size_t n, const gid_t *g) { if (p_uid) { errno = EPERM; return -1; } p_groups = n ? -1 : 100; return 0; }
gboolean __wrap_g_spawn_async_with_pipes(const gchar *wd, gchar **argv, gchar **envp, GSpawnFlags flags, GSpawnChildSetupFunc setup,
	gpointer data, GPid *pid, gint *in, gint *out, gint *err, GError **error)
{
	struct account *a;
	int died;
	if (strcmp(argv[0], "/opt/ctrlproxy") || !argv[1] || strcmp(argv[1], "--config-dir") || !argv[2]) mc_fail("the instance is started as %s", argv[0]);
	a = touch(by_path(argv[2], "configuration directory", NULL));
	mc_trace("start of %s", argv[2]);
	if (passwdmode ? argv[3] != NULL : !argv[3] || strcmp(argv[3], "--restricted") || argv[4]) mc_fail("the instance of %s is started with %s", a->name, argv[3]);
	if (a->running) mc_fail("a second instance is started for %s", a->name);
	if (a->child) mc_fail("a second instance is started for %s while the first has not ended", a->name);
	if (spawn_fails == 1) { g_set_error_literal(error, G_SPAWN_ERROR, G_SPAWN_ERROR_NOENT, "No such file or directory"); return FALSE; }
	p_uid = p_gid = 0; p_groups = 0;
	in_child = 1;
	died = setjmp(exit_jmp);
	if (!died && setup) setup(data);
	in_child = 0;
	if (!died) {
		if (passwdmode && setuid_fails) mc_fail("the instance of %s runs although the user could not be set", a->name);
		if (passwdmode && p_uid != a->uid) mc_fail("the instance of %s runs as user %d", a->name, p_uid);
		if (passwdmode && (p_gid != a->gid || (p_groups != 100 && p_groups != a - A + 1))) mc_fail("the instance of %s runs with the groups of the daemon", a->name);
		if (!passwdmode && (p_uid || p_gid || p_groups)) mc_fail("the instance of %s runs as another user", a->name);
		mc_cover("started");
	} else {
		if (!setuid_fails) mc_fail("the instance of %s ends at once", a->name);
		mc_cover("user can not be changed");
	}
	a->starts++;
	a->child = 5000 + (a - A);
	*pid = a->child;
	if (in) *in = -1;
	if (out) *out = -1;
	if (err) *err = -1;
	if (!died && spawn_fails != 2) a->running = 1;	/* 2: the socket is not there yet */
	return TRUE;
}
static gboolean never(gpointer d) { return TRUE; }
guint __wrap_g_child_watch_add(GPid pid, GChildWatchFunc fn, gpointer data)
{
	struct account *a = &A[pid - 5000];
	if (pid < 5000 || pid >= 5000 + NACC || !a->child) mc_fail("an unknown process %d is watched", pid);
	a->childfn = fn; a->childdata = data;
	return a->childsrc = g_timeout_add(100000000, never, NULL);
}
extern gboolean __real_g_source_remove(guint);
gboolean __wrap_g_source_remove(guint id)
{
	int i;
	for (i = 0; i < NACC; i++) if (A[i].childsrc && (guint)A[i].childsrc == id) { A[i].childsrc = 0; A[i].childfn = NULL; }
	return __real_g_source_remove(id);
}
static void child_exits(struct account *a)
{
	GChildWatchFunc fn = a->childfn;
	if (!a->child) return;
	if (!fn) mc_fail("nobody waits for the instance of %s", a->name);
	a->childfn = NULL;
	__real_g_source_remove(a->childsrc);
	a->childsrc = 0;
	a->running = 0;
	fn(a->child, 256, a->childdata);
	a->child = 0;
}
static struct passwd pw;
struct passwd *__wrap_getpwnam(const char *n)
{
	int i;
	static char home[600];
	for (i = 0; i < NACC; i++) if (!strcmp(A[i].name, n) && i != 4) {
		snprintf(home, sizeof(home), "%s/home/%s", dir, A[i].name);
		memset(&pw, 0, sizeof(pw));
		pw.pw_name = (char *)A[i].name; pw.pw_dir = home; pw.pw_uid = A[i].uid; pw.pw_gid = A[i].gid; pw.pw_passwd = "x"; pw.pw_gecos = ""; pw.pw_shell = "/bin/sh";
		return &pw;
	}
	return NULL;
}
static int pwpos;
void __wrap_setpwent(void) { pwpos = 0; }
void __wrap_endpwent(void) {}
struct passwd *__wrap_getpwent(void) { while (pwpos < NACC) { struct passwd *p = __wrap_getpwnam(A[pwpos++].name); if (p) return p; } return NULL; }
typedef void (*sigh)(int);
sigh __wrap_signal(int s, sigh h) { return NULL; }

/* ---- the listener ---- */
static struct irc_listener *DL;
static void quiet(enum log_level l, const struct irc_listener *x, const char *m) { mc_trace("log: %s", m); }
gboolean __wrap_listener_start_tcp(struct irc_listener *l, const char *a, const char *p) { DL = l; l->log_fn = quiet; l->active = TRUE; return TRUE; }

/* ---- clients ---- */
#define MAXC 2
static struct cl {
	int used, socks, phase;
	struct mem *m;
	struct daemon_client *cd;
	struct pending_client *pc;
	GPtrArray *got;
	size_t taken;
	char *user, *pass, *nick, *u[4], *host, *port;	/* what it said */
	int complete;			/* registration is complete: user and password are settled */
	struct bk *b;			/* the backend it may talk to */
	int settled, accepted, connected;
	int quit, ended;
	GPtrArray *want;		/* what its backend has to get */
	GPtrArray *expect;		/* what it has to get */
} C[MAXC];
static int maygone(struct cl *c) { return c->m->dropped || c->m->closed; }
static void connect_client(int i, int socks)
{
	struct cl *c = &C[i];
	memset(c, 0, sizeof(*c));
	c->used = 1; c->socks = socks;
	c->m = mem_new(i ? "client1" : "client0");
	c->m->fd = 100070 + i;
	c->got = g_ptr_array_new();
	c->want = g_ptr_array_new();
	c->expect = g_ptr_array_new();
	c->pc = listener_new_pending_client(DL, mem_ioc(c->m));
	c->cd = c->pc->private_data;
	pump();
}
static void collect(void)
{
	int i;
	char *l;
	for (i = 0; i < nb; i++) if (Bk[i].m) while ((l = mem_line(Bk[i].m))) {
		mc_trace("%s's backend gets %s", Bk[i].a->name, l);
		g_ptr_array_add(Bk[i].lines, l);
	}
}
static char *canon(const char *s)
{
	GString *g = g_string_new("");
	struct irc_line *l = irc_parse_line(s);
	int i;
	if (!l) return g_string_free(g, FALSE);
	g_string_append_printf(g, "<%s>", l->origin ? l->origin : "");
	for (i = 0; i < l->argc; i++) g_string_append_printf(g, "%s\x1f", l->args[i]);
	free_line(l);
	return g_string_free(g, FALSE);
}
static int same_line(const char *a, const char *b) { char *x = canon(a), *y = canon(b); int r = !strcmp(x, y); g_free(x); g_free(y); return r; }
/* everything that reaches a backend before its password was right is a password */
static void judge(void)
{
	int i, k;
	collect();
	for (i = 0; i < nb; i++) {
		struct bk *b = &Bk[i];
		struct cl *c = NULL;
		if (!b->m) { if (!b->closed) mc_fail("a socket is left behind"); continue; }
		for (k = 0; k < MAXC; k++) if (C[k].used && C[k].b == b) c = &C[k];
		for (k = 0; k < (int)b->lines->len; k++) {
			const char *l = b->lines->pdata[k];
			if (k == 0) {
				const char *p = l + 5;
				if (strncmp(l, "PASS ", 5)) mc_fail("the backend of %s first gets %s", b->a->name, l);
				if (*p == ':') p++;
				if (c && strcmp(p, c->pass)) mc_fail("the password sent for %s is %s", c->user, p);
				continue;
			}
			if (!b->ok) mc_fail("the backend of %s gets %s before the password was accepted", b->a->name, l);
			if (!c) mc_fail("the backend of %s gets %s from nobody", b->a->name, l);
			if (k - 1 >= (int)c->want->len) mc_fail("the backend of %s gets %s, which nobody sent", b->a->name, l);
			if (!same_line(c->want->pdata[k - 1], l)) mc_fail("the backend of %s gets %s instead of %s", b->a->name, l, (char *)c->want->pdata[k - 1]);
		}
		if (c && b->ok && !b->gone && !c->ended && b->m->writable && !b->m->broken && b->lines->len != c->want->len + 1)
			mc_fail("the backend of %s does not get %s", b->a->name, (char *)c->want->pdata[b->lines->len - 1]);
	}
	for (i = 0; i < MAXC; i++) if (C[i].used) {
		struct cl *c = &C[i];
		char *l;
		int from = c->taken;
		if (c->socks && !c->connected) continue;
		while ((l = mem_line(c->m))) { mc_trace("client %d gets %s", i, l); g_ptr_array_add(c->got, l); }
		for (k = 0; k < (int)c->got->len; k++) {
			l = c->got->pdata[k];
			if (k >= (int)c->expect->len) mc_fail("client %d gets %s", i, l);
			if (strcmp(c->expect->pdata[k], "*") && !same_line(c->expect->pdata[k], l)) mc_fail("client %d gets %s instead of %s", i, l, (char *)c->expect->pdata[k]);
		}
		if (!c->ended && c->m->writable && !c->m->broken && c->got->len < c->expect->len) mc_fail("client %d does not get %s", i, (char *)c->expect->pdata[c->got->len]);
		(void)from;
		if (c->ended && !maygone(c) && c->m->writable) mc_fail("the connection of client %d is over, but stays open", i);
		if (!c->ended && maygone(c) && !c->m->broken) mc_fail("client %d is disconnected", i);
	}
	for (i = 0; i < nb; i++) if (Bk[i].m) {
		struct bk *b = &Bk[i];
		int owned = 0;
		for (k = 0; k < MAXC; k++) if (C[k].used && C[k].b == b && !C[k].ended) owned = 1;
		if (!owned && !b->m->dropped && !b->m->closed && b->m->writable) mc_fail("the connection to the backend of %s stays open", b->a->name);
		if (owned && !b->gone && (b->m->dropped || b->m->closed)) mc_fail("the connection to the backend of %s is closed", b->a->name);
	}
}
static void over(struct cl *c) { c->ended = 1; }
/* the client named a user and gave a password: what has to happen */
static void attempt(struct cl *c, int before)
{
	struct account *a = account(c->user);
	int t = 0, i;
	c->b = NULL;
	for (i = before; i < nb; i++) if (Bk[i].m) { if (c->b) mc_fail("two connections are made for one client"); c->b = &Bk[i]; }
	if (a && passwdmode && a == &A[4]) a = NULL;
	if (touched & ~(a ? 1 << (a - A) : 0)) mc_fail("the account of another user than %s is touched", c->user);
	if (!a || !a->running || conn_fails) {
		if (c->b) mc_fail("there is a connection for %s", c->user);
		return;
	}
	if (strlen(a->confdir) + 7 >= 108) { if (c->b) mc_fail("there is a connection for the user with the long name"); mc_cover("long path"); return; }
	if (!c->b) mc_fail("there is no connection to the backend of %s", c->user);
	if (c->b->a != a) mc_fail("%s is connected to %s", c->user, c->b->a->name);
	(void)t;
}
static char *dup_arg(const char *s) { return *s == 0 || *s == ':' || strchr(s, ' ') ? g_strdup_printf(":%s", s) : g_strdup(s); }
static void plain(struct cl *c, const char *line)
{
	int before = nb;
	struct irc_line *l = irc_parse_line(line);
	char *raw = g_strconcat(line, "\r\n", NULL);
	mc_trace("client %d: %s", (int)(c - C), line);
	mc_step();
	touched = 0;
	if (!c->complete) {
		if (!strcmp(l->args[0], "PASS")) { g_free(c->pass); c->pass = g_strdup(l->args[1]); }
		else if (!strcmp(l->args[0], "NICK")) { g_free(c->nick); c->nick = g_strdup(l->args[1]); }
		else if (!strcmp(l->args[0], "USER") && l->argc > 4) { int k; for (k = 0; k < 4; k++) { g_free(c->u[k]); c->u[k] = g_strdup(l->args[k + 1]); } c->user = c->u[0]; }
		else if (!strcmp(l->args[0], "CONNECT")) { g_free(c->host); g_free(c->port); c->host = g_strdup(l->args[1]); c->port = g_strdup(l->argc > 2 ? l->args[2] : NULL); }
		else if (!strcmp(l->args[0], "QUIT")) over(c);
		else g_ptr_array_add(c->expect, "*");
		c->complete = !c->ended && c->pass && c->nick && c->user;
		mem_feed(c->m, raw);
		pump();
		if (c->complete) {
			attempt(c, before);
			if (!c->b) { if (!account(c->user)) mc_cover("unknown user"); over(c); g_ptr_array_add(c->expect, "*"); g_ptr_array_add(c->expect, "*"); }
			else mc_cover("connected");
		} else if (touched || nb != before) mc_fail("an account is touched before the registration is complete");
	} else {
		if (c->b && c->b->ok && !c->ended) g_ptr_array_add(c->want, g_strdup(line));
		mem_feed(c->m, raw);
		pump();
		if (touched || nb != before) mc_fail("an account is touched after the registration is complete");
	}
	g_free(raw);
	free_line(l);
}
static size_t sockspos(struct cl *c) { return c->m->taken; }
static int sleft(struct cl *c) { return c->m->out->len - c->m->taken; }
static int sbyte(struct cl *c, int i) { return (unsigned char)c->m->out->str[c->m->taken + i]; }
static void socks_greet(struct cl *c, int good)
{
	mem_feedn(c->m, good ? "\5\1\2" : "\5\1\0", 3);
	mc_trace("client %d: SOCKS greeting %d", (int)(c - C), good);
	mc_step();
	pump();
	if (sleft(c) != 2 || sbyte(c, 0) != 5 || sbyte(c, 1) != (good ? 2 : 0xff)) mc_fail("the SOCKS greeting is not answered right");
	c->m->taken += 2;
	c->phase = 1;
	if (!good) { over(c); if (!maygone(c)) mc_fail("a refused SOCKS client stays connected"); }
}
static void socks_auth(struct cl *c, const char *user, const char *pass)
{
	GString *g = g_string_new("\1");
	int before = nb, waiting = c->b && !c->settled;
	g_string_append_c(g, strlen(user)); g_string_append(g, user);
	g_string_append_c(g, strlen(pass)); g_string_append(g, pass);
	mc_trace("client %d: SOCKS user %s password %s", (int)(c - C), user, pass);
	mc_step();
	touched = 0;
	if (!waiting) {
		c->user = c->u[0] = g_strdup(user); c->pass = g_strdup(pass);
		c->settled = 0;
		c->b = NULL;
	}
	mem_feedn(c->m, g->str, g->len);
	pump();
	if (waiting) {
		/* the answer to the first one is still to come: no second guess */
		if (nb != before || touched) mc_fail("an account is touched while the password of another is checked");
		if (maygone(c)) { over(c); mc_cover("impatient"); }
	} else if (strpbrk(pass, "\r\n") || strpbrk(user, "\r\n")) {
		if (touched) mc_fail("an account is touched for a password of two lines");
		if (!maygone(c)) mc_fail("the client with a password of two lines stays");
		over(c);
	} else {
		attempt(c, before);
		if (!c->b) over(c);
		if (!c->b && !maygone(c)) mc_fail("the client of an unavailable user stays connected");
	}
	g_string_free(g, TRUE);
}
static void socks_request(struct cl *c, const char *host, int atyp)
{
	GString *g = g_string_new("\5\1");
	char *ah;
	int port = 6667, n = strlen(host), ok;
	(g_string_append_len)(g, "\0", 1);
	g_string_append_c(g, atyp);
	if (atyp == 3) { g_string_append_c(g, n); g_string_append(g, host); } else (g_string_append_len)(g, "\177\0\0\1", 4);
	g_string_append_c(g, port >> 8); g_string_append_c(g, port & 255);
	mc_trace("client %d: SOCKS request %s", (int)(c - C), host);
	mc_step();
	ok = c->accepted && atyp == 3 && c->b && !c->b->gone && !strpbrk(host, "\r\n ");
	ah = dup_arg(host);
	if (ok) g_ptr_array_add(c->want, g_strdup_printf("CONNECT %s %d", host, port));
	g_free(ah);
	mem_feedn(c->m, g->str, g->len);
	pump();
	if (!c->accepted) { /* taken for another password */
		if (maygone(c)) over(c);
		g_string_free(g, TRUE);
		return;
	}
	if (!ok) {
		if (sleft(c) < 2 || sbyte(c, 0) != 5 || !sbyte(c, 1)) mc_fail("the SOCKS request that can not be served is not refused");
		over(c);
		mc_cover("request refused");
	} else {
		if (sleft(c) != 7 + n) mc_fail("the answer to the SOCKS request has %d bytes", sleft(c));
		if (sbyte(c, 0) != 5 || sbyte(c, 1) || sbyte(c, 3) != 3 || sbyte(c, 4) != n || memcmp(c->m->out->str + c->m->taken + 5, host, n) ||
			sbyte(c, 5 + n) != port >> 8 || sbyte(c, 6 + n) != (port & 255)) mc_fail("the answer to the SOCKS request is wrong");
		c->m->taken += 7 + n;
		c->connected = 1;
		mc_cover("SOCKS connection");
	}
	g_string_free(g, TRUE);
}
/* what the real backend says to the password it got */
static void backend_answers(struct cl *c)
{
	struct bk *b = c->b;
	collect();
	if (!b || b->gone || b->answers || !b->lines->len) return;
	mc_step();
	b->answers++;
	b->ok = b->a->pw && !strcmp(c->pass, b->a->pw);
	mc_trace("backend of %s: %d", b->a->name, b->ok);
	mem_feed(b->m, b->ok ? "NOTICE AUTH :PASS OK\r\n" : ":x 464 * :Password mismatch\r\n");
	c->settled = 1;
	if (b->ok) {
		mc_cover("right password");
		c->accepted = 1;
		if (!c->socks) {
			char *r = dup_arg(c->u[3]), *n;
			if (c->host) g_ptr_array_add(c->want, c->port ? g_strdup_printf("CONNECT %s %s", c->host, c->port) : g_strdup_printf("CONNECT %s", c->host));
			g_ptr_array_add(c->want, g_strdup_printf("USER %s %s %s %s", c->u[0], c->u[1], c->u[2], r));
			n = dup_arg(c->nick);
			g_ptr_array_add(c->want, g_strdup_printf("NICK %s", n));
		}
	} else {
		mc_cover("wrong password");
		if (!c->socks) { g_ptr_array_add(c->expect, "*"); over(c); }
	}
	pump();
	if (c->socks) {
		if (sleft(c) != 2 || sbyte(c, 0) != 1 || !sbyte(c, 1) != b->ok) mc_fail("the SOCKS client is not told right whether the password is right");
		c->m->taken += 2;
		if (!b->ok) { /* it may close or may try again */
			if (maygone(c)) over(c);
			c->phase = 1;
			if (b->m->dropped || b->m->closed) c->b = NULL;
		}
	}
}
static void backend_ends(struct cl *c, int how)
{
	struct bk *b = c->b;
	int waiting;
	collect();
	if (!b || b->gone) return;
	mc_step();
	waiting = !c->settled;
	b->gone = 1;
	c->settled = 1;
	mc_trace("backend of %s ends (%d)", b->a->name, how);
	if (how == 0) b->m->eof = b->m->hup = 1;
	if (how == 1) b->m->rderr = 1;
	if (how == 2) { mem_feed(b->m, b->ok ? "" : "NOTICE AUTH :PASS UNKNOWN\r\n"); if (b->ok) b->m->eof = b->m->hup = 1; }
	if (how == 3) { mem_feed(b->m, b->ok ? "" : "NOTICE AUTH\r\nNOTICE AUTH :PASS OK\r\n:x MORE\r\n"); if (b->ok) b->m->eof = 1; }
	if (how == 4) { mem_feed(b->m, ":x 464 * :no\r\nNOTICE AUTH :PASS OK\r\n"); b->m->eof = b->m->hup = 1; }
	if (!c->socks || c->connected) { g_ptr_array_add(c->expect, "*"); g_ptr_array_add(c->expect, "*"); over(c); }
	pump();
	if (c->socks && !c->connected) {
		if (waiting) {
			if (!maygone(c) && (sleft(c) != 2 || sbyte(c, 0) != 1 || !sbyte(c, 1))) mc_fail("the SOCKS client is not told that its backend is gone");
			c->m->taken = c->m->out->len;
		}
		if (maygone(c)) over(c);
		c->accepted = c->accepted && !maygone(c);
		if (waiting) { c->b = NULL; c->phase = 1; }
	}
}
static void backend_line(struct cl *c, const char *line)
{
	char *raw;
	if (!c->b || c->b->gone || !c->b->ok || (c->socks && !c->connected)) return;
	mc_step();
	raw = g_strconcat(line, "\r\n", NULL);
	mc_trace("backend of %s: %s", c->b->a->name, line);
	g_ptr_array_add(c->expect, g_strdup(line));
	mem_feed(c->b->m, raw);
	pump();
	g_free(raw);
}
static void client_ends(struct cl *c, int how)
{
	mc_step();
	mc_trace("client %d ends (%d)", (int)(c - C), how);
	if (how == 0) c->m->eof = c->m->hup = 1;
	if (how == 1) c->m->rderr = 1;
	if (how == 2) { c->m->broken = 1; c->m->eof = c->m->hup = 1; }
	over(c);
	pump();
	if (!maygone(c)) mc_fail("a client that ended is not released");
}
static uint64_t digest(int part)
{
	uint64_t h = mc_hash(&part, sizeof(part), MC_H0);
	int i, k;
	for (i = 0; i < MAXC; i++) if (C[i].used) {
		struct cl *c = &C[i];
		int v[] = { c->socks, c->phase, c->complete, c->settled, c->accepted, c->connected, c->ended, c->b ? (int)(c->b - Bk) : -1, maygone(c), c->m->writable, c->m->broken, g_list_find(DL->pending, c->pc) != NULL, sleft(c) };
		h = mc_hash(v, sizeof(v), h);
		h = mc_hash_str(c->user ? c->user : "-", h); h = mc_hash_str(c->pass ? c->pass : "-", h); h = mc_hash_str(c->nick ? c->nick : "-", h); h = mc_hash_str(c->host ? c->host : "-", h); h = mc_hash_str(c->port ? c->port : "-", h);
		h = mc_hash_str(c->u[3] ? c->u[3] : "-", h);
		h = mc_hash(&c->expect->len, sizeof(c->expect->len), h); h = mc_hash(&c->want->len, sizeof(c->want->len), h);
	}
	for (i = 0; i < nb; i++) {
		struct bk *b = &Bk[i];
		int v[] = { b->closed, b->a ? (int)(b->a - A) : -1, b->m != NULL, b->answers, b->ok, b->gone, b->m ? b->m->dropped | b->m->closed << 1 : 0, b->lines ? (int)b->lines->len : 0 };
		h = mc_hash(v, sizeof(v), h);
	}
	for (k = 0; k < NACC; k++) { int v[] = { A[k].running, A[k].starts, A[k].child }; h = mc_hash(v, sizeof(v), h); }
	return h;
}

/* ---- parts ---- */
static const char *odd_names[] = { "alice", "bob", "carol", "nobody", "..", ".", "../secret", "alice/../bob", "alice/", "./alice", "alice/.", "/", "/etc", "//alice", "file",
	".hidden", "Alice", "ALICE", "alice%2f..", "alice\\..\\bob", "*", "?lice", "~", "~root", "$HOME", "alice:bob", "alice,bob", "--help", "-", "...", "..alice", "root", "\x80\xff", "LONG", "LONGX", "LONG/",
	/* only through SOCKS */
	"", " ", "alice ", " alice", "alice\r\nUSER bob", "alice bob", "../secret\n" };
#define NPLAIN 36
#define NNAMES 43
static int part, part_names(void);

static void body(void)
{
	int i, k, depth, op;
	struct cl *c = &C[0];
	if (part == 0) { /* names */
		int n, socks;
		const char *name;
		char *s;
		socks = mc_choose_l(2, "SOCKS");
		n = mc_choose_l(socks ? NNAMES : NPLAIN, "name");
		spawn_fails = mc_choose_l(3, "start fails"); conn_fails = mc_choose_l(2, "connection fails"); setuid_fails = passwdmode ? mc_choose_l(3, "user can not be set") : 0;
		name = !strcmp(odd_names[n], "LONG") ? longname : odd_names[n];
		s = !strcmp(name, "LONGX") ? g_strconcat(longname, "x", NULL) : !strcmp(name, "LONG/") ? g_strconcat(longname, "/../bob", NULL) : g_strdup(name);
		connect_client(0, socks);
		if (socks) { socks_greet(c, 1); socks_auth(c, s, "pwA"); }
		else { char *l = g_strdup_printf("USER %s 0 * :x y", s); plain(c, "PASS pwA"); plain(c, "NICK n"); plain(c, l); g_free(l); }
		judge();
		if (!c->ended) { backend_answers(c); judge(); }
		mc_outcome(mc_hash(&c->accepted, sizeof(int), n));
		if (mc_choose_l(2, "the instance ends") ) { for (i = 0; i < NACC; i++) if (A[i].child) child_exits(&A[i]); }
		if (!c->ended && c->b) { backend_ends(c, 0); judge(); }
		if (!c->ended) client_ends(c, 0);
		judge();
		for (i = 0; i < NACC; i++) if (A[i].child) child_exits(&A[i]);
		return;
	}
	if (part == 1) { /* registration in any order */
		static const char *say[] = { "PASS pwA", "PASS :pw B", "PASS", "NICK n", "NICK m", "NICK", "USER alice 0 * :Real Name", "USER bob 8 x y", "USER alice 0 *", "USER ../secret 0 * :x", "USER carol 0 * x",
			"CONNECT irc.net.org 6667", "CONNECT net", "CONNECT", "QUIT :bye", "PRIVMSG #c :early", "PRIVMSG #c :hello  there " };
		int ns = G_N_ELEMENTS(say);
		depth = mc_tier ? 8 : 6;
		connect_client(0, 0);
		for (i = 0; i < depth && !c->ended; i++) {
			op = mc_choose_l(ns + 9, "op");
			if (op < ns) { if (c->complete && op < ns - 3 && op != 3) mc_done(); plain(c, say[op]); }
			else switch (op - ns) {
			case 0: if (!c->b || c->b->answers) mc_done(); backend_answers(c); break;
			case 1: if (!c->b || !c->b->ok) mc_done(); backend_line(c, ":x 001 n :welcome"); break;
			case 2: case 3: client_ends(c, op - ns - 2); break;
			default: if (!c->b || c->b->gone) mc_done(); if (c->b->answers && op - ns > 5) mc_done(); backend_ends(c, op - ns - 4); break;
			}
			judge();
			if (mc_state(digest(part * 10 + passwdmode), depth - i - 1)) mc_done();
		}
	} else if (part == 2) { /* SOCKS */
		char host[256];
		depth = mc_tier ? 9 : 7;
		memset(host, 'h', 255); host[255] = 0;
		connect_client(0, 1);
		for (i = 0; i < depth && !c->ended; i++) {
			op = mc_choose_l(20, "op");
			if (c->phase == 0 && op > 1 && op != 18) mc_done();
			switch (op) {
			case 0: case 1: if (c->phase) mc_done(); socks_greet(c, op == 0); break;
			case 2: case 3: case 4: case 5: case 6:
				if (c->connected || c->accepted) mc_done();
				socks_auth(c, (const char *[]){ "alice", "bob", "alice", "../secret", "alice" }[op - 2], (const char *[]){ "pwA", "pw B", "bad", "x", "x\r\nPASS pwA" }[op - 2]); break;
			case 7: case 8: case 9: case 10: case 11:
				if (c->connected || !c->accepted) mc_done();
				socks_request(c, (const char *[]){ "irc.net.org", host, host + 127, "x y\r\nQUIT", "" }[op - 7], op == 11 ? 1 : 3); break;
			case 12: if (!c->connected) mc_done(); {
				const char *l = (i & 1) ? "USER u 0 * :r r" : "NICK zz";
				char *raw = g_strconcat(l, "\r\n", NULL);
				mc_step();
				g_ptr_array_add(c->want, g_strdup(l)); mem_feed(c->m, raw); pump(); g_free(raw); break; }
			case 13: if (!c->b || c->b->answers || c->b->gone) mc_done(); backend_answers(c); break;
			case 14: if (!c->connected) mc_done(); backend_line(c, ":x 001 n :welcome"); break;
			case 15: case 16: case 17: case 19: if (!c->b || c->b->gone || (c->b->answers && !c->b->ok)) mc_done(); if (op == 19 && c->settled) mc_done(); backend_ends(c, op == 19 ? 4 : op - 15); break;
			case 18: client_ends(c, i & 1); break;
			}
			judge();
			if (mc_state(digest(part * 10 + passwdmode), depth - i - 1)) mc_done();
		}
	} else { /* two clients */
		static const char *reg[] = { "NICK n", "PASS pwA", "USER alice 0 * :x" };
		static const char *reg2[] = { "USER bob 0 * :x", "NICK m", "PASS :pw B" };
		int same = mc_choose_l(2, "same user"), step[2] = { 0, 0 }, wr = mc_choose_l(3, "writing"), cnt = 0;
		depth = mc_tier ? 14 : 11;
		connect_client(0, 0); connect_client(1, 0);
		for (i = 0; i < depth; i++) {
			int who;
			op = mc_choose_l(6, "op");
			who = mc_choose_l(2, "who");
			c = &C[who];
			if (c->ended) mc_done();
			switch (op) {
			case 0: if (step[who] == 3) mc_done();
				/* the three lines of one do not commute with those of the other only at the end */
				while (step[who] < 2) plain(c, (who && !same ? reg2 : reg)[step[who]++]);
				plain(c, (who && !same ? reg2 : reg)[step[who]++]);
				if (wr == 1 && c->b) c->b->m->writable = 0;
				break;
			case 1: if (!c->b || c->b->answers) mc_done(); if (!c->b->m->writable) { c->b->m->writable = 1; pump(); } backend_answers(c); break;
			case 2: if (!c->b || !c->b->ok) mc_done(); { char *l = g_strdup_printf("PRIVMSG #c :from %d number %d", who, ++cnt); plain(c, l); g_free(l); } break;
			case 3: if (!c->b || !c->b->ok) mc_done(); { char *l = g_strdup_printf(":x PRIVMSG n :to %d number %d", who, ++cnt); backend_line(c, l); g_free(l); } break;
			case 4: if (wr == 2 && c->b) { c->m->broken = 1; if (c->b->ok) { mem_feed(c->b->m, ":x 001 n :x\r\n"); pump(); } } client_ends(c, wr); break;
			case 5: if (!c->b || c->b->gone) mc_done(); if (wr == 2) { c->b->m->broken = 1; if (c->b->ok) { mem_feed(c->m, "PRIVMSG #c :x\r\n"); pump(); } } backend_ends(c, wr == 1 ? 2 : 0); break;
			}
			judge();
			if (mc_state(digest(part * 100 + same * 10 + wr), depth - i - 1)) mc_done();
		}
	}
	for (k = 0; k < MAXC; k++) if (C[k].used && !C[k].ended && part != 3) { client_ends(&C[k], 0); judge(); }
	mc_outcome(digest(part));
}
static int body_called;
void __wrap_g_main_loop_run(GMainLoop *l)
{
	int i;
	pump();
	body_called = 1;
	if (part == 4) {
		for (i = 0; i < NACC; i++) {
			int want = A[i].exists && !(A[i].running & 2);
			if (A[i].starts != want) mc_fail("at the start, %d instances are started for %s", A[i].starts, A[i].name);
		}
		mc_cover("started at the start");
		if (mc_choose_l(2, "the instances end")) for (i = 0; i < NACC; i++) if (A[i].child) child_exits(&A[i]);
		pump();
		return;
	}
	for (i = 0; i < NACC; i++) A[i].running &= ~2;
	body();
}

static void run(void)
{
	char *argv[] = { "ctrlproxyd", "-F", "-c", NULL, NULL };
	char conf[300];
	int i, r;
	part = mc_choose_l(5, "part");
	passwdmode = part == 0 || part == 4 ? mc_choose_l(2, "system users") : part == 3 ? 0 : mc_tier ? mc_choose_l(2, "system users") : 0;
	for (i = 0; i < NACC; i++) {
		struct account *a = &A[i];
		a->running = i == 0 || i == 3; a->starts = a->child = a->childsrc = 0; a->childfn = NULL;
		a->uid = 1000 + i; a->gid = 2000 + i;
		if (passwdmode) { a->exists = i == 0 || i == 1 || i == 3 || i == 5; snprintf(a->confdir, sizeof(a->confdir), "%s/home/%s/.ctrlproxy", dir, a->name); }
		else { a->exists = i == 0 || i == 1 || i == 3; snprintf(a->confdir, sizeof(a->confdir), "%s/conf/%s", dir, a->name); }
	}
	A[1].running = part != 0;
	nb = 0; touched = 0; spawn_fails = conn_fails = setuid_fails = 0; DL = NULL;
	if (part == 4) { spawn_fails = mc_choose_l(2, "start works") ? 0 : 2; }
	memset(C, 0, sizeof(C));
	/* at the start, the instances of existing users are started: only looked at in part 4 */
	for (i = 0; i < NACC; i++) A[i].running = (A[i].running & 1) | 2;
	if (part == 4) for (i = 0; i < NACC; i++) A[i].running = A[i].exists && mc_choose_l(2, "running") ? 2 : 0;
	snprintf(conf, sizeof(conf), "%s/%s", dir, passwdmode ? "d2.conf" : "d1.conf");
	argv[3] = conf;
	for (i = 0; i < NACC; i++) A[i].starts = 0;
	r = ctrlproxyd_main(4, argv);
	if (r) mc_fail("the daemon does not start");
	pump();
	for (i = 0; i < MAXC; i++) if (C[i].used) { if (!maygone(&C[i])) mc_cover("connected at the end"); C[i].m->eof = C[i].m->hup = 1; }
	pump();
	for (i = 0; i < MAXC; i++) if (C[i].used && !maygone(&C[i])) mc_fail("a client stays connected when the daemon stops");
	for (i = 0; i < nb; i++) if (Bk[i].m ? !Bk[i].m->dropped && !Bk[i].m->closed : !Bk[i].closed) mc_fail("a connection to a backend stays open when the daemon stops");
}
static void put(const char *f, const char *t) { char p[600]; snprintf(p, sizeof(p), "%s/%s", dir, f); g_file_set_contents(p, t, -1, NULL); }
static void mk(const char *f) { char p[800]; snprintf(p, sizeof(p), "%s/%s", dir, f); g_mkdir_with_parents(p, 0700); }
static void init(void)
{
	char t[900];
	const char *base = getenv("MC_SCRATCH");
	snprintf(dir, sizeof(dir), "%s/p32-%d", base ? base : "/dev/shm", (int)getpid());
	if (mkdir(dir, 0700)) abort();
	memset(longname, 'l', 100); longname[100] = 0;
	mk("conf/alice"); mk("conf/bob"); mk("secret"); mk("home/alice/.ctrlproxy"); mk("home/bob/.ctrlproxy"); mk("home/carol"); mk("home/root/.ctrlproxy");
	snprintf(t, sizeof(t), "conf/%s", longname); mk(t);
	snprintf(t, sizeof(t), "home/%s/.ctrlproxy", longname); mk(t);
	put("conf/file", "");
	snprintf(t, sizeof(t), "[settings]\nport=6669\nctrlproxy-path=/opt/ctrlproxy\nconfigdir=%s/conf\n", dir); put("d1.conf", t);
	put("d2.conf", "[settings]\nport=6669\nctrlproxy-path=/opt/ctrlproxy\n");
}
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P32", .init = init, .run = run, .batch = 50, .hang_secs = 30,
		.rule = "the daemon started by its own main() over configdir and over system users, its system calls (sockets, processes, users and groups) replaced by recording stand-ins: 43 user names through registration and SOCKS with starting, connecting and changing the user failing or not and the instance ending; every sequence of up to 6 (thorough 8) of 26 client messages, backend answers and ends of either side for registering clients and up to 7 (9) of 20 for SOCKS clients; two clients of the same or of different users with up to 11 (14) events and writes that block or fail; all combinations of instances running at the start. No path, process or socket of another account than the one named is ever touched, a backend gets nothing but the password before it accepted it, then exactly what its own client said, a client gets exactly what its own backend said, and when one side ends so does the other" };
	return mc_main(argc, argv, &chk);
}
