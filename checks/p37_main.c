/* P37: the program as a whole: command line, start, signals, exit.
 * src/main.c is linked with its main() renamed; every execution runs it in a
 * process of its own, up to g_main_loop_run(), which is the scenario. */
#include "world.h"
#include <sys/un.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <unistd.h>
extern int ctrlproxy_main(int argc, char **argv);
extern struct global *my_global;
extern FILE *flog;

/* ---- the scenario, chosen by the parent ---- */
enum { E_HUP, E_USR1, E_SET, E_SAVE, E_LOGIN, E_LOSE, E_ROTATE, E_CLIENT, E_SECOND, NE };
static const char *const EN[] = { "SIGHUP", "SIGUSR1", "a setting is changed", "SAVECONFIG", "the server welcomes", "the server goes away", "the log file is moved away", "a client comes by the socket", "check-running elsewhere" };
enum { X_RETURN, X_TERM, X_INT, X_DIE, X_STDIN, NX };
static const char *const XN[] = { "the loop ends", "SIGTERM", "SIGINT", "DIE", "the client on standard input leaves" };
static int ev[8], nev, fin, autosave, autoconnect, logged, inetd, listenfail, bare, rpipe = -1;
static char conf[300], logname[300], *argv_[12];
static int argc_;

/* ---- the child ---- */
static void say(const char *fmt, ...)
{
	char b[2000];
	va_list ap;
	int n;
	va_start(ap, fmt);
	n = vsnprintf(b, sizeof(b) - 1, fmt, ap);
	va_end(ap);
	if (n > (int)sizeof(b) - 2) n = sizeof(b) - 2;
	b[n] = '\n';
	if (write(rpipe, b, n + 1) < 0) _exit(9);
}
#define CHK(c, ...) do { if (!(c)) { say("F" __VA_ARGS__); _exit(7); } } while (0)
static void settle(void) { int i; for (i = 0; i < 40 && g_main_context_iteration(NULL, FALSE); i++); }
static int admfd = -1, clfd = -1, stdinfd = -1;
static int dial(const char *name)
{
	struct sockaddr_un un;
	int fd = socket(AF_UNIX, SOCK_STREAM, 0);
	memset(&un, 0, sizeof(un)); un.sun_family = AF_UNIX;
	snprintf(un.sun_path, sizeof(un.sun_path), "%s/%s", conf, name);
	CHK(connect(fd, (struct sockaddr *)&un, sizeof(un)) == 0, "nothing listens on the socket \"%s\" in the configuration directory", name);
	fcntl(fd, F_SETFL, O_NONBLOCK);
	settle();
	return fd;
}
static char *hear(int fd, char *b, int max)
{
	int r, n = 0;
	settle();
	while (n < max - 1 && (r = read(fd, b + n, max - 1 - n)) > 0) n += r;
	b[n] = 0;
	return b;
}
static void adm(const char *cmd)
{
	if (admfd < 0) admfd = dial("admin");
	if (write(admfd, cmd, strlen(cmd)) < 0) _exit(9);
	settle();
}
static int hups;
static void on_hup(void *u) { hups++; }
void register_hup_handler(hup_handler_fn fn, void *userdata);
static char *slurp(const char *p) { char *c = NULL; return g_file_get_contents(p, &c, NULL, NULL) ? c : NULL; }
static int fds(const char *what)          /* how often a file is open */
{
	GDir *d = g_dir_open("/proc/self/fd", 0, NULL);
	const char *n;
	int k = 0;
	while (d && (n = g_dir_read_name(d))) {
		char p[100], t[400];
		int r;
		snprintf(p, sizeof(p), "/proc/self/fd/%s", n);
		r = readlink(p, t, sizeof(t) - 1);
		if (r > 0) { t[r] = 0; if (!strncmp(t, what, strlen(what))) k++; }
	}
	if (d) g_dir_close(d);
	return k;
}
static int srv;                            /* 0 no connection, 1 connected, 2 logged in */
extern void __real_g_main_loop_run(GMainLoop *l);
void __wrap_g_main_loop_run(GMainLoop *l)
{
	int i, j, val = 5, moved = 0, netconn = -1;
	char b[8192], *p, *c;
	struct irc_network *n = find_network(my_global->networks, "net");
	say("L");
	if (bare) return;               /* nothing to look at */
	/* started: pid file, sockets, listener, connections */
	p = g_build_filename(conf, "pid", NULL);
	c = slurp(p);
	CHK(c && atol(c) == getpid(), "the pid file says \"%s\"", c ? c : "(nothing)");
	CHK(n != NULL, "the network of the configuration is not there");
	for (i = 0; i < nwconns; i++) if (!strcmp(wconns[i].host, "irc.net.org")) { CHK(netconn < 0, "connected twice"); netconn = i; }
	CHK((netconn >= 0) == autoconnect, "%s at the start", netconn >= 0 ? "connected" : "not connected");
	CHK(nwconns == 1 + autoconnect || netconn >= 0, "no listener was opened");
	if (netconn >= 0) { srv = 1; pump(); }
	register_hup_handler(on_hup, NULL);
	if (inetd == 1) {
		if (write(stdinfd, "NICK me\r\nUSER a a a a\r\n", 23) < 0) _exit(9);
		for (i = 0; i < 2000 && g_main_context_iteration(NULL, FALSE); i++);
		CHK(i < 2000, "with a client on standard input the proxy is busy all the time");
		CHK(strstr(hear(stdinfd, b, sizeof(b)), " 001 me"), "the client on standard input is not welcomed: %s", b);
	}
	for (i = 0; i < nev; i++) {
		switch (ev[i]) {
		case E_HUP: {
			int h = hups;
			raise(SIGHUP); settle(); settle();
			CHK(hups == h + 1, "the handler for SIGHUP was called %d times", hups - h);
			if (logged) { moved = 0; CHK(g_file_test(logname, G_FILE_TEST_EXISTS), "after SIGHUP there is no log file"); CHK(fds(logname) == 1, "after SIGHUP the log file is open %d times", fds(logname)); }
			break; }
		case E_USR1:
			raise(SIGUSR1); settle(); settle();
			say("S%d", val);
			say("A%d", netconn >= 0);
			break;
		case E_SET:
			val += 2; snprintf(b, sizeof(b), "SET max_who_age %d\n", val); adm(b);
			CHK(my_global->config->cache.max_who_age == val, "a setting by the administration socket is not made");
			break;
		case E_SAVE: adm("SAVECONFIG\n"); say("S%d", val); say("A%d", netconn >= 0); break;
		case E_LOGIN:
			if (srv != 1) { say("X"); _exit(0); }
			CHK(n->connection.state == NETWORK_CONNECTION_STATE_LOGIN_SENT, "not logging in (%d)", n->connection.state);
			w_srv(wconns[netconn].m, ":s 001 me :hi"); w_srv(wconns[netconn].m, ":s 376 me :end"); settle(); pump();
			CHK(n->connection.state == NETWORK_CONNECTION_STATE_MOTD_RECVD, "not logged in");
			srv = 2;
			break;
		case E_LOSE:
			if (srv == 0) { say("X"); _exit(0); }
			wconns[netconn].m->eof = wconns[netconn].m->hup = 1; pump();
			srv = 0;
			break;
		case E_ROTATE:
			if (!logged || moved) { say("X"); _exit(0); }
			snprintf(b, sizeof(b), "%s.%d", logname, i); rename(logname, b); moved = 1;
			break;
		case E_CLIENT:
			if (clfd >= 0) { say("X"); _exit(0); }
			clfd = dial("socket");
			if (write(clfd, "PASS pw:net\r\nNICK me\r\nUSER a a a a\r\n", 36) < 0) _exit(9);
			settle();
			for (j = netconn + 1; j < nwconns; j++) if (!strcmp(wconns[j].host, "irc.net.org")) { CHK(srv == 0, "connected twice"); netconn = j; srv = 1; }
			CHK(strstr(hear(clfd, b, sizeof(b)), " 001 me"), "a client by the socket is not welcomed: %s", b);
			break;
		case E_SECOND: CHK(read_pidfile(p) == getpid(), "another instance would not see this one"); break;
		}
		if (logged && !moved) {
			snprintf(b, sizeof(b), "mark %d %d", i, ev[i]);
			log_global(LOG_ERROR, "%s", b);
			c = slurp(logname);
			CHK(c && strstr(c, b), "the log does not get what is logged");
			g_free(c);
		}
	}
	say("V%d", val);
	if (srv > 0) say("Q%d", netconn);
	switch (fin) {
	case X_RETURN: return;
	case X_TERM: raise(SIGTERM); settle(); break;
	case X_INT: raise(SIGINT); settle(); break;
	case X_DIE: adm("DIE\n"); break;
	case X_STDIN: close(stdinfd); settle(); pump(); break;
	}
	say("Fthe proxy keeps running after %s", XN[fin]);
	_exit(7);
}
static void last(void)
{
	int i;
	for (i = 0; i < nwconns; i++) if (wconns[i].m && !wconns[i].m->eof && strstr(wconns[i].m->out->str, "QUIT")) say("U%d", i);
	if (clfd >= 0) {
		char b[4096]; int r, n = 0;
		while ((r = read(clfd, b + n, sizeof(b) - 1 - n)) > 0) n += r;
		if (r < 0) say("Fthe connection of the client is still open after the exit");
	}
	say("E");
}
static int bindfails(int idx) { return listenfail; }
static void child(int in)
{
	int e = open("/dev/null", O_WRONLY);
	char b[300];
	dup2(in, 0);
	if (!inetd) { close(in); }
	snprintf(b, sizeof(b), "%s/stderr", w_dir);
	e = open(b, O_CREAT | O_WRONLY | O_APPEND, 0600);
	dup2(e, 2); dup2(e, 1);
	if (e > 2) close(e);
	setenv("HOME", w_dir, 1);
	my_global = NULL;
	flog = NULL;
	w_bind = bindfails;
	alarm(25);
	atexit(last);
	exit(ctrlproxy_main(argc_, argv_));
}


/* ---- the parent ---- */
struct res { int looped, ended, code, sig, saved, val, quitwant, quitgot, infeasible, ac; };
static void go(struct res *R)
{
	int p[2], sp[2], g[2], st, pid;
	char b[4000], **l;
	GString *s = g_string_new(NULL);
	int r, i;
	memset(R, 0, sizeof(*R)); R->saved = R->val = R->quitwant = R->ac = -1;
	if (pipe(p) || pipe(g) || socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) mc_fail("pipe");
	pid = fork();
	if (pid == 0) {
		char q;
		close(p[0]); close(g[1]); rpipe = p[1]; stdinfd = sp[1];
		if (read(g[0], &q, 1) < 0) _exit(9);      /* the other ends are closed */
		close(g[0]);
		fcntl(stdinfd, F_SETFL, O_NONBLOCK);
		child(sp[0]);
	}
	close(p[1]); close(sp[0]); close(sp[1]); close(g[0]); close(g[1]);
	while ((r = read(p[0], b, sizeof(b))) > 0) g_string_append_len(s, b, r);
	close(p[0]);
	waitpid(pid, &st, 0);
	l = g_strsplit(s->str, "\n", 0);
	for (i = 0; l[i] && l[i][0]; i++) {
		if (l[i][0] != 'E' && l[i][0] != 'L') mc_trace("   %s", l[i]);
		switch (l[i][0]) {
		case 'F': mc_fail("%s", l[i] + 1);
		case 'L': R->looped = 1; break;
		case 'E': R->ended = 1; break;
		case 'X': R->infeasible = 1; break;
		case 'S': R->saved = atoi(l[i] + 1); R->ac = -1; break;
		case 'A': R->ac = atoi(l[i] + 1); break;
		case 'V': R->val = atoi(l[i] + 1); break;
		case 'Q': R->quitwant = atoi(l[i] + 1); break;
		case 'U': R->quitgot = 1; break;
		}
	}
	g_strfreev(l); g_string_free(s, TRUE);
	R->code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
	R->sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
	if (R->code == 33) {      /* the environment objects: its message is in place */
		char f[300], *c;
		snprintf(f, sizeof(f), "%s/stderr", w_dir);
		c = slurp(f);
		if (mc_verbose && c) fputs(c, stdout);
		fflush(stdout);
		_exit(33);
	}
	if (!R->infeasible && (R->sig || R->code == 99)) {
		char f[300], *c;
		snprintf(f, sizeof(f), "%s/stderr", w_dir);
		c = slurp(f);
		if (c && strlen(c) > 3600) c[600] = 0;
		if (R->sig == SIGALRM) mc_fail("the proxy hangs");
		mc_fail("the proxy crashes (%s %d): %s", R->sig ? "signal" : "exit", R->sig ? R->sig : R->code, c ? c : "");
	}
}
static void arg(const char *a) { argv_[argc_++] = g_strdup(a); argv_[argc_] = NULL; }
static void writeconf(void)
{
	char f[400], t[1000];
	snprintf(conf, sizeof(conf), "%s/conf", w_dir);
	mkdir(conf, 0700);
	snprintf(f, sizeof(f), "%s/config", conf);
	snprintf(t, sizeof(t), "[global]\nautosave = %s\nport = 6667\npassword = pw\nmax-who-age = 5\nautoconnect = %s\n\n[net]\nservers = irc://irc.net.org:6667\nnick = me\n",
	         autosave ? "true" : "false", autoconnect ? "net" : "");
	g_file_set_contents(f, t, -1, NULL);
}
static int saved_age(int *ac)
{
	char f[400];
	GKeyFile *k = g_key_file_new();
	int v;
	char **al;
	gsize n = 0, i;
	GError *e = NULL;
	snprintf(f, sizeof(f), "%s/config", conf);
	if (!g_key_file_load_from_file(k, f, 0, &e)) mc_fail("the configuration is not readable afterwards: %s", e->message);
	v = g_key_file_get_integer(k, "global", "max-who-age", NULL);
	*ac = 0;
	al = g_key_file_get_string_list(k, "global", "autoconnect", &n, NULL);
	for (i = 0; i < n; i++) if (!strcmp(al[i], "net")) *ac = 1;
	MC_ASSERT(g_key_file_has_group(k, "net"), "the network is missing from the configuration afterwards");
	g_strfreev(al);
	g_key_file_free(k);
	return v;
}
static int exists(const char *n) { char f[400]; struct stat st; snprintf(f, sizeof(f), "%s/%s", conf, n); return lstat(f, &st) == 0; }
static void reset(void)
{
	while (argc_) g_free(argv_[--argc_]);
	arg("ctrlproxy");
	autosave = autoconnect = 1; logged = inetd = listenfail = bare = nev = fin = 0;
}
static void running(void)
{
	struct res R;
	int i, depth = mc_tier ? 4 : 3, want, ac;
	reset();
	autosave = mc_choose_l(2, "autosave");
	autoconnect = mc_choose_l(2, "autoconnect");
	logged = mc_choose_l(3, "log");            /* none, a file, a file elsewhere */
	inetd = mc_choose_l(3, "inetd");              /* no, a client, one that does not register */
	fin = mc_choose_l(NX, "end");
	if (fin == X_STDIN && !inetd) return;
	for (nev = 0; nev < depth; nev++) {
		int k = mc_choose_l(NE + 1, "event");
		if (k == NE) break;
		ev[nev] = k;
	}
	if (!mc_tier && nev == 3 && (inetd || logged == 1 || fin > X_TERM || ev[0] >= E_CLIENT || ev[1] >= E_CLIENT)) return;
	writeconf();
	snprintf(logname, sizeof(logname), "%s/%s", logged == 2 ? w_dir : conf, logged == 2 ? "elsewhere" : "log");
	arg("-c"); arg(conf);
	if (logged) { arg("-l"); arg(logname); }
	if (inetd) { arg("-i"); arg("net"); }
	mc_trace("autosave %d, autoconnect %d, log %s, %s", autosave, autoconnect, logged ? logname : "none", inetd == 1 ? "a client on standard input" : inetd ? "a client on standard input that does not register" : "no inetd");
	for (i = 0; i < nev; i++) mc_trace("%s", EN[ev[i]]);
	mc_trace("%s", XN[fin]);
	mc_steps(nev + 1);
	go(&R);
	if (R.infeasible) return;
	MC_ASSERT(R.looped, "the proxy does not start (exit code %d)", R.code);
	MC_ASSERT(R.ended, "the proxy does not end as it should (exit code %d)", R.code);
	MC_ASSERT(R.code == 0, "exit code %d", R.code);
	want = autosave ? R.val : R.saved >= 0 ? R.saved : 5;
	i = saved_age(&ac);
	MC_ASSERT(i == want, "the configuration has %d as max-who-age afterwards, but %d is what was %s", i, want, autosave ? "set at the end" : R.saved >= 0 ? "set when it was saved" : "there from the start");
	MC_ASSERT(!exists("socket") && !exists("admin"), "a socket is left in the configuration directory");
	MC_ASSERT((R.quitwant >= 0) == R.quitgot, R.quitgot ? "QUIT is sent without a connection" : "the server is not told that the proxy quits");
	if (R.saved >= 0 && !autosave) { want = R.ac >= 0 ? R.ac : autoconnect; MC_ASSERT(ac == want, "autoconnect is %d after saving", ac); }
	if (logged) { char *c = slurp(logname); int rot = 0; for (i = 0; i < nev; i++) { if (ev[i] == E_ROTATE) rot = 1; if (ev[i] == E_HUP) rot = 0; } if (!rot) MC_ASSERT(c && strstr(c, "Closing log file"), "the log misses the end"); g_free(c); }
	if (logged == 2) MC_ASSERT(!exists("log"), "another file is logged to than the one asked for");
	if (logged == 0) MC_ASSERT(!exists("log"), "a log is written although none was asked for");
	mc_cover("run");
	{ uint64_t d = mc_hash(&R, sizeof(R), MC_H0); mc_outcome(d); }
}
/* ---- starting ---- */
static void starting(void)
{
	struct res R;
	char f[400], t[100], *before, *after;
	int c, p, a, bad, run, code = -2, live, broken;
	static const char *const ARG[] = { NULL, "--check-running", "-v", "--bogus", "-i", "--restricted", "-d" };
	reset();
	c = mc_choose_l(8, "configuration");  /* fine, none, syntax, directory, no directory, empty, without [global], a comment */
	p = mc_choose_l(6, "pid file");       /* none, garbage, gone, live, empty, no newline */
	a = mc_choose_l(7, "argument");
	listenfail = mc_choose_l(2, "listener");
	logged = mc_choose_l(3, "log");       /* none, file, not possible */
	fin = X_RETURN; nev = 0;
	writeconf();
	snprintf(f, sizeof(f), "%s/config", conf);
	switch (c) {
	case 1: unlink(f); break;
	case 2: g_file_set_contents(f, "[global\nautosave\n", -1, NULL); break;
	case 3: unlink(f); mkdir(f, 0700); break;
	case 4: unlink(f); rmdir(conf); break;
	case 5: g_file_set_contents(f, "", -1, NULL); break;
	case 6: g_file_set_contents(f, "[net]\nservers = irc://irc.net.org\n", -1, NULL); break;
	case 7: g_file_set_contents(f, "# nothing yet\n", -1, NULL); break;
	}
	if (p && c != 4) {
		snprintf(f, sizeof(f), "%s/pid", conf);
		if (p == 2) {  /* a process that is gone */
			int k = fork(), st;
			if (k == 0) _exit(0);
			waitpid(k, &st, 0);
			snprintf(t, sizeof(t), "%d", k);
		}
		if (p == 1) strcpy(t, "nonsense\n");
		if (p == 3) snprintf(t, sizeof(t), "%d\n", getpid());
		if (p == 4) strcpy(t, "");
		if (p == 5) snprintf(t, sizeof(t), "%d", getppid());
		g_file_set_contents(f, t, -1, NULL);
	}
	arg("-c"); arg(conf);
	snprintf(logname, sizeof(logname), logged == 1 ? "%s/l" : "%s/no/l", w_dir);
	if (logged) { arg("-l"); arg(logname); }
	if (ARG[a]) arg(ARG[a]);
	if (a == 4) arg("nosuch");
	if (a == 6) arg("5");
	mc_trace("configuration %s, pid file %s, argument %s, listener %s, log %d",
	         ((const char *[]){ "fine", "missing", "with a syntax error", "that is a directory", "directory missing", "empty", "without [global]", "a comment only" })[c],
	         ((const char *[]){ "none", "garbage", "of a process that is gone", "of a live process", "empty", "of a live process" })[p], ARG[a] ? ARG[a] : "none", listenfail ? "fails" : "works", logged);
	mc_step();
	live = c != 4 && (p == 3 || p == 5);
	broken = c >= 1 && c <= 4;
	bad = broken || live;
	run = 0;
	if (a == 2) code = 0;
	else if (a == 3) code = 1;
	else if (broken) code = 1;
	else if (a == 1) code = live ? 0 : 255;
	else if (live) code = 1;
	else if (listenfail && c < 5) code = 1;
	else if (a == 4) code = 1;
	else run = 1;
	before = exists("pid") ? (snprintf(f, sizeof(f), "%s/pid", conf), slurp(f)) : NULL;
	bare = c >= 5;
	go(&R);
	MC_ASSERT(R.looped == run, run ? "the proxy does not start" : "the proxy starts");
	if (run) code = 0;
	MC_ASSERT(R.code == code, "exit code %d rather than %d", R.code, code);
	MC_ASSERT(R.ended, "it does not end as it should");
	if (bad || (a >= 1 && a <= 3)) {
		after = exists("pid") ? (snprintf(f, sizeof(f), "%s/pid", conf), slurp(f)) : NULL;
		MC_ASSERT(!g_strcmp0(before, after), "the pid file was changed from %s to %s", before, after);
		MC_ASSERT(!exists("socket") && !exists("admin"), "sockets were made without starting");
	}
	mc_cover(run ? "started" : "not started");
	{ uint64_t d = mc_hash(&R, sizeof(R), MC_H0); mc_outcome(d); }
}
static void run(void)
{
	int part = mc_choose_l(2, "part");
	w_begin();
	signal(SIGPIPE, SIG_IGN);
	if (part == 0) running(); else starting();
	w_end();
}
static void init(void) { w_init(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P37", .init = init, .run = run, .batch = 50, .hang_secs = 60,
		.rule = "every start: 8 configurations x 6 pid files x 7 arguments x listener x log; every sequence of up to 3 (thorough 4) of 9 events while running x autosave x autoconnect x log x client on standard input x 5 ways to end, each in a process of its own" };
	return mc_main(argc, argv, &chk);
}
