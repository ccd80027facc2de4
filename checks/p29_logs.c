/* P29: what is written to log files, and where. */
#define _GNU_SOURCE
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "vtime.h"
#include "hooks.h"
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>

static struct { hup_handler_fn fn; void *data; } hup;
void register_hup_handler(hup_handler_fn fn, void *userdata) { hup.fn = fn; hup.data = userdata; }

static char base[256], cwd0[256];
/* ---- files: real ones below base, with faults; anything else is an error ---- */
enum { OK, MKDIR, OPEN, WRITE, SHORT, CLOSE };
static int fault, nopen, maxopen;
static int inside(const char *path)
{
	char *abs = path[0] == '/' ? g_strdup(path) : g_strdup_printf("%s/%s", base, path);
	char **p = g_strsplit(abs, "/", 0); GString *s = g_string_new("");
	int i, r;
	for (i = 0; p[i]; i++) {
		if (!*p[i] || !strcmp(p[i], ".")) continue;
		if (!strcmp(p[i], "..")) { char *e = strrchr(s->str, '/'); if (e) g_string_truncate(s, e - s->str); continue; }
		g_string_append_printf(s, "/%s", p[i]);
	}
	r = !strcmp(s->str, base) || (g_str_has_prefix(s->str, base) && s->str[strlen(base)] == '/');
	g_strfreev(p); g_free(abs); g_string_free(s, TRUE);
	return r;
}
struct ck { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) { return read(((struct ck *)c)->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n)
{
	if (fault == WRITE) { errno = ENOSPC; return 0; }
	if (fault == SHORT) { if (n / 2 == 0 || write(((struct ck *)c)->fd, b, n / 2) < 0) { } fault = WRITE; return n / 2; }
	return write(((struct ck *)c)->fd, b, n);
}
static int ck_seek(void *c, off64_t *o, int w) { *o = lseek(((struct ck *)c)->fd, *o, w); return *o < 0 ? -1 : 0; }
static int ck_close(void *c) { int r = close(((struct ck *)c)->fd); g_free(c); nopen--; if (fault == CLOSE) { errno = EIO; return -1; } return r; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *path, const char *mode)
{
	struct ck *c; int fd;
	if (!base[0] || !g_str_has_prefix(mode, "a")) return __real_fopen(path, mode);
	if (!inside(path)) mc_fail("the file %s is opened", path);
	if (fault == OPEN) { errno = EMFILE; return NULL; }
	fd = open(path, O_RDWR | O_CREAT | O_APPEND, 0600);
	if (fd < 0) return NULL;
	c = g_malloc0(sizeof *c); c->fd = fd;
	if (++nopen > maxopen) maxopen = nopen;
	return fopencookie(c, mode, (cookie_io_functions_t) { ck_read, ck_write, ck_seek, ck_close });
}
FILE *__wrap_fopen64(const char *path, const char *mode) { return __wrap_fopen(path, mode); }
int __real_g_mkdir_with_parents(const char *, int);
int __wrap_g_mkdir_with_parents(const char *path, int mode)
{
	if (base[0] && !inside(path)) {
		/* the scratch directory of the backlog */
		if (!g_str_has_prefix(path, w_dir) || strstr(path, "..")) mc_fail("the directory %s is made", path);
	} else if (base[0] && fault == MKDIR) { errno = EACCES; return -1; }
	return __real_g_mkdir_with_parents(path, mode);
}
static void wipe(const char *d)
{
	DIR *h = opendir(d); struct dirent *e;
	while (h && (e = readdir(h))) {
		char p[900]; struct stat st;
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(p, sizeof p, "%s/%s", d, e->d_name);
		if (!lstat(p, &st) && S_ISDIR(st.st_mode)) { wipe(p); rmdir(p); } else unlink(p);
	}
	if (h) closedir(h);
}
static void snap_dir(GHashTable *t, const char *d, const char *rel)
{
	DIR *h = opendir(d); struct dirent *e;
	while (h && (e = readdir(h))) {
		char p[900], r[900]; struct stat st; char *s;
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		snprintf(p, sizeof p, "%s/%s", d, e->d_name);
		snprintf(r, sizeof r, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
		if (lstat(p, &st)) continue;
		if (S_ISDIR(st.st_mode)) { snap_dir(t, p, r); continue; }
		if (!g_file_get_contents(p, &s, NULL, NULL)) continue;
		g_hash_table_replace(t, g_strdup(r), s);
	}
	if (h) closedir(h);
}
static GHashTable *snap(void) { GHashTable *t = g_hash_table_new_full(g_str_hash, g_str_equal, g_free, g_free); snap_dir(t, base, ""); return t; }

/* ---- the world and what is known about its people ---- */
static struct irc_network *N; static struct mem *S; static struct wcl *C;
static struct log_file_config cfg, *K;
static const char *pat; static int irssi;
struct who { const char *nick, *user; int in[2], query; };
static struct who P[3];                 /* al, be, me */
static const char *chan[2] = { "#c", "#d" };
static int find(const char *nick) { int i; for (i = 0; i < 3; i++) if (P[i].nick && !strcmp(P[i].nick, nick)) return i; return -1; }
enum { JOIN, PART, MSG, NOTE, ACT, KICK, QUIT, NICK, TOPIC, NOTOPIC, MODE, NONE };
static const char *fmt_of(int kind)
{
	const char *f[] = { K->join, K->part, K->msg, K->notice, K->action, K->kick, K->quit, K->nickchange, K->topic, K->notopic, K->mode, NULL };
	return f[kind];
}
/* the value a letter stands for in an event; NULL: not defined */
static const char *value(int kind, const struct irc_line *l, const char *nick, const char *user, const char *ident, const char *mtext, char c, char *tmp)
{
	time_t t = time(NULL); struct tm *tm = localtime(&t);
	int a = 0;
	switch (c) {
	case '@': return ident;
	case 'h': strftime(tmp, 40, "%H", tm); return tmp;
	case 'M': strftime(tmp, 40, "%M", tm); return tmp;
	case 's': strftime(tmp, 40, "%S", tm); return tmp;
	case 'd': strftime(tmp, 40, "%d", tm); return tmp;
	case 'B': strftime(tmp, 40, "%m", tm); return tmp;
	case 'Y': strftime(tmp, 40, "%Y", tm); return tmp;
	case 'b': strftime(tmp, 40, "%b", tm); return tmp;
	case 'e': snprintf(tmp, 40, "%ld", (long)t); return tmp;
	case 'n': return nick;
	case 'u': return user;
	case 'N': return "net";
	case 'S': return "irc.net.org";
	case '%': return "%";
	}
	if (c >= '0' && c <= '9') { a = c - '0'; return a < l->argc ? (a == 2 && mtext ? mtext : l->args[a]) : ""; }
	switch (kind) {
	case JOIN: a = c == 'c' ? 1 : 0; break;
	case PART: a = c == 'c' ? 1 : c == 'm' ? 2 : 0; break;
	case MSG: case NOTE: if (c == 'm') return mtext; a = c == 't' ? 1 : 0; break;
	case ACT: if (c == 'm') return mtext; a = c == 't' ? 1 : 0; break;
	case KICK: a = c == 'c' ? 1 : c == 't' ? 2 : c == 'r' ? 3 : 0; break;
	case QUIT: a = c == 'm' ? 1 : 0; break;
	case NICK: a = c == 'r' ? 1 : 0; break;
	case TOPIC: case NOTOPIC: a = c == 'c' ? 1 : c == 't' ? 2 : 0; break;
	case MODE: if (c == 'c') { int i; GString *s = g_string_new(""); for (i = 3; i < l->argc; i++) g_string_append_printf(s, "%s%s", i > 3 ? " " : "", l->args[i]); return g_string_free(s, FALSE); } a = c == 't' ? 1 : c == 'p' ? 2 : 0; break;
	}
	if (!a) return NULL;
	return a < l->argc ? l->args[a] : "";
}
/* *odd: the file name is not one the rules give */
static char *expand(const char *f, int kind, const struct irc_line *l, const char *nick, const char *user, const char *ident, const char *mtext, int file, int *odd)
{
	GString *s = g_string_new(""); char tmp[40];
	for (; *f; f++) {
		const char *v;
		if (*f != '%') { g_string_append_c(s, *f); continue; }
		if (!f[1]) break;
		v = value(kind, l, nick, user, ident, mtext, *++f, tmp);
		if (file) {
			char *d;
			if (!v || !*v || *v == 2 || *v == '.' || strchr(v, '/') || strlen(v) > 200) { *odd = 1; continue; }
			d = g_ascii_strdown(v, -1); g_string_append(s, d); g_free(d);
		} else if (v) g_string_append(s, v);
	}
	return g_string_free(s, FALSE);
}
/* ---- events ---- */
static struct ev { int own; const char *line; int kind; const char *more; } EV[] = {
	{ 0, ":al!au@ah JOIN #c", JOIN }, { 0, ":al!au@ah JOIN :#D", JOIN }, { 0, ":be!bu@bh JOIN #c", JOIN }, { 0, ":me!mu@mh JOIN #d", JOIN },
	{ 0, ":al!au@ah PART #c :bye / all", PART }, { 0, ":al!au@ah PART #d", PART }, { 0, ":me!mu@mh PART #d :x", PART },
	{ 0, ":al!au@ah PRIVMSG #c :hi %n %", MSG }, { 0, ":al!au@ah PRIVMSG me :psst", MSG }, { 0, ":be!bu@bh PRIVMSG #C word", MSG }, { 0, ":al!au@ah PRIVMSG ME :", MSG },
	{ 0, ":al!au@ah PRIVMSG #c :\001ACTION waves %m\001", ACT }, { 0, ":al!au@ah PRIVMSG me :\001ACTION nods", ACT }, { 0, ":al!au@ah PRIVMSG #c :\001ACTION \001", ACT },
	{ 0, ":al!au@ah PRIVMSG me :\001VERSION\001", NONE }, { 0, ":al!au@ah PRIVMSG #c :\001\001", NONE }, { 0, ":al!au@ah PRIVMSG #c :\001", NONE }, { 0, ":al!au@ah PRIVMSG #c", NONE },
	{ 0, ":al!au@ah NOTICE #c :note", NOTE }, { 0, ":srv.net NOTICE me :from the server", NOTE }, { 0, "NOTICE AUTH :*** looking", NOTE },
	{ 0, ":al!au@ah MODE #c +o-v al be", MODE }, { 0, ":srv.net MODE #c +s", MODE }, { 0, ":me!mu@mh MODE me +i", NONE },
	{ 0, ":al!au@ah MODE #c +bbbbbbbb LONG LONG LONG LONG LONG LONG LONG LONG", MODE },
	{ 0, ":al!au@ah QUIT :gone home", QUIT }, { 0, ":be!bu@bh QUIT", QUIT }, { 0, ":al!au@ah NICK :al2", NICK }, { 0, ":al2!au@ah NICK al", NICK }, { 0, ":me!mu@mh NICK :me2", NICK },
	{ 0, ":al!au@ah KICK #c be :out [now]", KICK }, { 0, ":be!bu@bh KICK #c al", KICK }, { 0, ":be!bu@bh KICK #c,#d al,al :both", KICK }, { 0, ":srv.net KICK #d me :you", KICK },
	{ 0, ":al!au@ah TOPIC #c :new topic", TOPIC }, { 0, ":al!au@ah TOPIC #c :", NOTOPIC },
	{ 0, ":srv.net 372 me :text", NONE }, { 0, ":srv.net 332 me #c :topic", NONE }, { 0, "PING :x", NONE }, { 0, ":al!au@ah WALLOPS :x", NONE }, { 0, ":al!au@ah INVITE me #e", NONE },
	{ 1, "PRIVMSG #c :own words", MSG }, { 1, "privmsg al :lower", MSG }, { 1, "PRIVMSG al,#c :two", MSG }, { 1, "NOTICE #c :own note", NOTE }, { 1, "PRIVMSG #c :\001ACTION hops\001", ACT }, { 1, "PRIVMSG al :\001PING 1\001", NONE },
	{ 1, "JOIN #e", NONE }, { 1, "TOPIC #c :mine", NONE }, { 1, "KICK #c al :go", NONE }, { 1, "MODE #c +m", NONE }, { 1, "PART #d", NONE },
	/* strangers with ideas */
	{ 0, ":..!u@h PRIVMSG me :x", MSG }, { 0, ":al!au@ah PRIVMSG ../../up :x", MSG }, { 0, ":.!u@h NOTICE me :x", NOTE }, { 0, ":al!au@ah PRIVMSG /etc/x :x", MSG }, { 0, ":al!au@ah PRIVMSG . :x", MSG }, { 0, ":al!au@ah PRIVMSG ..,../x,# :x", MSG },
	{ 0, ":a/../../b!u@h PRIVMSG me :x", MSG }, { 0, ":!u@h PRIVMSG me :x", MSG }, { 0, ":al!au@ah NOTICE  :x", NOTE }, { 0, ":al!../../../u@h PRIVMSG #c :x", MSG }, { 0, ":LONGNICK!u@h PRIVMSG me :x", MSG },
	{ 0, ":.!u@h PRIVMSG . :x", MSG }, { 0, ":../x!u@h JOIN ../y", JOIN }, { 0, ":al!au@ah PART /", PART }, { 0, ":al!au@ah PART", NONE }, { 0, "JOIN", NONE }, { 0, ":x NICK", NONE }, { 0, ":al!au@ah TOPIC", NONE }, { 0, ":al!au@ah MODE", NONE }, { 0, ":al!au@ah KICK #c", NONE },
	{ 0, "PRIVMSG me :nobody", MSG }, { 0, "QUIT :nobody", NONE }, { 0, ":zz!z@z QUIT :unknown", NONE }, { 0, ":zz!z@z NICK zy", NONE },
};
#define NEV ((int)G_N_ELEMENTS(EV))
static int own_unknown;   /* the user and host of own messages are not compared */
struct exp { char *path, *text; int odd; };
static struct exp X[8]; static int nx;
static void want(const struct ev *e, const struct irc_line *l, const char *nick, const char *user, const char *ident, const char *mtext)
{
	const char *f = fmt_of(e->kind);
	struct exp *x = &X[nx];
	char *t;
	if (!f || !pat) return;
	nx++;
	x->odd = 0;
	t = expand(f, e->kind, l, nick, user, ident, mtext, 0, NULL);
	x->text = g_strdup_printf("%s\n", t); g_free(t);
	x->path = expand(pat, e->kind, l, nick, user, ident, mtext, 1, &x->odd);
	if (g_str_has_prefix(x->path, base)) { t = g_strdup(x->path + strlen(base) + 1); g_free(x->path); x->path = t; }
}
static int same_text(const char *got, const char *w)
{
	/* \2 in what is wanted stands for any user */
	for (; *w; w++) {
		if (*w == 2) { while (*got && *got != '|' && *got != '\n') got++; continue; }
		if (*got != *w) return 0;
		got++;
	}
	return !*got;
}
static int prefix_of(const char *got, const char *w)
{
	for (; *w && *got; w++) {
		if (*w == 2) { while (*got && *got != '|' && *got != '\n') got++; continue; }
		if (*got != *w) return 0;
		got++;
	}
	return !*got;
}
static void compare(GHashTable *b, GHashTable *a, const char *line, int faulty)
{
	GHashTableIter it; gpointer k, v; int i;
	g_hash_table_iter_init(&it, a);
	while (g_hash_table_iter_next(&it, &k, &v)) {
		const char *old = g_hash_table_lookup(b, k), *p;
		if (!old) old = "";
		if (!g_str_has_prefix(v, old)) mc_fail("what was in %s is changed by %s", mc_esc(k), mc_esc(line));
		p = (char *)v + strlen(old);
		while (*p) {
			const char *e = strchr(p, '\n');
			char *one = e ? g_strndup(p, e - p + 1) : g_strdup(p);
			for (i = 0; i < nx; i++) if (X[i].text && !X[i].odd && !strcmp(X[i].path, k) && same_text(one, X[i].text)) break;
			if (i == nx) for (i = 0; i < nx; i++) if (X[i].text && X[i].odd && same_text(one, X[i].text)) break;
			if (i == nx) {
				int part = 0;
				if (faulty) for (i = 0; i < nx; i++) if (X[i].text && !strcmp(X[i].path, k) && prefix_of(one, X[i].text)) { part = 1; g_free(X[i].text); X[i].text = NULL; break; }
				if (!part) mc_fail("%s is written to %s after %s", mc_esc(one), mc_esc(k), mc_esc(line));
			} else { mc_outcome(mc_hash_str(one, mc_hash_str(k, MC_H0))); g_free(X[i].text); X[i].text = NULL; }
			p += strlen(one); g_free(one);
		}
	}
	for (i = 0; i < nx; i++) {
		if (X[i].text && !X[i].odd && !faulty) mc_fail("%s is not written to %s after %s", mc_esc(X[i].text), mc_esc(X[i].path), mc_esc(line));
		if (!X[i].text && !X[i].odd) mc_cover(faulty ? "written in spite of a fault" : "written");
		if (X[i].odd) mc_cover("odd names");
		g_free(X[i].text); g_free(X[i].path);
	}
	nx = 0;
	g_hash_table_iter_init(&it, b);
	while (g_hash_table_iter_next(&it, &k, &v)) if (!g_hash_table_lookup(a, k)) mc_fail("%s is gone after %s", mc_esc(k), mc_esc(line));
}
static char *prepare(const char *t)
{
	static char big[400]; char *r, **p;
	memset(big, 'x', 300); big[300] = 0;
	if (strstr(t, "LONGNICK")) { p = g_strsplit(t, "LONGNICK", 0); r = g_strjoinv(big, p); }
	else { memset(big, 'L', 120); big[120] = 0; p = g_strsplit(t, "LONG", 0); r = g_strjoinv(big, p); }
	g_strfreev(p);
	return r;
}
static int event(const struct ev *e, int withfault)
{
	char *line = prepare(e->line), *nick, *mtext = NULL, user[200] = "", *t;
	struct irc_line *l = irc_parse_line(line);
	GHashTable *b, *a;
	int w, i;
	const char *me = P[2].nick;
	nx = 0;
	nick = l->origin ? line_get_nick(l) : g_strdup("");
	if (e->own) { g_free(nick); nick = g_strdup(me); strcpy(user, "\2"); if (!P[2].in[0] && strstr(line, "#c")) goto skip; }
	else if (l->origin && strchr(l->origin, '!')) snprintf(user, sizeof user, "%s", strchr(l->origin, '!') + 1);
	w = find(nick);
	/* those who are there act as who they are */
	if (!e->own && (w < 0 || !P[w].nick) && (g_str_has_prefix(line, ":al!au@ah ") || g_str_has_prefix(line, ":al2!") || g_str_has_prefix(line, ":be!") || g_str_has_prefix(line, ":me!"))) goto skip;
	if (strcmp(me, "me") && strstr(line, " me ")) goto skip;
	if (e->kind == JOIN && w >= 0 && !P[2].in[!strcasecmp(l->args[1], "#d")] && w != 2) goto skip;
	if (e->kind == JOIN && w >= 0 && P[w].in[!strcasecmp(l->args[1], "#d")]) goto skip;
	if (e->kind == PART && w >= 0 && (l->args[1][0] != '#' ? 0 : !P[w].in[!strcmp(l->args[1], "#d")])) goto skip;
	if (e->kind == KICK) { int v = find(l->args[2]); if (strchr(l->args[1], ',')) { if (!P[0].in[0] || !P[0].in[1]) goto skip; } else if (v < 0 || !P[v].in[!strcmp(l->args[1], "#d")]) goto skip; }
	if ((e->kind == QUIT || e->kind == NICK) && w != 2 && !P[w].in[0] && !P[w].in[1]) goto skip;
	if (e->kind == NICK && find(l->args[1]) >= 0) goto skip;
	if (e->kind == MSG || e->kind == NOTE) mtext = l->argc > 2 ? l->args[2] : "";
	if (e->kind == ACT) { mtext = g_strdup(l->args[2] + 8); t = strchr(mtext, 1); if (t) *t = 0; }
	switch (e->kind) {
	case MSG: case NOTE: case ACT: case JOIN: case MODE:
		if (!irccmp(NULL, l->args[1], me)) want(e, l, nick, user, l->origin || e->own ? nick : "_messages_", mtext);
		else { char **p = g_strsplit(l->args[1], ",", 0); for (i = 0; p[i]; i++) want(e, l, nick, user, p[i], mtext); if (!i) want(e, l, nick, user, "", mtext); g_strfreev(p); }
		break;
	case PART: case TOPIC: case NOTOPIC: case KICK: { char **p = g_strsplit(l->args[1], ",", 0); for (i = 0; p[i]; i++) want(e, l, nick, user, p[i], NULL); g_strfreev(p); break; }
	case QUIT: case NICK:
		if (w != 2 && P[w].query) want(e, l, nick, user, nick, NULL);
		if (w == 2) { i = nx; want(e, l, nick, user, nick, NULL); if (nx > i) X[i].odd = 1; }    /* whether there is a window of one's own */
		for (i = 0; i < 2; i++) if (P[w].in[i]) want(e, l, nick, user, chan[i], NULL);
		break;
	}
	b = snap();
	w_cl_drain(C); w_cl_skip(C); w_srv_drain(S);
	fault = withfault;
	if (e->own) {
		char *s; struct irc_line *x;
		w_cl(C, "%s", line);
		s = w_srv_line(S);
		if (!s) mc_fail("%s is not sent to the server", mc_esc(line));
		x = irc_parse_line(s);
		if (x->argc != l->argc || strcasecmp(x->args[0], l->args[0]) || strcmp(x->args[l->argc - 1], l->args[l->argc - 1])) mc_fail("%s is sent to the server instead of %s", mc_esc(s), mc_esc(line));
		free_line(x); g_free(s);
	} else {
		w_srv(S, "%s", line);
		if (l->argc > 2 && strlen(line) < 400 && (!strcmp(l->args[0], "PRIVMSG") || !strcmp(l->args[0], "NOTICE") || !strcmp(l->args[0], "TOPIC"))) {
			const char *s; int found = 0;
			w_cl_drain(C);
			while ((s = w_cl_next(C))) { struct irc_line *x = irc_parse_line(s); if (x->argc == l->argc && !strcmp(x->args[0], l->args[0]) && !strcmp(x->args[l->argc - 1], l->args[l->argc - 1])) found++; free_line(x); }
			if (found != 1) mc_fail("%s reaches the client %d times", mc_esc(line), found);
		}
	}
	pump();
	fault = OK;
	a = snap();
	compare(b, a, line, withfault);
	g_hash_table_destroy(a); g_hash_table_destroy(b);
	/* what happened to the people */
	if (!e->own) switch (e->kind) {
	case JOIN: if (w >= 0) { i = !strcasecmp(l->args[1], "#d"); P[w].in[i] = 1; } break;
	case PART: if (w >= 0 && l->args[1][0] == '#') { i = !strcmp(l->args[1], "#d"); P[w].in[i] = 0; if (w == 2) P[0].in[i] = P[1].in[i] = 0; } break;
	case KICK: { char **p = g_strsplit(l->args[1], ",", 0), **q = g_strsplit(l->args[2], ",", 0); int j; for (j = 0; p[j] && q[j]; j++) { int v = find(q[j]); i = !strcmp(p[j], "#d"); if (v >= 0) P[v].in[i] = 0; if (v == 2) P[0].in[i] = P[1].in[i] = 0; } g_strfreev(p); g_strfreev(q); break; }
	case QUIT: P[w].in[0] = P[w].in[1] = P[w].query = 0; break;
	case NICK: { static char names[3][20]; strcpy(names[w], l->args[1]); P[w].nick = names[w]; break; }
	case MSG: case NOTE: case ACT: break;
	}
	/* somebody the user talks to privately has a window: as the state has it */
	for (i = 0; i < 2; i++) { struct network_nick *nn = find_network_nick(N->external_state, P[i].nick); P[i].query = nn && nn->query; }
	if (e->kind == ACT) g_free(mtext);
	g_free(nick); free_line(l); g_free(line);
	return 1;
skip:
	g_free(nick); free_line(l); g_free(line);
	return 0;
}
static void rotate(int del)
{
	mc_trace(del ? "the logs are moved away and HUP is received" : "HUP is received");
	if (del) wipe(base);
	hup.fn(hup.data);
	if (nopen) mc_fail("%d log files are open after HUP", nopen);
}
static const char *PAT[] = { "%s/%%N/%%@", "%s/all.log", "%s/%%@/%%N-%%Y%%B%%d", "%%@", "%%c/x", "%s/%%n.%%t", "%s/%%%%%%n/%%u.%%1", "%%n%%@/.%%@/%%@%%@/y", NULL };
static void setup(int c)
{
	static char pats[256];
	memset(&cfg, 0, sizeof cfg);
	K = &cfg; irssi = 0;
	snprintf(base, sizeof base, "%s/logs", w_dir);
	mkdir(base, 0700);
	if (chdir(base)) mc_fail("chdir");
	pat = NULL;
	cfg.join = "J %n|%u| %c %@ %N %S %% %h:%M:%s %d.%B.%Y %e %b"; cfg.part = "P %n|%u| %c [%m] %@"; cfg.msg = "M %n|%u| %t [%m] %@";
	cfg.notice = "N %n %t [%m]"; cfg.action = "A %n %t [%m]"; cfg.kick = "K %n %t [%r] %c"; cfg.quit = "Q %n [%m] %@"; cfg.nickchange = "C %n %r %@";
	cfg.topic = "T %n %c [%t]"; cfg.notopic = "U %n %c"; cfg.mode = "O %n %t %p [%c]";
	if (c < 9) { if (PAT[c]) { snprintf(pats, sizeof pats, PAT[c], base); pat = pats; } }
	else { snprintf(pats, sizeof pats, PAT[0], base); pat = pats; }
	if (c == 9) { cfg.msg = "%0 %1 %2 %3 %9|%z %"; cfg.notice = "%"; cfg.join = "%%n%%%n"; cfg.mode = "%1%2%3%4%9"; cfg.topic = cfg.kick = cfg.quit = ""; cfg.action = "%m%m%m"; }
	if (c == 10) { cfg.join = cfg.part = cfg.notice = cfg.action = cfg.kick = cfg.nickchange = cfg.topic = cfg.notopic = cfg.mode = NULL; }
	if (c == 11) { cfg.msg = cfg.quit = NULL; }
	cfg.logfilename = pat;
	if (c == 12) {
		/* the style of irssi, from the configuration */
		char *f = g_strdup_printf("%s/cf", w_dir), *t, *k; struct ctrlproxy_config *x;
		g_mkdir_with_parents(f, 0700);
		k = g_strdup_printf("%s/config", f);
		t = g_strdup_printf("[global]\nlogging=irssi\nlogdir=%s\n", base);
		if (!g_file_set_contents(k, t, -1, NULL)) mc_fail("cannot write %s", k);
		x = load_configuration(f, FALSE);
		if (!x || !x->log_file) mc_fail("the configuration is not read");
		g_free(f); g_free(t); g_free(k);
		irssi = 1;
		cfg.join = "%h:%M -!- %n [%u] has joined %c"; cfg.part = "%h:%M -!- %n [%u] has left %c [%m]"; cfg.msg = cfg.notice = "%h:%M < %n> %m"; cfg.action = "%h:%M  * %n %m";
		cfg.mode = "%h:%M -!- mode/%t [%p %c] by %n"; cfg.quit = "%h:%M -!- %n [%u] has quit [%m]"; cfg.kick = "%h:%M -!- %t has been kicked by %n [%r]"; cfg.topic = "%h:%M -!- %n has changed the topic to %t";
		cfg.notopic = "%h:%M -!- %n has removed the topic"; cfg.nickchange = "%h:%M -!- %n is now known as %r";
		mc_isolate();
	} else log_custom_load(&cfg);
	N = w_network("net", "me");
	connect_network(N); pump(); S = w_conn(N)->m;
	w_login(S, "me", "PREFIX=(ov)@+ CHANTYPES=#");
	w_srv(S, ":me!mu@mh JOIN #c"); w_srv(S, ":me!mu@mh JOIN #d");
	w_srv(S, ":al!au@ah JOIN #c"); w_srv(S, ":al!au@ah JOIN #d"); w_srv(S, ":be!bu@bh JOIN #c");
	P[0] = (struct who) { "al", "au@ah", { 1, 1 } }; P[1] = (struct who) { "be", "bu@bh", { 1, 0 } }; P[2] = (struct who) { "me", "mu@mh", { 1, 1 } };
	C = w_client(N, "me"); w_cl_skip(C); w_srv_drain(S);
	rotate(1);
}
static void done(void)
{
	fault = OK;
	w_teardown();
	if (hup.fn) hup.fn(hup.data);
	del_log_filter("log_custom");
	base[0] = 0;
	if (chdir(cwd0)) mc_fail("chdir");
	w_end();
}
static void contents(void)
{
	int c = mc_choose_l(13, "configuration"), i, depth = (c == 0 || c == 12 ? 3 : 2) + mc_tier;
	setup(c);
	for (i = 0; i < depth; i++) {
		int k = mc_choose_l(NEV + 2, "event");
		uint64_t d = MC_H0;
		if (k >= NEV) { if (!i) break; rotate(k - NEV); }
		else if (!event(&EV[k], OK)) break;
		{ int j; for (j = 0; j < 3; j++) { d = mc_hash_str(P[j].nick, d); d = mc_hash(P[j].in, sizeof P[j].in, d); d = mc_hash(&P[j].query, sizeof(int), d); } }
		d = mc_hash(&nopen, sizeof nopen, mc_hash(&c, sizeof c, d));
		if (mc_state(d, depth - i - 1)) break;
	}
	done();
}
static void faults(void)
{
	static const struct ev E[] = { { 0, ":al!au@ah PRIVMSG #c :one", MSG }, { 0, ":al!au@ah PRIVMSG me :two", MSG }, { 1, "PRIVMSG #c :own", MSG } };
	int i, depth = mc_tier ? 4 : 3;
	setup(0);
	for (i = 0; i < depth; i++) {
		int k = mc_choose_l(3 * 5 + 5, "event");
		if (k < 15) { if (k % 5) mc_trace("fault %d", k % 5); event(&E[k / 5], k % 5); }
		else if (k == 15) rotate(0);
		else if (k == 16) rotate(1);
		else if (k == 17) { mc_trace("closing fails"); fault = CLOSE; rotate(0); fault = OK; }
		else if (k == 18) { char *s; mc_trace("an hour passes"); vt_skip(3700 * 1000); s = g_strdup_printf("%s/net", base); g_free(s); }
		else { char *s = g_strdup_printf("%s/net", base); rotate(1); g_file_set_contents(s, "not a directory\n", -1, NULL); mc_trace("a file is where the directory should be"); 
			{ struct ev e = E[0]; (void)e; w_srv(S, ":al!au@ah PRIVMSG #c :lost"); pump(); w_cl_drain(C); w_cl_skip(C); }
			unlink(s); g_free(s); }
	}
	/* afterwards all is well */
	{ int j; for (j = 0; j < 3; j++) event(&E[j], OK); }
	mc_cover("after faults");
	done();
}
static void many(void)
{
	int i, n = mc_choose_l(2, "after an hour") ? 420 : 400; char *s;
	setup(0);
	for (i = 0; i < n; i++) {
		if (n == 420 && i == 350) vt_skip(3700 * 1000);
		w_srv(S, ":n%d!u@h PRIVMSG me :hello %d", i, i);
		w_cl_drain(C); w_cl_skip(C);
	}
	pump();
	for (i = 0; i < n; i++) {
		char *w = g_strdup_printf("M n%d|u@h| me [hello %d] n%d\n", i, i, i), p[400];
		snprintf(p, sizeof p, "%s/net/n%d", base, i);
		if (!g_file_get_contents(p, &s, NULL, NULL)) mc_fail("nothing is written to n%d", i);
		if (strcmp(s, w)) mc_fail("%s is written to n%d", s, i);
		g_free(s); g_free(w);
	}
	if (maxopen > 320) mc_fail("%d log files are open at once", maxopen);
	mc_cover("many files");
	done();
}
/* a network within the proxy */
static void internal(void)
{
	struct network_config *nc; struct irc_network *V; struct wcl *c;
	setup(mc_choose_l(2, "configuration") ? 0 : 5);
	cfg.msg = "M %n %S %t [%m]"; cfg.join = "J %S %c";
	nc = network_config_init(W->config);
	g_free(nc->name); nc->name = g_strdup("admin"); nc->type = NETWORK_VIRTUAL; nc->type_settings.virtual_name = g_strdup("admin");
	V = load_network(W, nc);
	connect_network(V); pump();
	c = w_client(V, "me");
	w_cl(c, "PRIVMSG #ctrlproxy :echo");
	w_cl(c, "PRIVMSG &ctrlproxy :echo");
	pump();
	w_cl_drain(c);
	{
		GHashTable *t = snap(); GHashTableIter it; gpointer k, v; int said = 0;
		g_hash_table_iter_init(&it, t);
		while (g_hash_table_iter_next(&it, &k, &v)) { mc_trace("%s: %s", mc_esc(k), mc_esc(v)); said += strstr(v, "  #ctrlproxy [Nothing to echo]\n") != NULL; }
		if (!said) mc_fail("what is said on the network within the proxy is not logged");
		g_hash_table_destroy(t);
	}
	mc_cover("network within the proxy");
	done();
}
static void run(void)
{
	int part = mc_choose_l(4, "part");
	w_begin(); vt_reset();
	/* shortly before the year ends: 2001-12-31 22:46:40 UTC */
	vt_skip((113LL * 86400 + 75600) * 1000);
	nopen = maxopen = 0; fault = OK; memset(&hup, 0, sizeof hup);
	if (part == 0) contents(); else if (part == 1) faults(); else if (part == 2) many(); else internal();
}
static void init(void) { if (!getcwd(cwd0, sizeof cwd0)) abort(); w_init(); init_admin(); }
int main(int argc, char **argv)
{
	static const struct mc_check chk = { .id = "P29", .init = init, .run = run, .batch = 30, .hang_secs = 30,
		.rule = "13 configurations (9 patterns of file names, formats with all letters, numbers, missing and empty ones, the style of irssi) x all sequences of 2 (3 for two of them; thorough one more; equal states explored once) of 76 messages from and to the server, among them names that try to leave the directory, and log rotation: the new contents of all files are those the rules give; all sequences of 3 (thorough 4) of messages with failing mkdir, open, write, short write and close, rotation, time; 400 files at once; a network within the proxy" };
	return mc_main(argc, argv, &chk);
}
