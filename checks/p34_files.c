/* P34: key, help and message-of-the-day files. */
#include "world.h"
#include "keyfile.h"
#include "help.h"
#include <unistd.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
char **get_motd_lines(const char *motd_file);
extern help_t *help;
static char fn[300];
static void put(const char *s, size_t n)
{
	FILE *f = fopen(fn, "w");
	if (!f) abort();
	if (fwrite(s, 1, n, f) != n) abort();
	fclose(f);
}
static void fail_if(int c, const char *m) { if (c) mc_fail("%s", m); }

/* ---- key files ---- */
static const char *KL[] = {"a\tp\tnet\n", "a\tp\n", "b\tpass word\t*\n", "i\tp\t*net\n", "j\tp\t**\n", "#comment\twith\ttabs\n", "\n", "nosep\n", "c\t\tnet2\n", "\tx\ty\n", "d\t\303\274\377\tn\n", "e\tp\tn\tz\n", "f\tq\tnet\r\n", "g\tq\r\n", "; a\tb\n", " #x\ty\n", "h\tend\tlast", "h\tend", "h", "#"};
#define NKL ((int)(sizeof(KL)/sizeof(KL[0])))
struct ent { char nick[100], pass[100], net[100]; int hasnet; };
static int ref_keys(const char *s, char cc, struct ent *e)
{
	int n = 0;
	while (*s) {
		char l[400], *t1, *t2;
		size_t k = strcspn(s, "\n");
		memcpy(l, s, k); l[k] = 0;
		s += k; if (*s) s++;
		if (l[0] == cc) continue;
		if (k && l[k - 1] == '\r') l[k - 1] = 0;
		t1 = strchr(l, '\t');
		if (!t1) continue;
		*t1++ = 0;
		t2 = strchr(t1, '\t');
		if (t2) *t2++ = 0;
		strcpy(e[n].nick, l); strcpy(e[n].pass, t1);
		e[n].hasnet = t2 && strcmp(t2, "*");
		strcpy(e[n].net, e[n].hasnet ? t2 : "");
		n++;
	}
	return n;
}
static void cmp_keys(GList *l, struct ent *e, int n, const char *when)
{
	int i;
	for (i = 0; i < n; i++, l = l->next) {
		struct keyfile_entry *k;
		if (!l) mc_fail("%s: entry of %s is lost", when, e[i].nick);
		k = l->data;
		if (strcmp(k->nick, e[i].nick)) mc_fail("%s: nick of entry %d is %s instead of %s", when, i, k->nick, e[i].nick);
		if (strcmp(k->pass, e[i].pass)) mc_fail("%s: password of %s is altered", when, e[i].nick);
		if (!streq(k->network, e[i].hasnet ? e[i].net : NULL)) mc_fail("%s: network of %s is altered", when, e[i].nick);
	}
	if (l) mc_fail("%s: an entry that was not there is read", when);
}
static void free_keys(GList *l)
{
	while (l) { struct keyfile_entry *k = l->data; g_free(k->nick); g_free(k->pass); g_free(k->network); g_free(k); l = g_list_delete_link(l, l); }
}
static void keys(void)
{
	char b[600] = "", cc = mc_choose_l(2, "comment") ? ';' : '#', hdr[10];
	struct ent e[20];
	GList *l = NULL, *l2 = NULL;
	int i, n, m = mc_choose_l(mc_tier ? 5 : 4, "lines"), rm;
	struct stat st;
	for (i = 0; i < m; i++) {
		int k = mc_choose(i == m - 1 ? NKL : NKL - 4);
		strcat(b, KL[k]);
	}
	mc_trace("key file %s", mc_esc(b));
	put(b, strlen(b));
	n = ref_keys(b, cc, e);
	MC_ASSERT(keyfile_read_file(fn, cc, &l), "the file can not be read");
	cmp_keys(l, e, n, "read");
	/* remove entries, then write over what is there */
	rm = mc_choose_l(3, "removed");
	if (rm && n) {
		int at = rm == 1 ? 0 : n - 1;
		GList *x = g_list_nth(l, at);
		mc_trace("remove entry %d", at);
		l = g_list_remove_link(l, x);
		free_keys(x);
		memmove(&e[at], &e[at + 1], (n - at - 1) * sizeof(e[0]));
		n--;
	}
	sprintf(hdr, "%c head\n", cc);
	if (mc_choose_l(2, "fresh file")) unlink(fn);
	MC_ASSERT(keyfile_write_file(l, hdr, fn), "the file can not be written");
	MC_ASSERT(stat(fn, &st) == 0, "no file is written");
	MC_ASSERT(keyfile_read_file(fn, cc, &l2), "the written file can not be read");
	/* an entry that starts with the comment sign can not be written so */
	for (i = 0; i < n; i++) if (e[i].nick[0] == cc) goto out;
	cmp_keys(l2, e, n, "written and read again");
	{
		char *c1 = NULL, *c2 = NULL; gsize s1, s2;
		g_file_get_contents(fn, &c1, &s1, NULL);
		MC_ASSERT(!strncmp(c1, hdr, strlen(hdr)), "the heading is missing");
		MC_ASSERT(keyfile_write_file(l2, hdr, fn), "the file can not be written");
		g_file_get_contents(fn, &c2, &s2, NULL);
		MC_ASSERT(s1 == s2 && !memcmp(c1, c2, s1), "writing again gives another file");
		mc_outcome(mc_hash(c1, s1, MC_H0));
		g_free(c1); g_free(c2);
	}
out:
	free_keys(l); free_keys(l2);
	mc_steps(4);
	mc_cover("key files");
}
static void keys_missing(void)
{
	GList *l = NULL;
	struct keyfile_entry e = { .nick = "n", .pass = "p", .network = NULL };
	GList *one = g_list_append(NULL, &e);
	char sub[400];
	unlink(fn);
	MC_ASSERT(!keyfile_read_file(fn, '#', &l) && !l, "a missing file gives entries");
	sprintf(sub, "%s/none/x", w_dir);
	MC_ASSERT(!keyfile_write_file(one, "", sub), "writing where nothing can be written reports success");
	MC_ASSERT(!keyfile_read_file(sub, '#', &l) && !l, "a missing file gives entries");
	MC_ASSERT(keyfile_write_file(one, "", fn), "no new file can be written");
	{ struct stat st; stat(fn, &st); MC_ASSERT((st.st_mode & 077) == 0, "others can read the passwords"); }
	MC_ASSERT(keyfile_write_file(NULL, "", fn), "an empty list can not be written");
	MC_ASSERT(keyfile_read_file(fn, '#', &l) && !l, "entries are left");
	MC_ASSERT(!help_load_file(sub), "a missing help file is loaded");
	MC_ASSERT(!get_motd_lines(sub), "a missing motd file gives lines");
}
/* ---- help ---- */
static const char *HL[] = {"?a\n", "?ab\n", "?\n", "?index\n", "?a b\n", "text\n", "%\n", "\n", "% x\n", "x%\n", "%%\n", "a", "?a", "%", " ?b\n"};
#define NHL ((int)(sizeof(HL)/sizeof(HL[0])))
static int nout;
static char out[2000];
static void hout(admin_handle h, const char *d) { strcat(out, d); strcat(out, "\n"); nout++; }
static int ref_help(const char *s, const char *topic, char *body)
{
	int found = 0;
	/* whole file must be a sequence of ?topic NL text % NL */
	while (*s) {
		const char *e, *b;
		char key[100];
		if (*s != '?') return -1;
		e = strchr(s, '\n');
		if (!e) return -1;
		memcpy(key, s + 1, e - s - 1); key[e - s - 1] = 0;
		b = e + 1;
		for (s = b; *s && strncmp(s, "%\n", 2); ) { s += strcspn(s, "\n"); if (*s) s++; }
		if (!*s) return -1;
		if (!strcmp(key, topic)) { found = 1; memcpy(body, b, s - b); body[s - b] = 0; }
		s += 2;
	}
	return found;
}
static void helps(void)
{
	static const char *ask[] = {"help", "help a", "help ab", "help a b", "help index", "help b", "help A", "help a  b"};
	static const char *top[] = {"index", "a", "ab", "a b", "index", "b", "A", NULL};
	char b[400] = "", *p;
	int i, n = mc_choose_l(mc_tier ? 7 : 6, "lines"), valid;
	struct admin_handle h;
	char body[400];
	for (i = 0; i < n; i++) {
		int k = mc_choose_l(i == n - 1 ? NHL : 11, "line");
		strcat(b, HL[k]);
	}
	put(b, strlen(b));
	mc_trace("help file %s", mc_esc(b));
	valid = ref_help(b, "index", body) >= 0;
	help = help_load_file(fn);
	mc_step();
	if (valid) mc_cover("valid help file"); else mc_cover("malformed help file");
	for (i = 0; i < 8; i++) {
		int f;
		memset(&h, 0, sizeof(h));
		h.send_fn = hout; h.global = W;
		out[0] = 0; nout = 0;
		if (!top[i]) continue;
		process_cmd(&h, ask[i]);
		mc_step();
		f = ref_help(b, top[i], body);
		if (f == 1) {
			if (strcmp(out, body)) { mc_trace("asked: %s", ask[i]); mc_trace("shown: %s", mc_esc(out)); mc_fail("the help text shown is not that of the topic"); }
			mc_cover("topic shown");
		} else if (f == 0) {
			if (!(nout == 1 && strstr(out, "Sorry"))) mc_fail("an unknown topic is not reported");
		} else if (help_get(help, top[i]) == NULL) {
			if (!(nout == 1 && strstr(out, "Sorry"))) mc_fail("missing help is not reported");
		}
		mc_outcome(mc_hash_str(out, MC_H0));
	}
	if (help) help_free(help);
	help = NULL;
}
/* ---- message of the day ---- */
static const char *ML[] = {"text\n", "\n", "x\r\n", "\303\274\377\n", " lead\n", "last", "\377", "a\tb\n", "%s%n\n", ":c\n"};
static void motds(void)
{
	char b[400] = "", *s;
	int i, n = mc_choose_l(mc_tier ? 6 : 5, "lines"), k;
	char **l;
	for (i = 0; i < n; i++) {
		do { k = mc_choose_l(10, "line"); } while (0);
		if ((k == 5 || k == 6) && i < n - 1) mc_done();
		strcat(b, ML[k]);
	}
	put(b, strlen(b));
	mc_trace("motd file %s", mc_esc(b));
	l = get_motd_lines(fn);
	mc_step();
	for (i = 0, s = b; *s; i++) {
		char line[100];
		size_t m = strcspn(s, "\n");
		memcpy(line, s, m); line[m] = 0;
		s += m; if (*s) s++;
		if (m && line[m - 1] == '\r') line[m - 1] = 0;
		MC_ASSERT(l && l[i], "a line is lost");
		MC_ASSERT(!strcmp(l[i], line), "a line is altered: %s", mc_esc(l[i]));
	}
	MC_ASSERT(!l || !l[i], "a line that is not there is read");
	if (mc_tier || n <= 3) {
		/* and a client is shown exactly these */
		struct irc_network *N;
		struct wcl *c;
		const char *g;
		int j = 0;
		g_free(W->config->motd_file);
		W->config->motd_file = g_strdup(fn);
		N = w_network("net", "me");
		c = w_client(N, "me");
		while ((g = w_cl_next(c))) {
			char want[200];
			if (!strstr(g, " 372 ")) continue;
			MC_ASSERT(l && l[j], "the client is shown too many lines");
			sprintf(want, "372 me :%s", l[j]);
			if (!strchr(l[j], ' ') && l[j][0] && l[j][0] != ':') { MC_ASSERT(strstr(g, l[j]), "the client is shown another line"); }
			else MC_ASSERT(strstr(g, want), "the client is shown another line");
			j++;
		}
		MC_ASSERT(!l || !l[j], "the client is not shown every line");
		w_cl_leave(c);
		w_teardown();
	}
	mc_outcome(mc_hash_str(b, MC_H0));
	g_strfreev(l);
	mc_cover("motd files");
}
static void init(void) { w_init(); init_admin(); }
static void run(void)
{
	w_begin();
	sprintf(fn, "%s/file", w_dir);
	switch (mc_choose_l(4, "kind")) {
	case 0: keys(); break;
	case 1: helps(); break;
	case 2: motds(); break;
	default: keys_missing();
	}
	w_end();
}
int main(int argc, char **argv)
{
	static struct mc_check c = { .id = "P34", .init = init, .run = run, .batch = 200, .hang_secs = 10,
		.rule = "every key file of up to 3 (thorough 4) lines out of 18 x removals x rewriting; every help file of up to 5 (6) lines out of 15 x 7 questions by the HELP command; every message-of-the-day file of up to 4 (5) lines out of 10, also as shown to a client" };
	return mc_main(argc, argv, &c);
}
