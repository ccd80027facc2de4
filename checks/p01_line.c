/* P01: the line codec is lossless.  Exhaustive over bounded wire texts and
 * bounded constructed messages, against an independent reference grammar. */
#include "pre.h"

/* Reference model of the wire grammar. */
struct ref { char origin[256]; int has_origin; char args[64][600]; int argc; int rejected; };

static void ref_parse(const char *s, struct ref *r)
{
	char buf[1400], *p;
	memset(r, 0, sizeof(*r));
	snprintf(buf, sizeof(buf), "%s", s);
	buf[strcspn(buf, "\r\n")] = 0;
	p = buf;
	if (*p == ':') {
		char *e = strchr(p, ' ');
		if (!e) { r->rejected = 1; return; }
		*e = 0;
		strcpy(r->origin, p + 1);
		r->has_origin = 1;
		p = e + 1;
		while (*p == ' ') p++;
	}
	for (;;) {
		char *e;
		if (r->argc > 0 && *p == ':') { strcpy(r->args[r->argc++], p + 1); return; }
		e = strchr(p, ' ');
		if (!e) { strcpy(r->args[r->argc++], p); return; }
		*e = 0;
		strcpy(r->args[r->argc++], p);
		p = e + 1;
	}
}

static void check_line(const char *what, const char *in, const struct irc_line *l, const struct ref *r)
{
	int i;
	MC_ASSERT(l != NULL, "%s: %s was rejected", what, mc_esc(in));
	MC_ASSERT((l->origin != NULL) == r->has_origin && (!r->has_origin || !strcmp(l->origin, r->origin)),
		"%s: %s gives origin %s, expected %s", what, mc_esc(in), mc_esc(l->origin), r->has_origin ? mc_esc(r->origin) : "(none)");
	MC_ASSERT((int)l->argc == r->argc, "%s: %s gives %d arguments, expected %d", what, mc_esc(in), (int)l->argc, r->argc);
	for (i = 0; i < r->argc; i++)
		MC_ASSERT(streq(l->args[i], r->args[i]), "%s: %s argument %d is %s, expected %s", what, mc_esc(in), i, mc_esc(l->args[i]), mc_esc(r->args[i]));
	MC_ASSERT(l->args[l->argc] == NULL, "%s: %s argument vector not terminated", what, mc_esc(in));
}

static void roundtrip(const char *s)
{
	struct ref r, r2;
	struct irc_line *l, *l2, *d;
	char *w, *nl, canon[1500];
	ref_parse(s, &r);
	l = irc_parse_line(s);
	mc_step();
	if (r.rejected) {
		if (l != NULL) {
			/* acceptable when it forwards nothing but the origin */
			MC_ASSERT(l->argc == 0 || (l->argc == 1 && l->args[0][0] == 0), "origin-only line %s produced arguments", mc_esc(s));
			free_line(l);
		}
		mc_cover("origin only");
		return;
	}
	check_line("parse", s, l, &r);
	w = irc_line_string(l);
	/* canonical text: the input up to its terminator, with the blanks after the origin collapsed */
	{
		char buf[1400], *p = buf;
		snprintf(buf, sizeof(buf), "%s", s);
		buf[strcspn(buf, "\r\n")] = 0;
		canon[0] = 0;
		if (r.has_origin) { p = strchr(buf, ' '); while (*p == ' ') p++; sprintf(canon, ":%s ", r.origin); }
		strcat(canon, p);
	}
	MC_ASSERT(!strcmp(w, canon), "forwarding %s puts %s on the wire", mc_esc(s), mc_esc(w));
	ref_parse(w, &r2);
	l2 = irc_parse_line(w);
	check_line("reparse", w, l2, &r);
	MC_ASSERT(irc_line_cmp(l, l2) == 0, "%s differs from its own round trip", mc_esc(s));
	d = linedup(l);
	check_line("duplicate", s, d, &r);
	MC_ASSERT(irc_line_cmp(l, d) == 0 && irc_line_cmp(d, l) == 0, "%s differs from its duplicate", mc_esc(s));
	g_free(w);
	w = irc_line_string(d);
	MC_ASSERT(!strcmp(w, canon), "forwarding a duplicate of %s puts %s on the wire", mc_esc(s), mc_esc(w));
	nl = irc_line_string_nl(d);
	MC_ASSERT(strlen(nl) == strlen(w) + 2 && !strncmp(nl, w, strlen(w)) && !strcmp(nl + strlen(w), "\r\n"), "bad terminator for %s", mc_esc(s));
	mc_outcome(mc_hash_str(w, MC_H0));
	g_free(w); g_free(nl);
	free_line(l); free_line(l2); free_line(d);
}

static void mode_raw(void)
{
	static const char *const tok[] = { "a", " ", ":", "\r", "\n", "\001", "\xe2", "9", "!", "@" };
	char s[64];
	mc_tokens(s, sizeof(s), tok, mc_tier ? 10 : 7, mc_tier ? 7 : 6);
	mc_trace("wire text %s", mc_esc(s));
	roundtrip(s);
}

static void mode_tokens(void)
{
	static const char *const pre[] = { "", ":n!u@h ", ":srv  ", ":" };
	static const char *const tok[] = { "PRIVMSG", "MODE", "324", " ", " :", ":", "#c", "\001ACTION x\001", "\xe2\x80\xa9", "\r\n", "\r" };
	char s[256], t[200];
	strcpy(s, pre[mc_choose(4)]);
	mc_tokens(t, sizeof(t), tok, 11, mc_tier ? 6 : 5);
	strcat(s, t);
	mc_trace("wire text %s", mc_esc(s));
	roundtrip(s);
}

/* many parameters */
static void mode_many(void)
{
	char s[1200] = "", one[8];
	int n = mc_choose(40), i, colon = mc_choose(3);
	if (mc_choose(2)) strcat(s, ":o ");
	strcat(s, "353");
	for (i = 0; i < n; i++) { sprintf(one, " p%d", i); strcat(s, one); }
	if (colon == 1) strcat(s, " :last one");
	if (colon == 2) strcat(s, " :");
	if (mc_choose(2)) strcat(s, "\r\n");
	mc_trace("wire text %s", mc_esc(s));
	roundtrip(s);
}

static const char *const cmds[] = { "PRIVMSG", "NOTICE", "TOPIC", "PART", "KICK", "QUIT", "AWAY", "USER", "001", "332", "353", "372", "311", "NICK", "JOIN", "MODE", "324", "221", "333", "367", "004" };
static const int ntext = 13; /* those whose last parameter is free text */

static void mode_built(void)
{
	static const char *const mid[] = { "#c", "n", "+o" };
	static const char *const last[] = { "x", "a b", "", ":x", " lead", "a :b", "x ", "\001ACTION y\001", "\xc3\xa9 \xe2\x80\xa9" };
	int c = mc_choose(G_N_ELEMENTS(cmds)), nmid = mc_choose(4), i, o = mc_choose(2), li;
	const char *a[8] = { 0 };
	int n = 0;
	struct irc_line *l, *l2;
	char *w;
	struct ref r;
	memset(&r, 0, sizeof(r));
	if (o) { r.has_origin = 1; strcpy(r.origin, "n!u@h"); }
	a[n++] = cmds[c];
	for (i = 0; i < nmid; i++) a[n++] = mid[mc_choose(3)];
	if (c < ntext) {
		/* PART and TOPIC carry text only as their third word */
		int textual = n >= 2 || (strcmp(cmds[c], "PART") && strcmp(cmds[c], "TOPIC") && strcmp(cmds[c], "KICK"));
		li = mc_choose(textual ? 10 : 2);
		if (!textual && n == 1 && li) { a[n++] = "#c"; li = 0; }
		else if (li) {
			if ((!strcmp(cmds[c], "PART") || !strcmp(cmds[c], "TOPIC")) && n < 2) li = 1;
			a[n++] = last[li - 1];
		}
	}
	for (i = 0; i < n; i++) strcpy(r.args[i], a[i]);
	r.argc = n;
	l = irc_parse_line_args(o ? "n!u@h" : NULL, a[0], a[1], a[2], a[3], a[4], a[5], a[6], NULL);
	mc_step();
	check_line("built", a[0], l, &r);
	w = irc_line_string(l);
	mc_trace("built message -> %s", mc_esc(w));
	l2 = irc_parse_line(w);
	check_line("built, sent and parsed", w, l2, &r);
	mc_outcome(mc_hash_str(w, MC_H0));
	free_line(l2);
	/* a built line that is duplicated, as the fan-out and the backlog do */
	l2 = linedup(l);
	g_free(w);
	w = irc_line_string(l2);
	free_line(l2);
	l2 = irc_parse_line(w);
	check_line("built, duplicated, sent and parsed", w, l2, &r);
	g_free(w);
	free_line(l); free_line(l2);
}

static struct irc_line *mkresp(const char *from, const char *to, int num, ...)
{
	va_list ap;
	struct irc_line *l;
	va_start(ap, num);
	l = virc_parse_response(from, to, num, ap);
	va_end(ap);
	return l;
}

static void mode_response(void)
{
	static const int nums[] = { 1, 5, 42, 301, 332, 353, 433, 999 };
	static const char *const txt[] = { "x", "a b", "", ":x" };
	int num = nums[mc_choose(8)], na = mc_choose(4), t = mc_choose(4), i;
	const char *a[5] = { 0 };
	struct ref r;
	struct irc_line *l, *l2;
	char *w;
	memset(&r, 0, sizeof(r));
	for (i = 0; i < na - 1; i++) a[i] = "mid";
	if (na > 0) a[na - 1] = txt[t];
	r.has_origin = 1; strcpy(r.origin, "srv");
	sprintf(r.args[0], "%03d", num); strcpy(r.args[1], "me");
	for (i = 0; i < na; i++) strcpy(r.args[2 + i], a[i]);
	r.argc = 2 + na;
	l = mkresp("srv", "me", num, a[0], a[1], a[2], a[3], NULL);
	mc_step();
	check_line("response", r.args[0], l, &r);
	w = irc_line_string(l);
	mc_trace("response -> %s", mc_esc(w));
	l2 = irc_parse_line(w);
	check_line("response, sent and parsed", w, l2, &r);
	mc_outcome(mc_hash_str(w, MC_H0));
	g_free(w); free_line(l); free_line(l2);
}

/* Time stamping keeps the text and changes nothing but the stamp. */
static void mode_stamp(void)
{
	static const char *const tok[] = { "x", " ", ":", "\001", "ACTION", "VERSION", "[", "%s" };
	static const char *const cmd[] = { "PRIVMSG", "NOTICE" };
	char text[128], wire[256], exp[300], stamp[32];
	int colon, c = mc_choose(2), built = mc_choose(2);
	time_t t = 86400 * 3 + 3723;
	struct irc_line *l, *l2;
	char *w;
	gboolean ret;
	mc_tokens(text, sizeof(text), tok, 8, mc_tier ? 5 : 4);
	colon = mc_choose(2);
	if (!colon && (strchr(text, ' ') || text[0] == ':' || !text[0])) colon = 1;
	if (built) l = irc_parse_line_args("n!u@h", cmd[c], "#c", text, NULL);
	else {
		snprintf(wire, sizeof(wire), ":n!u@h %s #c %s%s", cmd[c], colon ? ":" : "", text);
		l = irc_parse_line(wire);
	}
	mc_trace("stamp %s %s built=%d colon=%d", cmd[c], mc_esc(text), built, colon);
	strftime(stamp, sizeof(stamp), "%H:%M:%S", localtime(&t));
	ret = line_prefix_time(l, t);
	mc_step();
	w = irc_line_string(l);
	l2 = irc_parse_line(w);
	if (text[0] == '\001' && strncmp(text + 1, "ACTION", 6)) {
		MC_ASSERT(!ret, "CTCP %s was time stamped", mc_esc(text));
		strcpy(exp, text);
	} else if (text[0] == '\001') {
		sprintf(exp, "\001ACTION [%s]%s", stamp, text + 7);
		MC_ASSERT(ret, "action not stamped");
	} else {
		sprintf(exp, "[%s] %s", stamp, text);
		MC_ASSERT(ret, "text not stamped");
	}
	MC_ASSERT(l2 && l2->argc == 3 && streq(l2->args[2], exp), "stamped %s %s arrives as %d arguments, text %s, expected %s",
		cmd[c], mc_esc(text), l2 ? (int)l2->argc : 0, l2 && l2->argc > 2 ? mc_esc(l2->args[2]) : "-", mc_esc(exp));
	MC_ASSERT(streq(l2->origin, "n!u@h") && streq(l2->args[0], cmd[c]) && streq(l2->args[1], "#c"), "stamping changed the envelope");
	mc_outcome(mc_hash_str(w, MC_H0));
	g_free(w); free_line(l); free_line(l2);
}

static void mode_fmt(void)
{
	static const char *const txt[] = { "x", "a b", "", ":x", "%s%n", "100%" };
	const char *t = txt[mc_choose(6)];
	struct irc_line *l = irc_parse_linef(":%s %s %s :%s", "srv", "NOTICE", "me", t);
	mc_step();
	mc_trace("formatted %s", t);
	MC_ASSERT(l->argc == 3 && streq(l->args[2], t) && streq(l->origin, "srv"), "formatted message lost its text %s", t);
	mc_outcome(mc_hash_str(t, MC_H0));
	free_line(l);
}

/* Appending arguments never yields an overlong message and never loses one silently. */
static void mode_append(void)
{
	int base = mc_choose(3), len = 1 + mc_choose(20) , cnt = 0, i;
	struct irc_line *l = irc_parse_line_args(base ? "srv" : NULL, "353", "me", "=", base == 2 ? "#a-rather-long-channel-name" : "#c", NULL);
	char arg[64], *w;
	int argc0 = l->argc;
	memset(arg, 'n', sizeof(arg)); arg[len] = 0;
	while (cnt < 600) {
		mc_step();
		if (!line_add_arg(l, arg)) break;
		cnt++;
		MC_ASSERT((int)l->argc == argc0 + cnt && streq(l->args[l->argc - 1], arg) && l->args[l->argc] == NULL, "appended argument missing");
	}
	MC_ASSERT(cnt < 600, "an unbounded number of arguments was accepted");
	MC_ASSERT((int)l->argc == argc0 + cnt, "refused argument was added");
	w = irc_line_string_nl(l);
	mc_trace("appended %d arguments of %d bytes: %d bytes on the wire", cnt, len, (int)strlen(w));
	MC_ASSERT(strlen(w) <= IRC_MAXLINELEN, "message of %d bytes after appending", (int)strlen(w));
	MC_ASSERT(strlen(w) + len + 60 >= IRC_MAXLINELEN, "refused although only %d bytes long", (int)strlen(w));
	for (i = argc0; i < (int)l->argc; i++) MC_ASSERT(streq(l->args[i], arg), "argument corrupted");
	mc_outcome(mc_hash(&cnt, sizeof(cnt), MC_H0));
	g_free(w); free_line(l);
}

static void run(void)
{
	static void (*const modes[])(void) = { mode_raw, mode_tokens, mode_many, mode_built, mode_response, mode_stamp, mode_fmt, mode_append };
	static const char *const names[] = { "raw", "tokens", "many", "built", "response", "stamp", "fmt", "append" };
	int m = mc_choose(8);
	mc_cover(names[m]);
	modes[m]();
}

static void init(void) { }
static const struct mc_check chk = { "P01", init, run, 200000, 30,
	"every wire text of at most 6 (7) symbols over {a,space,colon,CR,LF,ctrl-A,high byte,...}, every sequence of at most 5 (6) IRC tokens, 0-39 parameters, every built message/response shape, every stamped text: parsed, serialised, re-parsed, duplicated and compared with a reference grammar" };
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
