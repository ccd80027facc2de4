/* P17: input means the same however it is cut into packets. */
#include "pre.h"
#include "mem.h"
#include "transport.h"

static struct mem *M;
static struct irc_transport *T;
static GString *got;
static int hangups, cserrors;

static void cb_log(struct irc_transport *t, const struct irc_line *l, const GError *e) { }
static void cb_hup(struct irc_transport *t) { hangups++; irc_transport_disconnect(t); }
static void cb_disc(struct irc_transport *t) { }
static gboolean cb_recv(struct irc_transport *t, const struct irc_line *l)
{
	size_t i;
	MC_ASSERT(l != NULL, "a message that could not be parsed was passed on");
	if (l->argc == 0 || (l->argc == 1 && !*l->args[0])) return TRUE;
	g_string_append_printf(got, "<%s", l->origin ? l->origin : "-");
	for (i = 0; i < l->argc; i++) g_string_append_printf(got, "|%s", l->args[i]);
	g_string_append(got, ">");
	return TRUE;
}
static void cb_cserr(struct irc_transport *t, const char *m) { cserrors++; MC_ASSERT(m != NULL, "no text for the conversion error"); }
static gboolean cb_err(struct irc_transport *t, const char *m) { hangups++; irc_transport_disconnect(t); return FALSE; }
static const struct irc_transport_callbacks cbs = { cb_log, cb_hup, cb_disc, cb_recv, cb_cserr, cb_err };

static const struct { const char *s; int n; } tok[] = {
	{ "A", 1 }, { "\r\n", 2 }, { "\n", 1 }, { "\r", 1 }, { "B :x y", 6 }, { "\0", 1 }, { "\xe2\x80\xa9", 3 },
	{ ":abc", 4 }, { " ", 1 }, { "\xe9", 1 }, { "\xe2\x80", 2 }, { "\xc3\xa9", 2 }, { ":o C ", 5 }, { "\x85", 1 }, { "\f\v", 2 },
};
#define NT ((int)(sizeof(tok) / sizeof(tok[0])))
static const char *const csets[] = { NULL, "ISO-8859-1", "UTF-8", "ASCII" };

/* independent reading of the byte stream */
static int expect(const char *s, int n, const char *cset, GString *out, GString *tail)
{
	int i, st = 0, errs = 0;
	for (i = 0; i <= n; i++) {
		char *raw, *cv;
		struct irc_line *l;
		if (i < n && s[i] != '\n') continue;
		if (i == n && st == n) break;
		raw = g_strndup(s + st, i - st); /* a C string: ends at a NUL byte */
		st = i + 1;
		if (cset) {
			cv = g_convert(raw, -1, "UTF-8", cset, NULL, NULL, NULL);
			g_free(raw);
			if (cv == NULL) { if (i < n) errs++; continue; }
			raw = cv;
		}
		l = irc_parse_line(raw);
		g_free(raw);
		if (l != NULL && !(l->argc == 0 || (l->argc == 1 && !*l->args[0]))) {
			size_t k;
			GString *o = i < n ? out : tail;
			g_string_append_printf(o, "<%s", l->origin ? l->origin : "-");
			for (k = 0; k < l->argc; k++) g_string_append_printf(o, "|%s", l->args[k]);
			g_string_append(o, ">");
		}
		free_line(l);
	}
	return errs;
}

static void run(void)
{
	int depth = mc_tier ? 4 : 3, i, n = 0, cs = mc_choose(4), errs, c1, c2, at, nt, pre, end;
	char s[64];
	GString *want = g_string_new(""), *tail = g_string_new("");
	nt = 1 + mc_choose(depth);
	for (i = 0; i < nt; i++) {
		int t = mc_choose(NT);
		memcpy(s + n, tok[t].s, tok[t].n);
		n += tok[t].n;
	}
	/* most streams end in a complete message */
	if (mc_choose(2)) { memcpy(s + n, "\r\nZ\n", 4); n += 4; }
	s[n] = 0;
	c1 = mc_choose(n + 1);
	c2 = c1 + mc_choose(n - c1 + 1);
	M = mem_new("peer");
	M->readmax = c1 == 0 ? mc_choose(3) : 0; /* any / 1 / 2 bytes at a time */
	end = mc_choose(2);
	{
		char e[400] = "";
		for (i = 0; i < n; i++) sprintf(e + strlen(e), (i == c1 || i == c2) ? " / " : ""), sprintf(e + strlen(e), (unsigned char)s[i] > 32 && (unsigned char)s[i] < 127 ? "%c" : "\\x%02x", (unsigned char)s[i]);
		mc_trace("stream%s%s, read size %d: %s%s", csets[cs] ? " in " : "", csets[cs] ? csets[cs] : "", (int)M->readmax, e, end ? " EOF" : "");
	}
	errs = expect(s, n, csets[cs], want, tail);
	got = g_string_new("");
	hangups = cserrors = 0;
	g_io_channel_set_encoding(mem_ioc(M), NULL, NULL);
	g_io_channel_set_close_on_unref(mem_ioc(M), TRUE);
	/* what arrives before the transport is set up counts too */
	pre = c1 > 0 && c1 == c2;
	if (pre) mem_feedn(M, s, c1);
	T = irc_transport_new_iochannel(mem_ioc(M));
	if (csets[cs]) MC_ASSERT(transport_set_charset(T, csets[cs]), "cannot set character set");
	irc_transport_set_callbacks(T, &cbs, NULL);
	at = pre ? c1 : 0;
	pump();
	if (c1 > at) { mem_feedn(M, s + at, c1 - at); at = c1; pump(); mc_step(); }
	if (c2 > at) { mem_feedn(M, s + at, c2 - at); at = c2; pump(); mc_step(); }
	if (n > at) { mem_feedn(M, s + at, n - at); pump(); mc_step(); }
	MC_ASSERT(!strcmp(got->str, want->str), "the stream carries %s, received %s", mc_esc(want->str), mc_esc(got->str));
	if (errs != cserrors) mc_fail("%d messages cannot be converted, %d conversion errors reported", errs, cserrors);
	if (end) {
		M->eof = M->hup = 1;
		pump();
		MC_ASSERT(hangups == 1, "after the end of the stream %d hangups were reported", hangups);
		/* whether an unterminated message counts is left open */
		if (strcmp(got->str, want->str)) {
			g_string_append(want, tail->str);
			MC_ASSERT(!strcmp(got->str, want->str), "the stream carries %s, received %s", mc_esc(want->str), mc_esc(got->str));
		}
	}
	mc_outcome(mc_hash_str(got->str, cs * 4 + end));
	irc_transport_disconnect(T);
	free_irc_transport(T);
	g_io_channel_unref(mem_ioc(M));
	g_string_free(M->in, TRUE); g_string_free(M->out, TRUE);
	g_free(M);
	g_string_free(got, TRUE); g_string_free(want, TRUE); g_string_free(tail, TRUE);
}
static void init(void) { }
static const struct mc_check chk = { "P17", init, run, 2000, 20,
	"every byte stream of at most 3 (thorough: 4) tokens from {A, CRLF, LF, CR, 'B :x y', NUL, U+2029, ':abc', space, latin-1 and UTF-8 letters, truncated UTF-8, ':o C ', NEL, FF VT}, optionally followed by a complete message, times every pair of cut positions, read sizes any/1/2, data before/after setup, 4 character sets, end of stream" };
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
