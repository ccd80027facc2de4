/* P02: nick and channel name equality under the server's case mapping. */
#include "pre.h"

static int fold(int map, unsigned char c)
{
	if (c >= 'A' && c <= 'Z') return c + 32;
	if (map != CASEMAP_ASCII && (c == '[' || c == '\\' || c == ']')) return c + 32;
	if (map != CASEMAP_ASCII && map != CASEMAP_STRICT_RFC1459 && c == '^') return '~';
	return c;
}

static int ref_eq(int map, const char *a, const char *b, long n)
{
	long i;
	for (i = 0; n < 0 || i < n; i++) {
		if (fold(map, a[i]) != fold(map, b[i])) return 0;
		if (a[i] == 0) return 1;
	}
	return 1;
}

static struct irc_network_info *infos[5];
static const int maps[5] = { CASEMAP_UNKNOWN, CASEMAP_RFC1459, CASEMAP_ASCII, CASEMAP_STRICT_RFC1459, CASEMAP_UNKNOWN };

static void cmp_pair(const char *a0, const char *b0)
{
	/* exact-size heap copies, so that a read past the end is caught */
	char *a = g_strdup(a0), *b = g_strdup(b0);
	int m, n;
	for (m = 0; m < 5; m++) {
		const struct irc_network_info *i = m == 4 ? NULL : infos[m];
		int got = irccmp(i, a, b) == 0, want = ref_eq(maps[m], a, b, -1);
		mc_step();
		MC_ASSERT(got == want, "names %s and %s compare %s under mapping %d", mc_esc(a), mc_esc(b), got ? "equal" : "different", maps[m]);
		for (n = 0; n <= 4; n++) {
			got = ircncmp(i, a, b, n) == 0;
			want = ref_eq(maps[m], a, b, n);
			mc_step();
			MC_ASSERT(got == want, "first %d characters of %s and %s compare %s under mapping %d", n, mc_esc(a), mc_esc(b), got ? "equal" : "different", maps[m]);
		}
	}
	MC_ASSERT((base_strcmp(a, b) == 0) == ref_eq(CASEMAP_ASCII, a, b, -1), "command words %s / %s", mc_esc(a), mc_esc(b));
	for (n = 0; n <= 4; n++)
		MC_ASSERT((base_strncmp(a, b, n) == 0) == ref_eq(CASEMAP_ASCII, a, b, n), "command words %s / %s (%d)", mc_esc(a), mc_esc(b), n);
	mc_outcome(mc_hash_str(b, mc_hash_str(a, MC_H0)));
	g_free(a); g_free(b);
}

static void run(void)
{
	static const char *const tok[] = { "a", "A", "[", "{", "^", "~", "z", "Z", "@", "`", "\xc9", "\xe9", "\\", "|", "]", "}" };
	char a[32], b[32];
	int mode = mc_choose(3);
	if (mode == 0) {          /* every pair of single bytes, with a common tail */
		int x = 1 + mc_choose(255), y;
		for (y = 1; y < 256; y++) {
			a[0] = x; b[0] = y; a[1] = b[1] = 0;
			cmp_pair(a, b);
			a[1] = 'q'; a[2] = 0; b[1] = 'Q'; b[2] = 0;
			cmp_pair(a, b);
			a[0] = 'q'; a[1] = x; a[2] = 0; b[0] = 'Q'; b[1] = y; b[2] = 0;
			cmp_pair(a, b);
		}
		mc_trace("byte %d against all others", x);
		mc_cover("bytes");
	} else if (mode == 1) {   /* short names over the letters where the mappings differ */
		mc_tokens(a, sizeof(a), tok, 16, 2);
		mc_tokens(b, sizeof(b), tok, 16, 2);
		mc_trace("%s ~ %s", mc_esc(a), mc_esc(b));
		cmp_pair(a, b);
		mc_cover("short names");
	} else {                  /* names of up to 3 (4) letters */
		int k = mc_tier ? 4 : 3;
		static const char *const t2[] = { "a", "A", "[", "{", "~", "^" };
		mc_tokens(a, sizeof(a), t2, 6, k);
		mc_tokens(b, sizeof(b), t2, 6, k);
		mc_trace("%s ~ %s", mc_esc(a), mc_esc(b));
		cmp_pair(a, b);
		mc_cover("longer names");
	}
}

static void init(void)
{
	static const char *const t[] = { NULL, "CASEMAPPING=rfc1459", "CASEMAPPING=ascii", "CASEMAPPING=strict-rfc1459" };
	int i;
	for (i = 0; i < 4; i++) {
		infos[i] = network_info_init();
		if (t[i]) network_info_parse(infos[i], t[i]);
	}
}
static const struct mc_check chk = { "P02", init, run, 100000, 60,
	"all ordered pairs of bytes (alone, as head, as tail), all pairs of names of at most 2 symbols over the 16 symbols where the mappings differ and of at most 3 (4) over 6 symbols; 4 mappings and none; full and length-limited (0..4) comparison against a reference fold" };
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
