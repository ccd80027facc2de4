/* P03: server feature announcements are tracked, answered from and repeated faithfully. */
#include "pre.h"

void log_global(enum log_level level, const char *fmt, ...);

/* token alphabet.  known: the token must be repeated to clients verbatim. */
struct tok { const char *t; int echo; };
static const struct tok toks[] = {
	{ "CASEMAPPING=ascii", 1 }, { "CASEMAPPING=rfc1459", 1 }, { "CASEMAPPING=strict-rfc1459", 1 }, { "CASEMAPPING=foo", 0 }, { "CASEMAPPING", 0 }, { "CASEMAPPING=", 0 },
	{ "PREFIX=(ov)@+", 1 }, { "PREFIX=(qaohv)~&@%+", 1 }, { "PREFIX=", 1 }, { "PREFIX", 0 }, { "PREFIX=(ov)@", 0 }, { "PREFIX=(o)@+", 0 }, { "PREFIX=ov@+", 0 }, { "PREFIX=(ov", 0 }, { "PREFIX=()", 1 }, { "PREFIX=(Yqaohv)!~&@%+", 1 },
	{ "CHANTYPES=#", 1 }, { "CHANTYPES=&#+!", 1 }, { "CHANTYPES=", 1 }, { "CHANTYPES", 0 },
	{ "CHANMODES=b,k,l,imnpst", 1 }, { "CHANMODES=beI,kfL,lj,psmntirRcOAQKVCuzNSMTG", 1 }, { "CHANMODES=b,k", 0 }, { "CHANMODES=", 0 }, { "CHANMODES", 0 }, { "CHANMODES=,,,", 1 }, { "CHANMODES=b,,,", 1 }, { "CHANMODES=b,k,l,i,x", 1 },
	{ "NICKLEN=9", 1 }, { "NICKLEN", 0 }, { "NICKLEN=", 0 }, { "MAXNICKLEN=12", 0 }, { "NICKLEN=x", 0 },
	{ "USERLEN=10", 1 }, { "USERLEN", 0 }, { "HOSTLEN=63", 1 }, { "HOSTLEN", 0 }, { "CHANNELLEN=50", 1 }, { "CHANNELLEN", 0 }, { "MAXCHANNELLEN=31", 0 },
	{ "AWAYLEN=160", 1 }, { "AWAYLEN", 0 }, { "KICKLEN=255", 1 }, { "KICKLEN", 0 }, { "TOPICLEN=300", 1 }, { "TOPICLEN", 0 },
	{ "WATCH=128", 1 }, { "WATCH", 0 }, { "VBANLIST", 1 }, { "MAXPARA=32", 1 }, { "MAXPARA", 0 }, { "MAXCHANNELS=20", 1 }, { "MAXCHANNELS", 0 }, { "MAXTARGETS=4", 1 }, { "MAXTARGETS", 0 },
	{ "REMOVE", 1 }, { "MAXBANS=60", 1 }, { "MAXBANS", 0 }, { "MODES=6", 1 }, { "MODES", 0 }, { "MODES=", 0 }, { "WALLCHOPS", 1 }, { "MAP", 1 }, { "SSL", 1 }, { "SSL=1.2.3.4:6697", 0 }, { "WALLVOICES", 1 }, { "RFC2812", 1 }, { "PENALTY", 1 }, { "FNC", 1 },
	{ "SAFELIST", 1 }, { "USERIP", 1 }, { "CPRIVMSG", 1 }, { "CNOTICE", 1 }, { "KNOCK", 1 }, { "CAPAB", 1 }, { "HCN", 1 }, { "VCHANNELS", 1 }, { "WHOX", 1 }, { "CALLERID", 1 }, { "CALLERID=g", 0 }, { "ACCEPT", 1 }, { "ESILENCE", 1 }, { "UHNAMES", 1 }, { "OVERRIDE", 1 },
	{ "KEYLEN=23", 1 }, { "KEYLEN", 0 }, { "SILENCE", 0 }, { "SILENCE=15", 1 }, { "SILENCE=", 0 }, { "CHANLIMIT=#:120", 1 }, { "CHANLIMIT", 0 },
	{ "EXCEPTS", 0 }, { "EXCEPTS=e", 1 }, { "EXCEPTS=", 0 }, { "EXCEPTS=ee", 0 }, { "INVEX", 0 }, { "INVEX=I", 1 }, { "INVEX=", 0 }, { "INVEX=II", 0 },
	{ "ELIST=MNUCT", 1 }, { "ELIST=U", 1 }, { "ELIST=M", 1 }, { "ELIST=N", 1 }, { "ELIST=C", 1 }, { "ELIST=T", 1 }, { "ELIST=MC", 1 }, { "ELIST=NT", 1 }, { "ELIST=UT", 1 }, { "ELIST=MCT", 1 }, { "ELIST", 0 }, { "ELIST=", 0 }, { "ELIST=XU", 0 }, { "DEAF", 0 }, { "DEAF=D", 1 }, { "DEAF=", 0 }, { "DEAF=xx", 0 },
	{ "EXTBAN=~,cqnr", 1 }, { "EXTBAN=$,ajrxz", 1 }, { "EXTBAN", 0 }, { "EXTBAN=", 0 }, { "EXTBAN=~", 0 }, { "MAXLIST=bqeI:100", 1 }, { "MAXLIST", 0 }, { "IDCHAN=!:5", 1 }, { "IDCHAN", 0 }, { "STATUSMSG=@+", 1 }, { "STATUSMSG", 0 },
	{ "CHARSET=utf-8", 1 }, { "CHARSET", 0 }, { "NAMESX", 1 }, { "SECURELIST", 1 }, { "NETWORK=FooNet", 1 }, { "NETWORK", 0 }, { "NETWORK=", 0 }, { "IRCD=unreal", 1 }, { "IRCD", 0 },
	{ "UNKNOWN", 0 }, { "UNKNOWN=1", 0 }, { "=x", 0 }, { "=", 0 }, { "", 0 }, { "-EXCEPTS", 0 }, { "prefix=(ov)@+", 0 }, { "casemapping=ascii", 0 },
};
#define NTOK ((int)G_N_ELEMENTS(toks))

/* reference for the structured tokens */
struct ref {
	char prefix[64], chantypes[32];
	char cm[4][64];
	int casemap;
};

static void ref_init(struct ref *r)
{
	strcpy(r->prefix, "(ov)@+"); strcpy(r->chantypes, "#&");
	strcpy(r->cm[0], "beI"); strcpy(r->cm[1], "k"); strcpy(r->cm[2], "l"); strcpy(r->cm[3], "imnpsta");
	r->casemap = CASEMAP_UNKNOWN;
}

/* returns 1 when the value of the token leaves the choice of behaviour open */
static int ref_apply(struct ref *r, const char *t)
{
	const char *v = strchr(t, '=');
	int kl = v ? v - t : (int)strlen(t);
	if (v) v++;
#define KEY(k) (kl == (int)strlen(k) && !strncasecmp(t, k, kl))
	if (KEY("CASEMAPPING")) {
		if (!v) return 0;
		if (!strcasecmp(v, "ascii")) r->casemap = CASEMAP_ASCII;
		else if (!strcasecmp(v, "rfc1459")) r->casemap = CASEMAP_RFC1459;
		else if (!strcasecmp(v, "strict-rfc1459")) r->casemap = CASEMAP_STRICT_RFC1459;
		else r->casemap = CASEMAP_UNKNOWN;
	}
	if (KEY("PREFIX")) {
		if (!v) return 1;
		if (*v && (v[0] != '(' || !strchr(v, ')'))) return 0; /* malformed: ignored */
		if (*v && strlen(v) != 2 + 2 * (size_t)(strchr(v, ')') - v - 1)) return 1;
		strcpy(r->prefix, v);
	}
	if (KEY("CHANTYPES")) { if (!v) return 1; strcpy(r->chantypes, v); }
	if (KEY("CHANMODES")) {
		char b[128], *p;
		int n = 0, i;
		if (!v) return 1;
		for (i = 0; v[i]; i++) n += v[i] == ',';
		if (n < 3) return 1;
		strcpy(b, v); p = b;
		for (i = 0; i < 4; i++) {
			char *e = i < 3 ? strchr(p, ',') : NULL;
			if (e) *e = 0;
			strcpy(r->cm[i], p);
			if (e) p = e + 1;
		}
	}
	return 0;
}

static void queries(struct irc_network_info *n, char *out)
{
	int i;
	char *p = out, nm[4];
	for (i = 1; i < 256; i++) {
		nm[0] = i; nm[1] = 'a'; nm[2] = 0;
		p += sprintf(p, "%c", is_channelname(nm, n) ? 'c' : '.');
		p += sprintf(p, "%c", is_prefix((char)i, n) ? 'p' : '.');
		p += sprintf(p, "%d,%d,%d;", get_mode_by_prefix((char)i, n), get_prefix_by_mode((char)i, n), network_chanmode_type((char)i, n));
	}
	*p = 0;
}

static char *modes_of(const char *prefix, int *n)
{
	static char b[64];
	char *e = strchr(prefix, ')');
	*n = 0;
	if (prefix[0] != '(' || !e) { b[0] = 0; return b; }
	memcpy(b, prefix + 1, e - prefix - 1);
	b[e - prefix - 1] = 0;
	*n = strlen(b);
	return b;
}

static void check_ref(struct irc_network_info *n, struct ref *r, const char *hist)
{
	int i, nm, k;
	char name[4], *modes = modes_of(r->prefix, &nm);
	const char *pref = strchr(r->prefix, ')') ? strchr(r->prefix, ')') + 1 : r->prefix;
	int cm = n->casemapping == CASEMAP_RFC1459 ? CASEMAP_UNKNOWN : n->casemapping, rm = r->casemap == CASEMAP_RFC1459 ? CASEMAP_UNKNOWN : r->casemap;
	MC_ASSERT(cm == rm, "%s: case mapping is %d, expected %d", hist, n->casemapping, r->casemap);
	MC_ASSERT(!is_channelname("", n), "%s: the empty name counts as a channel", hist);
	for (i = 1; i < 256; i++) {
		char *q;
		int t = 0;
		name[0] = i; name[1] = 'x'; name[2] = 0;
		MC_ASSERT(!!is_channelname(name, n) == (strchr(r->chantypes, i) != NULL), "%s: name starting with %c: channel? %d", hist, i, is_channelname(name, n));
		MC_ASSERT(!!is_prefix((char)i, n) == (strchr(pref, i) != NULL), "%s: is %c a status prefix? %d", hist, i, is_prefix((char)i, n));
		q = strchr(pref, i);
		MC_ASSERT((unsigned char)get_mode_by_prefix((char)i, n) == (q ? (unsigned char)modes[q - pref] : 0), "%s: mode for prefix %c is %d", hist, i, get_mode_by_prefix((char)i, n));
		q = strchr(modes, i);
		MC_ASSERT(get_prefix_by_mode((char)i, n) == (q ? pref[q - modes] : ' '), "%s: prefix for mode %c is %d", hist, i, get_prefix_by_mode((char)i, n));
		for (k = 3; k >= 0; k--) if (strchr(r->cm[k], i)) t = k + 1;
		MC_ASSERT((int)network_chanmode_type((char)i, n) == t, "%s: channel mode %c has type %d, expected %d", hist, i, network_chanmode_type((char)i, n), t);
	}
	/* highest status wins, whatever the combination */
	for (k = 0; k < (1 << nm); k++) {
		irc_modes_t m;
		char want = 0;
		memset(m, 0, sizeof(m));
		for (i = nm - 1; i >= 0; i--) if (k & (1 << i)) { m[(unsigned char)modes[i]] = 1; want = pref[i]; }
		mc_step();
		MC_ASSERT(get_prefix_from_modes(n, m) == want, "%s: status set %x shows prefix %d, expected %d", hist, k, get_prefix_from_modes(n, m), want);
	}
}

static int has_token(const char *s, const char *t)
{
	size_t n = strlen(t);
	const char *p = s;
	while ((p = strstr(p, t))) {
		if ((p == s || p[-1] == ' ') && (p[n] == ' ' || p[n] == 0)) return 1;
		p += 1;
	}
	return 0;
}

static int same_key(const char *a, const char *b)
{
	size_t ka = strcspn(a, "="), kb = strcspn(b, "=");
	return ka == kb && !strncasecmp(a, b, ka);
}

/* whole 005 messages, up to as many tokens as fit in a message: each token counts, and nothing else */
static void lines(void)
{
	static int ord[NTOK];
	int n = 0, i, j, k, at = 0, start, step;
	struct irc_network_state *st = network_state_init("me", "u", "h");
	struct irc_network_info *want = network_info_init();
	char *a, *b;
	for (i = 0; i < NTOK; i++) if (toks[i].echo) ord[n++] = i;
	start = mc_choose_l(n, "first token");
	step = mc_choose_l(3, "order") * 2 + 1;
	for (k = 0; k < 2; k++) {
		int c = k == 0 ? 1 + mc_choose_l(13, "tokens") : mc_choose_l(mc_tier ? 14 : 3, "tokens in the second message") * (mc_tier ? 1 : 6) + (mc_tier ? 0 : 1);
		GString *g = g_string_new(":srv.net 005 me");
		struct irc_line *l;
		if (c > 13) c = 13;
		for (i = 0; i < c; i++, at++) {
			const char *t = toks[ord[(start + at * step) % n]].t;
			g_string_append_printf(g, " %s", t);
			network_info_parse(want, t);
		}
		g_string_append(g, k ? " :are supported by this server" : " :WALLCHOPS are supported");
		mc_trace("%s", g->str);
		mc_step();
		l = irc_parse_line(g->str);
		state_handle_data(st, l);
		free_line(l);
		g_string_free(g, TRUE);
	}
	a = network_info_string(st->info); b = network_info_string(want);
	for (j = 0; a[j] && a[j] == b[j]; j++);
	MC_ASSERT(!strcmp(a, b), "announced in messages the features are %s, one by one %s", a, b);
	mc_outcome(mc_hash_str(a, MC_H0));
	mc_cover("announcements");
	g_free(a); g_free(b);
	free_network_state(st); free_network_info(want);
}

static void run(void)
{
	if (mc_choose_l(2, "part")) { lines(); return; }
	{
	int n = 1 + mc_choose(mc_tier ? 3 : 2), i, j, open = 0, dummy;
	int idx[3];
	char hist[300] = "";
	static char q1[8192], q2[8192];
	struct irc_network_info *info = network_info_init(), *info2;
	struct ref r;
	char *s, *s2;
	if (mc_choose(2)) info->supported_channel_modes = g_strdup("bklimnpst");
	ref_init(&r);
	for (i = 0; i < n; i++) {
		/* the third token is drawn from the structured ones only */
		idx[i] = mc_choose(i < 2 ? NTOK : 28);
		sprintf(hist + strlen(hist), "%s%s", i ? " " : "", toks[idx[i]].t);
	}
	mc_trace("005 %s", hist);
	for (i = 0; i < n; i++) {
		network_info_parse(info, toks[idx[i]].t);
		mc_step();
		open |= ref_apply(&r, toks[idx[i]].t);
	}
	if (!open) check_ref(info, &r, hist);
	queries(info, q1);
	s = network_info_string(info);
	mc_trace("-> %s", s);
	MC_ASSERT(strstr(s, "(null)") == NULL, "%s: repeated as %s", hist, s);
	for (i = 0; i < n; i++) {
		int later = 0;
		for (j = i + 1; j < n; j++) later |= same_key(toks[idx[i]].t, toks[idx[j]].t) || (strstr(toks[idx[i]].t, "LEN=") && strstr(toks[idx[j]].t, "LEN"))
			|| (!strncmp(toks[idx[i]].t, "ELIST", 5) && !strncmp(toks[idx[j]].t, "ELIST", 5));
		for (j = 0; j < i; j++) later |= !strncmp(toks[idx[i]].t, "ELIST", 5) && !strncmp(toks[idx[j]].t, "ELIST", 5);
		if (toks[idx[i]].echo && !later)
			MC_ASSERT(has_token(s, toks[idx[i]].t), "%s: announced token %s is not repeated to clients: %s", hist, toks[idx[i]].t, s);
	}
	/* what clients are told means the same thing again */
	info2 = network_info_init();
	{
		char **v = g_strsplit(s, " ", 0);
		for (i = 0; v[i]; i++) network_info_parse(info2, v[i]);
		g_strfreev(v);
	}
	queries(info2, q2);
	MC_ASSERT(!strcmp(q1, q2), "%s: the repeated announcement (%s) means something else", hist, s);
	s2 = network_info_string(info2);
	MC_ASSERT(!strcmp(s, s2), "%s: repeated as %s, and that as %s", hist, s, s2);
	mc_outcome(mc_hash_str(s, MC_H0));
	/* queries with unusual arguments must not crash */
	dummy = is_channel_mode(info, 'b') + is_user_mode(info, 'i') + is_prefix(0, info) + is_prefix('@', NULL) + (get_charset(info) != NULL);
	(void)dummy;
	g_free(s); g_free(s2);
	free_network_info(info); free_network_info(info2);
	}
}

static void init(void) { }
static const struct mc_check chk = { "P03", init, run, 20000, 60,
	"every 005 message of 1-13 tokens followed by another; every sequence of at most 2 tokens (thorough: 3) from 150 announcement tokens (every supported token; valueless, empty, malformed, lower case and unknown forms); after each, all 255 answers of every query, all status combinations, and the regenerated announcement parsed again" };
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
