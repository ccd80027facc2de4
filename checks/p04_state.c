/* P04: the tracked network state equals what the server announced.
 * A small IRC server model (3 people, 2 channels) produces every sequence of
 * events visible to us; the real state tracker gets the messages; after every
 * message its state is compared with the model. */
#include "pre.h"

#define NP 3
#define NC 2
#define T0 1000000

time_t __wrap_time(time_t *t) { if (t) *t = T0; return T0; }

static const char *const hosts[NP] = { "mu@mh", "au@ah", "bu@bh" };
static const char *const nicks[NP][3] = { { "me", "Me", "moi" }, { "al[x", "AL{X", "carol" }, { "bob", "bOb", "dave" } };
static const char *const cn[NC][2] = { { "#x", "#X" }, { "&y[", "&Y{" } };
static const char *const topics[4] = { NULL, "t1", "second topic", "" };
static const char *const masks[2] = { "*!*@evil", "x!*@*" };

struct chan {
	int on;
	int member[NP], st[NP];       /* status known: bits o=1 v=2; truth: tst */
	int tst[NP];
	int topic, topic_by, topic_time;
	int tbool, kbool;             /* bits i n t s */
	int tkey, klim_t, kkey, klim; /* 0 none */
	int lst_present[3], tlst[3];
	int created;
	int chmode;                   /* '=', '@', '*' or 0 */
};
static struct { struct chan c[NC]; int nick[NP]; int hostknown[NP]; int umode; int away; int queried[NP]; } M;
static struct irc_network_state *S;
static char boolch[] = "ints";
static const char listch[] = "beI";
static int variant;

static const char *nk(int p) { return nicks[p][M.nick[p]]; }
/* the same nick, spelled differently */
static const char *alt(int p) { static const char *const up[NP] = { "MOI", "Carol", "daVe" }; return M.nick[p] == 2 ? up[p] : nicks[p][!M.nick[p]]; }

static void __attribute__((format(printf,1,2))) feed(const char *fmt, ...)
{
	char b[1024];
	va_list ap;
	struct irc_line *l;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	mc_trace("S: %s", b);
	mc_step();
	l = irc_parse_line(b);
	state_handle_data(S, l);
	free_line(l);
}

static int shares(int p)
{
	int c;
	for (c = 0; c < NC; c++) if (M.c[c].on && M.c[c].member[p]) return 1;
	return 0;
}

/* ---- comparison ---- */
static void bad(const char *what, const char *exp, const char *got) __attribute__((noreturn));
static void bad(const char *what, const char *exp, const char *got) { mc_fail("%s: server says %s, tracked %s", what, mc_esc(exp), mc_esc(got)); }

static const char *modestr(gboolean *m)
{
	static char b[2][300];
	static int k;
	char *p = b[k ^= 1];
	int i;
	for (i = 0; i < MAXMODES; i++) if (m[i]) *p++ = i;
	*p = 0;
	return b[k];
}

static void compare(void)
{
	int c, p, i, n = 0;
	GList *gl, *gl2;
	char w[200], e[200], g[200];
	for (c = 0; c < NC; c++) n += M.c[c].on;
	MC_ASSERT((int)g_list_length(S->channels) == n, "server has us on %d channels, tracked %d", n, (int)g_list_length(S->channels));
	if (strcmp(S->me.nick, nk(0))) bad("own nick", nk(0), S->me.nick);
	if (S->me.hostmask) {
		sprintf(e, "%s!%s", nk(0), hosts[0]);
		if (strcmp(S->me.hostmask, e)) bad("own hostmask", e, S->me.hostmask);
	}
	{
		gboolean um[MAXMODES]; memset(um, 0, sizeof(um));
		if (M.umode & 1) um['i'] = 1;
		if (M.umode & 2) um['w'] = 1;
		if (strcmp(modestr(um), modestr(S->me.modes))) bad("own user modes", modestr(um), modestr(S->me.modes));
	}
	MC_ASSERT(!!S->is_away == M.away, "away: server says %d, tracked %d", M.away, S->is_away);
	for (c = 0; c < NC; c++) {
		struct chan *k = &M.c[c];
		struct irc_channel_state *s = find_channel(S, cn[c][0]);
		MC_ASSERT((s != NULL) == k->on, "channel %s: server has us on it: %d, tracked: %d", cn[c][0], k->on, s != NULL);
		MC_ASSERT(find_channel(S, cn[c][1]) == s, "channel %s is not found under the name %s", cn[c][0], cn[c][1]);
		if (!s) continue;
		MC_ASSERT(s->network == S, "channel %s lost its network", cn[c][0]);
		if (irccmp(S->info, s->name, cn[c][0])) bad("channel name", cn[c][0], s->name);
		for (n = 0, p = 0; p < NP; p++) {
			struct channel_nick *m = find_channel_nick(s, nk(p));
			n += k->member[p];
			sprintf(w, "%s on %s", nk(p), cn[c][0]);
			if ((m != NULL) != k->member[p]) bad(w, k->member[p] ? "present" : "absent", m ? "present" : "absent");
			if (m) {
				gboolean mm[MAXMODES];
				memset(mm, 0, sizeof(mm));
				if (k->st[p] & 1) mm['o'] = 1;
				if (k->st[p] & 2) mm['v'] = 1;
				strcat(w, " status");
				if (strcmp(modestr(mm), modestr(m->modes))) bad(w, modestr(mm), modestr(m->modes));
				MC_ASSERT(m->channel == s, "%s: wrong channel back reference", w);
				if (strcmp(m->global_nick->nick, nk(p))) bad("nick spelling", nk(p), m->global_nick->nick);
				MC_ASSERT(g_list_find(m->global_nick->channel_nicks, m) != NULL, "%s: nick does not know its channel", w);
				if (p == 0) MC_ASSERT(m->global_nick == &S->me, "own membership not tied to own nick");
				else MC_ASSERT(g_list_find(S->nicks, m->global_nick) != NULL, "%s: nick not in the network's list", w);
				sprintf(e, "%s!%s", nk(p), hosts[p]);
				if (M.hostknown[p] && m->global_nick->hostmask == NULL) bad("hostmask", e, NULL);
				if (m->global_nick->hostmask && strcmp(m->global_nick->hostmask, e)) bad("hostmask", e, m->global_nick->hostmask);
				if (m->global_nick->hostmask) {
					sprintf(g, "%s!%s@%s", m->global_nick->nick, m->global_nick->username, m->global_nick->hostname);
					if (strcmp(g, e)) bad("hostmask parts", e, g);
				}
				MC_ASSERT(find_network_nick(S, nk(p)) == m->global_nick, "%s: found under two different records", nk(p));
			}
		}
		MC_ASSERT((int)g_list_length(s->nicks) == n, "channel %s has %d members, tracked %d", cn[c][0], n, (int)g_list_length(s->nicks));
		{
			const char *t = k->topic ? topics[k->topic] : NULL, *gt = s->topic;
			if (t && !*t) t = NULL;
			if (gt && !*gt) gt = NULL;
			if (!streq(t, gt)) bad("topic", t, gt);
			if (t && k->topic_by >= 0) {
				if (!s->topic_set_by || strcmp(s->topic_set_by, k->topic_by == 9 ? "server" : nicks[k->topic_by / 3][k->topic_by % 3]))
					bad("topic set by", k->topic_by == 9 ? "server" : nicks[k->topic_by / 3][k->topic_by % 3], s->topic_set_by);
				MC_ASSERT(s->topic_set_time == k->topic_time, "topic time: server says %d, tracked %d", k->topic_time, (int)s->topic_set_time);
			}
		}
		{
			gboolean mm[MAXMODES];
			int b;
			memset(mm, 0, sizeof(mm));
			for (b = 0; b < 4; b++) if (k->kbool & (1 << b)) mm[(int)boolch[b]] = 1;
			strcpy(e, modestr(mm));
			memcpy(mm, s->modes, sizeof(mm));
			mm['k'] = mm['l'] = 0; /* settings are compared through their values */
			strcpy(g, modestr(mm));
			sprintf(w, "modes of %s", cn[c][0]);
			if (strcmp(e, g)) bad(w, e, g);
			sprintf(e, k->kkey ? "key%d" : "-", k->kkey);
			if (strcmp(e, s->chanmode_option['k'] ? s->chanmode_option['k'] : "-")) bad("channel key", e, s->chanmode_option['k']);
			sprintf(e, k->klim ? "%d" : "-", k->klim);
			if (strcmp(e, s->chanmode_option['l'] ? s->chanmode_option['l'] : "-")) bad("channel limit", e, s->chanmode_option['l']);
			for (i = 0; i < MAXMODES; i++)
				if (i != 'k' && i != 'l') MC_ASSERT(s->chanmode_option[i] == NULL, "unexpected setting for mode %c", i);
		}
		for (i = 0; i < 3; i++) {
			int l = (unsigned char)listch[i], b, cnt = 0;
			sprintf(w, "%c list of %s", l, cn[c][0]);
			MC_ASSERT(!!s->chanmode_nicklist_present[l] == k->lst_present[i], "%s known: %d, tracked %d", w, k->lst_present[i], s->chanmode_nicklist_present[l]);
			if (!k->lst_present[i]) continue;
			for (b = 0; b < 2; b++) {
				cnt += (k->tlst[i] >> b) & 1;
				if ((find_nicklist_entry(s->chanmode_nicklist[l], masks[b]) != NULL) != ((k->tlst[i] >> b) & 1))
					bad(w, (k->tlst[i] >> b) & 1 ? masks[b] : "(nothing)", (k->tlst[i] >> b) & 1 ? "(nothing)" : masks[b]);
			}
			MC_ASSERT((int)g_list_length(s->chanmode_nicklist[l]) == cnt, "%s has %d entries, tracked %d", w, cnt, (int)g_list_length(s->chanmode_nicklist[l]));
		}
		MC_ASSERT((int)s->creation_time == k->created, "creation time: server says %d, tracked %d", k->created, (int)s->creation_time);
		MC_ASSERT(!s->namreply_started && !s->banlist_started && !s->invitelist_started && !s->exceptlist_started, "a listing is still open");
		if (k->chmode) MC_ASSERT(s->mode == k->chmode, "channel type %c, tracked %c", k->chmode, s->mode);
	}
	/* network nick list: members, plus people who talked to us; no duplicates */
	for (gl = S->nicks; gl; gl = gl->next) {
		struct network_nick *nn = gl->data;
		MC_ASSERT(nn->nick != NULL, "record without nick");
		for (gl2 = gl->next; gl2; gl2 = gl2->next)
			MC_ASSERT(irccmp(S->info, nn->nick, ((struct network_nick *)gl2->data)->nick), "two records for %s", nn->nick);
		for (gl2 = nn->channel_nicks; gl2; gl2 = gl2->next) {
			struct channel_nick *m = gl2->data;
			MC_ASSERT(m->global_nick == nn && g_list_find(S->channels, m->channel) && g_list_find(m->channel->nicks, m), "dangling membership of %s", nn->nick);
		}
	}
}

static uint64_t digest(void)
{
	uint64_t h = MC_H0;
	GList *gl, *g2;
	int i;
	h = mc_hash(&M, sizeof(M), h);
	h = mc_hash(&variant, sizeof(variant), h);
	h = mc_hash_str(S->me.hostmask, h);
	/* parts of the implementation state that compare() leaves open */
	for (gl = S->nicks; gl; gl = gl->next) {
		struct network_nick *nn = gl->data;
		h = mc_hash_str(nn->nick, h); h = mc_hash_str(nn->hostmask, h); h = mc_hash(&nn->query, sizeof(nn->query), h);
		h = mc_hash(nn->modes, sizeof(nn->modes), h);
		i = g_list_length(nn->channel_nicks); h = mc_hash(&i, sizeof(i), h);
	}
	for (gl = S->channels; gl; gl = gl->next) {
		struct irc_channel_state *c = gl->data;
		h = mc_hash_str(c->name, h); h = mc_hash_str(c->topic, h); h = mc_hash_str(c->topic_set_by, h);
		h = mc_hash(&c->topic_set_time, sizeof(time_t), h);
		h = mc_hash(c->modes, sizeof(c->modes), h);
		h = mc_hash(&c->mode, 1, h);
		for (g2 = c->nicks; g2; g2 = g2->next) h = mc_hash_str(((struct channel_nick *)g2->data)->global_nick->nick, h);
		for (i = 0; i < 3; i++) for (g2 = c->chanmode_nicklist[(int)listch[i]]; g2; g2 = g2->next) h = mc_hash_str(((struct nicklist_entry *)g2->data)->hostmask, h + i);
	}
	return h;
}

/* ---- events ---- */
enum { JOIN_ME, PART_ME, KICK_ME, NICK, JOIN, PART, KICK, QUIT, TOPIC, MODE, NAMES, R332, R331, R324, R329, LISTS, WHO, USERHOST, UMODE, UMODEIS, AWAY, PRIVMSG, GHOSTNICK, JOIN2, PART2, KICK2 };
struct ev { int e, a, b, c; };
static struct ev evs[400];
static int nev;
static void add(int e, int a, int b, int c) { struct ev *x = &evs[nev++]; x->e = e; x->a = a; x->b = b; x->c = c; }

static const char *const modechg[] = {
	"+o A", "-o A", "+v A", "-v A", "+o M", "-o M", "+ov A M", "+o-v A A", "+i", "-n", "+is-t", "+k key1", "-k key1", "-ko key1 A", "+l 5", "-l", "+kl key2 7", "-lo A", "+b 0", "-b 0", "+bo 1 A", "+e 0", "+I-b 1 0", "+voi A M", "+k-o key1 A",
};
#define NMODE ((int)G_N_ELEMENTS(modechg))

/* apply a mode change to the model; returns 0 when not legal now */
static int apply_mode(struct chan *k, const char *chg, char *out, int dry)
{
	char f[64], *w[6], *p;
	int n = 0, arg = 1, set = 1;
	struct chan t = *k;
	strcpy(f, chg);
	for (p = strtok(f, " "); p; p = strtok(NULL, " ")) w[n++] = p;
	out[0] = 0;
	strcat(out, w[0]);
	for (p = w[0]; *p; p++) {
		int li;
		const char *q;
		if (*p == '+') { set = 1; continue; }
		if (*p == '-') { set = 0; continue; }
		if (*p == 'o' || *p == 'v') {
			int bit = *p == 'o' ? 1 : 2, who = w[arg][0] == 'A' ? 1 : 0;
			if (!t.member[who] || !!(t.tst[who] & bit) == set) return 0;
			if (set) { t.tst[who] |= bit; t.st[who] |= bit; } else { t.tst[who] &= ~bit; t.st[who] &= ~bit; }
			strcat(out, " "); strcat(out, bit == 2 ? alt(who) : nk(who));
			arg++;
		} else if ((q = strchr(listch, *p))) {
			int b = w[arg][0] - '0';
			li = q - listch;
			if (((t.tlst[li] >> b) & 1) == set) return 0;
			if (set) t.tlst[li] |= 1 << b; else t.tlst[li] &= ~(1 << b);
			strcat(out, " "); strcat(out, masks[b]);
			arg++;
		} else if (*p == 'k') {
			if (set) {
				if (t.tkey) return 0;
				t.tkey = t.kkey = w[arg][3] - '0';
			} else {
				if (t.tkey != w[arg][3] - '0') return 0;
				t.tkey = t.kkey = 0;
			}
			strcat(out, " "); strcat(out, w[arg]);
			arg++;
		} else if (*p == 'l') {
			if (set) { if (t.klim_t == atoi(w[arg])) return 0; t.klim_t = t.klim = atoi(w[arg]); strcat(out, " "); strcat(out, w[arg]); arg++; }
			else { if (!t.klim_t) return 0; t.klim_t = t.klim = 0; }
		} else {
			int b = strchr(boolch, *p) - boolch;
			if (((t.tbool >> b) & 1) == set) return 0;
			if (set) { t.tbool |= 1 << b; t.kbool |= 1 << b; } else { t.tbool &= ~(1 << b); t.kbool &= ~(1 << b); }
		}
	}
	if (!dry) *k = t;
	return 1;
}

static void menu(void)
{
	int c, p, i;
	char tmp[128];
	nev = 0;
	for (c = 0; c < NC; c++) {
		struct chan *k = &M.c[c];
		if (!k->on) {
			for (i = 0; i < (c == 0 ? 6 : 2); i++) add(JOIN_ME, c, i, 0);
			continue;
		}
		add(PART_ME, c, 0, 0);
		if (c == 0) add(PART_ME, c, 1, 0);
		for (p = 1; p < NP; p++) if (k->member[p]) { add(KICK_ME, c, p, 0); break; }
		add(KICK_ME, c, 9, 0);
		for (p = 1; p < NP; p++) {
			if (!k->member[p]) { add(JOIN, c, p, 0); if (c == 0) add(JOIN, c, p, 1); }
			else { add(PART, c, p, 0); if (p == 1) add(PART, c, p, 1); add(KICK, c, p, 0); }
		}
		for (i = 1; i < 4; i++) if (c == 0 || i == 1) add(TOPIC, c, i, k->member[1] ? 1 : 0);
		for (i = 0; i < NMODE; i++) {
			if (c == 1 && i % 4) continue;
			if (apply_mode(k, modechg[i], tmp, 1)) add(MODE, c, i, 0);
		}
		add(NAMES, c, 0, 0);
		if (c == 0) {
			add(NAMES, c, 1, 0);
			add(R332, c, 0, 0); add(R324, c, 0, 0); add(R329, c, 0, 0);
			if (!k->topic || k->topic == 3) add(R331, c, 0, 0);
			for (i = 0; i < 3; i++) add(LISTS, c, i, 0);
			add(WHO, c, 0, 0);
		}
	}
	/* messages about several channels at once */
	for (p = 1; p < NP; p++) {
		if (M.c[0].on && M.c[1].on && !M.c[0].member[p] && !M.c[1].member[p]) add(JOIN2, 0, p, 0);
		if (M.c[0].on && M.c[1].on && M.c[0].member[p] && M.c[1].member[p]) { add(PART2, 0, p, 0); add(KICK2, 0, p, 2); }
		if (M.c[0].on && M.c[0].member[p]) { add(KICK2, 0, p, 0); add(KICK2, 0, p, 1); add(PART2, 0, p, 1); }
	}
	if (M.c[0].on && M.c[1].on) add(PART2, 0, 0, 0);
	for (p = 0; p < NP; p++) if (p == 0 || shares(p)) for (i = 0; i < 3; i++) if (i != M.nick[p]) add(NICK, p, i, 0);
	for (p = 1; p < NP; p++) {
		if (shares(p)) add(QUIT, p, 0, 0);
		else if (p == 1) for (i = 0; i < 3; i += 2) if (i != M.nick[p]) add(GHOSTNICK, p, i, 0);
		if (p == 1) { add(PRIVMSG, p, 0, 0); }
	}
	if (M.c[0].on) add(PRIVMSG, 1, 1, 0);
	add(USERHOST, 0, 0, 0);
	for (i = 0; i < 3; i++) add(UMODE, i, 0, 0);
	add(UMODEIS, 0, 0, 0);
	add(AWAY, !M.away, 0, 0);
}

static const char *sname(void) { return "server"; }

static void forget_unseen(void)
{
	int p;
	for (p = 1; p < NP; p++) if (!shares(p)) M.hostknown[p] = 0;
}

static void names(int c, int split)
{
	struct chan *k = &M.c[c];
	int p, first = 1;
	char b[256] = "", type = k->tbool & 8 ? '@' : '='; /* secret or public */
	for (p = 0; p < NP; p++) {
		if (!k->member[p]) continue;
		k->st[p] = k->tst[p] & 1 ? 1 : k->tst[p];
		if (variant & 2) k->st[p] = k->tst[p]; /* multi-prefix */
		sprintf(b + strlen(b), "%s%s%s%s", first ? "" : " ", k->st[p] & 1 ? "@" : "", (k->st[p] & 2) ? "+" : "", nk(p));
		first = 0;
		if (split) { feed(":%s 353 %s %c %s :%s", sname(), nk(0), type, cn[c][0], b); b[0] = 0; first = 1; }
	}
	if (!split) feed(":%s 353 %s %c %s :%s%s", sname(), nk(0), type, cn[c][0], b, variant & 1 ? " " : "");
	feed(":%s 366 %s %s :End of /NAMES list.", sname(), nk(0), cn[c][0]);
	k->chmode = type;
	for (p = 1; p < NP; p++) if (k->member[p]) M.hostknown[p] = 0;
}

static void leave(int c)
{
	memset(&M.c[c], 0, sizeof(M.c[c]));
	forget_unseen();
}

static void fire(struct ev *x)
{
	struct chan *k = &M.c[x->a];
	char b[256], m[256];
	int i, p, n;
	switch (x->e) {
	case JOIN_ME: {
		static const int preset[6][3] = { { 1, -1, -1 }, { 0, 1, -1 }, { 0, 2, 0 }, { 3, 0, 2 }, { 0, 3, 1 }, { 0, -1, 2 } };
		memset(k, 0, sizeof(*k));
		k->on = 1; k->topic_by = -1; k->tbool = 6; /* +nt */
		for (p = 0; p < NP; p++) { k->member[p] = preset[x->b][p] >= 0; k->tst[p] = k->member[p] ? preset[x->b][p] : 0; }
		feed(":%s!%s JOIN %s%s", nk(0), hosts[0], variant & 1 ? ":" : "", cn[x->a][0]);
		if (x->b & 1) {
			k->topic = 1; k->topic_by = 9; k->topic_time = 4242;
			feed(":%s 332 %s %s :%s", sname(), nk(0), cn[x->a][0], topics[1]);
			feed(":%s 333 %s %s server 4242", sname(), nk(0), cn[x->a][0]);
		}
		names(x->a, x->b == 4);
		M.hostknown[0] = 1;
		break; }
	case PART_ME:
		feed(x->b ? ":%s!%s PART %s" : ":%s!%s PART %s :bye all", nk(0), hosts[0], cn[x->a][x->b]);
		leave(x->a);
		break;
	case KICK_ME:
		if (x->b == 9) feed(":%s KICK %s %s :out", sname(), cn[x->a][0], nk(0));
		else feed(":%s!%s KICK %s %s :out you", nk(x->b), hosts[x->b], cn[x->a][1], alt(0));
		leave(x->a);
		break;
	case NICK:
		feed(":%s!%s NICK %s%s", nk(x->a), hosts[x->a], variant & 1 ? ":" : "", nicks[x->a][x->b]);
		M.nick[x->a] = x->b;
		break;
	case GHOSTNICK: /* not visible to us */
		mc_trace("(%s is now %s, unseen)", nk(x->a), nicks[x->a][x->b]);
		M.nick[x->a] = x->b;
		break;
	case JOIN:
		feed(":%s!%s JOIN %s%s", nk(x->b), hosts[x->b], variant & 1 ? ":" : "", cn[x->a][x->c]);
		k->member[x->b] = 1; k->st[x->b] = k->tst[x->b] = 0;
		M.hostknown[x->b] = 1;
		break;
	case PART:
		feed(x->c ? ":%s!%s PART %s" : ":%s!%s PART %s :gone", nk(x->b), hosts[x->b], cn[x->a][0]);
		k->member[x->b] = k->st[x->b] = k->tst[x->b] = 0;
		forget_unseen();
		break;
	case KICK:
		feed(":%s!%s KICK %s %s :off", nk(0), hosts[0], cn[x->a][0], nk(x->b));
		k->member[x->b] = k->st[x->b] = k->tst[x->b] = 0;
		forget_unseen();
		break;
	case JOIN2:
		feed(":%s!%s JOIN %s%s,%s", nk(x->b), hosts[x->b], variant & 1 ? ":" : "", cn[0][0], cn[1][1]);
		for (i = 0; i < NC; i++) { M.c[i].member[x->b] = 1; M.c[i].st[x->b] = M.c[i].tst[x->b] = 0; }
		M.hostknown[x->b] = 1;
		break;
	case PART2:
		if (x->b == 0) {
			feed(":%s!%s PART %s,%s", nk(0), hosts[0], cn[1][0], cn[0][1]);
			leave(0); leave(1);
			break;
		}
		if (x->c) feed(":%s!%s PART #nope,%s :gone", nk(x->b), hosts[x->b], cn[0][0]);
		else feed(":%s!%s PART %s,%s :gone", nk(x->b), hosts[x->b], cn[1][0], cn[0][1]);
		for (i = 0; i < (x->c ? 1 : NC); i++) M.c[i].member[x->b] = M.c[i].st[x->b] = M.c[i].tst[x->b] = 0;
		forget_unseen();
		break;
	case KICK2:
		if (x->c == 0) feed(":%s!%s KICK #nope,%s %s,%s :off", nk(0), hosts[0], cn[0][0], nk(x->b), nk(x->b));
		else if (x->c == 1) feed(":%s!%s KICK %s,%s stranger,%s :off", nk(0), hosts[0], cn[0][0], cn[0][1], nk(x->b));
		else feed(":%s!%s KICK %s,%s %s,%s :off", nk(0), hosts[0], cn[0][0], cn[1][0], alt(x->b), nk(x->b));
		for (i = 0; i < (x->c == 2 ? NC : 1); i++) M.c[i].member[x->b] = M.c[i].st[x->b] = M.c[i].tst[x->b] = 0;
		forget_unseen();
		break;
	case QUIT:
		feed(":%s!%s QUIT :Client quit", nk(x->a), hosts[x->a]);
		for (i = 0; i < NC; i++) M.c[i].member[x->a] = M.c[i].st[x->a] = M.c[i].tst[x->a] = 0;
		M.queried[x->a] = 0;
		forget_unseen();
		break;
	case TOPIC:
		feed(":%s!%s TOPIC %s :%s", nk(x->c), hosts[x->c], cn[x->a][0], topics[x->b]);
		k->topic = x->b; k->topic_by = x->c * 3 + M.nick[x->c]; k->topic_time = T0;
		break;
	case MODE:
		n = k->tlst[0];
		apply_mode(k, modechg[x->b], m, 0);
		if (x->b % 3 == 2) feed(":%s MODE %s %s", sname(), cn[x->a][0], m);
		else {
			struct irc_channel_state *cs;
			feed(":%s!%s MODE %s %s", nk(0), hosts[0], cn[x->a][x->b & 1], m);
			cs = find_channel(S, cn[x->a][0]);
			for (i = 0; i < 2; i++) if (cs && k->lst_present[0] && (k->tlst[0] & ~n & (1 << i))) {
				struct nicklist_entry *be = find_nicklist_entry(channel_mode_nicklist(cs, 'b'), masks[i]);
				MC_ASSERT(be && streq(be->by, nk(0)) && be->time_set == T0, "ban %s just set by %s is recorded as set by %s at %ld", masks[i], nk(0), be ? be->by : "(absent)", be ? (long)be->time_set : 0L);
			}
		}
		break;
	case NAMES: names(x->a, x->b); break;
	case R332:
		if (k->topic && k->topic != 3) {
			feed(":%s 332 %s %s :%s", sname(), nk(0), cn[x->a][0], topics[k->topic]);
			k->topic_by = 9; k->topic_time = 777;
			feed(":%s 333 %s %s server 777", sname(), nk(0), cn[x->a][0]);
		} else { k->topic = 2; k->topic_by = -1; feed(":%s 332 %s %s :%s", sname(), nk(0), cn[x->a][0], topics[2]); feed(":%s 333 %s %s server 778", sname(), nk(0), cn[x->a][0]); k->topic_by = 9; k->topic_time = 778; }
		break;
	case R331:
		feed(":%s 331 %s %s :No topic is set", sname(), nk(0), cn[x->a][0]);
		k->topic = 0;
		break;
	case R324:
		b[0] = '+'; b[1] = 0;
		for (i = 0; i < 4; i++) if (k->tbool & (1 << i)) { int z = strlen(b); b[z] = boolch[i]; b[z + 1] = 0; }
		m[0] = 0;
		if (k->tkey) { strcat(b, "k"); sprintf(m + strlen(m), " key%d", k->tkey); }
		if (k->klim_t) { strcat(b, "l"); sprintf(m + strlen(m), " %d", k->klim_t); }
		feed(":%s 324 %s %s %s%s", sname(), nk(0), cn[x->a][0], b, m);
		k->kbool = k->tbool; k->kkey = k->tkey; k->klim = k->klim_t;
		break;
	case R329:
		feed(":%s 329 %s %s 31337", sname(), nk(0), cn[x->a][0]);
		k->created = 31337;
		break;
	case LISTS: {
		static const char *const ent[3] = { "367", "348", "346" }, *const end[3] = { "368", "349", "347" };
		for (i = 0; i < 2; i++) if (k->tlst[x->b] & (1 << i)) {
			if (x->b == 0) feed(":%s %s %s %s %s al!x@y 12345", sname(), ent[x->b], nk(0), cn[x->a][0], masks[i]);
			else feed(":%s %s %s %s %s", sname(), ent[x->b], nk(0), cn[x->a][0], masks[i]);
		}
		feed(":%s %s %s %s :End of list", sname(), end[x->b], nk(0), cn[x->a][0]);
		k->lst_present[x->b] = 1;
		if (x->b == 0) {
			struct irc_channel_state *cs = find_channel(S, cn[x->a][0]);
			for (i = 0; i < 2; i++) if (k->tlst[0] & (1 << i)) {
				struct nicklist_entry *be = cs ? find_nicklist_entry(channel_mode_nicklist(cs, 'b'), masks[i]) : NULL;
				MC_ASSERT(be && streq(be->by, "al!x@y") && be->time_set == 12345, "ban on %s set by al!x@y at 12345 is recorded as set by %s at %ld", masks[i], be ? be->by : "(absent)", be ? (long)be->time_set : 0L);
			}
		}
		break; }
	case WHO:
		for (p = 0; p < NP; p++) if (k->member[p]) {
			char u[32], *h;
			strcpy(u, hosts[p]); h = strchr(u, '@'); *h++ = 0;
			feed(":%s 352 %s %s %s %s irc.server %s H%s :%d Real Name %d", sname(), nk(0), cn[x->a][0], u, h, nk(p), k->tst[p] & 1 ? "@" : "", p, p);
			M.hostknown[p] = 1;
		}
		feed(":%s 315 %s %s :End of /WHO list.", sname(), nk(0), cn[x->a][0]);
		for (p = 0; p < NP; p++) if (k->member[p]) {
			struct network_nick *nn = find_network_nick(S, nk(p));
			char r[32];
			sprintf(r, "Real Name %d", p);
			{
				struct irc_channel_state *cs = find_channel(S, cn[x->a][0]);
				struct channel_nick *m = cs ? find_channel_nick(cs, nk(p)) : NULL;
				MC_ASSERT(m && m->last_update != 0 && streq(m->last_flags, k->tst[p] & 1 ? "H@" : "H"), "WHO flags of %s on %s not recorded", nk(p), cn[x->a][0]);
			}
			MC_ASSERT(nn && nn->hops == p && streq(nn->server, "irc.server"), "WHO data of %s not recorded", nk(p));
			MC_ASSERT(streq(nn->fullname, r), "real name of %s recorded as %s", nk(p), nn->fullname);
		}
		break;
	case USERHOST:
		b[0] = 0;
		for (p = 0; p < NP; p++) if (shares(p)) {
			sprintf(b + strlen(b), "%s%s%s=%s%s", b[0] ? " " : "", nk(p), p & 3 ? "*" : "", p == 1 ? "-" : "+", hosts[p]);
			M.hostknown[p] = 1;
		}
		feed(":%s 302 %s :%s", sname(), nk(0), b);
		break;
	case UMODE: {
		static const char *const um[3] = { "+i", "-i", "+iw" };
		feed(":%s MODE %s :%s", nk(0), nk(0), um[x->a]);
		if (x->a == 0) M.umode |= 1;
		if (x->a == 1) M.umode &= ~1;
		if (x->a == 2) M.umode |= 3;
		break; }
	case UMODEIS:
		feed(":%s 221 %s +%s%s", sname(), nk(0), M.umode & 1 ? "i" : "", M.umode & 2 ? "w" : "");
		break;
	case AWAY:
		M.away = x->a;
		feed(M.away ? ":%s 306 %s :You have been marked as being away" : ":%s 305 %s :You are no longer marked as being away", sname(), nk(0));
		break;
	case PRIVMSG:
		feed(":%s!%s PRIVMSG %s :hello there", nk(x->a), hosts[x->a], x->b ? cn[0][0] : nk(0));
		break;
	}
}

static void nolog(enum log_level l, void *u, const char *m) { }

static void run(void)
{
	int depth = mc_tier ? 6 : 4, i;
	static const char *const names_[] = { "JOIN_ME", "PART_ME", "KICK_ME", "NICK", "JOIN", "PART", "KICK", "QUIT", "TOPIC", "MODE", "NAMES", "R332", "R331", "R324", "R329", "LISTS", "WHO", "USERHOST", "UMODE", "UMODEIS", "AWAY", "PRIVMSG", "GHOSTNICK", "JOIN2", "PART2", "KICK2" };
	memset(&M, 0, sizeof(M));
	variant = mc_choose(4);
	S = network_state_init(variant & 2 ? "wanted" : "me", "mu", "mh");
	network_state_set_log_fn(S, nolog, NULL);
	feed(":%s 001 me :Welcome", sname());
	if (variant & 1) {
		feed(":%s 004 me %s v1 iw biklmnostveI", sname(), sname());
		feed(":%s 005 me CASEMAPPING=rfc1459 CHANTYPES=#& PREFIX=(ov)@+ CHANMODES=beI,k,l,imnpst :are supported by this server", sname());
	}
	for (i = 0; i < depth; i++) {
		struct ev x;
		if (mc_state(digest(), depth - i)) break;
		menu();
		x = evs[mc_choose(nev)];
		mc_cover(names_[x.e]);
		fire(&x);
		compare();
	}
	mc_outcome(digest());
	free_network_state(S);
	S = NULL;
}

static void init(void) { }
static const struct mc_check chk = { "P04", init, run, 5000, 30,
	"all sequences of at most 4 (6) server events over 3 people and 2 channels (joins with 6 initial member lists, parts, kicks, quits, visible and unseen renames, 25 channel mode changes, topics, names/who/userhost/list/mode queries, away, private messages; messages about several channels, also unknown ones; case variants of names; with and without feature announcement; multi-prefix), pruned on the joint model/implementation state" };
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
