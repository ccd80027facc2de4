/* A canonical text of a tracked network state. */
#ifndef VERIF_DUMP_H
#define VERIF_DUMP_H
#include "pre.h"
static inline int dump_cmp(gconstpointer a, gconstpointer b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static inline void dump_sorted(GString *o, GPtrArray *a)
{
	unsigned i;
	g_ptr_array_sort(a, dump_cmp);
	for (i = 0; i < a->len; i++) { g_string_append(o, a->pdata[i]); g_free(a->pdata[i]); }
	g_ptr_array_free(a, TRUE);
}
static inline void dump_modes(GString *o, irc_modes_t m) { int i; for (i = 0; i < MAXMODES; i++) if (m[i]) g_string_append_printf(o, "%c", i); }
static inline const char *dump_n(const char *s) { return s ? s : "(null)"; }
static inline void dump_nick(GString *o, struct network_nick *n)
{
	g_string_append_printf(o, "nick %s user %s host %s mask %s name %s server %s query %d hops %d modes ", dump_n(n->nick), dump_n(n->username), dump_n(n->hostname), dump_n(n->hostmask), dump_n(n->fullname), dump_n(n->server), !!n->query, n->hops);
	dump_modes(o, n->modes);
	g_string_append_printf(o, " channels %d\n", (int)g_list_length(n->channel_nicks));
}
static inline char *state_dump(struct irc_network_state *s)
{
	GString *o = g_string_new("me "), *t;
	GPtrArray *a;
	GList *l, *k;
	char *x;
	int i;
	dump_nick(o, &s->me);
	g_string_append_printf(o, "away %d\n", !!s->is_away);
	x = network_info_string(s->info);
	g_string_append_printf(o, "info %s map %d\n", dump_n(x), s->info->casemapping);
	g_free(x);
	a = g_ptr_array_new();
	for (l = s->nicks; l; l = l->next) { t = g_string_new(""); dump_nick(t, l->data); g_ptr_array_add(a, g_string_free(t, FALSE)); }
	dump_sorted(o, a);
	a = g_ptr_array_new();
	for (l = s->channels; l; l = l->next) {
		struct irc_channel_state *c = l->data;
		GPtrArray *m = g_ptr_array_new();
		t = g_string_new("");
		g_string_append_printf(t, "channel %s topic %s by %s at %ld type %d created %ld seen %d names %d modes ", c->name, dump_n(c->topic), dump_n(c->topic_set_by), (long)c->topic_set_time, c->mode, (long)c->creation_time, !!c->mode_received, !!c->namreply_started);
		dump_modes(t, c->modes);
		g_string_append(t, "\n");
		for (i = 0; i < MAXMODES; i++) {
			if (c->chanmode_option[i]) g_string_append_printf(t, " option %c %s\n", i, c->chanmode_option[i]);
			if (c->chanmode_nicklist_present[i]) g_string_append_printf(t, " list %c known\n", i);
			for (k = c->chanmode_nicklist[i]; k; k = k->next) {
				struct nicklist_entry *e = k->data;
				g_string_append_printf(t, " list %c %s by %s at %ld\n", i, dump_n(e->hostmask), dump_n(e->by), (long)e->time_set);
			}
		}
		for (k = c->nicks; k; k = k->next) {
			struct channel_nick *n = k->data;
			GString *u = g_string_new("");
			g_string_append_printf(u, " member %s modes ", n->global_nick->nick);
			dump_modes(u, n->modes);
			g_string_append_printf(u, "%s\n", n->channel == c ? "" : " (wrong channel)");
			g_ptr_array_add(m, g_string_free(u, FALSE));
		}
		dump_sorted(t, m);
		g_ptr_array_add(a, g_string_free(t, FALSE));
	}
	dump_sorted(o, a);
	return g_string_free(o, FALSE);
}
/* first differing line of two dumps, as "exp | got" */
static inline const char *dump_diff(const char *a, const char *b)
{
	static char r[2000];
	const char *ea, *eb;
	while (*a && *b) {
		ea = a + strcspn(a, "\n"); eb = b + strcspn(b, "\n");
		if (ea - a != eb - b || memcmp(a, b, ea - a)) break;
		a = *ea ? ea + 1 : ea; b = *eb ? eb + 1 : eb;
	}
	ea = a + strcspn(a, "\n"); eb = b + strcspn(b, "\n");
	snprintf(r, sizeof(r), "<%.*s> became <%.*s>", (int)(ea - a), a, (int)(eb - b), b);
	return r;
}
#endif
