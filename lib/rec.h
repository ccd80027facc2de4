/* A small, strict IRC client: what somebody who only reads the messages would
 * know.  Written from the protocol, shares no code with the proxy.  What cannot
 * be (a join of a channel it is on, somebody unknown renamed) is noted in bad. */
#ifndef VERIF_REC_H
#define VERIF_REC_H
#include <glib.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <time.h>

struct rmem { char nick[128]; char modes[12]; int listed; };
struct rchan {
	char name[512];
	GPtrArray *m;             /* struct rmem */
	char *topic, *by;
	long at;
	char modes[64], *arg[256]; /* simple modes and their parameters */
	int names_open, names_done;
	char kind;                /* as the list of names tells */
};
struct rec {
	char nick[128];
	int welcome, away;
	int rejoin;               /* joining again after a netsplit is fine */
	char umodes[64];
	char pm[16], pc[16];      /* prefix modes and characters, highest first */
	char types[16], cm[4][64];
	int map;                  /* 0 rfc1459, 1 ascii, 2 strict */
	GPtrArray *ch;
	char bad[600];
};
static inline char rec_lower(struct rec *r, unsigned char c)
{
	if (c >= 'A' && c <= 'Z') return c + 32;
	if (r->map != 1) {
		if (c == '[') return '{';
		if (c == ']') return '}';
		if (c == '\\') return '|';
		if (c == '^' && r->map == 0) return '~';
	}
	return c;
}
static inline int rec_eq(struct rec *r, const char *a, const char *b)
{
	while (*a && *b && rec_lower(r, *a) == rec_lower(r, *b)) a++, b++;
	return !*a && !*b;
}
static inline void rec_init(struct rec *r)
{
	memset(r, 0, sizeof(*r));
	strcpy(r->pm, "ov"); strcpy(r->pc, "@+"); strcpy(r->types, "#&");
	strcpy(r->cm[0], "beI"); strcpy(r->cm[1], "k"); strcpy(r->cm[2], "l"); strcpy(r->cm[3], "imnpst");
	r->ch = g_ptr_array_new();
}
static inline void rec_chan_free(struct rchan *c)
{
	unsigned i;
	for (i = 0; i < c->m->len; i++) g_free(c->m->pdata[i]);
	for (i = 0; i < 256; i++) g_free(c->arg[i]);
	g_ptr_array_free(c->m, TRUE);
	g_free(c->topic); g_free(c->by); g_free(c);
}
static inline void rec_free(struct rec *r)
{
	unsigned i;
	for (i = 0; i < r->ch->len; i++) rec_chan_free(r->ch->pdata[i]);
	g_ptr_array_free(r->ch, TRUE);
	r->ch = NULL;
}
static inline void rec_bad(struct rec *r, const char *what, const char *line)
{
	if (!r->bad[0]) snprintf(r->bad, sizeof(r->bad), "%s: %s", what, line);
}
static inline struct rchan *rec_chan(struct rec *r, const char *n)
{
	unsigned i;
	for (i = 0; n && i < r->ch->len; i++) if (rec_eq(r, ((struct rchan *)r->ch->pdata[i])->name, n)) return r->ch->pdata[i];
	return NULL;
}
static inline struct rmem *rec_mem(struct rec *r, struct rchan *c, const char *n)
{
	unsigned i;
	for (i = 0; n && i < c->m->len; i++) if (rec_eq(r, ((struct rmem *)c->m->pdata[i])->nick, n)) return c->m->pdata[i];
	return NULL;
}
static inline struct rmem *rec_add(struct rec *r, struct rchan *c, const char *n)
{
	struct rmem *m = g_new0(struct rmem, 1);
	snprintf(m->nick, sizeof(m->nick), "%s", n);
	g_ptr_array_add(c->m, m);
	return m;
}
static inline void rec_del(struct rec *r, struct rchan *c, struct rmem *m) { g_ptr_array_remove(c->m, m); g_free(m); }
static inline void rec_leave(struct rec *r, struct rchan *c) { g_ptr_array_remove(r->ch, c); rec_chan_free(c); }
static inline void rec_flag(char *set, char f, int on)
{
	char *p = strchr(set, f);
	if (on && !p) { size_t n = strlen(set); set[n] = f; set[n + 1] = 0; }
	if (!on && p) memmove(p, p + 1, strlen(p));
}
static inline int rec_is_chan(struct rec *r, const char *n) { return n && *n && strchr(r->types, *n); }
/* splits a raw line; returns the number of words */
static inline int rec_split(char *l, char **org, char **a, int max)
{
	int n = 0;
	*org = NULL;
	if (*l == ':') { *org = l + 1; l = strchr(l, ' '); if (!l) return 0; *l++ = 0; }
	while (*l && n < max) {
		while (*l == ' ') l++;
		if (!*l) break;
		if (*l == ':' && n) { a[n++] = l + 1; break; }
		a[n++] = l;
		l += strcspn(l, " ");
		if (*l) *l++ = 0;
	}
	return n;
}
static inline void rec_modes(struct rec *r, struct rchan *c, char **a, int n, const char *line)
{
	int on = 1, k = 1;
	const char *p;
	for (p = a[0]; *p; p++) {
		if (*p == '+') on = 1;
		else if (*p == '-') on = 0;
		else if (strchr(r->pm, *p)) {
			struct rmem *m = k < n ? rec_mem(r, c, a[k]) : NULL;
			k++;
			if (m) rec_flag(m->modes, *p, on); else rec_bad(r, "status of somebody who is not there", line);
		} else if (strchr(r->cm[0], *p)) k++;
		else if (strchr(r->cm[1], *p) || strchr(r->cm[2], *p)) {
			int i = (unsigned char)*p;
			rec_flag(c->modes, *p, on);
			g_free(c->arg[i]); c->arg[i] = NULL;
			if (on) { c->arg[i] = g_strdup(k < n ? a[k] : "?"); k++; }
			else if (strchr(r->cm[1], *p)) k++;
		} else rec_flag(c->modes, *p, on);
	}
}
static inline void rec_feed(struct rec *r, const char *line)
{
	char *buf = g_strdup(line), *o, *a[64], who[300] = "";
	int n = rec_split(buf, &o, a, 64), i, self;
	struct rchan *c;
	struct rmem *m;
	unsigned k;
	if (n == 0) { g_free(buf); return; }
	if (o) snprintf(who, sizeof(who), "%.*s", (int)strcspn(o, "!"), o);
	self = who[0] && rec_eq(r, who, r->nick);
	if (!strcmp(a[0], "001")) { r->welcome = 1; snprintf(r->nick, sizeof(r->nick), "%s", n > 1 ? a[1] : ""); }
	else if (!strcmp(a[0], "005")) {
		for (i = 2; i < n - 1; i++) {
			if (!strncmp(a[i], "PREFIX=(", 8)) {
				char *e = strchr(a[i], ')');
				snprintf(r->pm, sizeof(r->pm), "%.*s", (int)(e - a[i] - 8), a[i] + 8);
				snprintf(r->pc, sizeof(r->pc), "%s", e + 1);
			} else if (!strncmp(a[i], "CASEMAPPING=", 12)) r->map = !strcmp(a[i] + 12, "ascii") ? 1 : !strcmp(a[i] + 12, "strict-rfc1459") ? 2 : 0;
			else if (!strncmp(a[i], "CHANTYPES=", 10)) snprintf(r->types, sizeof(r->types), "%s", a[i] + 10);
			else if (!strncmp(a[i], "CHANMODES=", 10)) {
				char **v = g_strsplit(a[i] + 10, ",", 4);
				int j;
				for (j = 0; j < 4 && v[j]; j++) snprintf(r->cm[j], sizeof(r->cm[j]), "%s", v[j]);
				g_strfreev(v);
			}
		}
	} else if (!strcmp(a[0], "JOIN") && n > 1) {
		c = rec_chan(r, a[1]);
		if (self) {
			if (c) { if (!r->rejoin) rec_bad(r, "joins a channel it is on", line); rec_leave(r, c); }
			c = g_new0(struct rchan, 1);
			snprintf(c->name, sizeof(c->name), "%s", a[1]);
			c->m = g_ptr_array_new();
			g_ptr_array_add(r->ch, c);
			rec_add(r, c, who);
		} else if (!c) rec_bad(r, "somebody joins a channel it is not on", line);
		else if (rec_mem(r, c, who)) rec_bad(r, "somebody joins who is there", line);
		else rec_add(r, c, who);
	} else if ((!strcmp(a[0], "PART") && n > 1) || (!strcmp(a[0], "KICK") && n > 2)) {
		const char *v = a[0][0] == 'K' ? a[2] : who;
		c = rec_chan(r, a[1]);
		if (!c) rec_bad(r, "leaving a channel it is not on", line);
		else if (rec_eq(r, v, r->nick)) rec_leave(r, c);
		else if (!(m = rec_mem(r, c, v))) rec_bad(r, "somebody leaves who is not there", line);
		else rec_del(r, c, m);
	} else if (!strcmp(a[0], "QUIT")) {
		int seen = 0;
		if (self) { while (r->ch->len) rec_leave(r, r->ch->pdata[0]); rec_bad(r, "told that it quit itself", line); }
		for (k = 0; k < r->ch->len; k++) if ((m = rec_mem(r, r->ch->pdata[k], who))) { rec_del(r, r->ch->pdata[k], m); seen = 1; }
		if (!seen && !self) rec_bad(r, "somebody unknown quits", line);
	} else if (!strcmp(a[0], "NICK") && n > 1) {
		int seen = self;
		for (k = 0; k < r->ch->len; k++) if ((m = rec_mem(r, r->ch->pdata[k], who))) {
			struct rmem *x = rec_mem(r, r->ch->pdata[k], a[1]);
			if (x && x != m) rec_bad(r, "renamed to somebody else there", line);
			snprintf(m->nick, sizeof(m->nick), "%s", a[1]);
			seen = 1;
		}
		if (self) snprintf(r->nick, sizeof(r->nick), "%s", a[1]);
		if (!seen) rec_bad(r, "somebody unknown is renamed", line);
	} else if (!strcmp(a[0], "TOPIC") && n > 1) {
		c = rec_chan(r, a[1]);
		if (!c) rec_bad(r, "topic of a channel it is not on", line);
		else {
			g_free(c->topic); g_free(c->by);
			c->topic = g_strdup(n > 2 && *a[2] ? a[2] : NULL);
			c->by = g_strdup(who);
			c->at = time(NULL);
		}
	} else if (!strcmp(a[0], "332") && n > 3) {
		if ((c = rec_chan(r, a[2]))) { g_free(c->topic); c->topic = *a[3] ? g_strdup(a[3]) : NULL; }
	} else if (!strcmp(a[0], "331") && n > 2) {
		if ((c = rec_chan(r, a[2]))) { g_free(c->topic); c->topic = NULL; }
	} else if (!strcmp(a[0], "333") && n > 4) {
		if ((c = rec_chan(r, a[2]))) { g_free(c->by); c->by = g_strndup(a[3], strcspn(a[3], "!")); c->at = atol(a[4]); }
	} else if (!strcmp(a[0], "353")) {
		if (n < 5) rec_bad(r, "malformed list of names", line);
		else if ((c = rec_chan(r, a[3]))) {
			char *t;
			if (strlen(a[2]) != 1 || !strchr("=@*", *a[2])) rec_bad(r, "malformed list of names", line);
			c->kind = a[2][0];
			if (!c->names_open) for (k = 0; k < c->m->len; k++) ((struct rmem *)c->m->pdata[k])->listed = 0;
			c->names_open = 1;
			for (t = strtok(a[4], " "); t; t = strtok(NULL, " ")) {
				char md[12] = "", *q;
				while (*t && (q = strchr(r->pc, *t))) { rec_flag(md, r->pm[q - r->pc], 1); t++; }
				m = rec_mem(r, c, t);
				if (!m) m = rec_add(r, c, t);
				else if (m->listed) rec_bad(r, "somebody is listed twice", line);
				strcpy(m->modes, md);
				m->listed = 1;
			}
		} else rec_bad(r, "names of a channel it is not on", line);
	} else if (!strcmp(a[0], "366") && n > 2) {
		if ((c = rec_chan(r, a[2]))) { c->names_open = 0; c->names_done = 1; }
	} else if (!strcmp(a[0], "324") && n > 3) {
		if ((c = rec_chan(r, a[2]))) {
			c->modes[0] = 0;
			for (i = 0; i < 256; i++) { g_free(c->arg[i]); c->arg[i] = NULL; }
			rec_modes(r, c, a + 3, n - 3, line);
		}
	} else if (!strcmp(a[0], "221") && n > 2) {
		const char *p;
		r->umodes[0] = 0;
		for (p = a[2]; *p; p++) if (*p != '+') rec_flag(r->umodes, *p, 1);
	} else if (!strcmp(a[0], "305")) r->away = 0;
	else if (!strcmp(a[0], "306")) r->away = 1;
	else if (!strcmp(a[0], "MODE")) {
		if (n < 3) rec_bad(r, "malformed change of modes", line);
		else if (rec_is_chan(r, a[1])) {
			if ((c = rec_chan(r, a[1]))) rec_modes(r, c, a + 2, n - 2, line);
			else rec_bad(r, "modes of a channel it is not on", line);
		} else if (rec_eq(r, a[1], r->nick)) {
			const char *p;
			int on = 1;
			for (p = a[2]; *p; p++) if (*p == '+') on = 1; else if (*p == '-') on = 0; else rec_flag(r->umodes, *p, on);
		} else rec_bad(r, "modes of somebody else", line);
	}
	g_free(buf);
}
static inline int rec_cmpp(gconstpointer a, gconstpointer b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static inline int rec_cmpc(const void *a, const void *b) { return *(const char *)a - *(const char *)b; }
/* everything known, canonically; flags: 1 user modes, 2 channel modes, 4 topic setters and times, 8 away, 16 kind of channel */
static inline char *rec_text(struct rec *r, int flags)
{
	GString *o = g_string_new("");
	GPtrArray *p = g_ptr_array_new(), *q;
	unsigned i, j;
	char t[64];
	g_string_append_printf(o, "nick %s", r->nick);
	if (flags & 1) { strcpy(t, r->umodes); qsort(t, strlen(t), 1, rec_cmpc); g_string_append_printf(o, " modes %s", t); }
	if (flags & 8) g_string_append_printf(o, " away %d", r->away);
	g_string_append(o, "\n");
	for (i = 0; i < r->ch->len; i++) {
		struct rchan *c = r->ch->pdata[i];
		GString *s = g_string_new("");
		g_string_append_printf(s, "%s topic %s", c->name, c->topic ? c->topic : "-");
		if ((flags & 4) && c->topic && c->by) g_string_append_printf(s, " by %s at %ld", c->by, c->at);
		if (flags & 16) g_string_append_printf(s, " kind %c", c->kind ? c->kind : '=');
		if (flags & 2) {
			strcpy(t, c->modes); qsort(t, strlen(t), 1, rec_cmpc);
			g_string_append_printf(s, " modes %s", t);
			for (j = 0; t[j]; j++) if (c->arg[(unsigned char)t[j]]) g_string_append_printf(s, " %s", c->arg[(unsigned char)t[j]]);
		}
		q = g_ptr_array_new();
		for (j = 0; j < c->m->len; j++) {
			struct rmem *m = c->m->pdata[j];
			const char *h = r->pm;
			while (*h && !strchr(m->modes, *h)) h++;
			g_ptr_array_add(q, g_strdup_printf("%s%c", m->nick, *h ? r->pc[h - r->pm] : '.'));
		}
		g_ptr_array_sort(q, rec_cmpp);
		g_string_append(s, ":");
		for (j = 0; j < q->len; j++) { g_string_append_printf(s, " %s", (char *)q->pdata[j]); g_free(q->pdata[j]); }
		g_ptr_array_free(q, TRUE);
		g_ptr_array_add(p, g_string_free(s, FALSE));
	}
	g_ptr_array_sort(p, rec_cmpp);
	for (i = 0; i < p->len; i++) { g_string_append_printf(o, "%s\n", (char *)p->pdata[i]); g_free(p->pdata[i]); }
	g_ptr_array_free(p, TRUE);
	return g_string_free(o, FALSE);
}
#endif
