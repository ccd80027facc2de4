/* Messages of a server about one user's channels, as a well-behaved server
 * would send them given what it said before (kept in net, sent over S). */
#ifndef VERIF_EVENTS_H
#define VERIF_EVENTS_H
#include "world.h"
#include "rec.h"
static const char *EV[] = {
	":srv.net 332 me #x :a topic", ":srv.net 333 me #x al!u@h 1234", ":srv.net 331 me #x :No topic is set",
	":al!u@h TOPIC #x :live one", ":al!u@h TOPIC #x :", ":srv.net 332 me #x ::) two  blanks ",
	":me!mu@mh TOPIC #x :mine",
	":dan!d@h JOIN #x", ":al!u@h PART #x :bye", ":al!u@h QUIT :gone", ":bo!b@h KICK #x al :out",
	":al!u@h NICK alf", ":bo!b@h NICK al2", ":me!mu@mh NICK me2", ":me!mu@mh NICK ME",
	":bo!b@h MODE #x +v al", ":bo!b@h MODE #x -o al", ":bo!b@h MODE #x +ov me me", ":srv.net MODE #x +nt-i", ":srv.net MODE #x +kl key 7",
	":bo!b@h MODE #x -k key", ":me MODE me :+iw", ":me MODE me :-i", ":srv.net 221 me +is",
	":srv.net 306 me :You are away", ":srv.net 305 me :You are back",
	":me!mu@mh PART #x", ":bo!b@h KICK #x me :you too",
	":me!mu@mh JOIN #y", ":me!mu@mh JOIN &z",
	":srv.net 353 me @ #y :@me +al cat", ":srv.net 353 me * #y :+me dan", ":srv.net 366 me #y :End",
	":srv.net 324 me #x +ntkl key 5", ":srv.net 329 me #x 999", ":srv.net 324 me #x +",
	":me!mu@mh JOIN #X[]", ":srv.net 353 me = #x :@me @+cat al", ":srv.net 366 me #x :End",
	":Al!u@h PRIVMSG #x :hi",
};
#define NEV ((int)(sizeof(EV)/sizeof(EV[0])))
static void srv(const char *fmt, ...) __attribute__((format(printf,1,2)));
static void srv(const char *fmt, ...)
{
	char b[4000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	w_srv(S, "%s", b);
	rec_feed(&net, b);
}
static void event(int k)
{
	/* what the server says names the user as it does now */
	const char *e = EV[k];
	static char b[700], t2[700], u[700];
	if (!strncmp(e, ":me!", 4) || !strncmp(e, ":me ", 4)) { snprintf(b, sizeof(b), ":%s%s", net.nick, e + 3); if (!strncmp(e, ":me MODE me", 11)) snprintf(b, sizeof(b), ":%s MODE %s%s", net.nick, net.nick, e + 11); e = b; }
	/* nothing about people and channels which could not be */
	{
		struct rec *r = &net;
		char *o, *a[64], w[100], t[700];
		int n;
		struct rchan *c = NULL;
		strcpy(t, e);
		n = rec_split(t, &o, a, 64);
		snprintf(w, sizeof(w), "%.*s", (int)strcspn(o, "!"), o);
		if (n > 1) c = rec_chan(r, a[1]);
		if (!strcmp(a[0], "JOIN") && (rec_eq(r, w, r->nick) ? c != NULL : !c || rec_mem(r, c, w))) return;
		if (!strcmp(a[0], "PART") && (!c || !rec_mem(r, c, w))) return;
		if (!strcmp(a[0], "KICK") && (!c || !rec_mem(r, c, a[2]))) return;
		if (!strcmp(a[0], "TOPIC") && !c) return;
		if (!strcmp(a[0], "MODE") && rec_is_chan(r, a[1])) { if (!c) return; if (n > 3 && !strchr(a[2], 'k') && !rec_mem(r, c, a[3])) return; }
		if (!strcmp(a[0], "QUIT") || (!strcmp(a[0], "NICK") && !rec_eq(r, w, r->nick))) {
			unsigned i; int known = 0, clash = 0;
			for (i = 0; i < r->ch->len; i++) { known |= rec_mem(r, r->ch->pdata[i], w) != NULL; if (a[0][0] == 'N') clash |= rec_mem(r, r->ch->pdata[i], a[1]) != NULL; }
			if (!known || clash) return;
		}
		if (isdigit((unsigned char)a[0][0]) && strcmp(a[0], "221") && strncmp(a[0], "30", 2)) { if (!rec_chan(r, a[strcmp(a[0], "353") ? 2 : 3])) return; }
		/* numerics name the user */
		if (isdigit((unsigned char)a[0][0])) {
			snprintf(t2, sizeof(t2), ":%.*s %s%s", 11, e + 1, r->nick, e + 15);
			if (!strcmp(a[0], "353")) {
				/* a list agrees with what was said before */
				struct rchan *x = rec_chan(r, a[3]);
				unsigned i;
				GString *g = g_string_new("");
				if (x->names_open) { if (!rec_mem(r, x, "eve")) g_string_assign(g, "+eve"); }
				else {
					for (i = 0; i < x->m->len; i++) {
						struct rmem *m = x->m->pdata[i];
						const char *h = r->pm;
						while (*h && !strchr(m->modes, *h)) h++;
						/* one's own status is only told by the list */
						g_string_append_printf(g, "%s%.1s%s", g->len ? " " : "", *h ? r->pc + (h - r->pm) : !x->names_done && rec_eq(r, m->nick, r->nick) ? "@" : "", m->nick);
					}
					if (!x->names_done) {
						char *t;
						for (t = strtok(a[4], " "); t; t = strtok(NULL, " ")) {
							const char *q = t;
							while (strchr("@+", *q)) q++;
							if (strcmp(q, "me") && !rec_mem(r, x, q)) g_string_append_printf(g, " %s", t);
						}
					}
				}
				if (g->len) srv(":srv.net 353 %s %s %s :%s", r->nick, a[2], a[3], g->str);
				g_string_free(g, TRUE);
				return;
			}
			e = t2;
			srv("%s", e);
			return;
		}
		if (!strcmp(a[0], "MODE") && n > 3 && !strcmp(a[3], "me")) { snprintf(t2, sizeof(t2), ":bo!b@h MODE #x +ov %s %s", r->nick, r->nick); e = t2; }
	}
	srv("%s", e);
}
#endif
