/* P31: administration commands do what they say. */
#include "pre.h"
#include "mc.h"
#include "world.h"
#include "settings.h"
#include "admin.h"
#include "listener.h"
#include "repl.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
gboolean process_cmd(admin_handle h, const char *cmd);
gboolean start_admin_socket(struct global *global);
gboolean stop_admin_socket(struct global *global);
void __wrap_log_custom_load(struct log_file_config *d) {}
extern enum log_level current_log_level;

/* ---- the model ---- */
enum kind { BOOL, INT, STR, DSTR, NICK, FULL, TIME, REPL, FIL, CHARSET, LOGGING, LEVEL, AUSER };
static const struct { const char *name; enum kind k; int unset; } S[] = {
	{"admin-log", BOOL}, {"admin-user", AUSER}, {"auto-away-enable", BOOL}, {"auto-away-client-limit", INT, -1}, {"auto-away-message", STR}, {"auto-away-nick", STR}, {"auto-away-time", INT, -1},
	{"autosave", BOOL}, {"bind", DSTR}, {"default-client-charset", CHARSET}, {"default-network", DSTR}, {"learn-network-name", BOOL}, {"learn-nickserv", BOOL}, {"log_level", LEVEL}, {"logging", LOGGING},
	{"max_who_age", INT, 0}, {"motd-file", FIL}, {"password", DSTR}, {"port", DSTR}, {"report-time", TIME}, {"report-time-offset", INT, 0}, {"replication", REPL}, {"default-nick", NICK}, {"default-username", NICK}, {"default-fullname", FULL} };
#define NS ((int)(sizeof(S)/sizeof(S[0])))
#define MAXN 12
struct mserver { char host[40], port[12], pw[20]; int ssl; };
struct mnet { char name[24]; int virt, up, ns, cur; struct mserver s[6]; };
struct mlis { char addr[24], port[12], pw[24], net[24]; int hasaddr, dflt; };
static struct {
	char *v[32];
	int dflt;                /* there is a default listener */
	struct mnet n[MAXN]; int nn;
	struct mlis l[8]; int nl;
} M;
static struct ctrlproxy_config *C;
static char fexist[256], fnone[256];
static char *num(int v, int unset) { return v == unset ? NULL : g_strdup_printf("%d", v); }
static struct listener_config *dl(struct ctrlproxy_config *c)
{
	GList *gl;
	for (gl = c->listeners; gl; gl = gl->next) if (((struct listener_config *)gl->data)->is_default) return gl->data;
	return NULL;
}
/* the setting as the configuration has it (g_free) */
static char *actual(struct ctrlproxy_config *c, int i)
{
	struct listener_config *d = dl(c);
	switch (i) {
	case 0: return g_strdup(c->admin_log ? "true" : "false");
	case 1: return g_strdup(c->admin_user);
	case 2: return g_strdup(c->auto_away.enabled ? "true" : "false");
	case 3: return num(c->auto_away.client_limit, -1);
	case 4: return g_strdup(c->auto_away.message);
	case 5: return g_strdup(c->auto_away.nick);
	case 6: return num(c->auto_away.max_idle_time, -1);
	case 7: return g_strdup(c->autosave ? "true" : "false");
	case 8: return g_strdup(d ? d->address : NULL);
	case 9: return g_strdup(c->client_charset);
	case 10: return g_strdup(d ? d->network : NULL);
	case 11: return g_strdup(c->learn_network_name ? "true" : "false");
	case 12: return g_strdup(c->learn_nickserv ? "true" : "false");
	case 13: return g_strdup_printf("%d", current_log_level);
	case 14: return g_strdup(c->log_file == NULL ? "none" : c->log_file->is_irssi ? "irssi" : "custom");
	case 15: return num(c->cache.max_who_age, 0);
	case 16: return g_strdup(c->motd_file && *c->motd_file ? c->motd_file : NULL);
	case 17: return g_strdup(d ? d->password : NULL);
	case 18: return g_strdup(d ? d->port : NULL);
	case 19: return g_strdup(c->report_time == REPORT_TIME_NEVER ? "never" : c->report_time == REPORT_TIME_ALWAYS ? "always" : "replication");
	case 20: return num(c->report_time_offset, 0);
	case 21: return g_strdup(c->replication);
	case 22: return g_strdup(c->default_nick);
	case 23: return g_strdup(c->default_username);
	case 24: return g_strdup(c->default_realname);
	}
	return NULL;
}
static int bystr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static void sorted(GPtrArray *a, GString *to)
{
	unsigned i;
	qsort(a->pdata, a->len, sizeof(char *), bystr);
	for (i = 0; i < a->len; i++) { g_string_append(to, a->pdata[i]); g_free(a->pdata[i]); }
	g_ptr_array_free(a, TRUE);
}
static int isup(struct irc_network *n) { return n->connection.state != NETWORK_CONNECTION_STATE_NOT_CONNECTED; }
static char *show_config(struct ctrlproxy_config *c, int live)
{
	GString *r = g_string_new(NULL);
	GPtrArray *a = g_ptr_array_new();
	GList *gl, *g2;
	int i;
	for (i = 0; i < NS; i++) { char *v; if (!live && S[i].k == LEVEL) continue; v = actual(c, i); g_string_append_printf(r, "%s %s\n", S[i].name, v ? v : "(unset)"); g_free(v); }
	for (gl = c->networks; gl; gl = gl->next) {
		struct network_config *n = gl->data;
		GString *t = g_string_new(NULL);
		struct irc_network *in = NULL;
		if (n->implicit) continue;
		g_string_append_printf(t, "network %s", n->name);
		if (live) {
			in = find_network(W->networks, n->name);
			if (!in || in->private_data != n) g_string_append(t, " (not in use)");
			else { if (strcmp(in->name, n->name)) g_string_append_printf(t, " (called %s)", in->name); if (isup(in)) g_string_append(t, " up"); }
		} else if (n->autoconnect) g_string_append(t, " up");
		if (n->type == NETWORK_VIRTUAL) g_string_append(t, " virtual");
		else for (g2 = n->type_settings.tcp.servers; g2; g2 = g2->next) { struct tcp_server_config *s = g2->data; g_string_append_printf(t, " %s:%s%s%s%s", s->host, s->port, s->ssl ? " ssl" : "", s->password ? " pw " : "", s->password ? s->password : ""); }
		g_string_append_c(t, '\n');
		g_ptr_array_add(a, g_string_free(t, FALSE));
	}
	if (live && (int)g_list_length(W->networks) != (int)a->len) g_ptr_array_add(a, g_strdup_printf("%d networks are in use\n", g_list_length(W->networks)));
	sorted(a, r);
	if (live) {
		a = g_ptr_array_new();
		for (gl = W->listeners; gl; gl = gl->next) {
			struct irc_listener *l = gl->data;
			g_ptr_array_add(a, g_strdup_printf("listener %s:%s pw %s net %s%s\n", l->config->address ? l->config->address : "", l->config->port ? l->config->port : "", l->config->password ? l->config->password : "", l->network ? l->network->name : "", l->active ? "" : " (inactive)"));
		}
		sorted(a, r);
	}
	return g_string_free(r, FALSE);
}
static char *show_model(int live)
{
	GString *r = g_string_new(NULL);
	GPtrArray *a = g_ptr_array_new();
	int i, k;
	for (i = 0; i < NS; i++) { if (!live && S[i].k == LEVEL) continue; g_string_append_printf(r, "%s %s\n", S[i].name, M.v[i] && (live || M.v[18] || S[i].k != DSTR) ? M.v[i] : "(unset)"); } /* without a port there is no default listener in the file */
	for (i = 0; i < M.nn; i++) {
		struct mnet *n = &M.n[i];
		GString *t = g_string_new(NULL);
		g_string_append_printf(t, "network %s%s", n->name, n->up ? " up" : "");
		if (n->virt) g_string_append(t, " virtual");
		for (k = 0; k < n->ns; k++) g_string_append_printf(t, " %s:%s%s%s%s", n->s[k].host, n->s[k].port, n->s[k].ssl ? " ssl" : "", n->s[k].pw[0] ? " pw " : "", n->s[k].pw);
		g_string_append_c(t, '\n');
		g_ptr_array_add(a, g_string_free(t, FALSE));
	}
	sorted(a, r);
	if (live) {
		a = g_ptr_array_new();
		for (i = 0; i < M.nl; i++) {
			struct mlis *l = &M.l[i];
			if (l->dflt) g_ptr_array_add(a, g_strdup_printf("listener %s:%s pw %s net %s\n", M.v[8] ? M.v[8] : "", M.v[18] ? M.v[18] : "", M.v[17] ? M.v[17] : "", l->net));
			else g_ptr_array_add(a, g_strdup_printf("listener %s:%s pw %s net %s\n", l->addr, l->port, l->pw, l->net));
		}
		sorted(a, r);
	}
	return g_string_free(r, FALSE);
}
static void same(const char *what, const char *want, const char *got)
{
	char **x, **y;
	int i;
	if (!strcmp(want, got)) return;
	x = g_strsplit(want, "\n", 0); y = g_strsplit(got, "\n", 0);
	for (i = 0; x[i] && y[i] && !strcmp(x[i], y[i]); i++);
	mc_fail("%s: should be \"%s\" but is \"%s\"", what, x[i] ? mc_esc(x[i]) : "nothing", y[i] ? mc_esc(y[i]) : "nothing");
}
/* ---- talking to it ---- */
static GPtrArray *ans;
static struct wcl *cl, *acl;
static struct irc_network *N;
static struct mem *srvm;
static void got(const char *t) { mc_trace("   -> %s", mc_esc(t)); g_ptr_array_add(ans, g_strdup(t)); }
static void out(struct admin_handle *h, const char *data) { got(data); }
static void forget(void) { unsigned i; if (ans) { for (i = 0; i < ans->len; i++) g_free(ans->pdata[i]); g_ptr_array_free(ans, TRUE); } ans = g_ptr_array_new(); }
static void take(struct wcl *c, const char *from, const char *verb, const char *to)
{
	const char *l;
	while ((l = w_cl_next(c))) {
		struct irc_line *p = irc_parse_line(l);
		if (p->origin && !strncmp(p->origin, from, strlen(from)) && p->args[0] && !strcmp(p->args[0], verb) && (!to || !strcmp(p->args[1], to)) && p->args[2]) got(p->args[2][0] == '[' && strlen(p->args[2]) > 11 && !strncmp(p->args[2] + 9, "] ", 2) ? p->args[2] + 11 : p->args[2]);
		free_line(p);
	}
}
static const char *const ROUTE[] = { "direct", "CTRLPROXY", "to the administration user", "on the administration network", "no client" };
static void command(int route, const char *text)
{
	struct admin_handle h = { W, cl ? cl->c : NULL, N, NULL, out };
	mc_trace("%s: %s", ROUTE[route], mc_esc(text)); mc_step();
	forget();
	switch (route) {
	case 4: h.client = NULL; h.network = NULL;
	case 0: process_cmd(&h, text); pump(); break;
	case 1: w_cl_skip(cl); w_cl(cl, "CTRLPROXY :%s", text); take(cl, "ctrlproxy!", "NOTICE", NULL); break;
	case 2: w_cl_skip(cl); w_cl(cl, "PRIVMSG ctrlproxy :%s", text); take(cl, "ctrlproxy!", "NOTICE", NULL); break;
	case 3: w_cl_skip(acl); w_cl(acl, "PRIVMSG #ctrlproxy :%s", text); take(acl, "ctrlproxy!", "PRIVMSG", "#ctrlproxy"); break;
	}
}
static int has(const char *part) { unsigned i; for (i = 0; i < ans->len; i++) if (strstr(ans->pdata[i], part)) return 1; return 0; }
static int hasline(const char *start) { unsigned i; int n = 0; for (i = 0; i < ans->len; i++) if (!strncmp(ans->pdata[i], start, strlen(start))) n++; return n; }

/* ---- what has to happen ---- */
static struct mnet *mn(const char *name) { int i; for (i = 0; i < M.nn; i++) if (!strcasecmp(M.n[i].name, name)) return &M.n[i]; return NULL; }
static int isint(const char *v, int *r)
{
	const char *p = v; long long x = 0; int neg = 0;
	if (*p == '-') { neg = 1; p++; }
	if (!*p) return 0;
	for (; *p; p++) { if (*p < '0' || *p > '9') return 0; x = x * 10 + (*p - '0'); if (x > 4000000000LL) return 0; }
	if (neg) x = -x;
	if (x < -2147483647LL - 1 || x > 2147483647LL) return 0;
	*r = (int)x;
	return 1;
}
/* 1: carried out, 0: refused; *nv gets the new value */
static int value(int i, const char *v, char **nv)
{
	int x;
	*nv = NULL;
	switch (S[i].k) {
	case BOOL: if (!v) return 0; if (!strcasecmp(v, "true") || !strcasecmp(v, "false")) { *nv = g_ascii_strdown(v, -1); return 1; } return 0;
	case INT: if (!v) return 1; if (!isint(v, &x)) return 0; *nv = num(x, S[i].unset); return 1;
	case STR: *nv = g_strdup(v); return 1;
	case DSTR: if (!M.dflt) return 0; *nv = g_strdup(v); return 1;
	case NICK: if (!v || !*v || *v == ':' || strchr(v, ' ')) return 0; *nv = g_strdup(v); return 1;
	case FULL: if (!v || !*v) return 0; *nv = g_strdup(v); return 1;
	case TIME: if (!v) return 0;
		if (!strcasecmp(v, "never") || !strcasecmp(v, "false")) *nv = g_strdup("never");
		else if (!strcasecmp(v, "always")) *nv = g_strdup("always");
		else if (!strcasecmp(v, "replication") || !strcasecmp(v, "true")) *nv = g_strdup("replication");
		else return 0;
		return 1;
	case REPL: if (v && strcmp(v, "none") && strcmp(v, "simple") && strcmp(v, "lastdisconnect") && strcmp(v, "highlight")) return 0; *nv = g_strdup(v); return 1;
	case FIL: if (v && strcmp(v, fexist)) return 0; *nv = g_strdup(v); return 1;
	case CHARSET: if (v && strcasecmp(v, "UTF-8") && strcasecmp(v, "iso8859-1")) return 0; *nv = g_strdup(v); return 1;
	case LOGGING: return 0;
	case LEVEL: if (!v || !isint(v, &x) || x < 0 || x > 5) return 0; *nv = g_strdup_printf("%d", x); return 1;
	case AUSER: *nv = v && *v ? g_strdup(v) : NULL; return 1;
	}
	return 0;
}
static const struct { const char *url, *host, *port; int ssl; } URL[] = { { "irc.a.org", "irc.a.org", "6667", 0 }, { "irc.a.org:7000", "irc.a.org", "7000", 0 }, { "ircs://irc.a.org:6697", "irc.a.org", "6697", 1 }, { "IRC.A.org:6667", "IRC.A.org", "6667", 0 }, { "[::1]:6668", "::1", "6668", 0 } };
static char *fresh_host;
static int before_conns;
static const char *cmdtext;
#define REFUSED do { MC_ASSERT(ans->len > 0, "nothing is said about \"%s\" being refused", mc_esc(cmdtext)); return; } while (0)
static void del_model(struct mnet *n)
{
	int i, k;
	for (i = 0; i < M.nl; i++) if (!strcasecmp(M.l[i].net, n->name)) M.l[i].net[0] = 0;
	k = n - M.n;
	for (; k + 1 < M.nn; k++) M.n[k] = M.n[k + 1];
	M.nn--;
}
static int validname(const char *n) { return *n && strcasecmp(n, "global") && !strpbrk(n, "[]/\t") && *n != '#' && *n != '.'; }
static int closed_of(const char *name) { return 0; }
static void list_networks(void)
{
	int i;
	char b[60];
	MC_ASSERT((int)ans->len == M.nn, "%u networks are listed instead of %d", ans->len, M.nn);
	for (i = 0; i < M.nn; i++) {
		unsigned k; int ok = 0;
		snprintf(b, sizeof(b), "%s: ", M.n[i].name);
		for (k = 0; k < ans->len; k++) if (!strncmp(ans->pdata[k], b, strlen(b))) ok += (strstr(ans->pdata[k], "Not connected") == NULL) == M.n[i].up ? 1 : 100;
		MC_ASSERT(ok == 1, "network %s is not listed once and as %s", M.n[i].name, M.n[i].up ? "connected" : "not connected");
	}
}
static void expect_conn(struct mnet *n, int next)
{
	struct wconn *w;
	int i;
	if (n->ns == 0) { MC_ASSERT(nwconns == before_conns, "a connection for a network without servers"); return; }
	MC_ASSERT(nwconns == before_conns + 1, "%d attempts to connect to %s instead of 1", nwconns - before_conns, n->name);
	w = &wconns[nwconns - 1];
	for (i = 0; i < n->ns; i++) if (!strcmp(n->s[i].host, w->host) && !strcmp(n->s[i].port, w->port)) break;
	MC_ASSERT(i < n->ns, "%s is connected to %s:%s", n->name, w->host, w->port);
	if (next && n->cur >= 0 && n->ns > 1) MC_ASSERT(i == (n->cur + 1) % n->ns, "%s goes on to server %d after %d", n->name, i, n->cur);
	else if (!next && n->cur >= 0) MC_ASSERT(i == n->cur, "%s is connected to server %d instead of %d", n->name, i, n->cur);
	n->cur = i;
	n->up = 1;
}
static int open_conns(void)
{
	int i, k = 0;
	for (i = 0; i < nwconns; i++) if (wconns[i].m && !wconns[i].m->closed && !wconns[i].closed && strncmp(wconns[i].host, "127", 3) && strncmp(wconns[i].host, "::2", 3) && wconns[i].host[0]) k++;
	return k;
}
static void model(int route, const char *text)
{
	char **w = g_strsplit(text, " ", 0), *rest;
	const char *a1 = w[0] ? w[1] : NULL, *a2 = a1 ? w[2] : NULL, *a3 = a2 ? w[3] : NULL;
	struct mnet *n;
	int i, client = route != 4;
	cmdtext = text;
	if (!w[0]) REFUSED;
#define IS(c) (!strcasecmp(w[0], c))
	if (IS("SET") || IS("UNSET")) {
		char *nv;
		if (!a1) {
			if (IS("UNSET")) REFUSED;
			MC_ASSERT((int)ans->len == NS, "%u settings are listed", ans->len);
			for (i = 0; i < NS; i++) {
				char *b = g_strdup_printf(M.v[i] ? "%s = %s" : "%s is not set", S[i].name, M.v[i]);
				unsigned k; int ok = 0;
				for (k = 0; k < ans->len; k++) ok += !strcmp(ans->pdata[k], b);
				MC_ASSERT(ok == 1, "SET does not say: %s", mc_esc(b));
				g_free(b);
			}
			return;
		}
		for (i = 0; i < NS && strcasecmp(S[i].name, a1); i++);
		if (i == NS) REFUSED;
		if (IS("SET") && !a2) {
			MC_ASSERT(ans->len == 1 && (M.v[i] ? !strcmp(ans->pdata[0], M.v[i]) : strstr(ans->pdata[0], "not set") != NULL), "SET %s does not show %s", a1, M.v[i] ? mc_esc(M.v[i]) : "that it is not set");
			return;
		}
		rest = IS("SET") ? g_strjoinv(" ", w + 2) : NULL;
		if (!value(i, rest, &nv)) REFUSED;
		g_free(M.v[i]); M.v[i] = nv;
		return;
	}
	if (IS("NETWORK") && a1 && !strcasecmp(a1, "list")) { list_networks(); return; }
	if (IS("LISTNETWORKS")) { list_networks(); return; }
	if (IS("ADDNETWORK") || (IS("NETWORK") && a1 && !strcasecmp(a1, "add"))) {
		const char *name = IS("ADDNETWORK") ? a1 : a2;
		if (!name || mn(name) || !validname(name) || M.nn >= MAXN) REFUSED;
		n = &M.n[M.nn++]; memset(n, 0, sizeof(*n)); n->cur = -1;
		snprintf(n->name, sizeof(n->name), "%s", name);
		return;
	}
	if (IS("DELNETWORK") || (IS("NETWORK") && a1 && (!strcasecmp(a1, "del") || !strcasecmp(a1, "delete") || !strcasecmp(a1, "remove")))) {
		const char *name = IS("DELNETWORK") ? a1 : a2;
		if (!name || !(n = mn(name))) REFUSED;
		if (!strcmp(n->name, "net")) { N = NULL; cl = NULL; }
		if (n->virt) acl = NULL;
		del_model(n);
		return;
	}
	if (IS("NETWORK") && a1 && !strcasecmp(a1, "rename")) {
		if (!a2 || !a3 || !(n = mn(a2)) || mn(a3) || !validname(a3)) REFUSED;
		for (i = 0; i < M.nl; i++) if (!strcasecmp(M.l[i].net, n->name)) snprintf(M.l[i].net, sizeof(M.l[i].net), "%s", a3);
		if (M.v[10] && !strcasecmp(M.v[10], n->name)) { g_free(M.v[10]); M.v[10] = g_strdup(a3); }
		snprintf(n->name, sizeof(n->name), "%s", a3);
		return;
	}
	if (IS("NETWORK") && a1 && !strcasecmp(a1, "info")) {
		if (!a2 || !(n = mn(a2))) REFUSED;
		for (i = 0; i < n->ns; i++) { char b[80]; snprintf(b, sizeof(b), "%s:%s", n->s[i].host, n->s[i].port); MC_ASSERT(has(b), "the server %s of %s is not shown", b, n->name); }
		return;
	}
	if (IS("NETWORK")) REFUSED;
	if (IS("ADDSERVER")) {
		int u;
		if (!a1 || !a2 || !(n = mn(a1)) || n->virt) REFUSED;
		for (u = 0; u < (int)(sizeof(URL)/sizeof(URL[0])) && strcmp(URL[u].url, a2); u++);
		if (u == (int)(sizeof(URL)/sizeof(URL[0]))) REFUSED;
		for (i = 0; i < n->ns; i++) if (!strcasecmp(n->s[i].host, URL[u].host) && !strcmp(n->s[i].port, URL[u].port) && n->s[i].ssl == URL[u].ssl) REFUSED;
		snprintf(n->s[n->ns].host, 40, "%s", URL[u].host); snprintf(n->s[n->ns].port, 12, "%s", URL[u].port); n->s[n->ns].ssl = URL[u].ssl; snprintf(n->s[n->ns].pw, 20, "%s", a3 ? a3 : "");
		n->ns++;
		return;
	}
	if (IS("CONNECT")) {
		if (!a1 || !(n = mn(a1))) REFUSED;
		if (n->virt) { if (n->up) REFUSED; n->up = 1; return; }
		if (n->up) { MC_ASSERT(nwconns == before_conns, "CONNECT to a connected network makes another connection"); REFUSED; }
		expect_conn(n, 0);
		return;
	}
	if (IS("DISCONNECT")) {
		n = a1 ? mn(a1) : route == 3 ? mn("admin") : route == 4 || !N ? NULL : mn(N->name);
		if (!n || !n->up || n->virt) REFUSED;
		n->up = 0;
		return;
	}
	if (IS("NEXTSERVER")) {
		n = a1 ? mn(a1) : route == 3 ? mn("admin") : route == 4 || !N ? NULL : mn(N->name);
		if (!n || n->virt) REFUSED;
		n->up = 0;
		expect_conn(n, 1);
		return;
	}
	if (IS("STARTLISTENER")) {
		const char *c;
		struct mlis *l;
		if (!a1 || !a2 || (a3 && !mn(a3))) REFUSED;
		c = strrchr(a1, ':');
		if (!strcmp(c ? c + 1 : a1, "7666") || !strncmp(a1, "nohost", 6)) REFUSED;
		l = &M.l[M.nl++]; memset(l, 0, sizeof(*l));
		snprintf(l->pw, sizeof(l->pw), "%s", a2); snprintf(l->net, sizeof(l->net), "%s", a3 ? mn(a3)->name : "");
		if (c) { l->hasaddr = 1; snprintf(l->addr, sizeof(l->addr), "%.*s", (int)(c - a1), a1); }
		snprintf(l->port, sizeof(l->port), "%s", c ? c + 1 : a1);
		return;
	}
	if (IS("STOPLISTENER")) {
		const char *c, *port; int k, stopped = 0; char b[40];
		if (!a1) REFUSED;
		c = strrchr(a1, ':'); port = c ? c + 1 : a1;
		for (i = k = 0; i < M.nl; i++) {
			const char *la = M.l[i].dflt ? M.v[8] : M.l[i].hasaddr ? M.l[i].addr : NULL, *lp = M.l[i].dflt ? M.v[18] : M.l[i].port;
			if (!strcmp(lp ? lp : "6667", port) && (!c || (la && strlen(la) == (size_t)(c - a1) && !strncmp(la, a1, c - a1)))) stopped++;
			else M.l[k++] = M.l[i];
		}
		M.nl = k;
		snprintf(b, sizeof(b), "%d", stopped);
		MC_ASSERT(has(b), "it is not said that %d listeners were stopped", stopped);
		return;
	}
	if (IS("LISTLISTENER")) {
		MC_ASSERT((int)ans->len == M.nl, "%u listeners are listed instead of %d", ans->len, M.nl);
		for (i = 0; i < M.nl; i++) {
			const char *la = M.l[i].dflt ? M.v[8] : M.l[i].hasaddr ? M.l[i].addr : NULL, *lp = M.l[i].dflt ? M.v[18] : M.l[i].port;
			char *b = g_strdup_printf("%s:%s%s%s%s", la ? la : "", lp ? lp : "6667", M.l[i].net[0] ? " (" : "", M.l[i].net, M.l[i].net[0] ? ")" : "");
			unsigned k; int ok = 0;
			for (k = 0; k < ans->len; k++) ok |= !strcmp(ans->pdata[k], b);
			MC_ASSERT(ok, "listener %s is not listed", b);
			g_free(b);
		}
		return;
	}
	if (IS("ECHO")) {
		if (!a1) REFUSED;
		MC_ASSERT(ans->len == 1 && !strcmp(ans->pdata[0], strchr(text, ' ') + 1), "the text is not echoed");
		return;
	}
	if (IS("CHARSET")) {
		if (!a1 || !client) REFUSED;
		{
			struct wcl *x = route == 3 ? acl : cl;
			const char *l;
			int good = !strcmp(a1, "UTF-8") || !strcmp(a1, "iso8859-1");
			if (!good) MC_ASSERT(ans->len > 0, "nothing is said about \"%s\" being refused", mc_esc(text));
			if (!x || route == 3) return;
			w_cl_skip(x);
			w_srv(srvm, ":al!u@h PRIVMSG #x :\xc3\xbcml");
			l = w_cl_next(x);
			MC_ASSERT(l && strstr(l, good && a1[0] == 'i' ? "\xfcml" : "\xc3\xbcml"), "after \"%s\" the client is sent \"%s\"", text, l ? mc_esc(l) : "nothing");
		}
		return;
	}
	if (IS("DETACH")) {
		if (!client) REFUSED;
		MC_ASSERT((route == 3 ? acl : cl)->m->closed, "the client is still connected after DETACH");
		if (route == 3) acl = NULL; else cl = NULL;
		return;
	}
	if (IS("DUMPJOINEDCHANNELS")) {
		n = a1 ? mn(a1) : route == 3 ? mn("admin") : route == 4 || !N ? NULL : mn(N->name);
		if (!n || !n->up) REFUSED;
		if (N && !strcasecmp(n->name, N->name)) MC_ASSERT(ans->len == 2 && hasline("#x") == 1 && hasline("#y") == 1, "not the joined channels");
		else if (!n->virt) MC_ASSERT(ans->len == 0, "%u channels are listed", ans->len);
		return;
	}
	if (IS("BACKLOG")) { if (!client) REFUSED; return; }
	if (IS("SAVECONFIG")) {
		struct ctrlproxy_config *c2 = load_configuration(a1 ? a1 : C->config_dir, TRUE);
		char *x, *y;
		MC_ASSERT(c2 != NULL, "what was saved can not be loaded");
		x = show_model(0); y = show_config(c2, 0);
		if (mc_verbose) { char *t; gsize z; if (g_file_get_contents(g_build_filename(C->config_dir, "config", NULL), &t, &z, NULL)) mc_trace("%s", t); }
		same("the saved configuration", x, y);
		g_free(x); g_free(y);
		free_config(c2);
		return;
	}
	REFUSED;
#undef IS
}
static void check(const char *when)
{
	char *x = show_model(1), *y = show_config(C, 1);
	int i, up = 0;
	same(when, x, y);
	g_free(x); g_free(y);
	for (i = 0; i < M.nn; i++) up += M.n[i].up && !M.n[i].virt && M.n[i].ns;
	MC_ASSERT(open_conns() == up, "%s: %d connections are open instead of %d", when, open_conns(), up);
}
static void doit(int route, const char *text)
{
	char *t = g_strdup(text);
	before_conns = nwconns;
	command(route, t);
	model(route, t);
	check(mc_esc(t));
	g_free(t);
}
/* ---- the commands ---- */
static const char *const VAL[] = { "true", "FALSE", "yes", "", "5", "0", "-1", "-7", "007", "x", "5x", "99999999999", "2147483648", "a b", ":c", "never", "Always", "replication", "none", "simple", "lastdisconnect", "UTF-8", "iso8859-1", "utf-bogus", "net", "two  words", "\xc3\xbcn;#=[", "%EX", "%NO" };
#define NV ((int)(sizeof(VAL)/sizeof(VAL[0])))
static const char *const OTHER[] = { "", "SET", "UNSET", "SET nosuch", "SET nosuch x", "UNSET nosuch", "set Autosave true", "SeT report-time", "SET  autosave true", " SET", "NOSUCH", "nosuch x y", "ECHO", "ECHO a b", "echo  x  ", "CHARSET", "CHARSET UTF-8", "CHARSET iso8859-1", "CHARSET utf-bogus", "DETACH", "DUMPJOINEDCHANNELS", "DUMPJOINEDCHANNELS net", "DUMPJOINEDCHANNELS NET", "DUMPJOINEDCHANNELS two", "DUMPJOINEDCHANNELS none", "BACKLOG", "BACKLOG #x", "SAVECONFIG" };
#define NO ((int)(sizeof(OTHER)/sizeof(OTHER[0])))
static const char *const NETC[] = {
	"LISTNETWORKS", "NETWORK LIST", "ADDNETWORK", "ADDNETWORK new", "NETWORK ADD n2", "NETWORK add NEW", "network ADD", "ADDNETWORK net", "NETWORK ADD NeT", "ADDNETWORK global", "ADDNETWORK [x]", "ADDNETWORK a/b", "ADDNETWORK ",
	"DELNETWORK", "DELNETWORK new", "NETWORK DEL net", "NETWORK DELETE NET", "network remove two", "NETWORK DEL none", "NETWORK DEL", "DELNETWORK admin", "NETWORK RENAME", "NETWORK RENAME net", "NETWORK RENAME net ren", "NETWORK RENAME two net", "NETWORK RENAME none x", "NETWORK RENAME TWO new", "NETWORK RENAME new #c", "NETWORK INFO", "NETWORK INFO net", "NETWORK INFO Two", "NETWORK INFO none", "NETWORK INFO admin", "NETWORK", "NETWORK nosuch net",
	"ADDSERVER", "ADDSERVER net", "ADDSERVER none irc.a.org", "ADDSERVER two irc.a.org", "ADDSERVER two irc.a.org:7000 pass", "ADDSERVER TWO IRC.A.org:6667", "ADDSERVER new ircs://irc.a.org:6697 pw", "ADDSERVER net [::1]:6668", "ADDSERVER net http://x", "ADDSERVER net irc.b.org:", "ADDSERVER admin irc.a.org", "ADDSERVER new irc.a.org",
	"CONNECT", "CONNECT net", "CONNECT Two", "CONNECT new", "CONNECT none", "CONNECT admin", "DISCONNECT", "DISCONNECT net", "DISCONNECT two", "DISCONNECT none", "DISCONNECT admin", "NEXTSERVER", "NEXTSERVER NET", "NEXTSERVER two", "NEXTSERVER none", "NEXTSERVER admin", "NEXTSERVER new",
	"STARTLISTENER", "STARTLISTENER 7001", "STARTLISTENER 7001 pw", "STARTLISTENER 127.0.0.1:7001 p2 net", "STARTLISTENER ::2:7001 p2 net", "STARTLISTENER 7002 p3 two", "STARTLISTENER 7002 p3 none", "STARTLISTENER 7666 pw", "STARTLISTENER nohost:7001 pw", "STOPLISTENER", "STOPLISTENER 7001", "STOPLISTENER 127.0.0.1:7001", "STOPLISTENER 6667", "STOPLISTENER ::2:7001", "STOPLISTENER 1.2.3.4:7001", "STOPLISTENER 9", "LISTLISTENER", "SAVECONFIG",
	"SET default-network two", "SET port 7001", "UNSET port", "SET bind 127.0.0.1", "UNSET bind" };
#define NN ((int)(sizeof(NETC)/sizeof(NETC[0])))
static int nset(void) { return NS * (NV + 2); }
static const char *setcmd(int k)
{
	static char b[400];
	int i = k / (NV + 2), v = k % (NV + 2);
	if (v == NV) snprintf(b, sizeof(b), "UNSET %s", S[i].name);
	else if (v == NV + 1) snprintf(b, sizeof(b), "SET %s", S[i].name);
	else snprintf(b, sizeof(b), "SET %s %s", S[i].name, !strcmp(VAL[v], "%EX") ? fexist : !strcmp(VAL[v], "%NO") ? fnone : VAL[v]);
	return b;
}
/* of two settings in turn: what the kind can tell apart */
static const char *rel(int k)
{
	switch (k) {
	case BOOL: return "true,FALSE,yes"; case INT: return "5,-1,0,5x"; case STR: return "a b,,5"; case DSTR: return "5,a b"; case NICK: return "x,a b"; case FULL: return "a b,"; case TIME: return "never,Always,replication,x";
	case REPL: return "none,simple,x"; case FIL: return "%EX,%NO"; case CHARSET: return "UTF-8,iso8859-1,utf-bogus"; case LOGGING: return "none"; case LEVEL: return "0,5,-7"; default: return "x,";
	}
}
static int bindfail(int idx) { return !strcmp(wconns[idx].port, "7666"); }
static int resolve(const char *host) { return host && !strcmp(host, "nohost") ? 0 : 1; }
static void put(const char *name, const char *text)
{
	char *p = g_build_filename(w_dir, name, NULL);
	g_file_set_contents(p, text, -1, NULL);
	g_free(p);
}
static const char *BASE[] = {
	"[global]\nport=6667\npassword=lp\nreport-time=never\nautoconnect=admin;net\nreplication=simple\nadmin-user=ctrlproxy\nmax-who-age=30\nautosave=false\nlearn-nickserv=true\n[admin]\nvirtual=admin\n[net]\nnick=me\nservers=irc.net.org:6667;irc.net2.org:6668\n[two]\nservers=irc.two.org\n",
	"[global]\nreport-time=always\nadmin-user=ctrlproxy\nautoconnect=admin;net\n[admin]\nvirtual=admin\n[net]\nnick=me\nservers=irc.net.org:6667\n",
};
static void first_state(void)
{
	GList *gl, *g2;
	int i;
	for (i = 0; i < NS; i++) { g_free(M.v[i]); M.v[i] = NULL; }
	memset(&M, 0, sizeof(M));
	for (i = 0; i < NS; i++) M.v[i] = actual(C, i);
	M.dflt = dl(C) != NULL;
	for (gl = C->networks; gl; gl = gl->next) {
		struct network_config *nc = gl->data;
		struct mnet *n = &M.n[M.nn++];
		snprintf(n->name, sizeof(n->name), "%s", nc->name);
		n->virt = nc->type == NETWORK_VIRTUAL;
		n->cur = -1;
		for (g2 = n->virt ? NULL : nc->type_settings.tcp.servers; g2; g2 = g2->next) { struct tcp_server_config *s = g2->data; snprintf(n->s[n->ns].host, 40, "%s", s->host); snprintf(n->s[n->ns].port, 12, "%s", s->port); n->ns++; }
	}
	for (gl = W->listeners; gl; gl = gl->next) { struct mlis *l = &M.l[M.nl++]; l->dflt = 1; }
}
static void start(int b)
{
	struct wconn *w;
	put("config", BASE[b]);
	put("motd", "hello\n");
	snprintf(fexist, sizeof(fexist), "%s/motd", w_dir); snprintf(fnone, sizeof(fnone), "%s/nothere", w_dir);
	C = W->config = load_configuration(w_dir, TRUE);
	MC_ASSERT(C, "the configuration is not loaded");
	g_free(C->linestack_dir); C->linestack_dir = g_build_filename(w_dir, "linestack", NULL);
	load_networks(W, C);
	init_listeners(W);
	first_state();
	autoconnect_networks(W->networks);
	pump();
	N = find_network(W->networks, "net");
	w = &wconns[nwconns - 1];
	MC_ASSERT(w->m && !strcmp(w->host, "irc.net.org"), "not connected at the start");
	srvm = w->m;
	w_login(w->m, "me", NULL);
	w_srv(w->m, ":me!myuser@my.host JOIN #x"); w_srv(w->m, ":me!myuser@my.host JOIN #y");
	mn("net")->up = mn("admin")->up = 1; mn("net")->cur = 0;
	cl = w_client(N, "me");
	acl = w_client(find_network(W->networks, "admin"), "me");
	w_cl_skip(cl); w_cl_skip(acl);
	check("at the start");
}
static uint64_t digest(int part)
{
	char *x = show_model(1);
	uint64_t d = mc_hash_str(x, MC_H0 + part);
	int i;
	g_free(x);
	for (i = 0; i < M.nn; i++) d = mc_hash(&M.n[i].cur, sizeof(int), d);
	d = mc_hash_str(cl ? "c" : "-", mc_hash_str(acl ? "a" : "-", d));
	return d;
}
/* data that is in a buffer only, like half a command, keeps a loop that does not
 * block busy */
static void settle(void) { int i; for (i = 0; i < 40 && g_main_context_iteration(NULL, FALSE); i++); }
/* a file descriptor's other side of the administration socket */
static void run_socket(void)
{
	static const char *const LINE[] = { "SET autosave true", "SET max_who_age 7", "ADDNETWORK new", "NOSUCH", "", "SET" };
	int fd, i, n = 1 + mc_choose_l(3, "commands"), k[3], cut, close_at, fin, pos, len;
	struct sockaddr_un un;
	char buf[400] = "", rd[8192];
	GString *all = g_string_new(NULL), *want = g_string_new(NULL);
	for (i = 0; i < n; i++) { k[i] = mc_choose_l(6, "command"); strcat(buf, LINE[k[i]]); strcat(buf, "\n"); }
	if (mc_choose_l(2, "unfinished")) strcat(buf, "SET auto");
	len = strlen(buf);
	cut = mc_choose_l(len + 1, "cut");
	fin = mc_choose_l(3, "end");
	W->config->admin_socket = g_strdup_printf("%s/admin", w_dir);
	MC_ASSERT(start_admin_socket(W), "no administration socket");
	fd = socket(AF_UNIX, SOCK_STREAM, 0);
	memset(&un, 0, sizeof(un)); un.sun_family = AF_UNIX;
	snprintf(un.sun_path, sizeof(un.sun_path), "%s/admin", w_dir);
	MC_ASSERT(connect(fd, (struct sockaddr *)&un, sizeof(un)) == 0, "cannot connect");
	fcntl(fd, F_SETFL, O_NONBLOCK);
	settle();
	mc_trace("socket: %s cut at %d, %s", mc_esc(buf), cut, fin == 0 ? "kept open" : fin == 1 ? "closed for sending" : "closed at once"); mc_step();
	if (cut) { if (write(fd, buf, cut) != cut) mc_fail("write"); settle(); }
	if (cut < len) { if (write(fd, buf + cut, len - cut) != len - cut) mc_fail("write"); }
	if (fin == 1) shutdown(fd, SHUT_WR);
	if (fin == 2) close(fd);
	settle(); settle();
	if (fin < 2) {
		int r;
		while ((r = read(fd, rd, sizeof(rd) - 1)) > 0) { rd[r] = 0; g_string_append(all, rd); }
		mc_trace("   -> %s", mc_esc(all->str));
	}
	/* the same commands one by one */
	{
		char **a = g_strsplit(all->str, "\n", 0);
		int seen = 0, j;
		for (i = 0; i < n; i++) {
			struct admin_handle h = { W, NULL, NULL, NULL, out };
			cmdtext = LINE[k[i]];
			before_conns = nwconns;
			forget();
			if (k[i] < 2) { int x = k[i] ? 15 : 7; g_free(M.v[x]); M.v[x] = g_strdup(k[i] ? "7" : "true"); }
			else if (k[i] == 2) { if (!mn("new")) { struct mnet *q = &M.n[M.nn++]; memset(q, 0, sizeof(*q)); strcpy(q->name, "new"); q->cur = -1; } }
			if (fin < 2) {
				int lines = k[i] < 2 ? 0 : k[i] == 5 ? NS : 1;
				for (j = 0; j < lines; j++) { MC_ASSERT(a[seen] && *a[seen], "no answer to command %d \"%s\"", i, LINE[k[i]]); seen++; }
			}
			(void)h;
		}
		if (fin < 2) MC_ASSERT(!a[seen] || !*a[seen], "an answer too much: %s", mc_esc(a[seen]));
		g_strfreev(a);
	}
	check("after commands by the socket");
	if (fin < 2) close(fd);
	settle();
	stop_admin_socket(W);
	g_free(W->config->admin_socket); W->config->admin_socket = NULL;
	mc_cover("administration socket");
	g_string_free(all, TRUE); g_string_free(want, TRUE);
	(void)close_at; (void)pos;
}
gboolean start_unix_domain_socket_listener(struct global *global);
gboolean stop_unix_domain_socket_listener(struct global *global);
/* both control sockets, with paths around the longest a socket can have: a
 * socket is where it was asked for or there is none, and whatever else is in
 * that directory stays there */
static void run_path(void)
{
	int net = mc_choose_l(2, "socket"), len = 96 + mc_choose_l(24, "length"), old = mc_choose_l(2, "left over"), i, fd;
	char path[300], near[300];
	struct sockaddr_un un;
	struct stat st;
	gboolean ok;
	memset(path, 'a', sizeof(path));
	memcpy(path, w_dir, strlen(w_dir)); path[strlen(w_dir)] = '/'; path[len] = 0;
	for (i = len - 15; i < len + 15; i++) if (i != len) {
		if (i <= (int)strlen(w_dir) + 1) continue;
		memset(near, 'a', sizeof(near)); memcpy(near, path, i < len ? i : len); near[i] = 0;
		g_file_set_contents(near, "mine", 4, NULL);
	}
	if (old) g_file_set_contents(path, "old", 3, NULL);
	mc_trace("%s socket with a path of %d characters%s", net ? "client" : "administration", len, old ? ", with something left there" : ""); mc_step();
	if (net) { g_free(W->config->network_socket); W->config->network_socket = g_strdup(path); }
	else { g_free(W->config->admin_socket); W->config->admin_socket = g_strdup(path); }
	ok = net ? start_unix_domain_socket_listener(W) : start_admin_socket(W);
	MC_ASSERT(ok == (len < (int)sizeof(un.sun_path)), "starting the socket %s", ok ? "works" : "fails");
	if (ok) {
		MC_ASSERT(stat(path, &st) == 0 && S_ISSOCK(st.st_mode), "it started, but there is no socket at %s", path);
		fd = socket(AF_UNIX, SOCK_STREAM, 0);
		memset(&un, 0, sizeof(un)); un.sun_family = AF_UNIX; strcpy(un.sun_path, path);
		MC_ASSERT(connect(fd, (struct sockaddr *)&un, sizeof(un)) == 0, "cannot connect to it");
		settle();
		if (!net) {
			char rd[200]; int r;
			if (write(fd, "NOSUCH\n", 7) != 7) mc_fail("write");
			fcntl(fd, F_SETFL, O_NONBLOCK); settle();
			r = read(fd, rd, sizeof(rd));
			MC_ASSERT(r > 0, "no answer to a command");
		}
		close(fd); settle();
		if (net) stop_unix_domain_socket_listener(W); else stop_admin_socket(W);
		MC_ASSERT(lstat(path, &st) != 0, "the socket is left after it was stopped");
	}
	for (i = len - 15; i < len + 15; i++) if (i != len) {
		char *c = NULL;
		if (i <= (int)strlen(w_dir) + 1) continue;
		memset(near, 'a', sizeof(near)); memcpy(near, path, i < len ? i : len); near[i] = 0;
		MC_ASSERT(g_file_get_contents(near, &c, NULL, NULL) && !strcmp(c, "mine"), "the file with a name of %d characters was removed or replaced", i);
		g_free(c);
	}
	if (net) { g_free(W->config->network_socket); W->config->network_socket = NULL; }
	else { g_free(W->config->admin_socket); W->config->admin_socket = NULL; }
	mc_cover("path of a socket");
}
/* BACKLOG: everything since the last time, or of one channel */
static void run_backlog(void)
{
	int depth = mc_tier ? 7 : 5, i, sent = 0;
	char *st[64]; int since = 0, all0 = 0;
	struct mem *S = wconns[nwconns - 1].m;
	for (i = 0; i < depth; i++) {
		int k = mc_choose_l(6, "event");
		uint64_t d;
		switch (k) {
		case 0: case 1: case 2: {
			char b[80];
			snprintf(b, sizeof(b), ":al!u@h PRIVMSG %s :text %d", k == 0 ? "#x" : k == 1 ? "#y" : "me", sent);
			w_srv(S, "%s", b); st[sent++] = g_strdup(b); w_cl_skip(cl); break; }
		default: {
			const char *obj = k == 3 ? NULL : k == 4 ? "#x" : "#z", *l; int at = all0;
			w_cl_skip(cl);
			w_cl(cl, "CTRLPROXY :BACKLOG%s%s", obj ? " " : "", obj ? obj : "");
			if (!obj) at = since;
			while ((l = w_cl_next(cl))) {
				if (!strstr(l, " PRIVMSG ")) continue;
				for (; at < sent && !strstr(l, st[at] + 1); at++) MC_ASSERT(obj && (!strstr(st[at], obj) || at < since), "BACKLOG omits \"%s\"", st[at]);
				MC_ASSERT(at < sent, "BACKLOG sends \"%s\" again or out of order", mc_esc(l));
				MC_ASSERT(!obj || strstr(st[at], obj), "BACKLOG %s sends \"%s\"", obj, mc_esc(l));
				at++;
			}
			for (; at < sent; at++) MC_ASSERT(obj && (!strstr(st[at], obj) || at < since), "BACKLOG omits \"%s\"", st[at]);
			since = sent; break; }
		}
		d = mc_hash(&sent, sizeof(sent), mc_hash(&since, sizeof(since), MC_H0));
		(void)d;
	}
	mc_cover("BACKLOG");
	for (i = 0; i < sent; i++) g_free(st[i]);
}
static const int ROUTES[] = { 0, 4, 1, 2, 3 };
static void run(void)
{
	int part, i, k, depth, r, tot;
	char *t;
	part = mc_choose_l(6, "part");
	w_begin();
	current_log_level = LOG_INFO;
	w_bind = bindfail; w_resolve = resolve;
	switch (part) {
	case 0:                                   /* every command by every route, from both starts */
		start(mc_choose_l(2, "configuration"));
		r = ROUTES[mc_choose_l(5, "route")];
		tot = nset() + NO + NN;
		k = mc_choose_l(tot, "command");
		t = g_strdup(k < nset() ? setcmd(k) : k < nset() + NO ? OTHER[k - nset()] : NETC[k - nset() - NO]);
		if (r == 2 || r == 1 || r == 3) { if (!t[0] || t[0] == ' ' ) { g_free(t); break; } }
		if (r != 4) mc_cover("command by a client"); else mc_cover("command without client");
		doit(r, t);
		g_free(t);
		/* and how things are afterwards */
		doit(4, "SET"); doit(4, "LISTNETWORKS"); doit(4, "LISTLISTENER"); doit(4, "SAVECONFIG");
		break;
	case 1:                                   /* two settings */
		start(0);
		for (i = 0; i < (mc_tier ? 3 : 2); i++) {
			char **v, b[400];
			int n;
			k = mc_choose_l(NS, "setting");
			v = g_strsplit(rel(S[k].k), ",", 0);
			n = mc_choose_l(g_strv_length(v) + 2, "value");
			if (n < (int)g_strv_length(v)) snprintf(b, sizeof(b), "SET %s %s", S[k].name, !strcmp(v[n], "%EX") ? fexist : !strcmp(v[n], "%NO") ? fnone : v[n]);
			else snprintf(b, sizeof(b), "%s %s", n == (int)g_strv_length(v) ? "UNSET" : "SET", S[k].name);
			g_strfreev(v);
			doit(4, b);
			if (mc_state(digest(1), 2 - i)) break;
		}
		doit(4, "SET"); doit(4, "SAVECONFIG");
		mc_cover("settings");
		break;
	case 2:                                   /* networks, servers, listeners */
		start(mc_choose_l(2, "configuration"));
		depth = mc_tier ? 3 : 2;
		for (i = 0; i < depth; i++) {
			k = mc_choose_l(NN, "command");
			doit(cl && i % 2 ? 0 : 4, NETC[k]);
			if (mc_state(digest(2), depth - i)) break;
		}
		doit(4, "LISTNETWORKS"); doit(4, "LISTLISTENER"); doit(4, "SAVECONFIG");
		/* a client still gets in */
		if (N && mn(N->name) && mn(N->name)->up) { struct wcl *c = w_client(N, "late"); const char *l = w_cl_next(c); MC_ASSERT(l != NULL, "a client that attaches afterwards gets nothing"); }
		mc_cover("networks and listeners");
		break;
	case 3: start(0); run_socket(); break;
	case 4: start(0); run_backlog(); break;
	case 5: start(0); run_path(); break;
	}
	if (cl) w_cl_leave(cl);
	if (acl) w_cl_leave(acl);
	cl = acl = NULL;
	while (W->listeners) { struct irc_listener *l = W->listeners->data; if (l->active) listener_stop(l); free_listener(l); }
	while (W->networks) { struct irc_network *n = W->networks->data; disconnect_network(n); unload_network(n); }
	pump();
	free_config(C);
	W->config = NULL; C = NULL; N = NULL;
	W->networks = NULL;
	w_end();
	W->config = init_configuration();
	W->config->keyfile = g_key_file_new();
	vt_reset();
}
static void init(void) { signal(SIGPIPE, SIG_IGN); w_init(); init_admin(); init_nickserv(); init_replication(); }
static const struct mc_check chk = { "P31", init, run, 50, 20,
	"every administration command (25 settings x 29 values, unset, shown; networks, servers, connections, listeners, and the rest, valid and invalid) by five routes from two configurations; all sequences of 2 (thorough: 3) settings and of 2 (thorough: 4) of the commands for networks and listeners (equal states explored once); after each the configuration in use, networks, connections, listeners, what was answered, the listings and the saved configuration are those of a model; the administration socket with up to 3 commands cut anywhere; every sequence of 5 (7) messages and BACKLOG" };
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
