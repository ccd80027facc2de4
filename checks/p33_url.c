/* P33: server addresses are taken apart as they say and written back. */
#include "pre.h"
#include "irc.h"
void register_hup_handler(hup_handler_fn fn, void *userdata) {}

static const char *TOK[] = {"irc://", "ircs://", "http://", "://", "h", "irc.org", "[", "]", "::1", ":", "/", "6667", "994", "ircd", "ircs", "7000"};
#define NTOK ((int)(sizeof(TOK)/sizeof(TOK[0])))

struct addr { int known, ok, ssl; char host[300], port[300]; };
/* what an address says; known = 0 where the notation leaves it open */
static void ref(const char *u, struct addr *a)
{
	char b[400], *p, *h;
	memset(a, 0, sizeof(*a));
	a->known = 1;
	if (!strncmp(u, "irc://", 6)) u += 6;
	else if (!strncmp(u, "ircs://", 7)) { u += 7; a->ssl = 1; }
	else if (strstr(u, "://")) return;
	if (strstr(u, "://")) { a->known = 0; return; }
	strcpy(b, u);
	if ((p = strchr(b, '/'))) *p = 0;
	h = b;
	if (*h == '[') {
		char *e = strchr(h, ']');
		if (!e) return;
		if (e == h + 1) return;
		if (strpbrk(e + 1, "[]")) { a->known = !(e[1] == ':'); return; }
		*e = 0;
		h++;
		p = e + 1;
		if (strchr(h, '[')) { a->known = 0; return; }
		if (!*p) p = NULL;
		else if (*p != ':') return;
		else { p++; if (!*p) return; if (strchr(p, ':')) { a->known = 0; return; } }
	} else {
		char *c1 = strchr(h, ':');
		if (strpbrk(h, "[]")) { a->known = 0; return; }
		p = NULL;
		if (c1 && !strchr(c1 + 1, ':')) { *c1 = 0; p = c1 + 1; if (!*p) return; }
		else if (c1) {
			/* more than one colon: a bare IPv6 address when it is just that */
			if (strcmp(h, "::1")) { a->known = 0; return; }
		}
		if (!*h) return;
	}
	a->ok = 1;
	strcpy(a->host, h);
	strcpy(a->port, p ? p : a->ssl ? "994" : "6667");
}
static int same_port(const char *a, const char *b, int ssl)
{
	const char *nm = ssl ? "ircs" : "ircd", *no = ssl ? "994" : "6667";
	if (!strcmp(a, nm)) a = no;
	if (!strcmp(b, nm)) b = no;
	return !strcmp(a, b);
}
static void roundtrip(const char *host, const char *port, int ssl)
{
	char *u = irc_create_url(host, port, ssl), *h = NULL, *p = NULL;
	gboolean s = 2;
	mc_trace("write %s port %s ssl %d: %s", host, port, ssl, u);
	MC_ASSERT(irc_parse_url(u, &h, &p, &s), "the written address is not readable");
	MC_ASSERT(!strcmp(h, host), "another host is read back");
	MC_ASSERT(same_port(p, port, ssl), "another port is read back");
	MC_ASSERT(!s == !ssl, "encryption differs when read back");
	mc_steps(2);
	mc_outcome(mc_hash_str(u, MC_H0));
	g_free(u); g_free(h); g_free(p);
}
static void run(void)
{
	int part = mc_choose_l(3, "direction");
	if (part == 2) {
		/* every port */
		static const char *HH[] = {"irc.example.org", "::1", "10.0.0.1"};
		int hi = mc_choose_l(256, "block of ports"), lo;
		const char *hh = HH[mc_choose_l(3, "host")];
		for (lo = 0; lo < 256; lo++) if (hi || lo) {
			char n[8];
			sprintf(n, "%d", hi << 8 | lo);
			roundtrip(hh, n, 0); roundtrip(hh, n, 1);
		}
		return;
	}
	static const char *H[] = {"h", "irc.example.org", "10.0.0.1", "::1", "fe80::1:2", "2001:db8::", "::", "host-name.x", "ircs", "irc", "994", "6667"};
	static const char *P[] = {"6667", "994", "ircd", "ircs", "1", "65535", "7000", "66670", "9940", "irc", "667", "ircsx"};
	if (part == 1) {
		int i = mc_choose(12), j = mc_choose(12), s = mc_choose(2);
		roundtrip(H[i], P[j], s);
		return;
	}
	{
		char u[400] = "", *h = NULL, *p = NULL;
		gboolean s = 2, r;
		struct addr a;
		int i, n = 1 + mc_choose_l(mc_tier ? 7 : 5, "length");
		for (i = 0; i < n; i++) strcat(u, TOK[mc_choose(NTOK)]);
		mc_trace("read %s", u);
		ref(u, &a);
		/* an exact copy, so that reading past the end shows */
		{ char *c = g_strdup(u); r = irc_parse_url(c, &h, &p, &s); MC_ASSERT(!strcmp(c, u), "the address text was altered"); g_free(c); }
		mc_step();
		if (a.known) {
			MC_ASSERT(!r == !a.ok, r ? "a malformed address is accepted" : "a proper address is refused");
			if (r) {
				MC_ASSERT(h && !strcmp(h, a.host), "host is %s instead of %s", h ? h : "(none)", a.host);
				MC_ASSERT(p && !strcmp(p, a.port), "port is %s instead of %s", p ? p : "(none)", a.port);
				MC_ASSERT(!s == !a.ssl, "encryption is %d instead of %d", s, a.ssl);
			}
			mc_cover(r ? "accepted" : "refused");
		} else mc_cover("left open");
		if (r) {
			MC_ASSERT(h && *h && p && *p, "accepted without host or port");
			mc_outcome(mc_hash_str(h, mc_hash_str(p, MC_H0 + s)));
			if (a.known) roundtrip(h, p, s);
		}
		g_free(h); g_free(p);
	}
}
int main(int argc, char **argv)
{
	static struct mc_check c = { .id = "P33", .run = run, .batch = 20000, .hang_secs = 20,
		.rule = "every concatenation of up to 5 (thorough 7) of 16 address tokens read and compared with a reference; 12 hosts x 12 ports x encryption, and 3 hosts x all 65535 ports, written and read back" };
	return mc_main(argc, argv, &c);
}
