/* Common prelude for harnesses. */
#ifndef VERIF_PRE_H
#define VERIF_PRE_H
#include "config.h"
#include <stdio.h>
#include <glib.h>
#include "internals.h"
#include "irc.h"
#include "mc.h"

/* choose a string over an alphabet of tokens, at most max tokens */
static inline int mc_tokens(char *out, size_t sz, const char *const *tok, int ntok, int max)
{
	int n = 0;
	out[0] = 0;
	while (n < max) {
		int c = mc_choose(ntok + 1);
		if (c == 0) break;
		if (strlen(out) + strlen(tok[c - 1]) + 1 > sz) abort();
		strcat(out, tok[c - 1]);
		n++;
	}
	return n;
}

static inline const char *mc_esc(const char *s)
{
	static char b[8][1200];
	static int k;
	char *o = b[k = (k + 1) & 7], *p = o;
	if (s == NULL) return "(null)";
	for (; *s && p - o < 1180; s++) {
		unsigned char c = *s;
		if (c < 32 || c >= 127 || c == '\\') p += sprintf(p, "\\x%02x", c);
		else *p++ = c;
	}
	*p = 0;
	return o;
}

static inline int streq(const char *a, const char *b)
{
	if (a == NULL || b == NULL) return a == b;
	return strcmp(a, b) == 0;
}
#endif
