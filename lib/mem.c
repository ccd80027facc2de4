#include "mem.h"
#include "mc.h"
#include <string.h>
#include <errno.h>

struct memsource { GSource s; struct mem *m; GIOCondition cond; };

static GIOCondition ready(struct mem *m)
{
	GIOCondition c = 0;
	if (!m->connected) return m->errcond ? G_IO_ERR | G_IO_HUP : (m->hup ? G_IO_HUP : 0);
	if (m->in->len || m->eof || m->rderr) c |= G_IO_IN;
	if (m->hup) c |= G_IO_HUP;
	if (m->errcond) c |= G_IO_ERR;
	if (m->writable) c |= G_IO_OUT;
	return c;
}
/* The same quirk as the unix watch: data already buffered in the channel makes
 * the source ready only when something else wakes the loop up. */
static gboolean ms_prepare(GSource *s, gint *t) { *t = -1; return FALSE; }
static gboolean ms_check(GSource *s)
{
	struct memsource *ms = (struct memsource *)s;
	return (ready(ms->m) & ms->cond) != 0;
}
static gboolean ms_dispatch(GSource *s, GSourceFunc cb, gpointer data)
{
	struct memsource *ms = (struct memsource *)s;
	GIOCondition b = g_io_channel_get_buffer_condition(&ms->m->base);
	return ((GIOFunc)cb)(&ms->m->base, (ready(ms->m) | b) & ms->cond, data);
}
static void ms_finalize(GSource *s) { g_io_channel_unref(&((struct memsource *)s)->m->base); }
static GSourceFuncs ms_funcs = { ms_prepare, ms_check, ms_dispatch, ms_finalize };

static GIOStatus m_read(GIOChannel *c, gchar *buf, gsize n, gsize *got, GError **err)
{
	struct mem *m = (struct mem *)c;
	*got = 0;
	if (m->in->len == 0) {
		if (m->rderr) {
			g_set_error_literal(err, G_IO_CHANNEL_ERROR, G_IO_CHANNEL_ERROR_FAILED, "Connection reset by peer");
			return G_IO_STATUS_ERROR;
		}
		return m->eof ? G_IO_STATUS_EOF : G_IO_STATUS_AGAIN;
	}
	if (n > m->in->len) n = m->in->len;
	if (m->readmax && n > m->readmax) n = m->readmax;
	memcpy(buf, m->in->str, n);
	g_string_erase(m->in, 0, n);
	*got = n;
	return G_IO_STATUS_NORMAL;
}
static GIOStatus m_write(GIOChannel *c, const gchar *buf, gsize n, gsize *put, GError **err)
{
	struct mem *m = (struct mem *)c;
	int k = MEM_ALL;
	m->nwrites++;
	*put = 0;
	if (m->broken) k = MEM_ERROR;
	else if (!m->writable) k = MEM_AGAIN;
	else if (m->on_write) k = m->on_write(m, n);
	if (k == MEM_ERROR) {
		m->broken = 1;
		g_set_error_literal(err, G_IO_CHANNEL_ERROR, G_IO_CHANNEL_ERROR_PIPE, "Broken pipe");
		return G_IO_STATUS_ERROR;
	}
	if (k == MEM_AGAIN) return G_IO_STATUS_AGAIN;
	if (k < 0 || k > (int)n) k = n;
	g_string_append_len(m->out, buf, k);
	*put = k;
	return G_IO_STATUS_NORMAL;
}
static GIOStatus m_seek(GIOChannel *c, gint64 o, GSeekType t, GError **e) { return G_IO_STATUS_ERROR; }
static GIOStatus m_close(GIOChannel *c, GError **e) { ((struct mem *)c)->closed = 1; return G_IO_STATUS_NORMAL; }
static GSource *m_watch(GIOChannel *c, GIOCondition cond)
{
	GSource *s = g_source_new(&ms_funcs, sizeof(struct memsource));
	struct memsource *ms = (struct memsource *)s;
	ms->m = (struct mem *)c;
	ms->cond = cond;
	g_io_channel_ref(c);
	return s;
}
static void m_free(GIOChannel *c) { ((struct mem *)c)->dropped = 1; }
static GIOStatus m_set_flags(GIOChannel *c, GIOFlags f, GError **e) { ((struct mem *)c)->flags = f; return G_IO_STATUS_NORMAL; }
static GIOFlags m_get_flags(GIOChannel *c) { return ((struct mem *)c)->flags; }
static GIOFuncs m_funcs = { m_read, m_write, m_seek, m_close, m_watch, m_free, m_set_flags, m_get_flags };

struct mem *mem_new(const char *name)
{
	struct mem *m = g_new0(struct mem, 1);
	g_io_channel_init(&m->base);
	m->base.funcs = &m_funcs;
	m->base.is_readable = m->base.is_writeable = TRUE;
	m->base.is_seekable = FALSE;
	m->fd = -1;
	snprintf(m->name, sizeof(m->name), "%s", name);
	m->in = g_string_new("");
	m->out = g_string_new("");
	m->connected = m->writable = 1;
	return m;
}
void mem_feedn(struct mem *m, const char *s, size_t n) { g_string_append_len(m->in, s, n); }
void mem_feed(struct mem *m, const char *s) { g_string_append(m->in, s); }
char *mem_line(struct mem *m)
{
	char *s = m->out->str + m->taken, *e = memchr(s, '\n', m->out->len - m->taken), *r;
	size_t n;
	if (e == NULL) return NULL;
	n = e - s;
	m->taken += n + 1;
	if (n && s[n - 1] == '\r') n--;
	r = g_malloc(n + 1);
	memcpy(r, s, n);
	r[n] = 0;
	return r;
}
int pump(void)
{
	int n = 0;
	while (g_main_context_iteration(NULL, FALSE))
		if (++n > 5000) mc_fail("the event loop never comes to rest");
	return n;
}
