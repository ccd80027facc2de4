#include "vtime.h"
#include "mc.h"
#include <string.h>

gint64 vt_now;
int vt_stale, vt_fired;
static struct vtimer T[256];
static int nt;
static guint nextid = 1000000;
extern gboolean __real_g_source_remove(guint id);

time_t __wrap_time(time_t *t)
{
	time_t r = VT_T0 + vt_now / 1000;
	if (t) *t = r;
	return r;
}
guint __wrap_g_timeout_add(guint ms, GSourceFunc fn, gpointer data)
{
	struct vtimer *v;
	if (nt >= 256) mc_fail("more than 256 timers are pending");
	v = &T[nt++];
	v->id = nextid++;
	v->interval = ms;
	v->due = vt_now + ms;
	v->fn = fn;
	v->data = data;
	return v->id;
}
guint __wrap_g_timeout_add_seconds(guint s, GSourceFunc fn, gpointer data) { return __wrap_g_timeout_add(s * 1000, fn, data); }
guint __wrap_g_timeout_add_full(gint prio, guint ms, GSourceFunc fn, gpointer data, GDestroyNotify d) { return __wrap_g_timeout_add(ms, fn, data); }
static int find(guint id)
{
	int i;
	for (i = 0; i < nt; i++) if (T[i].id == id) return i;
	return -1;
}
static void drop(int i)
{
	memmove(&T[i], &T[i + 1], (nt - i - 1) * sizeof(T[0]));
	nt--;
}
gboolean __wrap_g_source_remove(guint id)
{
	if (id >= 1000000) {
		int i = find(id);
		if (i < 0) { vt_stale++; return FALSE; }
		drop(i);
		return TRUE;
	}
	if (g_main_context_find_source_by_id(NULL, id) == NULL) { vt_stale++; return FALSE; }
	return __real_g_source_remove(id);
}
int vt_alive(guint id) { return find(id) >= 0; }
int vt_count(void) { return nt; }
int vt_count_data(gpointer data)
{
	int i, n = 0;
	for (i = 0; i < nt; i++) n += T[i].data == data;
	return n;
}
const struct vtimer *vt_get(int i) { return &T[i]; }
static int first(void)
{
	int i, b = -1;
	for (i = 0; i < nt; i++) if (b < 0 || T[i].due < T[b].due || (T[i].due == T[b].due && T[i].id < T[b].id)) b = i;
	return b;
}
gint64 vt_next_due(void) { int b = first(); return b < 0 ? -1 : T[b].due; }
void vt_fire_next(void)
{
	int b = first();
	struct vtimer v;
	gboolean again;
	if (b < 0) return;
	v = T[b];
	if (v.due > vt_now) vt_now = v.due;
	vt_fired++;
	again = v.fn(v.data);
	b = find(v.id);
	if (b < 0) return;
	if (again) T[b].due = vt_now + (T[b].interval ? T[b].interval : 1);
	else drop(b);
}
void vt_advance(gint64 ms)
{
	gint64 end = vt_now + ms;
	int n = 0;
	while (first() >= 0 && T[first()].due <= end) {
		vt_fire_next();
		if (++n > 100000) mc_fail("timers never come to rest");
	}
	if (vt_now < end) vt_now = end;
}
void vt_skip(gint64 ms) { vt_now += ms; }
void vt_reset(void) { nt = 0; vt_now = 0; }
