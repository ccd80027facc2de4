/* Virtual clock and virtual GLib timers (link with the wrap list VTIME). */
#ifndef VERIF_VTIME_H
#define VERIF_VTIME_H
#include <glib.h>
#include <time.h>
#define VT_T0 1000000000L
struct vtimer { guint id; gint64 due; guint interval; GSourceFunc fn; gpointer data; };
extern gint64 vt_now;            /* milliseconds since VT_T0 */
extern int vt_stale;             /* removals of timers that did not exist */
extern int vt_fired;
int vt_count(void);              /* live timers */
int vt_count_data(gpointer data);
const struct vtimer *vt_get(int i);
gint64 vt_next_due(void);        /* -1 when there is none */
void vt_fire_next(void);         /* advance the clock to the next timer and run it */
void vt_advance(gint64 ms);      /* advance the clock, running what becomes due */
void vt_skip(gint64 ms);         /* advance the clock without running timers */
int vt_alive(guint id);
void vt_reset(void);              /* forget every timer */
#endif
