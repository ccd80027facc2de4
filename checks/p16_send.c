/* P16: output survives short writes, blocking and disconnection intact.
 * The transport writes to an in-memory channel; every write is answered with
 * every possible outcome; the harness interleaves sending, the peer draining,
 * disconnecting and freeing. */
#include "pre.h"
#include "mem.h"
#include "transport.h"

static struct mem *M;
static struct irc_transport *T;
static int hangups, disconnects, errors, logs, recvs, freed, failed, budget, dead;
static GString *want;
static int on_hup_free;

static void cb_log(struct irc_transport *t, const struct irc_line *l, const GError *e)
{
	logs++;
	MC_ASSERT(l != NULL, "log callback without message");
	MC_ASSERT(e == NULL || e->message != NULL, "log callback with broken error");
}
static void kill_transport(void)
{
	if (freed) return;
	irc_transport_disconnect(T);
	free_irc_transport(T);
	freed = 1;
}
static void cb_hup(struct irc_transport *t)
{
	hangups++;
	mc_trace("  hangup reported");
	MC_ASSERT(!dead, "hangup reported after disconnecting");
	if (on_hup_free) { dead = 1; kill_transport(); }
	else { dead = 1; irc_transport_disconnect(t); }
}
static void cb_disc(struct irc_transport *t) { disconnects++; dead = 1; }
static gboolean cb_recv(struct irc_transport *t, const struct irc_line *l) { recvs++; return TRUE; }
static void cb_cserr(struct irc_transport *t, const char *m) { }
static gboolean cb_err(struct irc_transport *t, const char *m) { errors++; cb_hup(t); return FALSE; }
static const struct irc_transport_callbacks cbs = { cb_log, cb_hup, cb_disc, cb_recv, cb_cserr, cb_err };

static int on_write(struct mem *m, size_t n)
{
	static const char *const what[] = { "all", "blocks", "one byte", "all but one byte", "fails" };
	int k;
	if (budget <= 0) return MEM_ALL;
	budget--;
	k = mc_choose(n > 2 ? 5 : (n > 1 ? 4 : 3));
	if (n <= 2 && k == 2 && n == 1) k = 4;
	else if (n == 2 && k == 3) k = 4;
	mc_trace("  write of %d bytes: %s", (int)n, what[k]);
	switch (k) {
	case 0: return MEM_ALL;
	case 1: m->writable = 0; return MEM_AGAIN;
	case 2: return 1;
	case 3: return n - 1;
	default: failed = 1; return MEM_ERROR;
	}
}

static void check_prefix(const char *when)
{
	MC_ASSERT(M->out->len <= want->len && memcmp(M->out->str, want->str, M->out->len) == 0,
		"%s: the peer received '%s' which is not a prefix of what was sent", when, mc_esc(M->out->str));
}

static void run(void)
{
	static char big[1700], text[100];
	int depth = mc_tier ? 6 : 5, i, ops = 0, sent = 0, reads_pending = 0;
	int cset = mc_choose(2);
	memset(big, 'z', sizeof(big));
	memcpy(big, "PRIVMSG c :", 11);
	big[1650] = 0;
	M = mem_new("peer");
	M->on_write = on_write;
	want = g_string_new("");
	hangups = disconnects = errors = logs = recvs = freed = failed = dead = 0;
	budget = mc_tier ? 4 : 3;
	on_hup_free = mc_choose(2);
	g_io_channel_set_encoding(mem_ioc(M), NULL, NULL);
	g_io_channel_set_close_on_unref(mem_ioc(M), TRUE);
	T = irc_transport_new_iochannel(mem_ioc(M));
	g_io_channel_unref(mem_ioc(M));
	g_io_channel_ref(mem_ioc(M)); /* ours, so that the peer can look at the bytes */
	irc_transport_set_callbacks(T, &cbs, NULL);
	if (cset) MC_ASSERT(transport_set_charset(T, "ISO-8859-1"), "cannot set character set");
	for (i = 0; i < depth; i++) {
		int op = mc_choose(8);
		ops++;
		if (op == 0) break;
		mc_step();
		switch (op) {
		case 1: case 2: case 3: {
			const char *t;
			struct irc_line *l;
			GError *e = NULL;
			gboolean ok, conv = !(cset && op == 3);
			int blocked;
			if (freed) mc_done();
			if (op == 3 && !cset) mc_done();
			sprintf(text, op == 3 ? "B%d \xe2\x82\xac y" : "A%d :x y", sent);
			big[14] = '0' + sent;
			t = op == 2 ? big : text;
			l = irc_parse_line(t);
			blocked = !M->writable;
			mc_trace("send %.30s", mc_esc(t));
			/* what the peer should get: every message accepted before the end */
			if (!dead && conv) g_string_append_printf(want, "%s\r\n", t);
			ok = (i & 1) ? transport_send_line(T, l, &e) : transport_send_line(T, l, NULL);
			if (!ok && !failed && !dead && conv) mc_fail("sending a message failed without any fault");
			if (e) g_error_free(e);
			free_line(l);
			sent++;
			break;
		}
		case 4: mc_trace("peer reads, loop runs"); M->writable = 1; pump(); break;
		case 5: mc_trace("loop runs"); pump(); break;
		case 6:
			if (freed) mc_done();
			mc_trace("disconnect");
			irc_transport_disconnect(T);
			break;
		case 7:
			switch (mc_choose(3)) {
			case 0: mc_trace("peer closes"); M->eof = M->hup = 1; if (M->broken || mc_choose(2)) M->broken = 1; failed |= M->broken; pump(); break;
			case 1: mc_trace("connection reset"); M->rderr = 1; M->broken = 1; failed = 1; pump(); break;
			default: if (freed) mc_done(); mc_trace("disconnect and free"); kill_transport(); break;
			}
			break;
		}
		check_prefix("after an operation");
		MC_ASSERT(hangups <= 1, "the loss of the connection was reported %d times", hangups);
		MC_ASSERT(disconnects <= 1, "the disconnect was reported %d times", disconnects);
	}
	/* the peer keeps reading: everything arrives */
	budget = 0;
	M->writable = 1;
	pump();
	pump();
	check_prefix("finally");
	if (!failed && !freed && !M->eof)
		MC_ASSERT(M->out->len == want->len, "the peer reads on but only got %d of %d bytes: '%s'", (int)M->out->len, (int)want->len, mc_esc(M->out->str));
	if ((M->eof || M->rderr) && !dead) mc_fail("the connection is gone but this was not reported");
	mc_outcome(mc_hash_str(M->out->str, freed + 2 * dead + 4 * hangups));
	if (!freed) kill_transport();
	pump();
	MC_ASSERT(M->closed || M->base.ref_count == 1, "the connection is still in use after everything was released (%d references)", M->base.ref_count);
	g_io_channel_unref(mem_ioc(M));
	g_string_free(M->in, TRUE); g_string_free(M->out, TRUE);
	g_string_free(want, TRUE);
	g_free(M);
}
static void init(void) { }
static const struct mc_check chk = { "P16", init, run, 400, 20,
	"every sequence of at most 5 operations (thorough 6) from {send short, >1 buffer, inconvertible message (all distinct); peer drains; loop runs; disconnect; free; peer closes; reset} times every outcome {all, blocks, 1 byte, n-1 bytes, error} of the first 3 (4) writes, with and without character set, with hangup handled by disconnecting or by freeing" };
void register_hup_handler(hup_handler_fn fn, void *userdata) {}
int main(int argc, char **argv) { return mc_main(argc, argv, &chk); }
