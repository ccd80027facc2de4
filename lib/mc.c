#define _GNU_SOURCE
#include "mc.h"
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <setjmp.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fnmatch.h>

#define MAXWORKERS 64
#define TRACESZ 65536
#define MSGSZ 2048
#define MAXVIOL 64
#define MAXKNOWN 64
#define MAXCOVER 512
#define MAXSAMPLES 5

int mc_tier = 0;
int mc_verbose = 0;

struct slot {
	volatile int running;          /* an execution is in progress */
	volatile int nvec;             /* choices made so far in the current execution */
	volatile int nforced;          /* forced choices */
	uint16_t vec[MC_MAXCHOICE];
	uint16_t ar[MC_MAXCHOICE];
	volatile int status;           /* 1 subtree done, 2 batch full, 3 violation */
	char msg[MSGSZ];
	char trace[TRACESZ];
	int tracelen;
	char pad[64];
};

struct job { int n; uint16_t vec[24]; };

struct viol { char kind[16]; char msg[MSGSZ]; int n; uint16_t vec[MC_MAXCHOICE]; char *trace; };

struct shared {
	volatile long execs, steps, states, prunes, outcomes;
	volatile int next_job, njobs, stop;
	volatile int nviol, viol_lock, cover_lock, sample_lock, nsamples;
	volatile int timed_out, leaves_cut;
	volatile long knownhits[MAXKNOWN];
	char sample[MAXSAMPLES][3000];
	char covername[MAXCOVER][64];
	volatile long covercount[MAXCOVER];
	volatile int ncover;
	struct { char kind[16]; char msg[MSGSZ]; int n; uint16_t vec[MC_MAXCHOICE]; char trace[TRACESZ]; char err[4096]; } viol[MAXVIOL];
	struct slot slots[MAXWORKERS];
};

static struct shared *sh;
static uint64_t *visited, *outcomes;
static uint64_t tabmask;
static struct slot *S;
static const struct mc_check *C;
static jmp_buf done_jmp;
static int limit_choices = -1;   /* expansion mode: stop at this many choices */
static int hit_limit;
static int no_prune;
static int limit_arity;
static int nworkers = 8;
static double deadline;
static char errdir[200];
static int maxviol = 6;
static char *known[MAXKNOWN];
static int nknown;

static double now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
	const unsigned char *c = p;
	while (n--) { h ^= *c++; h *= 0x100000001b3ULL; }
	h ^= h >> 29;
	return h;
}

uint64_t mc_hash_str(const char *s, uint64_t h)
{
	if (s == NULL) return mc_hash("\xff\x01", 3, h);
	return mc_hash(s, strlen(s) + 1, h);
}

static uint64_t fin(uint64_t h)
{
	h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33;
	return h;
}

void mc_trace(const char *fmt, ...)
{
	va_list ap;
	int n, room;
	if (S == NULL) return;
	va_start(ap, fmt);
	room = TRACESZ - 2 - S->tracelen;
	if (room > 1) {
		n = vsnprintf(S->trace + S->tracelen, room, fmt, ap);
		if (n >= room) n = room - 1;
		if (mc_verbose) { printf("%s\n", S->trace + S->tracelen); fflush(stdout); }
		S->tracelen += n;
		S->trace[S->tracelen++] = '\n';
		S->trace[S->tracelen] = 0;
	}
	va_end(ap);
}

int mc_choose(int n)
{
	int i = S->nvec, v;
	if (n < 1) { mc_trace("mc_choose(%d)!", n); abort(); }
	if (n == 1) return 0;
	if (limit_choices >= 0 && i >= limit_choices) {
		hit_limit = 1;
		limit_arity = n;
		longjmp(done_jmp, 2);
	}
	if (i >= MC_MAXCHOICE) mc_fail("engine: too many choices");
	if (i < S->nforced) {
		v = S->vec[i];
		if (v >= n) mc_fail("engine: nondeterministic execution (choice %d arity %d forced %d)", i, n, v);
	} else
		v = 0;
	S->vec[i] = v;
	S->ar[i] = n;
	S->nvec = i + 1;
	return v;
}

int mc_choose_l(int n, const char *label)
{
	int v = mc_choose(n);
	mc_trace("  %s=%d/%d", label, v, n);
	return v;
}

void mc_fail(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(S->msg, MSGSZ, fmt, ap);
	va_end(ap);
	if (mc_verbose) {
		printf("FAIL: %s\n", S->msg);
		fflush(stdout);
	}
	S->status = 3;
	_exit(33);
}

void mc_done(void) { longjmp(done_jmp, 1); }

static int tab_insert(uint64_t *tab, uint64_t h, int rem, int *seen)
{
	/* entry: high 56 bits of hash, low 8 bits: remaining depth + 1 */
	uint64_t key, idx;
	int probes = 0;
	h = fin(h);
	key = h & ~0xffULL;
	if (key == 0) key = 0x100;
	idx = (h >> 20) & tabmask;
	for (;;) {
		uint64_t e = __atomic_load_n(&tab[idx], __ATOMIC_RELAXED);
		if (e == 0) {
			uint64_t want = key | (uint64_t)(rem + 1);
			if (__atomic_compare_exchange_n(&tab[idx], &e, want, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
				*seen = 0;
				return 1;
			}
		}
		if ((e & ~0xffULL) == key) {
			*seen = 1;
			for (;;) {
				uint64_t want;
				if ((int)(e & 0xff) >= rem + 1) return 0;
				want = key | (uint64_t)(rem + 1);
				if (__atomic_compare_exchange_n(&tab[idx], &e, want, 0, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return 1;
			}
		}
		idx = (idx + 1) & tabmask;
		if (++probes > 4096) { *seen = 0; return 1; } /* table full: just explore */
	}
}

int mc_state(uint64_t digest, int remaining)
{
	int seen, r;
	if (remaining > 250) remaining = 250;
	if (remaining < 0) remaining = 0;
	if (S->nvec < S->nforced) return 0;
	if (limit_choices >= 0 || no_prune) return 0;
	r = tab_insert(visited, digest, remaining, &seen);
	if (!seen) __atomic_add_fetch(&sh->states, 1, __ATOMIC_RELAXED);
	if (!r) {
		__atomic_add_fetch(&sh->prunes, 1, __ATOMIC_RELAXED);
		return 1;
	}
	return 0;
}

void mc_outcome(uint64_t digest)
{
	int seen;
	if (limit_choices >= 0) return;
	tab_insert(outcomes, digest, 0, &seen);
	if (!seen) __atomic_add_fetch(&sh->outcomes, 1, __ATOMIC_RELAXED);
}

void mc_step(void) { if (limit_choices < 0) __atomic_add_fetch(&sh->steps, 1, __ATOMIC_RELAXED); }
void mc_steps(long n) { if (limit_choices < 0) __atomic_add_fetch(&sh->steps, n, __ATOMIC_RELAXED); }

void mc_cover(const char *name)
{
	int i, n = sh->ncover;
	static struct { const char *p; int i; } cache[256];
	unsigned h = ((uintptr_t)name >> 2) & 255;
	if (limit_choices >= 0) return;
	if (cache[h].p == name && strncmp(sh->covername[cache[h].i], name, 63) == 0) {
		__atomic_add_fetch(&sh->covercount[cache[h].i], 1, __ATOMIC_RELAXED);
		return;
	}
	for (i = 0; i < n; i++)
		if (strncmp(sh->covername[i], name, 63) == 0) break;
	if (i == n) {
		while (__atomic_exchange_n(&sh->cover_lock, 1, __ATOMIC_ACQUIRE)) usleep(10);
		n = sh->ncover;
		for (i = 0; i < n; i++)
			if (strncmp(sh->covername[i], name, 63) == 0) break;
		if (i == n && n < MAXCOVER) {
			strncpy(sh->covername[n], name, 63);
			sh->ncover = n + 1;
		}
		__atomic_store_n(&sh->cover_lock, 0, __ATOMIC_RELEASE);
		if (i >= MAXCOVER) return;
	}
	cache[h].p = name; cache[h].i = i;
	__atomic_add_fetch(&sh->covercount[i], 1, __ATOMIC_RELAXED);
}

static void one_run(void)
{
	int r;
	S->nvec = 0;
	S->tracelen = 0;
	S->trace[0] = 0;
	S->status = 0;
	S->running = 1;
	hit_limit = 0;
	r = setjmp(done_jmp);
	if (r == 0)
		C->run();
	S->running = 0;
	if (limit_choices < 0) {
		__atomic_add_fetch(&sh->execs, 1, __ATOMIC_RELAXED);
		if (sh->nsamples < MAXSAMPLES && S->tracelen > 0) {
			long e = sh->execs;
			static const long want[MAXSAMPLES] = { 1, 50, 1000, 20000, 100000 };
			if (e >= want[sh->nsamples] && !__atomic_exchange_n(&sh->sample_lock, 1, __ATOMIC_ACQUIRE)) {
				if (sh->nsamples < MAXSAMPLES) {
					snprintf(sh->sample[sh->nsamples], sizeof(sh->sample[0]), "%.2900s", S->trace);
					sh->nsamples++;
				}
				__atomic_store_n(&sh->sample_lock, 0, __ATOMIC_RELEASE);
			}
		}
	}
	if (r == 0 && S->nvec < S->nforced && limit_choices < 0)
		mc_fail("engine: nondeterministic execution (%d of %d choices used)", S->nvec, S->nforced);
}

/* advance to the next vector with first `base` choices fixed; 0 if none */
static int advance(int base)
{
	int i = S->nvec - 1;
	while (i >= base && S->vec[i] + 1 >= S->ar[i]) i--;
	if (i < base) return 0;
	S->vec[i]++;
	S->nforced = i + 1;
	return 1;
}

static int isolate;
void mc_isolate(void) { isolate = 1; }

static void set_alarm(int secs)
{
	struct itimerval it;
	memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_REAL, &it, NULL);
}

static void redirect_err(int w)
{
	char p[300];
	int fd;
	if (mc_verbose) return;
	snprintf(p, sizeof(p), "%s/err.%d", errdir, w);
	fd = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0600);
	if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

static void child_reset_signals(void)
{
	signal(SIGALRM, SIG_DFL);
}

/* executor: runs DFS below base from the current forced vector */
static void executor(int w, int base, int batch)
{
	int n = 0, hang = C->hang_secs ? C->hang_secs : 20;
	redirect_err(w);
	child_reset_signals();
	for (;;) {
		set_alarm(hang);
		one_run();
		n++;
		if (sh->stop) { S->status = 4; _exit(0); }
		if (now() > deadline) { sh->timed_out = 1; sh->stop = 1; S->status = 4; _exit(0); }
		if (!advance(base)) { S->status = 1; _exit(0); }
		if (n >= batch || isolate) { S->status = 2; _exit(0); }
	}
}

static void classify(int st, char *kind, size_t ksz, char *msg, size_t msz, int w, char *err, size_t esz)
{
	char p[300];
	FILE *f;
	err[0] = 0;
	snprintf(p, sizeof(p), "%s/err.%d", errdir, w);
	f = fopen(p, "r");
	if (f) {
		size_t n = fread(err, 1, esz - 1, f);
		err[n] = 0;
		fclose(f);
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 33) {
		snprintf(kind, ksz, "property");
		snprintf(msg, msz, "%s", S->msg);
	} else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
		snprintf(kind, ksz, "hang");
		snprintf(msg, msz, "execution did not terminate");
	} else {
		char *a, *e;
		snprintf(kind, ksz, "crash");
		if ((a = strstr(err, "AddressSanitizer: ")) != NULL) {
			char fn[160] = "";
			char *q = a;
			/* first frame that is in repository code */
			while ((q = strstr(q, " in ")) != NULL) {
				char name[80], path[300];
				if (sscanf(q, " in %79s %299s", name, path) == 2 && strstr(path, ".c:") &&
				    strncmp(path, "../", 3) != 0) {
					char *b = strrchr(path, '/');
					snprintf(fn, sizeof(fn), " in %s at %s", name, b ? b + 1 : path);
					break;
				}
				q += 4;
			}
			a += strlen("AddressSanitizer: ");
			e = strpbrk(a, " \n");
			snprintf(msg, msz, "%.*s%s", (int)(e ? e - a : 60), a, fn);
		} else if ((a = strstr(err, "ERROR:")) != NULL || (a = strstr(err, "assertion")) != NULL) {
			e = strchr(a, '\n');
			snprintf(msg, msz, "%.*s", (int)(e ? e - a : 200), a);
		} else if (WIFSIGNALED(st))
			snprintf(msg, msz, "killed by signal %d", WTERMSIG(st));
		else
			snprintf(msg, msz, "exit status %d", WEXITSTATUS(st));
	}
}

/* confirm a failing vector in a fresh process; returns 1 when it fails again */
static int confirm(int w, char *kind, char *msg, char *err)
{
	uint16_t vec[MC_MAXCHOICE], ar[MC_MAXCHOICE];
	int n = S->nvec, st, ok = 0, i;
	memcpy(vec, S->vec, sizeof(vec));
	memcpy(ar, S->ar, sizeof(ar));
	for (i = 0; i < 1; i++) {
		pid_t p;
		memcpy(S->vec, vec, sizeof(vec));
		S->nforced = n;
		S->msg[0] = 0;
		p = fork();
		if (p == 0) {
			redirect_err(w);
			child_reset_signals();
			set_alarm(3 * (C->hang_secs ? C->hang_secs : 20));
			limit_choices = -1;
			no_prune = 1;
			one_run();
			_exit(0);
		}
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			classify(st, kind, 16, msg, MSGSZ, w, err, 4096);
			ok = 1;
		}
	}
	/* it passed in a fresh process: continue after the vector that ran now */
	if (!ok) return 0;
	/* keep trace of the confirmed run in slot, restore vector for advance() */
	memcpy(S->vec, vec, sizeof(vec));
	memcpy(S->ar, ar, sizeof(ar));
	S->nvec = n;
	return ok;
}

/* returns 1 when it counts as a new violation */
static int record(int w, int st)
{
	char kind[16], msg[MSGSZ], err[4096];
	int i, dup = 0;
	classify(st, kind, sizeof(kind), msg, sizeof(msg), w, err, sizeof(err));
	if (!confirm(w, kind, msg, err)) {
		mc_cover("engine:unconfirmed");
		fprintf(stderr, "note: unconfirmed failure (%s: %s)\n", kind, msg);
		return 0;
	}
	for (i = 0; i < nknown; i++)
		if (fnmatch(known[i], msg, 0) == 0) {
			__atomic_add_fetch(&sh->knownhits[i], 1, __ATOMIC_RELAXED);
			return 0;
		}
	while (__atomic_exchange_n(&sh->viol_lock, 1, __ATOMIC_ACQUIRE)) usleep(10);
	for (i = 0; i < sh->nviol; i++)
		if (strcmp(sh->viol[i].msg, msg) == 0) dup = 1;
	if (!dup && sh->nviol < MAXVIOL) {
		i = sh->nviol;
		strcpy(sh->viol[i].kind, kind);
		strcpy(sh->viol[i].msg, msg);
		strcpy(sh->viol[i].err, err);
		memcpy(sh->viol[i].trace, S->trace, TRACESZ);
		sh->viol[i].n = S->nvec;
		memcpy(sh->viol[i].vec, S->vec, sizeof(S->vec));
		sh->nviol = i + 1;
		if (sh->nviol >= maxviol) sh->stop = 1;
	}
	__atomic_store_n(&sh->viol_lock, 0, __ATOMIC_RELEASE);
	return 1;
}

static void worker(int w, struct job *jobs)
{
	int batch = C->batch ? C->batch : 1;
	S = &sh->slots[w];
	int fails = 0;
	for (;;) {
		int j = __atomic_fetch_add(&sh->next_job, 1, __ATOMIC_RELAXED);
		int base;
		if (j >= sh->njobs || sh->stop) break;
		base = jobs[j].n;
		memcpy(S->vec, jobs[j].vec, base * sizeof(uint16_t));
		S->nforced = base;
		for (;;) {
			int st;
			pid_t p;
			if (now() > deadline) { sh->timed_out = 1; sh->stop = 1; break; }
			S->status = 0;
			p = fork();
			if (p == 0) executor(w, base, batch);
			if (p < 0) { usleep(10000); continue; }
			while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
			if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
				if (S->status == 1 || S->status == 4) break;
				if (S->status == 2) continue;
			}
			__atomic_add_fetch(&sh->execs, 1, __ATOMIC_RELAXED);
			/* the in-flight vector failed */
			if (record(w, st) && ++fails > 60) sh->stop = 1;
			if (sh->stop) break;
			if (!advance(base)) break;
		}
		if (sh->stop) break;
	}
	_exit(0);
}

/* Expand the tree breadth first into prefixes until there are enough jobs. */
static struct job *make_jobs(int want, int *njobs)
{
	struct job *q = calloc(200000, sizeof(*q)), *out = calloc(200000, sizeof(*out));
	int qh = 0, qt = 1, no = 0;
	q[0].n = 0;
	S = &sh->slots[MAXWORKERS - 1];
	int level = -1, levelleft = 0;
	while (qh < qt && qt < 100000) {
		struct job jb;
		/* count the nodes left on this level: finish small levels, so that
		 * no unexpanded node keeps a disproportionate subtree */
		if (q[qh].n != level) {
			int k;
			level = q[qh].n;
			for (k = qh, levelleft = 0; k < qt && q[k].n == level; k++) levelleft++;
			if ((qt - qh) + no >= want) break;
		}
		if ((qt - qh) + no >= want && levelleft > 600) break;
		levelleft--;
		jb = q[qh++];
		pid_t p;
		int st, i;
		if (jb.n >= 12) { out[no++] = jb; continue; }
		memcpy(S->vec, jb.vec, sizeof(jb.vec));
		S->nforced = jb.n;
		S->status = 0;
		S->msg[0] = 0;
		p = fork();
		if (p == 0) {
			redirect_err(MAXWORKERS - 1);
			child_reset_signals();
			set_alarm(3 * (C->hang_secs ? C->hang_secs : 20));
			limit_choices = jb.n;
			one_run();
			if (hit_limit) { S->ar[jb.n] = limit_arity; S->status = 10; }
			else S->status = 11;
			_exit(0);
		}
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && S->status == 10) {
			int a = S->ar[jb.n];
			for (i = 0; i < a && qt < 190000; i++) {
				q[qt] = jb;
				q[qt].vec[jb.n] = i;
				q[qt].n = jb.n + 1;
				qt++;
			}
			if (i < a) { fprintf(stderr, "too many jobs\n"); exit(2); }
		} else {
			/* a leaf or a failure: leave it to a worker */
			out[no++] = jb;
		}
	}
	while (qh < qt) out[no++] = q[qh++];
	free(q);
	*njobs = no;
	return out;
}

static void json_str(FILE *f, const char *s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c == '\n') fputs("\\n", f);
		else if (c == '\t') fputs("\\t", f);
		else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static int replay(const char *file)
{
	FILE *f = fopen(file, "r");
	char line[65536];
	int n = 0;
	if (!f) { perror(file); return 2; }
	S = &sh->slots[0];
	while (fgets(line, sizeof(line), f)) {
		if (strncmp(line, "vector:", 7) == 0) {
			char *p = line + 7, *e;
			for (;;) {
				long v = strtol(p, &e, 10);
				if (e == p) break;
				S->vec[n++] = v;
				p = e;
			}
		}
		if (strncmp(line, "tier:", 5) == 0) mc_tier = strstr(line, "thorough") != NULL;
	}
	fclose(f);
	S->nforced = n;
	mc_verbose = 1;
	no_prune = 1;
	if (C->init) C->init();
	set_alarm(3 * (C->hang_secs ? C->hang_secs : 20));
	one_run();
	printf("replay: execution finished without violation\n");
	return 0;
}

int mc_main(int argc, char **argv, const struct mc_check *chk)
{
	const char *out = NULL, *rep = NULL, *replaydir = ".";
	double budget = 600, t0;
	int i, nj, live = 0, wantjobs = 0;
	struct job *jobs;
	size_t tabbits = 22;
	C = chk;
	for (i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--tier") && i + 1 < argc) mc_tier = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--budget") && i + 1 < argc) budget = atof(argv[++i]);
		else if (!strcmp(argv[i], "--workers") && i + 1 < argc) nworkers = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--out") && i + 1 < argc) out = argv[++i];
		else if (!strcmp(argv[i], "--replaydir") && i + 1 < argc) replaydir = argv[++i];
		else if (!strcmp(argv[i], "--replay") && i + 1 < argc) rep = argv[++i];
		else if (!strcmp(argv[i], "--known") && i + 1 < argc && nknown < MAXKNOWN) known[nknown++] = argv[++i];
		else if (!strcmp(argv[i], "--maxviol") && i + 1 < argc) maxviol = atoi(argv[++i]);
	}
	if (mc_tier) tabbits = 26;
	if (nworkers > MAXWORKERS - 1) nworkers = MAXWORKERS - 1;
	sh = mmap(NULL, sizeof(*sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	visited = mmap(NULL, sizeof(uint64_t) << tabbits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	outcomes = mmap(NULL, sizeof(uint64_t) << tabbits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	tabmask = (1ULL << tabbits) - 1;
	snprintf(errdir, sizeof(errdir), "%s/mcerr.XXXXXX", getenv("MC_SCRATCH") ? getenv("MC_SCRATCH") : "/tmp");
	if (rep) return replay(rep);
	if (mkdtemp(errdir) == NULL) { perror("mkdtemp"); return 2; }
	t0 = now();
	deadline = t0 + budget;
	if (C->init) C->init();
	wantjobs = nworkers * 40;
	jobs = make_jobs(wantjobs, &nj);
	sh->njobs = nj;
	sh->next_job = 0;
	fflush(NULL);
	for (i = 0; i < nworkers; i++) {
		pid_t p = fork();
		if (p == 0) worker(i, jobs);
		if (p > 0) live++;
	}
	while (live > 0) {
		int st;
		pid_t p = wait(&st);
		if (p < 0) { if (errno == EINTR) continue; break; }
		live--;
		if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
			fprintf(stderr, "engine: worker died (status %x)\n", st);
			sh->timed_out = 1;
		}
	}
	for (i = 0; i < MAXWORKERS; i++) {
		char p[300];
		snprintf(p, sizeof(p), "%s/err.%d", errdir, i);
		unlink(p);
	}
	rmdir(errdir);
	for (i = 0; i < sh->nviol; i++) {
		char p[600];
		FILE *f;
		int k;
		snprintf(p, sizeof(p), "%s/%s-%d.replay", replaydir, C->id, i);
		f = fopen(p, "w");
		if (!f) continue;
		fprintf(f, "property: %s\ntier: %s\nkind: %s\nmessage: %s\nvector:", C->id, mc_tier ? "thorough" : "quick", sh->viol[i].kind, sh->viol[i].msg);
		for (k = 0; k < sh->viol[i].n; k++) fprintf(f, " %d", sh->viol[i].vec[k]);
		fprintf(f, "\n\ntrace:\n%s\n\nstderr:\n%s\n", sh->viol[i].trace, sh->viol[i].err);
		fclose(f);
	}
	{
		FILE *f = out ? fopen(out, "w") : stdout;
		if (!f) { perror(out); return 2; }
		fprintf(f, "{\"id\":\"%s\",\"executions\":%ld,\"transitions\":%ld,\"states\":%ld,\"prunes\":%ld,\"outcomes\":%ld,\"jobs\":%d,\"exhaustive\":%s,\"wall\":%.2f,\n\"rule\":",
			C->id, sh->execs, sh->steps, sh->states, sh->prunes, sh->outcomes, nj,
			(sh->timed_out || sh->nviol) ? "false" : "true", now() - t0);
		json_str(f, C->rule ? C->rule : "");
		fprintf(f, ",\n\"cover\":{");
		for (i = 0; i < sh->ncover; i++) {
			if (i) fputc(',', f);
			json_str(f, sh->covername[i]);
			fprintf(f, ":%ld", sh->covercount[i]);
		}
		fprintf(f, "},\n\"samples\":[");
		for (i = 0; i < sh->nsamples; i++) {
			if (i) fputc(',', f);
			json_str(f, sh->sample[i]);
		}
		fprintf(f, "],\n\"known\":[");
		for (i = 0; i < nknown; i++) fprintf(f, "%s%ld", i ? "," : "", sh->knownhits[i]);
		fprintf(f, "],\n\"violations\":[");
		for (i = 0; i < sh->nviol; i++) {
			if (i) fputc(',', f);
			fprintf(f, "{\"kind\":\"%s\",\"msg\":", sh->viol[i].kind);
			json_str(f, sh->viol[i].msg);
			fprintf(f, ",\"replay\":\"%s/%s-%d.replay\",\"trace\":", replaydir, C->id, i);
			sh->viol[i].trace[2500] = 0;
			json_str(f, sh->viol[i].trace);
			fprintf(f, "}");
		}
		fprintf(f, "]}\n");
		if (out) fclose(f);
	}
	return sh->nviol ? 1 : 0;
}
