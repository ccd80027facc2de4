#!/usr/bin/env python3
"""Build and run one model checking harness against /repo's current tree.

  check.py ID [--tier quick|thorough] [--budget S] [--replay FILE] [--keep]
  check.py --setup          build every object and harness once

Exit 0: property held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run (build failure, engine failure).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LIB = os.path.join(VERIF, "lib")
CHECKS = os.path.join(VERIF, "checks")
sys.path.insert(0, VERIF)
from checks_table import TABLE  # noqa: E402

CC = "gcc"
BASE = ("-std=gnu99 -g -O1 -w -fno-omit-frame-pointer -fno-strict-aliasing -fno-optimize-sibling-calls "
        "-DHAVE_CONFIG_H -DMODULESDIR=\"/nonexistent/mods\" -DSTRICT_MEMORY_ALLOCS= ")
PATHDEFS = ("-DDEFAULT_CONFIG_DIR=\"/nonexistent/conf\" -DHELPFILE=\"/nonexistent/help\" "
            "-DSYSCONFDIR=\"/nonexistent/etc\" -DDEFAULT_CONFIG_FILE=\"/nonexistent/ctrlproxyd.conf\" "
            "-DSSL_CREDENTIALS_DIR=\"/nonexistent/ssl\" -DPIDFILE=\"/nonexistent/pid\"")
GLIBINC = ("-I/usr/include/glib-2.0 -I/usr/lib/x86_64-linux-gnu/glib-2.0/include "
           "-isystem /usr/include/mit-krb5 -I/usr/include/p11-kit-1")
LIBS = ("-lgnutls -lgcrypt -Wl,--export-dynamic -lgmodule-2.0 -pthread -lglib-2.0 "
        "-L/usr/lib/x86_64-linux-gnu/mit-krb5 -lgssapi_krb5 -lm -ldl")
ASAN = "-fsanitize=address"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def headers_hash():
    h = hashlib.sha256()
    for pat in ("*.h", "libirc/*.h", "src/*.h", "daemon/*.h"):
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            if os.path.basename(p) == "config.h":
                continue
            h.update(p.encode()); h.update(open(p, "rb").read())
    for p in sorted(glob.glob(os.path.join(LIB, "*.h"))):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def repo_units():
    """(source, extra flags) of everything linked into the proxy."""
    units = []
    for p in sorted(glob.glob(os.path.join(REPO, "libirc/*.c"))):
        if os.path.basename(p) in ("openssl.c", "ssl_openssl.c"):
            continue
        units.append(p)
    for p in sorted(glob.glob(os.path.join(REPO, "src/*.c"))):
        if os.path.basename(p) in ("main.c", "admin-cmd.c", "openssl.c"):
            continue
        units.append(p)
    return units


def compile_one(args):
    src, flags, hh = args
    key = hashlib.sha256()
    key.update(hh.encode()); key.update(flags.encode()); key.update(src.encode())
    key.update(open(src, "rb").read())
    out = os.path.join(BUILD, "obj", os.path.basename(src)[:-2] + "-" + key.hexdigest()[:24] + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out, None
    tmp = out + ".%d.tmp" % os.getpid()
    r = sh(["bash", "-c", "%s %s -c '%s' -o '%s'" % (CC, flags, src, tmp)])
    if r.returncode != 0:
        return None, r.stdout.decode(errors="replace")
    os.replace(tmp, out)
    return out, None


def q(flags):
    return flags.replace('"', '\\"')


def build(ids):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = headers_hash()
    inc = "-I%s -I%s -I%s/libirc -I%s/src" % (LIB, REPO, REPO, REPO)
    cfgs = {}
    jobs = {}

    def add(src, extra=""):
        flags = "%s %s %s %s %s %s" % (q(BASE), q(PATHDEFS), inc, GLIBINC, ASAN, extra)
        k = (src, flags)
        jobs[k] = None
        return k

    for i in ids:
        t = TABLE[i]
        objs = []
        extra = t.get("cflags", "")
        for u in repo_units():
            objs.append(add(u))
        for d in t.get("daemon", []):
            objs.append(add(os.path.join(REPO, "daemon", d), "-Dmain=ctrlproxyd_main" if d == "main.c" else ""))
        if t.get("proxy_main"):
            objs.append(add(os.path.join(REPO, "src/main.c"), q("-Dmain=ctrlproxy_main -DMODULESDIR=\"/nonexistent/mods\"")))
        for f in t.get("lib", []):
            objs.append(add(os.path.join(LIB, f), extra))
        objs.append(add(os.path.join(CHECKS, t["src"]), extra))
        if t.get("mc", True):
            k = (os.path.join(LIB, "mc.c"), "-O2 -g -w -I%s" % LIB)
            jobs[k] = None
            objs.append(k)
        cfgs[i] = objs
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = {ex.submit(compile_one, (s, f, hh)): (s, f) for (s, f) in jobs}
        for fu in cf.as_completed(futs):
            out, err = fu.result()
            if err is not None:
                print("build failure: %s\n%s" % (futs[fu][0], err[-4000:]))
                return None
            jobs[futs[fu]] = out
    bins = {}

    def link(i):
        t = TABLE[i]
        objs = [jobs[k] for k in cfgs[i]]
        wraps = " ".join("-Wl,--wrap=%s" % w for w in t.get("wrap", []))
        h = hashlib.sha256(("\n".join(objs) + wraps + LIBS).encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "bin", "%s-%s" % (t["src"][:-2], h))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(["bash", "-c", "%s -g %s -o '%s' %s %s %s" % (CC, ASAN, tmp, " ".join("'%s'" % o for o in objs), wraps, LIBS)])
            if r.returncode != 0:
                return i, None, r.stdout.decode(errors="replace")[-4000:]
            os.replace(tmp, out)
        else:
            os.utime(out)
        return i, out, None

    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for i, out, err in ex.map(link, ids):
            if err:
                print("link failure: %s\n%s" % (i, err))
                return None
            bins[i] = out
    clean_cache()
    return bins


def clean_cache():
    for sub, keep in (("obj", 900), ("bin", 200)):
        d = os.path.join(BUILD, sub)
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        try:
            fs.sort(key=lambda p: os.path.getmtime(p), reverse=True)
        except OSError:
            continue
        for p in fs[keep:]:
            try:
                if time.time() - os.path.getmtime(p) > 600:
                    os.unlink(p)
            except OSError:
                pass


def load_known(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=\{\{(.*?)\}\} (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def run_check(i, tier, budget, replay, workers):
    t = TABLE[i]
    t0 = time.time()
    bins = build([i])
    if bins is None:
        print("ERROR: could not build the harness for %s" % i)
        return 2
    t1 = time.time()
    scratch_base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    scratch = tempfile.mkdtemp(prefix="mc-%s-" % i, dir=scratch_base)
    os.chmod(scratch, 0o755)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=4096:malloc_fill_byte=190:"
                           "allocator_may_return_null=0:detect_stack_use_after_return=0:handle_abort=0:quarantine_size_mb=8:"
                           "fast_unwind_on_fatal=1:symbolize=1:print_legend=0")
    env["G_SLICE"] = "always-malloc"
    env["MALLOC_ARENA_MAX"] = "1"
    env["MC_SCRATCH"] = scratch
    env["HOME"] = scratch
    env["LC_ALL"] = "C"
    env["TZ"] = "UTC"
    env.pop("G_DEBUG", None)
    env.pop("G_MESSAGES_DEBUG", None)
    for k, v in t.get("env", {}).items():
        env[k] = v
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    if replay:
        r = subprocess.run([bins[i], "--replay", replay], env=env, cwd=scratch)
        shutil.rmtree(scratch, ignore_errors=True)
        return 0 if r.returncode == 0 else 1
    for old in glob.glob(os.path.join(rdir, "%s-*.replay" % i)):
        os.unlink(old)
    if budget is None:
        budget = t.get("budget", {}).get(tier, 120 if tier == "quick" else 700)
    known = load_known(i)
    out = os.path.join(scratch, "result.json")
    cmd = [bins[i], "--tier", tier, "--budget", str(budget), "--out", out, "--replaydir", rdir,
           "--workers", str(workers)]
    for k, _ in known:
        cmd += ["--known", k]
    try:
        r = subprocess.run(cmd, env=env, cwd=scratch, timeout=budget + 120, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        log = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        subprocess.run(["pkill", "-9", "-f", bins[i]])
        shutil.rmtree(scratch, ignore_errors=True)
        print("ERROR: %s engine did not finish" % i)
        return 2
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError as e:
            log += "\nbad result: %s" % e
    shutil.rmtree(scratch, ignore_errors=True)
    if log.strip():
        print(log[-3000:])
    if res is None:
        print("ERROR: %s produced no result (exit %s)" % (i, r.returncode))
        return 2
    wall = time.time() - t0
    level = t.get("level", "model_checking")
    samples = [s for s in res["samples"] if s.strip()][:4] or ["(no trace)"]
    states = res["states"] if res["states"] > 0 else res["outcomes"]
    cov = {
        "states": states,
        "transitions": res["transitions"],
        "traces_validated_against_impl": res["executions"],
        "samples": samples,
        "exhaustive": bool(res["exhaustive"]),
        "rule": res["rule"],
        "distinct_outcomes": res["outcomes"],
        "prunes": res["prunes"],
        "jobs": res["jobs"],
        "classes_reached": res["cover"],
    }
    if level in ("exploration", "fault_enumeration"):
        cov["evaluations"] = res["executions"]
        cov["distinct_nontrivial"] = res["outcomes"]
    ev = {
        "property": i, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": cov, "assumptions": t.get("assumptions", []), "wall_s": round(wall, 2),
        "violations": len(res["violations"]),
    }
    if known:
        ev["coverage"]["known_finding_hits"] = dict(zip([k for k, _ in known], res["known"]))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (i, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % i))
    for (k, desc), n in zip(known, res["known"]):
        print("KNOWN-FINDING: property=%s %s (%d executions)" % (i, desc, n))
    for v in res["violations"]:
        print("VIOLATION property=%s replay=%s" % (i, v["replay"]))
        print("  [%s] %s" % (v["kind"], v["msg"]))
        for ln in v["trace"].splitlines()[:60]:
            print("    " + ln)
    print("%s %s: executions=%d states=%d transitions=%d outcomes=%d prunes=%d exhaustive=%s build=%.1fs run=%.1fs" % (
        i, tier, res["executions"], res["states"], res["transitions"], res["outcomes"], res["prunes"],
        res["exhaustive"], t1 - t0, res["wall"]))
    unconf = res["cover"].get("engine:unconfirmed", 0)
    if unconf:
        print("note: %d failures did not reproduce on re-execution and were discarded" % unconf)
    if res["violations"]:
        return 1
    missing = [c for c in t.get("must_cover", []) if not res["cover"].get(c)]
    if missing and res["exhaustive"]:
        print("note: classes never reached: %s" % ", ".join(missing))
    return 0


def main(argv):
    if "--setup" in argv:
        ids = sorted(TABLE)
        b = build(ids)
        return 0 if b else 2
    pid = argv[0]
    tier, budget, replay = "quick", None, None
    workers = os.cpu_count() or 4
    a = argv[1:]
    while a:
        o = a.pop(0)
        if o == "--tier": tier = a.pop(0)
        elif o == "--budget": budget = float(a.pop(0))
        elif o == "--replay": replay = a.pop(0)
        elif o == "--workers": workers = int(a.pop(0))
    return run_check(pid, tier, budget, replay, workers)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
