#!/usr/bin/env python3
"""Builds the library of /repo and the engines, runs the jobs of one property, writes evidence.

usage: check.py ID quick|thorough        judge one property
       check.py setup                    see that everything builds
       check.py replay FILE              run one recorded counterexample again
       check.py times ID quick|thorough  run the jobs and print what each covered and took
"""
import concurrent.futures as cf
import ctypes
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DT_REPO", "/repo")
NPROC = max(2, os.cpu_count() or 8)
sys.path.insert(0, VERIF)
from jobs import JOBS, META  # noqa: E402

MC_WRAP = "malloc calloc realloc free reallocarray aligned_alloc posix_memalign strdup abort exit _exit err errx perror read __assert_fail".split()
SC_WRAP = ("malloc calloc realloc free reallocarray aligned_alloc posix_memalign strdup abort exit _exit err errx perror read __assert_fail "
           "memcpy memmove memset gettimeofday clock_gettime timespec_get time nanosleep clock_nanosleep usleep sleep sched_yield "
           "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock "
           "pthread_mutex_clocklock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait "
           "pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast pthread_self pthread_once").split()


class BuildError(Exception):
    pass


def no_aslr():
    """run in the child: fixed addresses, no core files, die with the driver"""
    libc = ctypes.CDLL(None)
    libc.personality(0x0040000)
    libc.prctl(1, signal.SIGKILL)
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-4000:]))


def compiles(text, cwd):
    src = os.path.join(cwd, "probe.c")
    with open(src, "w") as f:
        f.write(text)
    return subprocess.run(["gcc", "-std=gnu11", "-DWITH_PTHREAD", "-Werror=incompatible-pointer-types", "-I" + REPO, "-fsyntax-only", src], cwd=cwd,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def build(bld, want):
    """library objects come from REPO's working tree; nothing is reused between runs"""
    srcs = sorted(f for f in os.listdir(REPO) if f.endswith(".c"))
    flags = ["-DWITH_PTHREAD", "-I" + REPO]
    # without fortification: every call keeps the name the engines interpose
    if compiles('#include "datatypes.h"\nint f(RBTree *t){ RBNode *n = t->root; return n && n->left && n->right && n->black && n->key; }\n', bld):
        flags.append("-DHAVE_RB_FIELDS=1")
    if compiles('#include "datatypes.h"\nbool f(Queue *q, void **d){ return queue_head(q, d); }\n', bld):
        flags.append("-DHAVE_QUEUE_HEAD=1")
    todo = []
    for kind in want:
        d = os.path.join(bld, kind)
        os.makedirs(os.path.join(d, "l"))
        os.makedirs(os.path.join(d, "e"))
        # md, sd: a debug build, with assertions
        lib = ["-std=c11", "-O2", "-g", "-w", "-fPIC", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0"] + (["-DNDEBUG"] if kind[1] == "c" else []) + (["-fsanitize=address"] if kind[0] == "m" else ["-fsanitize=thread", "-fno-builtin"])
        for s in srcs:
            todo.append((["gcc"] + lib + flags[:2] + ["-c", os.path.join(REPO, s), "-o", "l/" + s[:-2] + ".o"], d))
        eng = os.path.join(VERIF, "engine") if kind[0] == "m" else os.path.join(VERIF, "engine", "sched")
        for s in sorted(f for f in os.listdir(eng) if f.endswith(".c")):
            todo.append((["gcc", "-std=gnu11", "-O2", "-g", "-w"] + flags + ["-c", os.path.join(eng, s), "-o", "e/" + s[:-2] + ".o"], d))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda a: sh(*a), todo))
    for kind in want:
        d = os.path.join(bld, kind)
        lo = ["l/" + s[:-2] + ".o" for s in srcs]
        eo = ["e/" + f for f in sorted(os.listdir(os.path.join(d, "e")))]
        san = ["-fsanitize=address"] if kind[0] == "m" else []
        wrap = MC_WRAP if kind[0] == "m" else SC_WRAP
        name = "libdt.so" if kind[0] == "m" else "libdts.so"
        sh(["gcc", "-shared"] + san + ["-o", name] + lo + ["-Wl,-z,now"] + ["-Wl,--wrap=" + w for w in wrap] + ["-pthread"], d)
        sh(["gcc"] + san + ["-rdynamic", "-o", "run"] + eo + ["-L.", "-l" + name[3:-3], "-Wl,-rpath," + d, "-pthread"], d)


class Job:
    """one exploration: engine, arguments, shard"""

    def __init__(self, engine, args, group):
        self.engine, self.args, self.group = engine, args, group
        self.result = None
        self.wall = 0.0

    def text(self):
        return self.engine + " " + " ".join(self.args)


def expand(spec):
    """'[N*] mc|sc|md|sd harness mode key=value..': N shards"""
    words = spec.split()
    n = 1
    if words[0].endswith("*"):
        n = int(words[0][:-1])
        words = words[1:]
    out = []
    for i in range(n):
        a = words[1:] + (["shard=%d" % i, "shards=%d" % n] if n > 1 else [])
        out.append(Job(words[0], a, spec))
    return out


def parse_out(text):
    for line in reversed(text.strip().splitlines()):
        line = line.strip()
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return None


procs = set()
plock = threading.Lock()
stopping = threading.Event()


def execute(bld, engine, args, limit):
    d = os.path.join(bld, engine)
    fd, out = tempfile.mkstemp(dir=bld, prefix="out")
    os.close(fd)
    cmd = ["./run"] + args[:2] + (["out=" + out] if engine[0] == "m" else []) + args[2:]
    with open(out if engine[0] == "s" else os.devnull, "w") as so, open(os.devnull, "w") as null:
        with plock:
            if stopping.is_set():
                return None, "stopped"
            p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=so, stderr=null, preexec_fn=no_aslr, start_new_session=True)
            procs.add(p)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = "timeout"
        finally:
            with plock:
                procs.discard(p)
    with open(out, errors="replace") as f:
        res = parse_out(f.read())
    os.unlink(out)
    return rc, res


def stop_all():
    with plock:
        stopping.set()
        for p in list(procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass


def replay_args(job, v):
    a = [x for x in job.args if not re.match(r"(secs|shard|shards)=", x)]
    if job.engine[0] == "m":
        if v.get("trace", "").startswith("case="):
            return a + [v["trace"]]
        r = [a[0], "replay"] + a[2:] + ["trace=" + v.get("trace", "")]
        if v.get("oom"):
            r.append("failalloc=%d" % v["oom"])
        return r
    return [a[0], "replay"] + a[2:] + ["prog=" + v["prog"], "trace=" + v["trace"]]


def known_findings(pid):
    """lines: 'known: property=<id> match=<regular expression over "message | history">'"""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) match=(.*?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def total(jobs):
    t = dict(states=0, transitions=0, replayed=0, mismatches=0, observed=0, checks=0, schedules=0, programs=0, cases=0, steps=0, oom=0, cut=[],
             races=0, choice=0, bounded=0, fix=0, outcomes=0, waits=0, switches=0, evaluations=0, nontrivial=0)
    samples = []
    for j in jobs:
        r = j.result or {}
        m = r.get("mode")
        if j.engine[0] == "m" and m == "bfs":
            t["states"] += r["states"]
            t["transitions"] += r["transitions"]
            t["replayed"] += r["replayed"]
            t["mismatches"] += r["mismatches"]
            t["observed"] += r["observed"]
            t["checks"] += r["checks"]
            t["oom"] += r["oom_injections"]
            t["fix" if r["fixpoint"] else "bounded"] += 1
            if r["cut"]:
                t["cut"].append("%s: time budget ended at depth %d after %d of %d states" % (j.text(), r["depth"], r["expanded"], r["states"]))
            samples += [("%s: %s" % (j.text(), s))[:700] for s in r["samples"][-1:]]
        elif j.engine[0] == "m":
            t["cases"] += r["cases"]
            t["steps"] += r["steps"]
            for key in ("evaluations", "nontrivial"):
                m = re.search(key + r"[=: ]+(\d+)", r["notes"])
                t[key] += int(m.group(1)) if m else 0
            t["checks"] += r["checks"]
            if r["skipped"]:
                t["cut"].append("%s: time budget ended after %d cases, %d left out" % (j.text(), r["cases"], r["skipped"]))
            samples.append("%s: %s" % (j.text(), r["last_case"]))
        else:
            t["programs"] += r["programs"]
            t["schedules"] += r["schedules"]
            t["choice"] += r["choice_points"]
            t["checks"] += r["accesses"]
            t["outcomes"] += r["outcomes"]
            t["switches"] += r["switches"]
            t["waits"] += r["waits"]
            if r["skipped"] or r["capped"]:
                t["cut"].append("%s: time budget ended after %d programs, %d left out" % (j.text(), r["programs"], r["skipped"]))
            samples.append("%s: %s" % (j.text(), r["last"]))
    step = max(1, len(samples) // 12)
    return t, samples[::step][:14]


def evidence(pid, tier, jobs, wall, violations, known, unfinished):
    meta = META[pid]
    t, samples = total([j for j in jobs if j.result])
    t["cut"] += unfinished + [j.text() + ": stopped" for j in jobs if not j.result and violations]
    states = t["states"] + t["cases"] + t["steps"] + t["schedules"] + t["choice"]
    trans = t["transitions"] + t["steps"] + t["switches"]
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=t["replayed"] + t["cases"] + t["schedules"],
               samples=samples or ["none"],
               exhaustive=not t["cut"] and not violations,
               bounds=[j for j in dict.fromkeys(x.group for x in jobs)],
               explanation=("Every transition is an execution of the compiled library itself, there is no separate model that could differ from it. "
                            "states: distinct canonical states of the breadth-first searches, states after each operation of the sweeps, scheduling "
                            "points and final states of the schedule explorations. transitions: operations executed from those states, context "
                            "switches executed. traces: histories re-executed from the initial state that led to the recorded state again, complete "
                            "sweep histories, complete schedules."),
               bfs_states=t["states"], bfs_transitions=t["transitions"], bfs_fixpoints=t["fix"], bfs_depth_bounded=t["bounded"],
               replay_mismatches=t["mismatches"], sweep_cases=t["cases"], sweep_operations=t["steps"],
               comparisons_made=t["checks"], programs=t["programs"], schedules=t["schedules"], scheduling_points=t["choice"],
               context_switches=t["switches"], blocked_waits=t["waits"], distinct_outcomes=t["outcomes"],
               allocation_failures_injected=t["oom"], cut_short=t["cut"], known_findings=known)
    if meta["level"] == "fault_enumeration":
        cov.update(evaluations=t["oom"], distinct_nontrivial=t["states"],
                   rule="k-th allocation of an operation fails, for every k, for every operation of every explored state")
    if meta["level"] == "exploration":
        cov.update(evaluations=t["evaluations"], distinct_nontrivial=t["nontrivial"], rule=meta["rule"])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=meta["level"], coverage=cov,
              wall_s=round(wall, 2), assumptions=meta["assumptions"], violations=len(violations), violation_details=violations)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


def engines(jobs):
    return sorted({j.engine for j in jobs})


def judge(pid, tier, times=False):
    t0 = time.time()
    budget = 420 if tier == "quick" else 5400
    jobs = [j for spec in JOBS[pid][tier] for j in expand(spec)]
    found = []
    known_hit = []
    unfinished = []
    limit = 850 if tier == "quick" else 7000

    def room():
        """seconds any further run of an engine may take"""
        return max(20, limit - (time.time() - t0))

    bld = tempfile.mkdtemp(prefix="dtmc.", dir=os.environ.get("TMPDIR", "/tmp"))
    try:
        build(bld, engines(jobs))
        known = known_findings(pid)

        def run(j):
            if stopping.is_set():
                return
            left = budget - (time.time() - t0)
            secs = max(5, int(left))
            a = list(j.args)
            own = [x for x in a if x.startswith("secs=")]
            if not own:
                a.append("secs=%d" % secs)
            s = time.time()
            rc, res = execute(bld, j.engine, a, min(left + 120, room()))
            j.wall = time.time() - s
            if stopping.is_set() and rc not in (0, 1):
                return
            if rc == 0 and res and "violation" not in res:
                j.result = res
                return
            if not (res and "violation" in res):
                # the process died without a report: run it again before believing it
                rc2, res2 = execute(bld, j.engine, a, room())
                if rc2 == 0 and res2 and "violation" not in res2:
                    j.result = res2
                    return
                if res2 and "violation" in res2:
                    res = res2
                elif rc2 == "timeout" or rc == "timeout":
                    res = {"violation": "does not come to an end", "history": j.text(), "whole": True}
                elif rc == 3 or rc2 == 3:
                    raise RuntimeError("engine error in %s: %s" % (j.text(), res2 or res))
                else:
                    res = {"violation": "the process dies (%s)" % rc2, "history": j.text(), "whole": True}
            # a violation counts if it shows again in a process of its own
            args = list(j.args) if res.get("whole") else replay_args(j, res)
            if not res.get("whole"):
                rc3, res3 = execute(bld, j.engine, args, min(300, room()))
                if not (res3 and "violation" in res3) and not stopping.is_set():
                    # state merging may have hidden the true history: the whole exploration decides
                    args = list(j.args)
                    rc3, res3 = execute(bld, j.engine, args + ["secs=%d" % max(5, room() - 60)], room())
                    if rc3 == 0 and res3 and "violation" not in res3:
                        # a whole exploration without it: that is the result
                        j.result = res3
                if not (res3 and "violation" in res3):
                    if not stopping.is_set():
                        sys.stderr.write("not reproduced: %s %s\n" % (j.text(), res))
                        unfinished.append("%s: reported once and not again: %s" % (j.text(), res["violation"]))
                    return
            text = "%s | %s" % (res["violation"], res.get("history", ""))
            for rx, what in known:
                if rx.search(text):
                    if what not in known_hit:
                        known_hit.append(what)
                    return
            with plock:
                found.append((j, args, res))
            stop_all()

        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = [ex.submit(run, j) for j in jobs]
            for f in futs:
                f.result()
        wall = time.time() - t0
        for what in known_hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        viol = []
        if found:
            j, args, res = found[0]
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, os.getpid()))
            with open(path, "w") as f:
                json.dump(dict(property=pid, engine=j.engine, args=args, result=res, run="python3 /verif/check.py replay " + path), f, indent=1)
            print("%s: %s" % (pid, res["violation"]))
            print("history: %s" % res.get("history", ""))
            viol = [dict(description=res["violation"], replay=path, history=res.get("history", ""), job=j.text())]
        evidence(pid, tier, jobs, wall, viol, known_hit, unfinished)
        if times:
            groups = {}
            for j in jobs:
                g = groups.setdefault(j.group, [0, 0.0, 0.0, {}])
                g[0] += 1
                g[1] += j.wall
                g[2] = max(g[2], j.wall)
                for k, v in (j.result or {}).items():
                    if isinstance(v, int) and not isinstance(v, bool) and k in ("states", "transitions", "cases", "steps", "schedules", "programs", "depth", "skipped", "capped", "mismatches", "outcomes", "oom_injections"):
                        g[3][k] = g[3].get(k, 0) + v
                    if k in ("fixpoint", "cut"):
                        g[3][k] = v
            for k, g in groups.items():
                print("%7.1f cpu %6.1f max  %s  %s" % (g[1], g[2], k, g[3]))
        if found:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        t, _ = total([j for j in jobs if j.result])
        print("%s %s: held on %d states, %d sweep cases, %d schedules (%d transitions, %d sweep operations, %d choice points), %.1f s%s" % (
            pid, tier, t["states"], t["cases"], t["schedules"], t["transitions"], t["steps"], t["choice"], wall,
            ", cut short: %d" % len(t["cut"]) if t["cut"] else ""))
        return 0
    finally:
        stop_all()
        shutil.rmtree(bld, ignore_errors=True)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    bld = tempfile.mkdtemp(prefix="dtmc.")
    try:
        build(bld, [r["engine"]])
        rc, res = execute(bld, r["engine"], r["args"], 900)
        print(json.dumps(res, indent=1))
        if res and "violation" in res:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        return 0
    finally:
        shutil.rmtree(bld, ignore_errors=True)


def main():
    signal.signal(signal.SIGTERM, lambda *_: (stop_all(), os._exit(2)))
    a = sys.argv[1:]
    try:
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if a == ["setup"]:
            bld = tempfile.mkdtemp(prefix="dtmc.")
            try:
                build(bld, ["mc", "sc", "md", "sd"])
                print("library and engines build")
                return 0
            finally:
                shutil.rmtree(bld, ignore_errors=True)
        if len(a) == 3 and a[0] == "times":
            return judge(a[1], a[2], True)
        if len(a) == 2 and a[0] in JOBS and a[1] in ("quick", "thorough"):
            return judge(a[0], a[1])
    except BuildError as e:
        sys.stderr.write("build failed: %s\n" % e)
        return 2
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
