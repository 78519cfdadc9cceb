#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> quick|thorough   (or: run.py --replay FILE)

Builds the instrumented harnesses from the working tree of the repository, runs them over several processes, collects
what the monitors saw, and decides.  Exit 0: held (known findings are printed); 1: violated; 3: no answer (a failure of
the machinery itself, never of the code under test).
"""
import collections
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import props as P          # noqa: E402
import vbuild              # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.txt")
ENOUGH = 240               # seconds after which a quick run that found a violation stops
CASE_STALL = 150           # seconds one case may take before it is suspected of hanging
NPROC = int(os.environ.get("VERIF_JOBS", 0)) or min(8, os.cpu_count() or 8)
SCALE = float(os.environ.get("VERIF_SCALE", 1))   # for trials: a part of the cases

SAN_ENV = {
    "asan": {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=0:hard_rss_limit_mb=6000:"
                             "malloc_context_size=12:strict_string_checks=0:detect_odr_violation=0:allocator_may_return_null=0:max_malloc_fill_size=67108864:malloc_fill_byte=190",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=0",
             "LSAN_OPTIONS": "exitcode=0:report_objects=0:print_suppressions=0:suppressions=" + os.path.join(VERIF, "lib", "lsan.supp")},
    "tsan": {"TSAN_OPTIONS": "halt_on_error=0:exitcode=0:history_size=4:second_deadlock_stack=1:report_thread_leaks=0:"
                             "ignore_noninstrumented_modules=1:suppressions=" + os.path.join(VERIF, "lib", "tsan.supp")},
    "fast": {},
    "plain": {},
}
SAN_ENV["mkl"] = SAN_ENV["asan"]
SAN_ENV["tsanmkl"] = SAN_ENV["tsan"]
SAN_ENV["vg"] = SAN_ENV["vgmkl"] = {}
MEMCHECK = ["valgrind", "-q", "--error-limit=no", "--num-callers=24", "--fullpath-after=", "--leak-check=no", "--undef-value-errors=yes", "--fair-sched=yes"]


def known_findings():
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=\[([^\]]*)\] (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Shard:
    def __init__(self, leg, idx, total, seed, tier, cases, workdir, extra=None):
        self.leg, self.idx, self.total = leg, idx, total
        self.progress = os.path.join(workdir, f"prog_{leg['name']}_{idx}_{time.monotonic_ns()}")
        self.out_path = self.progress + ".out"
        self.err_path = self.progress + ".err"
        exe = os.path.join(VERIF, "build", leg["config"], leg["harness"])
        self.cmd = [exe, leg["prop"], "--seed", str(seed), "--cases", str(cases), "--shard", f"{idx}/{total}",
                    "--tier", tier, "--progress", self.progress] + (extra or [])
        if leg["config"].startswith("vg"):
            self.cmd = MEMCHECK + self.cmd
        self.env = dict(os.environ)
        self.env.update(SAN_ENV[leg["config"]])
        self.env.update(leg.get("env", {}))
        self.env["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="s", dir=workdir)
        self.cwd = self.env["VERIF_SCRATCH"]
        self.last = None
        self.stalled = False
        self.stuck = None
        self.cpu = 0

    def start(self):
        self.started = time.time()
        self.changed = self.started
        self.proc = subprocess.Popen(self.cmd, stdin=subprocess.DEVNULL, stdout=open(self.out_path, "wb"), stderr=open(self.err_path, "wb"),
                                     env=self.env, cwd=self.cwd, start_new_session=True)

    def where(self):
        try:
            t = open(self.progress, "rb").read().split(b"\n")[0].decode("utf-8", "replace").strip("\0")
            k, _, what = t.partition("\t")
            return (int(k), what)
        except (OSError, ValueError):
            return (-2, "")

    def poll(self, stall):
        if self.proc.poll() is not None:
            return True
        w = self.where()
        now = time.time()
        if w != self.last:
            self.last = w
            self.changed = now
            self.cpu = self.spent()
        elif now - self.changed > stall:
            self.stalled = True
            self.stuck = self.examine()
            self.kill()
            return True
        return False

    def spent(self):
        """Processor time in seconds."""
        try:
            f = open(f"/proc/{self.proc.pid}/stat").read().rsplit(") ", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError, ValueError):
            return 0

    def states(self):
        """States of the threads."""
        states = ""
        try:
            for t in os.listdir(f"/proc/{self.proc.pid}/task"):
                states += open(f"/proc/{self.proc.pid}/task/{t}/stat").read().rsplit(") ", 1)[1][0]
        except (OSError, IndexError):
            pass
        return states

    def examine(self):
        """Why a case that made no progress is stuck: all threads wait, or they compute for very long; not when the machine was slow."""
        before = (self.spent(), self.states())
        time.sleep(5)
        after = (self.spent(), self.states())
        if before[1] and set(before[1] + after[1]) == {"S"} and after[0] - before[0] < 0.1:
            return "all its threads wait"
        if after[0] - self.cpu > 0.6 * CASE_STALL:
            return f"it computed for {after[0] - self.cpu:.0f} s"
        return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        self.proc.wait()


VG_ERROR = re.compile(r"==\d+== (Conditional jump or move depends on uninitialised|Use of uninitialised value|Invalid (?:read|write) of size \d+|Invalid free|Mismatched free|Jump to the invalid|Source and destination overlap|Syscall param \S+ (?:points to|contains) uninitialised)")
FRAME = re.compile(r"^\s+#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)")
VG_FRAME = re.compile(r"^==\d+==    (?:at|by) 0x[0-9A-F]+: (.+?) \((/\S+?):(\d+)\)")
TSAN_FRAME = re.compile(r"^\s+#\d+ (.+?) (/\S+?):(\d+)")


def short(fn):
    fn = re.sub(r"\(.*", "", fn)
    fn = re.sub(r"<.*>", "", fn)
    return fn.replace("basicimg::", "").replace("basicmath::", "").replace("basicsys::", "").replace("basiclog::", "")


def repo_frame(lines, regex=FRAME):
    """The innermost frame that belongs to the project."""
    for l in lines:
        m = regex.match(l)
        if m and m.group(2).startswith(vbuild.REPO + "/"):
            return short(m.group(1)) + "@" + os.path.relpath(m.group(2), vbuild.REPO)
    for l in lines:
        m = regex.match(l)
        if m and "/harness/" in m.group(2):
            return short(m.group(1)) + "@harness"
    return "?"


def sanitizer_reports(text):
    """[(key, detail)] from what the sanitizers printed."""
    out = []
    lines = text.splitlines()
    i = 0
    while i < len(lines):
        l = lines[i]
        m = re.search(r"ERROR: AddressSanitizer: (\S+)", l)
        if m:
            j = i + 1
            while j < len(lines) and not lines[j].startswith("SUMMARY:"):
                j += 1
            out.append((f"asan {m.group(1)} {repo_frame(lines[i:j])}", "\n".join(lines[i:min(j, i + 40)])))
            i = j
        elif "LeakSanitizer: detected memory leaks" in l:
            j = i + 1
            block = []
            while j < len(lines):
                if re.match(r"(Direct|Indirect) leak of", lines[j]) or lines[j].startswith("SUMMARY:"):
                    if block and block[0].startswith("Direct"):
                        out.append((f"leak {repo_frame(block)}", "\n".join(block[:16])))
                    block = [lines[j]]
                    if lines[j].startswith("SUMMARY:"):
                        break
                else:
                    block.append(lines[j])
                j += 1
            i = j
        elif "WARNING: ThreadSanitizer:" in l or "FATAL: ThreadSanitizer" in l or "ERROR: ThreadSanitizer" in l:
            kind = re.search(r"ThreadSanitizer:? ?(.*?)( \(pid|$)", l).group(1)
            j = i + 1
            while j < len(lines) and not lines[j].startswith("SUMMARY:") and not lines[j].startswith("=================="):
                j += 1
            blk = lines[i:j]
            starts = [k for k, b in enumerate(blk) if re.match(r"^  (Read|Write|Previous|Atomic|Mutex|Cycle|Previous atomic)", b)]
            sides = []
            for n, k in enumerate(starts[:2]):
                end = starts[n + 1] if n + 1 < len(starts) else len(blk)
                sides.append(repo_frame(blk[k + 1:end], TSAN_FRAME))
            out.append((f"tsan {kind} " + " / ".join(sorted(set(sides))), "\n".join(blk[:60])))
            i = j
        elif VG_ERROR.match(l):
            kind = re.sub(r"\d+", "N", VG_ERROR.match(l).group(1))
            j = i + 1
            while j < len(lines) and re.match(r"==\d+==    (at|by) 0x", lines[j]):
                j += 1
            out.append((f"memcheck {kind} {repo_frame(lines[i + 1:j], VG_FRAME)}", "\n".join(lines[i:min(j, i + 20)])))
            i = j - 1
        else:
            m = re.match(r"(/\S+?):(\d+):\d+: runtime error: (.*)", l)
            if m:
                kind = re.sub(r"-?\d[\d.e+x-]*|0x[0-9a-f]+", "N", m.group(3))[:80]
                f = os.path.relpath(m.group(1), vbuild.REPO) if m.group(1).startswith(vbuild.REPO) else "harness:" + os.path.basename(m.group(1))
                out.append((f"ubsan {kind} {f}", "\n".join(lines[i:i + 8])))
            elif "runtime error:" in l:
                out.append(("ubsan " + re.sub(r"\d+", "N", l)[:120], l))
        i += 1
    return out


class Result:
    def __init__(self):
        self.viol = collections.OrderedDict()   # key -> dict
        self.stats = collections.Counter()
        self.dist = collections.defaultdict(set)
        self.samples = []
        self.errors = []

    def add(self, key, detail, leg, case, seed, n=1):
        v = self.viol.setdefault(key, {"key": key, "detail": detail, "leg": leg["name"], "case": case, "seed": seed, "count": 0})
        v["count"] += n


def consume(sh, res, seed, tier, cases, workdir, rerun=True):
    leg = sh.leg
    out = open(sh.out_path, "rb").read().decode("utf-8", "replace")
    err = open(sh.err_path, "rb").read().decode("utf-8", "replace")
    where = sh.where()
    done = False
    for l in out.splitlines():
        f = l.split("\t")
        if f[0] == "VIOL" and len(f) >= 5:
            res.add(f[3], f[4], leg, int(f[2]), seed)
        elif f[0] == "VIOLN":
            if f[1] in res.viol:
                res.viol[f[1]]["count"] += int(f[2]) - 3
        elif f[0] == "STAT":
            if f[1].startswith("max_"):
                res.stats[f[1]] = max(res.stats[f[1]], int(f[2]))
            else:
                res.stats[f[1]] += int(f[2])
        elif f[0] == "DIST":
            res.dist[f[1]].add(f[2])
        elif f[0] == "SAMPLE":
            res.samples.append(f[1])
        elif f[0] == "DONE":
            done = True
            if leg["config"].startswith("vg"):
                res.stats["memcheck_cases"] += (cases - sh.idx + sh.total - 1) // sh.total
    if "HARNESS-ERROR" in err or "HARNESS-ERROR" in out:
        res.errors.append([x for x in (err + out).splitlines() if "HARNESS-ERROR" in x][0])
        return
    reports = sanitizer_reports(err)
    for key, detail in reports:
        res.add(key, detail, leg, where[0], seed)
    rc = sh.proc.returncode
    if sh.stalled:
        if not rerun:
            res.add("hang " + leg["name"], f"case {where[0]} ({where[1]}) did not finish, twice", leg, where[0], seed)
            return
        if "hang " + leg["name"] in res.viol:       # one hang of this leg is confirmed already
            res.viol["hang " + leg["name"]]["count"] += 1
            return
        if sh.stuck and sh.stuck.startswith("all"):   # a deadlock needs no second look
            res.add("hang " + leg["name"], f"case {where[0]} ({where[1]}) did not finish: {sh.stuck}", leg, where[0], seed)
            return
        again = Shard(leg, 0, 1, seed, tier, cases, workdir, ["--only", str(where[0])])
        again.start()
        while not again.poll(CASE_STALL * 1.5):
            time.sleep(0.2)
        if again.stalled:
            consume(again, res, seed, tier, cases, workdir, rerun=False)
        elif sh.stuck:
            res.add("hang " + leg["name"], f"case {where[0]} ({where[1]}) did not finish: {sh.stuck} (it finished when repeated)", leg, where[0], seed)
        else:
            res.errors.append(f"case {where[0]} of {leg['name']} stalled once and finished when repeated: no answer")
        return
    if not done:
        fatal = any(k.startswith("asan") or "SEGV" in k or "FATAL" in k for k, _ in reports)
        if not fatal:
            tail = err[-1500:]
            if "hard rss limit" in tail or "allocation-size-too-big" in tail or "out-of-memory" in tail:
                res.add("memory-exhausted " + leg["name"], where[1] + " " + tail[-300:], leg, where[0], seed)
            elif where[0] == -2:
                res.errors.append(f"{leg['name']}: the harness did not start (exit {rc}): {tail[-400:]}")
            elif rc < 0 and -rc == signal.SIGKILL:
                res.errors.append(f"{leg['name']}: killed from outside at case {where[0]}")
            else:
                res.add("crash " + leg["name"] + (f" signal {-rc}" if rc < 0 else ""), f"exit {rc} in case {where[0]} ({where[1]}) {tail}", leg, where[0], seed)


def run_legs(prop, tier, seed, workdir):
    known = known_findings()
    spec = P.PROPS[prop]
    res = Result()
    queue = []
    for leg in spec["legs"]:
        cases = leg[tier]
        if cases <= 0:
            continue
        cases = max(1, int(cases * SCALE))
        shards = min(leg.get("shards", NPROC), cases)
        weight = leg.get("weight", 1)
        seeds = [seed] if tier == "quick" else [seed + 1000 * k for k in range(leg.get("thorough_seeds", 1))]
        for s in seeds:
            for i in range(shards):
                queue.append((Shard(leg, i, shards, s, tier, cases, workdir), weight, s, cases))
    running = []
    load = 0
    queue.reverse()
    start = time.time()
    while queue or running:
        if tier == "quick" and time.time() - start > ENOUGH and any((prop, k) not in known for k in res.viol):
            for item in running:                    # violated: what is left takes too long to wait for
                item[0].kill()
            break
        while queue and (load + queue[-1][1] <= NPROC or not running):
            item = queue.pop()
            item[0].start()
            running.append(item)
            load += item[1]
        time.sleep(0.05)
        for item in list(running):
            if item[0].poll(CASE_STALL):
                running.remove(item)
                load -= item[1]
                consume(item[0], res, item[2], tier, item[3], workdir)
    return res


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        leg = [l for l in P.PROPS[r["property"]]["legs"] if l["name"] == r["leg"]][0]
        vbuild.build(leg["config"], [leg["harness"]])
        env = dict(os.environ)
        env.update(SAN_ENV[leg["config"]])
        env.update(leg.get("env", {}))
        d = tempfile.mkdtemp(prefix="verif_replay_")
        env["VERIF_SCRATCH"] = d
        cmd = (MEMCHECK if leg["config"].startswith("vg") else []) + [os.path.join(VERIF, "build", leg["config"], leg["harness"]), leg["prop"], "--seed", str(r["seed"]), "--cases", "1000000000", "--tier", r["tier"], "--only", str(r["case"])]
        print(" ".join(cmd))
        rc = subprocess.run(cmd, env=env, cwd=d).returncode
        shutil.rmtree(d, ignore_errors=True)
        return rc
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = P.PROPS[prop]
    t0 = time.time()
    by_config = collections.OrderedDict()
    for leg in spec["legs"]:
        if leg[tier] > 0:
            by_config.setdefault(leg["config"], [])
            if leg["harness"] not in by_config[leg["config"]]:
                by_config[leg["config"]].append(leg["harness"])
    for config, hs in by_config.items():
        vbuild.build(config, hs)
    t_build = time.time() - t0
    workdir = tempfile.mkdtemp(prefix="verif_" + prop + "_")
    try:
        res = run_legs(prop, tier, seed, workdir)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    wall = time.time() - t0
    known = known_findings()
    unlisted = []
    listed = []
    for key, v in res.viol.items():
        (listed if (prop, key) in known else unlisted).append(v)
    for v in listed:
        print(f"KNOWN-FINDING: property={prop} {known[(prop, v['key'])]}")
    coverage = {
        "evaluations": int(res.stats.get("evaluations", 0)),
        "distinct_nontrivial": len(res.dist.get("nontrivial", ())),
        "rule": spec["rule"],
        "samples": res.samples[:8],
        "cases": int(res.stats.get("cases", 0)),
        "observed": {k: int(v) for k, v in sorted(res.stats.items()) if k not in ("evaluations", "cases")},
        "distinct": {k: len(v) for k, v in sorted(res.dist.items())},
        "instrumentation": sorted({l["config"] for l in spec["legs"] if l[tier] > 0}),
        "build_s": round(t_build, 1),
        "known_findings_seen": len(listed),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": coverage,
          "assumptions": spec.get("assumptions", []), "violations": len(unlisted), "wall_s": round(wall, 1)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    if unlisted:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in unlisted[:20]:
            h = hashlib.sha1((prop + v["key"]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", f"{prop}_{h}.json")
            json.dump({"property": prop, "tier": tier, **v}, open(path, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {v['key']}  ({v['count']}x, leg {v['leg']}, seed {v['seed']}, case {v['case']})")
            print("  " + v["detail"][:600].replace("\n", "\n  "))
        if len(unlisted) > 20:
            print(f"  and {len(unlisted) - 20} further kinds")
        return 1
    if res.errors:
        for e in res.errors:
            print("NO-ANSWER: " + e, file=sys.stderr)
        return 3
    floor = spec.get("floor", {})
    for k, n in floor.items():
        if coverage["observed"].get(k, 0) < n:
            print(f"NO-ANSWER: the run observed {coverage['observed'].get(k, 0)} {k}, fewer than {n}", file=sys.stderr)
            return 3
    print(f"{prop}: held on {coverage['evaluations']} evaluations, {coverage['distinct_nontrivial']} distinct non-trivial, {wall:.0f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
