#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   -- the check of one property (see DESIGN.md).
Exit 0: the monitors saw no violation. Exit 1 + "VIOLATION property=<id> replay=<path>": they did. Exit 2: no verdict.
run.py <property> --replay EP SEED [quick|thorough]: one episode with its operation trace."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp_build, known_findings
from profiles import PROFILES

V = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ,
           ASAN_OPTIONS="abort_on_error=1:detect_leaks=0:handle_abort=1:detect_stack_use_after_return=1:strict_string_checks=1:allocator_may_return_null=1:max_allocation_size_mb=4096",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:second_deadlock_stack=1")
SCRATCH = None


def signature(text):
    """A short name for a crash: sanitizer kind and the innermost frame in the code under test."""
    m = re.search(r"runtime error: (.*)", text)
    kind = "undefined-behaviour: " + m.group(1) if m else None
    if not kind:
        m = re.search(r"ERROR: AddressSanitizer:? (\S+)", text) or re.search(r"WARNING: ThreadSanitizer: ([\w ]+)", text)
        kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"== (Invalid (?:read|write)[^\n]*|Conditional jump[^\n]*|Use of uninitialised[^\n]*|Syscall param[^\n]*)", text)
        kind = "memcheck: " + m.group(1) if m else "crash"
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?/(?:src|lib|amalgam)[^\n]*?([\w.]+:\d+)", text)]
    return kind, (" in %s (%s)" % fr[0] if fr else "")


class Job:
    def __init__(self, phase, seed, a, b, tier):
        self.phase, self.seed, self.a, self.b, self.tier = phase, seed, a, b, tier

    def cmd(self, trace=False, a=None, b=None, out=None, prog=None):
        ph = self.phase
        c = [vp_build.build(ph["variant"]), "--profile", ph["profile"], "--seed", str(self.seed), "--from", str(self.a if a is None else a), "--to", str(self.b if b is None else b)]
        if self.tier == "thorough" or ph.get("deep"):
            c.append("--thorough")
        if trace:
            c.append("--trace")
        if out:
            c += ["--out", out]
        if prog:
            c += ["--progress", prog]
        c += ["--hang", str(ph.get("hang", 90))]
        if ph.get("wrap") == "memcheck":
            c = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--undef-value-errors=yes", "--track-origins=no", "--leak-check=no"] + c
        return c

    def execute(self, trace=False, a=None, b=None):
        """(kind, payload): ok/stats, viol/(ep, code, msg), crash/(ep, text), hang/ep, inconclusive/text"""
        d = tempfile.mkdtemp(dir=SCRATCH)
        out, prog = d + "/out.json", d + "/prog"
        log = open(d + "/log", "wb")
        work = d + "/w"
        os.mkdir(work)
        try:
            p = subprocess.run(self.cmd(trace, a, b, out, prog), stdout=log, stderr=subprocess.STDOUT, env=dict(ENV, VP_WORK=work), timeout=self.phase.get("timeout", 800), cwd=work)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        log.close()
        with open(d + "/log", "rb") as f:
            size = f.seek(0, 2)
            f.seek(max(0, size - 400000))
            text = f.read().decode(errors="replace")
        stats = None
        if os.path.exists(out):
            stats = json.load(open(out))
        ep = 0
        if os.path.exists(prog):
            ep = int.from_bytes(open(prog, "rb").read(8), "little") - 1
        shutil.rmtree(d, ignore_errors=True)
        if rc == 0 and stats:
            return "ok", stats, text
        if rc == 3 and stats and "viol" in stats:
            v = stats["viol"]
            return "viol", (v["ep"], v["code"], v["msg"]), text
        if rc == 4:
            return "hang", ep, text
        if rc == "timeout":
            return "inconclusive", "wall-clock limit", text
        if rc == 9:
            return "inconclusive", "driver could not write its output", text
        return "crash", ep, text


def confirm(job, kind, pay):
    """Re-runs the failing episode alone with its trace; returns (code, message, episode, trace) or None if it does not repeat."""
    ep = pay[0] if kind == "viol" else pay
    k2, p2, text = job.execute(trace=True, a=ep, b=ep + 1)
    if k2 == "ok" and job.phase.get("racy"):
        for _ in range(5):
            k2, p2, text = job.execute(trace=True, a=ep, b=ep + 1)
            if k2 != "ok":
                break
    if k2 == "viol":
        return p2[1], p2[2], ep, text
    if k2 == "hang":
        return "hang", "no return within %d s of CPU time" % job.phase.get("hang", 90), ep, text
    if k2 == "crash":
        k, fr = signature(text)
        return "sanitizer", k + fr, ep, text
    return None


def main():
    global SCRATCH
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        ep, seed = int(sys.argv[i + 1]), int(sys.argv[i + 2])
        tier = sys.argv[i + 3] if len(sys.argv) > i + 3 else "quick"
        n = int(sys.argv[i + 4]) if len(sys.argv) > i + 4 else 0
        SCRATCH = tempfile.mkdtemp()
        k, p, text = Job(PROFILES[pid]["phases"](tier)[n], seed, ep, ep + 1, tier).execute(trace=True)
        shutil.rmtree(SCRATCH, ignore_errors=True)
        print(text[-20000:])
        print(k, p if k != "ok" else "")
        return 0 if k == "ok" else 1
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROFILES[pid]
    t0 = time.time()
    SCRATCH = tempfile.mkdtemp(prefix="vp-")
    os.chmod(SCRATCH, 0o755)
    try:
        return check(pid, tier, seed, spec, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def check(pid, tier, seed, spec, t0):
    phases = spec["phases"](tier)
    budget = 600 if tier == "quick" else int(os.environ.get("VP_BUDGET", "780"))  # safety net only: the case count is the bound
    jobs = []
    with ThreadPoolExecutor(6) as ex:
        for v, f in [(v, ex.submit(vp_build.build, v)) for v in sorted({ph["variant"] for ph in phases})]:
            try:
                f.result()
            except RuntimeError as e:
                print("cannot build the drivers (%s):\n%s" % (v, e))
                return 2
    tb = time.time() - t0
    for n, ph in enumerate(phases):
        step = ph["chunk"]
        lo = ph.get("start", 0)
        for a in range(lo, lo + ph["episodes"], step):
            jobs.append(Job(dict(ph, n=n, lo=lo), seed, a, min(a + step, lo + ph["episodes"]), tier))
    # interleave phases so that a cut-off run still covers each of them
    jobs.sort(key=lambda j: ((j.a - j.phase["lo"]) / max(1, j.phase["episodes"]), j.phase["n"]))
    res = {}
    bad = []
    skipped = 0
    known = known_findings.known(pid)
    knownHit = set()
    with ThreadPoolExecutor(8) as ex:
        todo, run = list(reversed(jobs)), {}
        while todo or run:
            while todo and len(run) < 8 and not bad:
                if time.time() - t0 > budget:
                    skipped = len(todo)
                    todo = []
                    break
                j = todo.pop()
                run[ex.submit(j.execute)] = j
            if bad:
                todo = []
            if not run:
                break
            done, _ = wait(run, return_when=FIRST_COMPLETED)
            for f in done:
                j = run.pop(f)
                k, p, text = f.result()
                if k == "ok":
                    res.setdefault(j.phase["n"], {})[j.a] = p
                else:
                    bad.append((j, k, p, text))
    verdicts = []
    inconclusive = []
    for j, k, p, text in bad:
        if k == "inconclusive":
            inconclusive.append(p)
            continue
        c = confirm(j, k, p)
        if c is None:
            if k == "hang":  # re-run once before reporting
                inconclusive.append("a hang that did not repeat")
                continue
            if k == "crash":
                s, fr = signature(text)
                c = ("sanitizer", s + fr, p, text)
            else:
                c = (p[1], p[2], p[0], text)
        hit = [w for code, rx, w in known if code == c[0] and rx.search(c[1])]
        if hit:
            knownHit.update(hit)
            continue
        verdicts.append((j, c))
    # cross-build comparison (same episodes, different builds of the library)
    if spec.get("compare"):
        ref = {}
        for n in sorted(res):
            for a, st in res[n].items():
                for i, dg in enumerate(st["dig"]):
                    ep = a + i
                    if ep in ref and ref[ep][0] != dg and not verdicts:
                        j = Job(dict(phases[n], n=n), seed, ep, ep + 1, tier)
                        verdicts.append((j, ("differs", "episode %d: %s and %s behave differently" % (ep, phases[ref[ep][1]]["variant"], phases[n]["variant"]), ep, "")))
                    ref.setdefault(ep, (dg, n))
    cnt, digs, states, samples, episodes, nontriv = {}, set(), set(), [], 0, 0
    perphase = []
    for n, parts in sorted(res.items()):
        pe = 0
        for a, st in sorted(parts.items()):
            for c, x in st["cnt"].items():
                cnt[c] = cnt.get(c, 0) + x
            for dg, nt in zip(st["dig"], st["nontrivial"]):
                episodes += 1
                pe += 1
                if nt:
                    nontriv += 1
                    digs.add(dg)
            states.update(st["states"])
            if len(samples) < 8:
                samples += st["samples"][:2]
        perphase.append({"build": phases[n]["variant"], "workload": phases[n]["profile"], "executions": pe, "planned": phases[n]["episodes"], **({"wrapped_in": phases[n]["wrap"]} if phases[n].get("wrap") else {})})
    for w in sorted(knownHit):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"],
          "coverage": {"evaluations": episodes, "distinct_nontrivial": len(digs), "rule": spec["rule"], "samples": samples[:8] or ["none"],
                       "nontrivial_executions": nontriv, "distinct_shapes": len(states), "phases": perphase, "observed": {k: cnt[k] for k in sorted(cnt)},
                       "chunks_not_run": skipped, "build_s": round(tb, 1)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(verdicts)}
    os.makedirs(V + "/evidence", exist_ok=True)
    with open(f"{V}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if verdicts:
        j, (code, msg, ep, text) = verdicts[0]
        os.makedirs(V + "/replays", exist_ok=True)
        path = f"{V}/replays/{pid}.txt"
        with open(path, "w") as f:
            f.write("property %s\nviolation %s: %s\nreplay: python3 %s/run.py %s --replay %d %d %s %d\nbuild variant %s, workload %s\n---- trace and report\n%s" % (pid, code, msg, V, pid, ep, j.seed, j.tier, j.phase["n"], j.phase["variant"], j.phase["profile"], text[-200000:]))
        print("%s: %s" % (code, msg))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    need = spec.get("need", {})
    short = [k for k, v in need.items() if cnt.get(k, 0) < v] if not skipped else []
    if inconclusive or short or nontriv == 0:
        print("no verdict: %s" % "; ".join(inconclusive + ["monitor saw too little: " + k for k in short] + ([] if nontriv else ["no execution exercised the property"])))
        return 2
    print("%s held on %d executions (%d distinct, non-trivial), %d operations observed, %.0f s" % (pid, episodes, len(digs), sum(cnt.values()), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
