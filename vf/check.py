#!/usr/bin/env python3
"""Driver: build a harness from /repo's working tree, explore, shrink, replay, report.

usage: check.py ID            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay FILE
       check.py --build-all
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VF = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(VF)
REPO = os.environ.get("VF_REPO", "/repo")
SRC = REPO + "/src"
OUT = os.environ.get("VF_OUT", VERIF + "/build")
NPROC = os.cpu_count() or 4
sys.path.insert(0, VF)
from props import PROPS   # noqa: E402

INC = ["-I" + VF + "/include", "-isystem", "/usr/include/opencv4", "-I" + SRC, "-I" + VF + "/harness"]
LIBS = ("-lavcodec -lavformat -lavutil -lswresample -lswscale -llog4cplus -ltinyxml2 -lopencv_core "
        "-lopencv_imgproc -lopencv_highgui -lx264 -lx265 -lpthread").split()
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=undefined"]
# every function of the code under test becomes a point where a schedule can be disturbed (harness/sched.cc)
SCHED = ["-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/include,/usr/lib"]
ENVSAN = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                          "handle_abort=1:max_malloc_fill_size=65536:malloc_fill_byte=190:symbolize=1:detect_odr_violation=0:quarantine_size_mb=64",
          "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1:exitcode=78",
          "TSAN_OPTIONS": "exitcode=76"}


def sources():
    text = open(SRC + "/Makefile.am").read()
    text = re.sub(r"\\[ \t]*\n", " ", text)
    m = re.search(r"(?:^|\n)liblivemediastreamer_la_SOURCES[ \t]*=([^\n]*)", text)
    out = []
    for s in m.group(1).split():
        if re.match(r"modules/(receiver|audioDecoder|audioEncoder|videoDecoder|headDemuxer)/", s):
            continue
        if re.match(r"modules/transmitter/[^/]*$", s) or s == "PipelineManager.cpp":
            continue
        out.append(SRC + "/" + s)
    return out


def compiler(lang):
    cc = "gcc" if lang == "c" else "g++"
    cmd = ["/usr/bin/" + cc]
    if shutil.which("ccache") and os.environ.get("VF_CCACHE", "1") == "1":
        cmd = ["ccache"] + cmd
    return cmd


def compile_one(args):
    src, obj, flags = args
    lang = "c" if src.endswith(".c") else "c++"
    cmd = compiler(lang) + ["-c", src, "-o", obj, "-g1", "-O1", "-w", "-fno-omit-frame-pointer", "-D__STDC_CONSTANT_MACROS"] + INC + flags
    if lang == "c++":
        cmd += ["-std=c++11" if src.startswith(REPO) else "-std=c++14", "-fpermissive", "-include", "string"]
    env = dict(os.environ, CCACHE_DIR=OUT + "/ccache", CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="2G", LC_ALL="C.UTF-8",
               CCACHE_SLOPPINESS="pch_defines,time_macros")
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return src, p.returncode, p.stdout


def build(pids, verbose=False):
    """Returns {pid: binary}. Raises on a build failure."""
    jobs, links = {}, []
    for pid in pids:
        p = PROPS[pid]
        mode = p.get("san", "asan")
        san = SAN if mode == "asan" else (["-fsanitize=thread"] if mode == "tsan" else [])
        d = "%s/obj/%s" % (OUT, mode)
        os.makedirs(d, exist_ok=True)
        objs = []
        inst = SCHED if p.get("sched") else []
        srcs = [(s, inst + (["-fno-sanitize=all", "-O3"] if any(s.endswith("/" + x) for x in p.get("plain", [])) else [])) for s in sources() if not p.get("only") or any(s.endswith(x) for x in p["only"])]
        srcs += [(REPO + "/" + s, inst + p.get("extraflags", [])) for s in p.get("extra", [])]
        srcs += [(VF + "/harness/" + s, p.get("hflags", [])) for s in [p["harness"]] + p.get("stubs", []) + (["sched.cc"] if p.get("sched") else [])]
        for s, fl in srcs:
            key = hashlib.sha1((s + " ".join(fl)).encode()).hexdigest()[:10]
            o = "%s/%s-%s.o" % (d, os.path.basename(s).replace(".", "_"), key)
            jobs[o] = (s, o, san + fl)
            objs.append(o)
        b = "%s/bin/%s" % (OUT, pid)
        os.makedirs(OUT + "/bin", exist_ok=True)
        links.append((pid, b, objs, san))
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for src, rc, out in ex.map(compile_one, list(jobs.values())):
            if rc:
                sys.stderr.write(out)
                raise SystemExit("build failed: " + src)

    def link(l):
        pid, b, objs, san = l
        tmp = b + ".%d" % os.getpid()
        cmd = ["/usr/bin/g++", "-fuse-ld=lld" if shutil.which("ld.lld") else "-g", "-o", tmp] + objs + san + LIBS
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stderr.write(p.stdout)
            return pid, None
        os.replace(tmp, b)
        return pid, b
    res = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for pid, b in ex.map(link, links):
            if not b:
                raise SystemExit("link failed: " + pid)
            res[pid] = b
    return res


def known_list(pid):
    out = []
    f = VERIF + "/known-findings.txt"
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid and d.get("status") != "fixed":
                    out.append((d["id"], d["what"]))
    return out


class Runner:
    def __init__(self, pid, binary, tier="quick"):
        self.limit = PROPS[pid].get("case_limit", 60)
        if tier == "thorough":
            self.limit = PROPS[pid].get("thorough_case_limit", self.limit)
        self.pid, self.bin, self.p = pid, binary, PROPS[pid]
        self.known = known_list(pid)
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % pid)
        self.env = dict(os.environ, **ENVSAN)
        self.env.update(PBT_KNOWN=",".join(k for k, _ in self.known), PBT_SCRATCH=self.scratch, LC_ALL="C.UTF-8",
                        PBT_CASE_LIMIT=str(self.limit))
        if tier == "thorough" and "first" in self.p:
            self.env["PBT_FIRST"] = " ".join(map(str, self.p["first"]))

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def run_choices(self, choices, tag, repeat=None):
        """Runs one case; returns (signature or None, text)."""
        if repeat is None:
            repeat = 20 if self.p.get("threads") else 0
        d = "%s/r%s" % (self.scratch, tag)
        os.makedirs(d, exist_ok=True)
        f = d + "/choices"
        open(f, "w").write("\n".join(map(str, choices)))
        env = dict(self.env, PBT_SCRATCH=d, PBT_REPEAT=str(repeat))
        try:
            p = subprocess.run([self.bin, "run", f], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=self.limit + repeat + 60, errors="replace", text=True)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = 11, "", "timeout"
        shutil.rmtree(d, ignore_errors=True)
        return signature(rc, out, err), out + err[-6000:]

    def replays(self, choices, tag, n):
        with cf.ThreadPoolExecutor(n) as ex:
            return list(ex.map(lambda k: self.run_choices(choices, "%s%d" % (tag, k)), range(n)))

    def explore(self, seed, cases, secs, nworkers):
        procs = []
        for i in range(nworkers):
            pre = "%s/w%d" % (self.scratch, i)
            d = pre + ".d"
            os.makedirs(d, exist_ok=True)
            env = dict(self.env, PBT_SCRATCH=d)
            procs.append((i, pre, subprocess.Popen(
                [self.bin, "work", str(i), str(nworkers), str(seed), str(cases), str(secs), pre], env=env,
                stdout=open(pre + ".out", "w"), stderr=open(pre + ".err", "w"), start_new_session=True)))
        failed = None
        live = list(procs)
        hard = time.time() + secs + 2 * self.limit + 60
        while live and not failed:
            time.sleep(0.05)
            for t in list(live):
                rc = t[2].poll()
                if rc is None:
                    if time.time() > hard:
                        os.killpg(t[2].pid, signal.SIGKILL)
                        t[2].wait()
                        failed = (t, 11)
                        break
                    continue
                live.remove(t)
                if rc != 0:
                    failed = (t, rc)
                    break
        for t in live:
            try:
                os.killpg(t[2].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            t[2].wait()
        stats = {"done": 0, "discarded": 0, "known": 0, "choices": 0, "labels": {}, "samples": [], "timedout": False, "rule": "", "knownIds": {}}
        hashes = set()
        for i, pre, _ in procs:
            if not os.path.exists(pre + ".json"):
                continue
            s = json.load(open(pre + ".json"))
            for k in ("done", "discarded", "known", "choices"):
                stats[k] += s[k]
            for kk in ("labels", "knownIds"):
                for k, v in s[kk].items():
                    stats[kk][k] = stats[kk].get(k, 0) + v
            stats["samples"] += s["samples"]
            stats["timedout"] |= s["timedout"]
            stats["rule"] = s["rule"]
            h = open(pre + ".hash", "rb").read()
            hashes.update(h[j:j + 8] for j in range(0, len(h), 8))
        stats["distinct"] = len(hashes)
        fail = None
        if failed:
            t, rc = failed
            raw = open(t[1] + ".cur", "rb").read()
            n = int.from_bytes(raw[:8], "little")
            ch = [int.from_bytes(raw[8 + 8 * j:16 + 8 * j], "little") for j in range(n)]
            err = open(t[1] + ".err", errors="replace").read()
            msg = open(t[1] + ".fail", errors="replace").read() if os.path.exists(t[1] + ".fail") else ""
            sig = signature(rc, "MESSAGE " + msg.split("\n")[0] if msg else "", err)
            fail = (ch, sig, msg + err[-6000:])
        return stats, fail

    def shrink(self, choices, sig, budget):
        t0 = time.time()
        best = choices
        tries = 0
        with cf.ThreadPoolExecutor(NPROC) as ex:
            def attempt(cands):
                nonlocal best, tries
                for k in range(0, len(cands), NPROC):
                    if time.time() - t0 > budget:
                        return False
                    batch = cands[k:k + NPROC]
                    tries += len(batch)
                    rs = list(ex.map(lambda a: self.run_choices(a[1], "s%d" % a[0], 2 if self.p.get("threads") else 0)[0], enumerate(batch)))
                    for c, r in zip(batch, rs):
                        if r and r[0] == sig[0]:
                            best = c
                            return True
                return False
            changed = True
            while changed and time.time() - t0 < budget:
                changed = False
                # truncate
                n = len(best)
                while attempt([best[:len(best) * f // 8] for f in (1, 2, 4, 6, 7) if len(best) * f // 8 < len(best)]):
                    changed = True
                size = max(1, len(best) // 2)
                while size >= 1 and time.time() - t0 < budget:
                    i = 0
                    while i < len(best) and time.time() - t0 < budget:
                        cands = [best[:j] + best[j + size:] for j in range(i, min(len(best), i + size * NPROC), size)]
                        if attempt(cands):
                            changed = True
                        else:
                            i += size * NPROC
                    size //= 2
                i = 0
                while i < len(best) and time.time() - t0 < budget:
                    cands = []
                    for j in range(i, min(len(best), i + 4)):
                        v = best[j]
                        for nv in ([0, v // 2, v - 1] if v > 0 else []):
                            if nv != v:
                                cands.append(best[:j] + [nv] + best[j + 1:])
                    if cands and attempt(cands):
                        changed = True
                    else:
                        i += 4
        return best, tries


def signature(rc, out, err):
    """None when the case did not fail, else (class, text)."""
    if rc == 0:
        return None
    if rc == 10:
        m = re.search(r"^MESSAGE (.*)$", out, re.M)
        return ("property", m.group(1)[:600] if m else "")
    if "PBT-TIMEOUT" in err or rc == 11:
        return ("timeout", "case did not finish")
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", err)
    if m:
        fr = re.search(r"#\d+ 0x[0-9a-f]+ in ([^\n]*%s/src/[^\n]*)" % re.escape(REPO), err)
        return ("memory", m.group(1)[:200] + (" at " + fr.group(1) if fr else ""))
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        fr = re.search(r"([^\n]*: runtime error)", err)
        return ("undefined", m.group(1)[:200] + " " + (fr.group(1) if fr else ""))
    if "ThreadSanitizer" in err:
        m = re.search(r"SUMMARY: ThreadSanitizer: ([^\n]*)", err)
        return ("race", m.group(1) if m else "")
    m = re.search(r"terminate called[^\n]*(\n  what\(\)[^\n]*)?", err)
    return ("crash", "exit %s %s" % (rc, m.group(0) if m else err[-200:]))


def same(a, b):
    """Two sightings of one failure: same class and same text up to numbers."""
    norm = lambda s: (s[0], re.sub(r"0x[0-9a-f]+|\d+", "#", s[1].split(" at ")[-1]))
    return norm(a) == norm(b)


def main():
    if sys.argv[1] == "--build-all":
        build(list(PROPS), True)
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        b = build([d["property"]])[d["property"]]
        r = Runner(d["property"], b, d.get("tier", "quick"))
        try:
            sig, text = r.run_choices(d["choices"], "replay")
        finally:
            r.cleanup()
        print(text)
        print("FAILS: %s" % (sig,) if sig else "passes")
        return 1 if sig else 0
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    p = PROPS[pid]
    t0 = time.time()
    b = build([pid])[pid]
    tb = time.time() - t0
    cases, secs = p[tier]
    secs = float(os.environ.get("VF_SECS") or secs)   # for mutation runs while developing
    r = Runner(pid, b, tier)
    rc = 0
    try:
        stats, fail = r.explore(seed, cases, secs, p.get("workers", NPROC))
        violations, sigtxt = 0, ""
        if fail and os.environ.get("VF_FAST"):
            print("FAILED", fail[1])
            return 1
        if fail:
            choices, sig, text = fail
            # the failure must reproduce from its recorded choices before anything is reported
            need = 1 if p.get("threads") else 3
            reps = r.replays(choices, "v", NPROC if p.get("threads") else 3)
            ok = sum(1 for x, _ in reps if x)
            seen = [sig]
            rounds = 0
            while ok < need and p.get("threads") and rounds < 3:
                # a schedule that did not come again: go on searching, and count a second sighting of the same failure
                rounds += 1
                more, fail2 = r.explore(seed + 7919 * rounds, cases, secs, p.get("workers", NPROC))
                for k in ("done", "discarded", "known", "choices"):
                    stats[k] += more[k]
                if not fail2:
                    continue
                choices, sig, text = fail2
                reps = r.replays(choices, "v", NPROC)
                ok = sum(1 for x, _ in reps if x)
                if ok < need and any(same(sig, s) for s in seen):
                    reps, ok = [(sig, text)], need
                seen.append(sig)
            if ok >= need:
                sig = next(x for x, _ in reps if x)
                small, tries = choices, 0
                if sum(1 for x, _ in reps if x) * 2 >= len(reps) or rounds == 0:
                    small, tries = r.shrink(choices, sig, 60 if tier == "quick" else 120)
                reps2 = r.replays(small, "f", NPROC if p.get("threads") else 3)
                if sum(1 for s, _ in reps2 if s) < need:
                    small, reps2 = choices, [x for x in reps if x[0]]
                s2, text2 = next((s, t) for s, t in reps2 if s)
                os.makedirs(VERIF + "/replays", exist_ok=True)
                h = hashlib.sha1(json.dumps(small).encode()).hexdigest()[:10]
                path = "%s/replays/%s-%s.json" % (VERIF, pid, h)
                json.dump({"property": pid, "seed": seed, "tier": tier, "class": s2[0], "what": s2[1], "choices": small,
                           "shrink_attempts": tries, "output": text2[-8000:]}, open(path, "w"), indent=1)
                print("%s: %s: %s" % (pid, s2[0], s2[1]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
                violations, rc, sigtxt = 1, 1, s2[1]
            else:
                print("%s: a failure was seen but did not replay (%d/%d): %s; inconclusive" % (pid, ok, len(reps), seen))
                stats["unreproduced"] = str(seen)[:900]
        for k, w in r.known:
            print("KNOWN-FINDING: property=%s %s: %s (seen %d times in this run)" % (pid, k, w, stats["knownIds"].get(k, 0)))
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
              "coverage": {"evaluations": stats["done"], "distinct_nontrivial": stats["distinct"], "rule": stats["rule"],
                           "samples": stats["samples"][:6], "classes": stats["labels"], "discarded": stats["discarded"],
                           "choices_drawn": stats["choices"], "known_finding_hits": stats["known"],
                           "stopped_by_time_budget": stats["timedout"], "build_s": round(tb, 1)},
              "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
        if sigtxt:
            ev["coverage"]["violation"] = sigtxt
        if "unreproduced" in stats:
            ev["coverage"]["unreproduced"] = stats["unreproduced"]
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
        if not fail:
            print("%s: %d cases, %d distinct non-trivial, %.1fs (build %.1fs)%s" %
                  (pid, stats["done"], stats["distinct"], time.time() - t0, tb, " [time budget]" if stats["timedout"] else ""))
    finally:
        r.cleanup()
    return rc


if __name__ == "__main__":
    sys.exit(main())
