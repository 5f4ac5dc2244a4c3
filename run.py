#!/usr/bin/env python3
"""Runs one check: builds the monitor of a property against /repo's current
working tree, runs it, writes evidence/<ID>.json, and reports.

  run.py ID [--tier quick|thorough] [--seed N] [--keep] [--family F --case K]

exit 0  the property held on everything explored
exit 1  a line "VIOLATION property=<ID> replay=<path>" was printed
exit 3  the check itself could not run (build or harness failure)
"""
import argparse, concurrent.futures as cf, json, os, re, resource, shutil
import signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NCPU = max(2, min(8, os.cpu_count() or 2))
BASE = ["-std=c++14", "-w", "-g1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
UB = ("undefined,float-cast-overflow")
NOUB = "vptr,null,alignment,object-size,pointer-overflow,function"
SAN = {
    "address": ["-fsanitize=address," + UB, "-fno-sanitize=" + NOUB, "-fno-sanitize-recover=all"],
    "thread": ["-fsanitize=thread"],
    "none": [],
}


class HarnessError(Exception):
    pass


def directives(path):
    d = {"sources": [], "san": "address", "flags": [], "libs": [], "opt": "-O0",
         "quickrule": "", "env": {}, "timeout": 240, "extra": [], "assume": []}
    for line in open(path, encoding="utf-8"):
        m = re.match(r"\s*(?://|#)\s*@(\w+)\s*(.*?)\s*$", line)
        if not m:
            if line.strip() and not line.lstrip().startswith(("//", "#")):
                break
            continue
        k, v = m.groups()
        if k in ("sources", "flags", "libs", "extra"):
            d[k] += v.split()
        elif k == "rule":
            d["quickrule"] += (" " if d["quickrule"] else "") + v
        elif k == "assume":
            d["assume"].append(v)
        elif k == "env":
            n, x = v.split("=", 1)
            d["env"][n] = x
        elif k == "timeout":
            d["timeout"] = int(v)
        else:
            d[k] = v
    return d


def known(prop):
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def compile_all(d, drv, work):
    cxx = "clang++"
    std = [x for x in d["flags"] if x.startswith("-std=")]
    base = [b for b in BASE if not (std and b.startswith("-std="))] + [d["opt"]] + SAN[d["san"]] + d["flags"]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "standin/include"),
           "-isystem", "/usr/include/eigen3", "-I" + os.path.join(HERE, "lib"), "-I" + REPO + "/src"]
    jobs = [(drv, os.path.join(work, "driver.o"))]
    jobs += [(os.path.join(HERE, "checks", x), os.path.join(work, x.replace("/", "_") + ".o")) for x in d["extra"]]
    for s in d["sources"]:
        p = os.path.join(REPO, s)
        if not os.path.exists(p):
            raise HarnessError("missing source " + s)
        jobs.append((p, os.path.join(work, s.replace("/", "_") + ".o")))

    def one(j):
        r = subprocess.run([cxx] + base + inc + ["-c", j[0], "-o", j[1]], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        return j[0], r.returncode, r.stdout

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for name, rc, txt in ex.map(one, jobs):
            if rc:
                raise HarnessError("cannot compile %s:\n%s" % (name, txt[-4000:]))
    exe = os.path.join(work, "driver")

    def link(more):
        return subprocess.run([cxx] + base + [o for _, o in jobs] + more + ["-o", exe] + d["libs"] + ["-ldl", "-lpthread"],
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

    r = link([])
    if r.returncode and "undefined reference" in r.stdout:
        # code may have moved to a source this driver does not name: offer the others
        named = set(d["sources"])
        rest = [os.path.relpath(os.path.join(dp, f), REPO) for dp, _, fs in os.walk(os.path.join(REPO, "src")) for f in fs if f.endswith(".cpp")]
        rest = [(os.path.join(REPO, s), os.path.join(work, "more_" + s.replace("/", "_") + ".o")) for s in sorted(rest) if s not in named]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            ok = [j[1] for j, res in zip(rest, ex.map(one, rest)) if res[1] == 0]
        lib = os.path.join(work, "libmore.a")
        subprocess.run(["ar", "rcs", lib] + ok, check=True)
        r = link([lib])
    if r.returncode:
        raise HarnessError("cannot link:\n" + r.stdout[-4000:])
    return [exe]


def crash_key(text, rc, fam):
    """A stable name for an abnormal end: kind and innermost frame in /repo."""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    if not kind:
        m = re.search(r"runtime error: ([^\n]*)", text)
        if m:
            kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'|[-+]?[0-9.][\w.+-]*", "", m.group(1).lower())).strip("-")[:50]
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
        if m:
            kind = "tsan-" + m.group(1).split(" (")[0].strip().replace(" ", "-")
    if not kind:
        m = re.search(r"Assertion [`']", text)
        if m:
            kind = "assert"
    if not kind:
        m = re.search(r"terminate called|terminating due to uncaught", text)
        if m:
            kind = "terminate"
    if not kind:
        kind = "exit%d" % rc
    fn = ""
    m = re.search(r"#\d+ 0x\w+ in (.+?) " + re.escape(REPO) + "/", text)
    if m:
        fn = re.sub(r"\(.*", "", m.group(1))
        fn = re.sub(r"[^\w:~]+", "_", fn)
    elif kind == "assert":
        m = re.search(r"Assertion [`'](.*?)' failed", text)
        if m:
            fn = re.sub(r"\W+", "_", m.group(1))[:40]
    return "crash:%s:%s%s" % (fam, kind, ":" + fn if fn else "")


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def env_for(d):
    e = dict(os.environ)
    sym = shutil.which("llvm-symbolizer") or ""
    e["ASAN_OPTIONS"] = ("abort_on_error=0:detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte=255:"
                         "allocator_may_return_null=1:detect_stack_use_after_return=1:handle_abort=0:"
                         "strict_string_checks=1:external_symbolizer_path=" + sym)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:external_symbolizer_path=" + sym
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:external_symbolizer_path=" + sym
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["LC_ALL"] = "C"
    e.update(d["env"])
    return e


def run_proc(cmd, env, cwd, errp, timeout):
    with open(errp, "wb") as ef:
        p = subprocess.Popen(cmd, env=env, cwd=cwd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, preexec_fn=limits)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        if rc is None:
            p.wait()
    with open(errp, "rb") as ef:
        data = ef.read()
    if len(data) > 60000:
        data = data[:40000] + b"\n...\n" + data[-20000:]
    return rc, data.decode("utf-8", "replace")


def read_progress(p):
    try:
        t = open(p).read().split()
        return t[0], int(t[1])
    except Exception:
        return None, None


def ended(outp):
    """Did the driver itself say it ran to the end since the last restart?"""
    try:
        lines = open(outp, "rb").read().splitlines()
        return bool(lines) and b'"t":"end"' in lines[-1].replace(b" ", b"")
    except OSError:
        return False


def shard_run(i, n, cmd, d, work, seed, tier, deadline):
    """Runs one shard to the end, restarting after a case that kills it."""
    outp = os.path.join(work, "out%d" % i)
    prog = os.path.join(work, "prog%d" % i)
    errp = os.path.join(work, "err%d" % i)
    cwd = os.path.join(work, "cwd%d" % i)
    os.makedirs(cwd, exist_ok=True)
    env = env_for(d)
    env["VERIF_SCRATCH"] = cwd
    extra, viols, crashes = [], [], 0
    th = ["--thorough"] if tier == "thorough" else []
    tmo = d["timeout"] * (3 if tier == "thorough" else 1)
    while True:
        c = cmd + ["--seed", str(seed), "--shard", str(i), "--shards", str(n), "--out", outp, "--progress", prog] + th + extra
        rc, txt = run_proc(c, env, cwd, errp, max(5, min(tmo, deadline - time.time())))
        if rc == 0:
            if not ended(outp):
                viols_ = read_progress(prog)
                if viols_[0] is None:
                    raise HarnessError("driver ended without a result:\n" + txt[-3000:])
                viols.append({"family": viols_[0], "case": viols_[1], "key": "crash:%s:early-exit" % viols_[0],
                              "msg": "the process ended in the middle of the case", "log": txt[-2000:]})
            return outp, viols
        fam, case = read_progress(prog)
        if fam is None:
            raise HarnessError("driver failed before its first case (rc=%s):\n%s" % (rc, txt[-3000:]))
        if rc == 77:
            raise HarnessError("driver reported a harness failure:\n" + txt[-3000:])
        one = cmd + ["--seed", str(seed), "--family", fam, "--case", str(case), "--out", outp + ".replay", "--progress", prog + ".replay"] + th
        if rc is None:
            # a hang is believed only when the same case hangs again, alone
            if deadline - time.time() < 70:
                if viols:
                    return outp, viols
                raise HarnessError("time is up in %s#%s: inconclusive" % (fam, case))
            rc2, txt2 = run_proc(one, env, cwd, errp + ".replay", 60)
            if rc2 is None:
                viols.append({"family": fam, "case": case, "key": "hang:" + fam, "msg": "the case never ends (twice)", "log": txt2[-2000:]})
                return outp, viols
            elif rc2 != 0:
                viols.append({"family": fam, "case": case, "key": crash_key(txt2, rc2, fam), "msg": txt2[-3000:], "log": ""})
            else:
                raise HarnessError("shard timed out in %s#%s, not reproducible alone: inconclusive" % (fam, case))
        else:
            viols.append({"family": fam, "case": case, "key": crash_key(txt, rc, fam), "msg": head(txt), "log": ""})
        crashes += 1
        if crashes >= 6:
            return outp, viols
        extra = ["--resume", fam, str(case)]


def head(txt):
    k = min([x for x in (txt.find("ERROR: "), txt.find("runtime error"), txt.find("WARNING: ThreadS"), txt.find("Assertion")) if x >= 0] or [0])
    return txt[max(0, k - 200):k + 2500]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--family")
    ap.add_argument("--case", type=int)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop, tier, seed = a.prop, a.tier, a.seed
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    deadline = t0 + (840 if tier == "quick" else 3600)
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        cpp = os.path.join(HERE, "checks", prop + ".cpp")
        py = os.path.join(HERE, "checks", prop + ".py")
        src = cpp if os.path.exists(cpp) else py
        if not os.path.exists(src):
            raise HarnessError("no driver for " + prop)
        d = directives(src)
        cmd = compile_all(d, cpp, work) if src == cpp else ["/usr/bin/python3", "-B", py]
        tb = time.time()
        if a.family is not None:
            env = env_for(d)
            env["VERIF_SCRATCH"] = work
            c = cmd + ["--seed", str(seed), "--family", a.family] + (["--case", str(a.case)] if a.case is not None else [])
            if tier == "thorough":
                c.append("--thorough")
            rc = subprocess.run(c, env=env, cwd=work).returncode
            print("rc", rc)
            return 0
        n = int(d.get("shards", NCPU))
        viols, fams = [], {}
        with cf.ThreadPoolExecutor(n) as ex:
            for outp, vs in ex.map(lambda i: shard_run(i, n, cmd, d, work, seed, tier, deadline), range(n)):
                viols += vs
                if not os.path.exists(outp):
                    continue
                for line in open(outp, errors="replace"):
                    try:
                        j = json.loads(line)
                    except ValueError:
                        if viols:
                            continue
                        raise HarnessError("unreadable result line: " + line[:200])
                    if j["t"] == "viol":
                        viols.append(j)
                    elif j["t"] == "sum":
                        f = fams.setdefault(j["family"], {"evals": 0, "checks": 0, "events": {}, "states": set(), "samples": []})
                        f["evals"] += j["evals"]
                        f["checks"] += j["checks"]
                        f["states"].update(j["states"])
                        f["samples"] += j["samples"][:2]
                        for k, v in j["events"].items():
                            f["events"][k] = f["events"].get(k, 0) + v
        evals = sum(f["evals"] for f in fams.values())
        if not evals and not viols:
            raise HarnessError("nothing was observed")
        for k, f in fams.items():
            if not f["evals"] and not viols:
                raise HarnessError("family %s observed nothing" % k)
        kn = known(prop)
        new, seen = [], {}
        for v in viols:
            if v["key"] in kn:
                seen[v["key"]] = v
            else:
                new.append(v)
        samples = []
        for k in sorted(fams):
            samples += fams[k]["samples"][:2]
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": sum(len(f["states"]) for f in fams.values()),
                "rule": d["quickrule"] or "cases drawn at random from the seed; distinct = distinct observed states",
                "samples": samples[:12] or ["(no sample: every case failed early)"],
                "oracle_checks": sum(f["checks"] for f in fams.values()),
                "families": {k: {"evaluations": f["evals"], "oracle_checks": f["checks"], "distinct": len(f["states"]),
                                 "events": f["events"]} for k, f in sorted(fams.items())},
                "known_findings_observed": sorted(seen),
                "build_s": round(tb - t0, 1),
            },
            "assumptions": d["assume"],
            "wall_s": round(time.time() - t0, 2), "violations": len(new),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
        for k in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (prop, kn[k]))
        for k in sorted(set(kn) - set(seen)):
            print("note: listed finding not observed: %s" % k)
        print("%s %s seed=%d: %d evaluations, %d oracle checks, %d distinct, %.1fs (build %.1fs)" %
              (prop, tier, seed, evals, ev["coverage"]["oracle_checks"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], tb - t0))
        if new:
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (prop, tier, seed))
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier,
                           "how": "python3 /verif/run.py %s --tier %s --seed %d --family <family> --case <case>" % (prop, tier, seed),
                           "violations": new[:40]}, f, indent=1)
            shown = set()
            for v in new:
                if v["key"] in shown or len(shown) > 8:
                    continue
                shown.add(v["key"])
                print("  %s#%s %s: %s" % (v["family"], v["case"], v["key"], v["msg"].strip().replace("\n", " | ")[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            return 1
        return 0
    except HarnessError as e:
        print("HARNESS-ERROR property=%s %s" % (prop, e))
        return 3
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
