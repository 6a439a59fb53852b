#!/usr/bin/env python3
"""Run the check of one property:  check.py C03 [--tier quick|thorough]   or replay a recorded violation:
check.py --replay FILE.   Seeds come from VERIF_SEED. Exit 0 held, 1 VIOLATION, 3 the check itself failed."""
import concurrent.futures as cf, json, os, re, struct, subprocess, sys, time, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build
from suites import PROPS

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=2048:detect_stack_use_after_return=1:strict_string_checks=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=86:second_deadlock_stack=1:atexit_sleep_ms=0",
    "TZ": "UTC", "LC_ALL": "C",
})


def known():
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)(?::\d+)?$")


def classify_crash(suite, rc, err):
    """A stable key for a crashed run: kind of report + innermost frame of the library (or harness)."""
    kind = "exit%d" % rc
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
        if m:
            kind = "tsan-" + m.group(1).strip().replace(" ", "-")
        else:
            m = re.search(r"([^\s:]+):(\d+):\d+: runtime error: (.*)", err)
            if m:
                kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "", m.group(3).lower()))[:48].strip("-")
    if rc == 77:
        kind = "hang"
    if rc == 78:
        kind = "deadlock"
    func = "?"
    for line in err.splitlines():
        m = FRAME.search(line.strip())
        if m and (build.REPO + "/") in m.group(2):
            f = re.sub(r"\(.*", "", m.group(1))
            f = re.sub(r"<.*", "", f).split("::")[-1]
            func = "%s" % f
            break
    else:
        m = re.search(re.escape(build.REPO) + r"/\S*?([\w.]+):(\d+):\d+: runtime error", err)
        if m:
            func = m.group(1)
    return "crash:%s:%s:%s" % (suite, kind, func)


def run_one(exe, suite, seed, frm, count, out, mark, cpu, wall):
    cmd = [exe, "--suite", suite, "--seed", str(seed), "--from", str(frm), "--count", str(count), "--out", out, "--mark", mark, "--cpu", str(cpu)]
    for f in (out, mark):
        if os.path.exists(f):
            os.unlink(f)
    errp = out + ".err"
    with open(errp, "wb") as ef:
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, timeout=wall)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -1000
    with open(errp, "rb") as f:
        err = f.read()[-200000:].decode("latin1")
    os.unlink(errp)
    case = frm
    if os.path.exists(mark):
        b = open(mark, "rb").read(8)
        if len(b) == 8:
            case = struct.unpack("<Q", b)[0]
    return rc, err, case


def shard(exe, suite, seed, frm, count, tmp, tag, cpu, wall):
    """Run cases [frm, frm+count), resuming after a crashing case. Returns (reports, crashes, inconclusive)."""
    reports, crashes, incon = [], [], []
    end = frm + count
    n = 0
    while frm < end and n < 6:
        out = os.path.join(tmp, "%s.%d.json" % (tag, n))
        mark = out + ".mark"
        rc, err, case = run_one(exe, suite, seed, frm, end - frm, out, mark, cpu, wall)
        if rc == 0 and os.path.exists(out):
            r = json.load(open(out))
            hp = out + ".hashes"
            hs = open(hp, "rb").read() if os.path.exists(hp) else b""
            r["hashes"] = set(struct.unpack("<%dQ" % (len(hs) // 8), hs))
            reports.append(r)
            return reports, crashes, incon
        if rc == -1000:
            incon.append("suite %s: wall timeout in case %d" % (suite, case))
            return reports, crashes, incon
        if rc == 3 or case == 2**64 - 1:
            incon.append("suite %s: harness error rc=%d %s" % (suite, rc, err[-800:]))
            return reports, crashes, incon
        if rc == 77:  # CPU budget: confirm on its own, with a larger budget, before calling it a hang
            out2 = os.path.join(tmp, "%s.h%d.json" % (tag, n))
            rc2, err2, _ = run_one(exe, suite, seed, case, 1, out2, out2 + ".mark", cpu * 2, wall)
            if rc2 == 0:
                incon.append("suite %s: slow case %d" % (suite, case))
            else:
                crashes.append((classify_crash(suite, rc2, err2), case, err2[-6000:]))
        else:
            crashes.append((classify_crash(suite, rc, err), case, err[:9000]))
        # what ran before the crash is lost with the process: rerun it only for coverage if it is worth it
        frm = case + 1
        n += 1
    return reports, crashes, incon


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        exe = build.build(r["harness"], r["variant"])
        cmd = [exe, "--suite", r["suite"], "--seed", str(r["seed"]), "--from", str(r["case"]), "--count", "1", "--verbose", "1"]
        sys.exit(subprocess.run(cmd, env=ENV).returncode)
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    cfg = PROPS[prop]
    tmp = os.path.join(VERIF, "build", "run", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    ncpu = int(os.environ.get("EDIE_JOBS", "8"))
    wall = 780 if tier == "quick" else 6 * 3600
    try:
        exes = {}
        for s in cfg["suites"]:
            k = (s["bin"], s.get("variant", "asan"))
            if k not in exes:
                exes[k] = build.build(*k)
    except build.BuildError as e:
        print("CHECK ERROR: build failed\n" + str(e))
        return 3
    tb = time.time()
    viol = {}   # key -> list of (suite cfg, case, msg)
    per = {}
    incon = []
    with cf.ThreadPoolExecutor(ncpu) as ex:
        futs = []
        for s in cfg["suites"]:
            n = s["quick"] if tier == "quick" else s.get("thorough", s["quick"] * 40)
            sh = min(n, s.get("shards", ncpu))
            base = 0
            for i in range(sh):
                c = n // sh + (1 if i < n % sh else 0)
                k = (s["bin"], s.get("variant", "asan"))
                tag = "%s-%s-%s-%d" % (s["bin"], s.get("variant", "asan"), s["suite"], i)
                futs.append((s, ex.submit(shard, exes[k], s["suite"], seed, base, c, tmp, tag, s.get("cpu", 20), wall)))
                base += c
        for s, f in futs:
            reports, crashes, inc = f.result()
            incon += inc
            d = per.setdefault(s["suite"] + ("" if s.get("variant", "asan") == "asan" else "@" + s["variant"]),
                               {"evaluations": 0, "hashes": set(), "counters": {}, "samples": []})
            for r in reports:
                d["evaluations"] += r["evaluations"]
                d["hashes"] |= r["hashes"]
                for k, v in r["counters"].items():
                    d["counters"][k] = d["counters"].get(k, 0) + v
                if len(d["samples"]) < 3:
                    d["samples"] += r["samples"][: 3 - len(d["samples"])]
                for v in r["violations"]:
                    viol.setdefault(s["suite"] + "/" + v["key"], []).append((s, v["case"], v["msg"]))
            for key, case, msg in crashes:
                viol.setdefault(key, []).append((s, case, msg))
    shutil.rmtree(tmp, ignore_errors=True)
    kf = known()
    new, old = {}, {}
    for k, l in viol.items():
        (old if (prop, k) in kf else new)[k] = l
    for k in old:
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, kf[(prop, k)]))
    ev = sum(d["evaluations"] for d in per.values())
    dn = sum(len(d["hashes"]) for d in per.values())
    samples = [dict(suite=k, case=x) for k, d in per.items() for x in d["samples"]]
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn, "rule": cfg["rule"], "samples": samples,
            "suites": {k: {"evaluations": d["evaluations"], "distinct": len(d["hashes"]), "events": d["counters"]} for k, d in per.items()},
            "build_s": round(tb - t0, 1),
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1), "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (k, l) in enumerate(sorted(new.items())):
        s, case, msg = l[0]
        rp = os.path.join(rdir, "%s-%d.json" % (prop, i))
        with open(rp, "w") as f:
            json.dump({"property": prop, "key": k, "harness": s["bin"], "variant": s.get("variant", "asan"), "suite": s["suite"], "seed": seed,
                       "case": case, "message": msg, "replay_cmd": "python3 check.py --replay " + os.path.relpath(rp, VERIF)}, f, indent=1)
        print("  %s (case %d, %d hits): %s" % (k, case, len(l), msg[:700].replace("\n", "\n    ")))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)))
    print("%s %s seed=%d: %d evaluations, %d distinct, %d violation keys, build %.0fs, total %.0fs" %
          (prop, tier, seed, ev, dn, len(new), tb - t0, time.time() - t0))
    for m in incon:
        print("INCONCLUSIVE: " + m)
    if new:
        return 1
    if incon or ev == 0:
        return 3
    for k, d in per.items():
        need = {s["suite"]: s for s in cfg["suites"]}.get(k.split("@")[0], {}).get("need", {})
        for c, n in need.items():
            if d["counters"].get(c, 0) < n:
                print("CHECK ERROR: suite %s observed %d of event '%s', needs %d" % (k, d["counters"].get(c, 0), c, n))
                return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
