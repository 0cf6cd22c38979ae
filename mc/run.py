#!/usr/bin/env python3
"""run.py ID [quick|thorough] [--only INDEX] [--unit NAME] [--keep]

Builds /repo's working tree in a scratch directory, compiles the harness of the
property against it, lets eight shards enumerate the whole bounded space, merges
what they report and writes evidence/<ID>.json.
Exit: 0 held on everything explored, 1 violation, 2 the check could not decide."""
import sys, os, json, re, shutil, subprocess, tempfile, time, array, signal, shlex

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from units import UNITS
REPO = os.environ.get("HOB3L_REPO", "/repo")
JOBS = int(os.environ.get("MC_JOBS", "8"))
WARN = ["-w"]

def die(msg):
    print("ERROR: " + msg, flush=True)
    sys.exit(2)

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if r.returncode != 0:
        print(r.stdout[-6000:], flush=True)
        raise RuntimeError("command failed: " + " ".join(map(shlex.quote, cmd)))
    return r.stdout

def known(pid):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(".*?") case=(".*?") (.*)$', l.rstrip("\n"))
            if m and m.group(1) == pid:
                res.append((json.loads(m.group(2)), json.loads(m.group(3)), m.group(4)))
    return res

def compile_unit(u, builds, tmp):
    variant = u["variant"]
    d = builds[variant]
    inc = ["-I", d + "/src/include", "-I", d + "/src/src/hob3lop", "-I", d + "/src/out/include", "-I", HERE]
    san = []
    if variant == "asan":
        san = ["-fsanitize=address,undefined", "-fno-sanitize=leak", "-fno-sanitize-address-use-after-scope",
               "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer", "-g"]
    objs, procs = [], []
    for s in ["mc.cpp"] + u["src"]:
        src = os.path.join(HERE, s)
        o = os.path.join(tmp, u["name"] + "-" + os.path.basename(s) + ".o")
        if s.endswith(".c"):
            cmd = ["gcc", "-std=gnu11", "-O1"] + WARN + san + inc + u.get("cflags", []) + ["-c", src, "-o", o]
        else:
            cmd = ["g++", "-std=c++17", "-O2"] + WARN + san + inc + u.get("cflags", []) + ["-c", src, "-o", o]
        objs.append(o)
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            print(out[-4000:])
            raise RuntimeError("compile failed: " + " ".join(cmd))
    exe = os.path.join(tmp, u["name"] + ".x")
    b = d + "/src/out/bin"
    objs2 = list(objs)
    if u.get("main"):
        objs2.append(d + "/hob3l_main.o")
    sh(["g++"] + san + objs2 + u.get("ldflags", []) + ["-L" + b, "-lhob3l", "-lhob3lop", "-lhob3lmat", "-lhob3lbase", "-lm", "-o", exe])
    return exe

def main():
    a = sys.argv[1:]
    pid = a[0]
    if pid == "setup":
        for t in ("gcc", "g++", "make", "perl", "node"):
            if not shutil.which(t): die("missing tool " + t)
        print("ok"); sys.exit(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None; only_unit = None; keep = False
    i = 1
    while i < len(a):
        if a[i] in ("quick", "thorough"): tier = a[i]
        elif a[i] == "--only": only = int(a[i+1]); i += 1
        elif a[i] == "--unit": only_unit = a[i+1]; i += 1
        elif a[i] == "--keep": keep = True
        else: die("bad argument " + a[i])
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = UNITS[pid]
    units = [u for u in spec["units"] if tier in u.get("tiers", ("quick", "thorough"))]
    if only_unit: units = [u for u in units if u["name"] == only_unit]
    t0 = time.time()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (1 << 30) else "/tmp"
    tmp = tempfile.mkdtemp(prefix="hob3lmc.", dir="/tmp")
    fast = tempfile.mkdtemp(prefix="hob3lmc.", dir=base)
    limit = 840 if tier == "quick" else 5400
    procs = []
    def cleanup(*_):
        for p in procs:
            try: os.killpg(p.pid, signal.SIGKILL)
            except Exception: pass
        if not keep:
            shutil.rmtree(tmp, ignore_errors=True)
            shutil.rmtree(fast, ignore_errors=True)
    def on_term(*_):
        cleanup(); os._exit(2)
    signal.signal(signal.SIGTERM, on_term); signal.signal(signal.SIGINT, on_term)
    try:
        builds = {}
        for v in sorted({u["variant"] for u in units}):
            d = os.path.join(tmp, v)
            r = subprocess.run([os.path.join(HERE, "build.sh"), v, d], env=dict(os.environ, HOB3L_REPO=REPO), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                print(r.stdout[-4000:]); die("build of /repo failed (%s)" % v)
            builds[v] = d
        tot = dict(cases=0, trans=0, traces=0)
        counters, samples, viols, hashes, unitinfo = {}, [], [], set(), []
        capped = False
        for u in units:
            exe = compile_unit(u, builds, tmp)
            n = 1 if only is not None else JOBS
            procs[:] = []
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=4000", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=78",
                       LC_ALL="C", MC_SRC=builds[u["variant"]] + "/src", MC_HERE=HERE, MC_HOB3L=builds[u["variant"]] + "/src/out/bin/hob3l.x")
            for v in builds: env["MC_HOB3L_" + v.upper()] = builds[v] + "/src/out/bin/hob3l.x"
            for s in range(n):
                sd = os.path.join(fast, "%s.%d" % (u["name"], s)); os.makedirs(sd)
                cmd = [exe, "--shard", str(s), "--nshards", str(n), "--tier", tier, "--seed", str(seed),
                       "--out", os.path.join(tmp, "%s.out.%d" % (u["name"], s)), "--scratch", sd]
                if only is not None: cmd += ["--only", str(only)]
                procs.append(subprocess.Popen(cmd, env=env, cwd=sd, start_new_session=True, stdin=subprocess.DEVNULL))
            bad = False
            for p in procs:
                left = limit - (time.time() - t0)
                try:
                    if p.wait(timeout=max(1, left)) != 0: bad = True
                except subprocess.TimeoutExpired:
                    print("ERROR: time limit of the check reached"); bad = True; break
            if bad:
                capped = True
                for p in procs:
                    try: os.killpg(p.pid, signal.SIGKILL)
                    except Exception: pass
            totals = set(); phases = {}
            for s in range(n):
                o = os.path.join(tmp, "%s.out.%d" % (u["name"], s))
                if os.path.exists(o + ".viol"):
                    for l in open(o + ".viol"):
                        try: viols.append(dict(json.loads(l), unit=u["name"]))
                        except ValueError: pass
                if not os.path.exists(o + ".json"): continue   # this shard was stopped or died: see `bad`
                j = json.load(open(o + ".json"))
                totals.add(j["total"])
                if s == 0: phases = j["phases"]
                tot["cases"] += j["mine"]; tot["trans"] += j["trans"]; tot["traces"] += j["traces"]
                capped |= bool(j["capped"])
                for k, v in j["counters"].items(): counters[k] = counters.get(k, 0) + v
                for l in open(o + ".samp"): samples.append(json.loads(l))
                h = array.array("Q"); h.frombytes(open(o + ".hash", "rb").read()); hashes.update(h)
                if j["hash_overflow"]: counters["state_table_overflow"] = counters.get("state_table_overflow", 0) + j["hash_overflow"]
            if len(totals) > 1 and not capped and not viols: print(totals); die("shards disagree about the size of the space (nondeterministic enumeration)")
            unitinfo.append({"unit": u["name"], "space": max(totals, default=0), "variant": u["variant"], "phases": phases})
            if only is None and not viols:
                for k, v in phases.items():
                    if not v: print("NOTE: %s: nothing to explore in phase '%s'" % (u["name"], k))
            shutil.rmtree(fast, ignore_errors=True); os.makedirs(fast)
        # verdict
        kn = known(pid)
        seen_known, new = {}, []
        for v in viols:
            for k, c, t in kn:
                if v["key"] == k and c in v["case"]:
                    seen_known[(k, c)] = t; break
            else: new.append(v)
        for (k, c), t in seen_known.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, t))
        rep = []
        if new:
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            done = set(); new.sort(key=lambda v: (v["unit"], v["index"]))
            for v in new:
                if (v["unit"], v["key"]) in done: continue
                done.add((v["unit"], v["key"]))
                if len(done) > 10: break
                f = os.path.join(rd, "%s-%d.json" % (pid, len(done)))
                json.dump(dict(v, property=pid, tier=tier, replay="cd /verif && python3 mc/run.py %s %s --unit %s --only %d" % (pid, tier, v["unit"], v["index"])), open(f, "w"), indent=1)
                rep.append(f)
                print("VIOLATION property=%s replay=%s" % (pid, f))
                print("  [%s/%s #%d] %s: %s" % (v["unit"], v["phase"], v["index"], v["key"], v["what"][:1500]))
                print("  case: " + v["case"][:1500].replace("\n", "\n        "), flush=True)
        samples.sort(key=lambda s: s["index"])
        ph = {}
        keepers = []
        for s in samples:
            if ph.setdefault(s["phase"], 0) < 1: ph[s["phase"]] += 1; keepers.append(s)
        level = spec.get("level", "model_checking")
        cov = dict(samples=keepers[:24], exhaustive=not capped, units=unitinfo, counters=counters, rule=spec["rule"])
        if level == "model_checking":
            cov.update(states=len(hashes), transitions=tot["trans"], traces_validated_against_impl=tot["traces"], cases=tot["cases"])
        else:
            cov.update(evaluations=tot["cases"], distinct_nontrivial=len(hashes), comparisons=tot["trans"], executions=tot["traces"])
        ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
                  assumptions=spec.get("assumptions", []), violations=len(new))
        if only is None:
            os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: cases=%d states=%d transitions=%d traces=%d %s %.1fs %s" % (pid, tier, tot["cases"], len(hashes), tot["trans"], tot["traces"],
              json.dumps(counters), time.time() - t0, "VIOLATED" if new else "held"), flush=True)
        if not new and tot["traces"] == 0: die("nothing was executed")
        rc = 1 if new else 0
        if not new and capped: die("a shard gave up")
    except RuntimeError as e:
        cleanup(); die(str(e))
    finally:
        cleanup()
    sys.exit(rc)
main()
