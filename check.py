#!/usr/bin/env python3
"""check.py PROPERTY   (environment: VERIF_SEED, VERIF_TIER)

1. compiles the interpreter against /repo's current working tree (asserts, ASan, UBSan),
2. lets TLC explore the bounded configurations of the specification that carry the property, which also export behaviours,
3. replays those behaviours, and seeded random programs, in the interpreter, and
4. lets TLC validate every recorded trace against the specification.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: the check itself failed.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
BUILD = os.path.join(HERE, "build")
JOBS = 8
CXX = "g++"
FLAGS = ["-std=gnu++17", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
         "-D_GLIBCXX_SANITIZE_VECTOR=1", "-w"]
INCS = ["-I" + REPO + "/include", "-I" + REPO + "/modules/sparsesolver/include", "-I" + REPO + "/modules/partition/include",
        "-I/usr/include/suitesparse", "-I" + HERE + "/harness"]
LIBS = ["-Wl,--wrap=METIS_PartGraphKway", "-lumfpack", "-lamd", "-lmetis", "-llapack", "-lblas"]
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    pass


# ------------------------------------------------------------------------------------------------ build
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


PAR_INCS = ["-I" + HERE + "/harness/hypre", "-I" + REPO + "/modules/parlinalgcpp/include"]


def build(par=False):
    """the interpreter; with par also the distributed module, on the stand-ins for MPI and hypre"""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    objs = compile_all(["/harness"], ["/src", "/modules/sparsesolver/src"], ["/include", "/modules/sparsesolver/include", "/modules/partition/include"], INCS)
    if par:
        more = compile_all(["/harness/hypre"], ["/modules/parlinalgcpp/src"],
                           ["/include", "/modules/sparsesolver/include", "/modules/partition/include", "/modules/parlinalgcpp/include"], PAR_INCS + INCS)
        objs = objs + more
    return link(objs)


def compile_all(mine, theirs, headers, incs):
    srcs = [s for d in mine for s in sorted(glob.glob(HERE + d + "/*.cpp"))] + [s for d in theirs for s in sorted(glob.glob(REPO + d + "/*.cpp"))]
    hh = hashlib.sha256()
    hs = [h for d in headers for h in glob.glob(REPO + d + "/*")] + [h for d in ["/harness"] + mine for h in glob.glob(HERE + d + "/*.h*")]
    for h in sorted(set(hs)):
        hh.update(h.encode())
        hh.update(open(h, "rb").read())
    hh.update(" ".join(FLAGS + incs).encode())
    base = hh.hexdigest()
    jobs, objs = [], []
    for s in srcs:
        k = hashlib.sha256((base + s).encode() + open(s, "rb").read()).hexdigest()[:24]
        o = "%s/obj/%s-%s.o" % (BUILD, os.path.basename(s)[:-4], k)
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o))
    # the slowest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) - (10**6 if "/harness/" in j[0] else 0))

    def one(j):
        s, o = j
        tmp = o + ".%d.tmp" % os.getpid()
        p = sh([CXX] + FLAGS + incs + ["-c", s, "-o", tmp])
        if p.returncode:
            return "compiling %s failed:\n%s" % (s, p.stdout[-4000:])
        os.rename(tmp, o)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(one, jobs):
            if r:
                raise CheckError(r)
    return objs


def link(objs):
    tag = hashlib.sha256("".join(objs + LIBS).encode()).hexdigest()[:16]
    exe = "%s/interp-%s" % (BUILD, tag)
    if not os.path.exists(exe):
        for old in glob.glob(BUILD + "/interp-*"):
            if time.time() - os.path.getmtime(old) > 3600:
                os.remove(old)
        tmp = exe + ".%d.tmp" % os.getpid()
        p = sh([CXX, "-pthread"] + FLAGS + objs + ["-o", tmp] + LIBS)
        if p.returncode:
            raise CheckError("linking failed:\n" + p.stdout[-4000:])
        os.rename(tmp, exe)
    return exe


# ------------------------------------------------------------------------------------------------ interpreter
FILL = ["190", "255", "0", "127", "1", "204", "64", "85"]


def run_interp(exe, script, trace, wd, shard):
    """Runs the interpreter over a script; a crash becomes a CRASH event, which ends the run."""
    lines = open(script).read().split("\n")
    lines = [x for x in lines if x]
    open(trace, "w").close()
    prog = trace + ".prog"
    scratch = os.path.join(wd, "scratch%s" % shard)
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:max_malloc_fill_size=100000:malloc_fill_byte=%s:"
                           "detect_stack_use_after_return=1:handle_abort=0:allocator_may_return_null=1:"
                           "alloc_dealloc_mismatch=1:color=never" % FILL[hash_shard(shard) % len(FILL)])
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:color=never"
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    frm = 0
    crashes = []
    while True:
        open(prog, "wb").write(struct.pack("i", frm))
        try:
            p = subprocess.run([exe, script, trace, prog, str(frm), scratch], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=env, cwd=scratch, timeout=1500)
        except subprocess.TimeoutExpired:
            raise CheckError("interpreter did not finish")
        n = struct.unpack("i", open(prog, "rb").read(4))[0]
        if p.returncode == 0 and n == -1:
            break
        if p.returncode == 3:
            # a call that did not do what the script counts on (e.g. refused its input): an earlier event must be rejected
            crashes.append((n, "script", p.stderr.decode(errors="replace")[-2000:]))
            break
        if p.returncode == 2:
            raise CheckError("interpreter: " + p.stderr.decode(errors="replace")[-2000:])
        ev = json.loads(lines[n])
        err = p.stderr.decode(errors="replace")
        kind = "signal %d" % -p.returncode if p.returncode < 0 else "exit %d" % p.returncode
        for pat in (r"Assertion .*failed", r"ERROR: AddressSanitizer: [^\n]*", r"runtime error: [^\n]*", r"terminate called[^\n]*\n[^\n]*"):
            m = re.search(pat, err)
            if m:
                kind += ": " + m.group(0)[:300].replace("\n", " ")
                break
        data = open(trace).read()
        if data and not data.endswith("\n"):
            data = data[:data.rfind("\n") + 1]
            open(trace, "w").write(data)
        with open(trace, "a") as f:
            f.write(json.dumps({"m": "sys", "op": "CRASH", "n": n, "a": {"call": "%s.%s" % (ev.get("m"), ev.get("op")), "why": kind}, "d": {}}) + "\n")
        crashes.append((n, kind, err[-3000:]))
        frm = n + 1
        while frm < len(lines) and not lines[frm].startswith('{"ep"'):
            frm += 1
        if frm >= len(lines) or len(crashes) >= 1:          # a crash is no behaviour of the specification: the run is decided
            break
    shutil.rmtree(scratch, ignore_errors=True)
    return crashes


def hash_shard(s):
    return int(re.sub(r"\D", "", str(s)) or 0)


# ------------------------------------------------------------------------------------------------ TLC
def tlc(spec, cfg, wd, extra_env=None, workers=1, xmx="1500m", extra=(), timeout=1500, gc="-XX:+UseSerialGC"):
    md = tempfile.mkdtemp(dir=wd, prefix="md")
    env = dict(os.environ)
    env.update(extra_env or {})
    cmd = ["java", gc, "-Djava.io.tmpdir=" + md, "-Xmx" + xmx, "-Xss16m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", md, "-workers", str(workers),
           "-config", cfg] + list(extra) + [spec]
    try:
        p = subprocess.run(cmd, cwd=HERE + "/spec", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s/%s" % (spec, cfg))
    shutil.rmtree(md, ignore_errors=True)
    return p.stdout.decode(errors="replace")


def stats(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def tlc_error(out):
    i = out.find("Error:")
    msg = out[i:i + 1500].split("Error: The behavior up to this point")[0] if i >= 0 else out[-1500:]
    j = out.find("The error occurred when TLC was evaluating the nested")
    return msg + ("\n...\n" + out[j:j + 1500] if j >= 0 else "")


def validate(trace, wd):
    """-> (ok, index of the first event the specification does not allow)"""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return True, 0, ""
    out = tlc("Trace.tla", "Trace.cfg", wd, {"TRACE": trace, "DBG": "0"})
    if "Model checking completed. No error has been found." in out:
        return True, n, out
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if "Postcondition TraceAccepted" in out and m:
        return False, int(m.group(1)) - 1, out
    m = re.search(r"The behavior up to this point is:(.*)", out, re.S)
    fatal = re.search(r"OutOfMemory|StackOverflow|Parsing or semantic analysis failed|Couldn't parse|was killed", out)
    if m and not fatal:
        # the specification is total on everything the library may answer: an event it cannot even evaluate
        # (a result of the wrong length, a missing field) is not one of its behaviours
        st = re.findall(r"^/?\\? ?l = (\d+)", m.group(1), re.M) or re.findall(r"\bl = (\d+)", m.group(1))
        if st:
            return False, int(st[-1]) - 1, out
    keep = trace + ".failed"
    shutil.copy(trace, "/tmp/failed.ndjson") if os.environ.get("KEEP") else None
    raise CheckError("TLC failed on %s:\n%s" % (keep, tlc_error(out)))


def debug_event(trace, k, wd):
    """what the specification expected at event k (0-based)"""
    t = trace + ".dbg"
    with open(trace) as f, open(t, "w") as g:
        for i, x in enumerate(f):
            if i > k:
                break
            g.write(x)
    out = tlc("Trace.tla", "Trace.cfg", wd, {"TRACE": t, "DBG": "1"})
    m = re.search(r'(<< *"EXPECT".*?)(?=\nError|\nFinished|\n\d+ states|\nModel)', out, re.S)
    return m.group(1)[:4000] if m else ""


# ------------------------------------------------------------------------------------------------ one shard
def do_shard(exe, script, wd, shard):
    trace = "%s/trace%s.ndjson" % (wd, shard)
    crashes = run_interp(exe, script, trace, wd, shard)
    ok, k, out = validate(trace, wd)
    if ok and crashes and crashes[-1][1] == "script":
        raise CheckError("interpreter: " + crashes[-1][2])
    return trace, ok, k, out, crashes


def episode_of(lines, n):
    """first and one-past-last script line of the episode that contains line n"""
    b = n
    while b > 0 and not lines[b].startswith('{"ep"'):
        b -= 1
    e = n + 1
    while e < len(lines) and not lines[e].startswith('{"ep"'):
        e += 1
    return b, e


def confirm(exe, script, trace, k, wd, shard, prop):
    """Re-runs a rejected event: alone in its episode, else with everything that ran before it in the process."""
    ev = json.loads(open(trace).read().split("\n")[k])
    lines = [x for x in open(script).read().split("\n") if x]
    b, e = episode_of(lines, ev["n"])
    for what, sub in (("episode", lines[b:e]), ("prefix", lines[:e]), ("script", lines)):
        s = "%s/confirm%s-%s.ndjson" % (wd, shard, what)
        open(s, "w").write("\n".join(sub) + "\n")
        # the same shard number: the same fill pattern for uninitialised memory
        t, ok, k2, out, crashes = do_shard(exe, s, wd, "%s%s" % (hash_shard(shard), what))
        if not ok:
            return record(prop, what, s, t, k2, crashes, wd)
    return None, ev, ""


def record(prop, what, script, trace, k, crashes, wd):
    ev = json.loads(open(trace).read().split("\n")[k])
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, "%s.json" % prop)
    exp = "" if ev["op"] == "CRASH" else debug_event(trace, k, wd)
    doc = {"property": prop, "kind": what, "event": ev, "expected": exp, "crash": [c[1:] for c in crashes][:1],
           "script": [x for x in open(script).read().split("\n") if x],
           "replay": "python3 check.py --replay evidence/replay/%s.json" % prop}
    json.dump(doc, open(rp, "w"), indent=1)
    return rp, ev, exp


# ------------------------------------------------------------------------------------------------ property check
def run_property(prop):
    from gen import profiles
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    prof = profiles.PROFILES[prop]
    wd = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    violations = []
    try:
        ex = cf.ThreadPoolExecutor(JOBS)
        fb = ex.submit(build, bool(prof.get("par")))
        # bounded model checking of the specification, in parallel with the build
        mcs = []
        for mc in prof.get("mc", []):
            mod, base = mc.split(":")[0], mc.replace(":", "_")
            cfg = base + (".thorough" if tier == "thorough" and os.path.exists("%s/spec/%s.thorough.cfg" % (HERE, base)) else "") + ".cfg"
            # a configuration whose VIEW hides the path taken is explored by one worker, so that its behaviours are always the same
            w = 1 if mod in profiles.ONE_WORKER else 3
            mcs.append((base, cfg, ex.submit(tlc, mod + ".tla", cfg, wd, None, w, "3g", (), 3000, "-XX:+UseParallelGC")))
        exe = fb.result()
        mc_states = mc_trans = 0
        scripts = []
        exported = 0
        mc_report = []
        for mc, cfg, fut in mcs:
            out = fut.result()
            if "Model checking completed. No error has been found." not in out:
                raise CheckError("model checking %s failed:\n%s" % (cfg, out[-3000:]))
            g, d = stats(out)
            mc_states += d
            mc_trans += g
            hs = sorted(re.findall(r'^"?@@(.*?)"?$', out, re.M))
            mc_report.append({"config": cfg, "distinct_states": d, "states_generated": g, "behaviours_exported": len(hs)})
            exported += len(hs)
            if hs:
                scripts.extend(mc_scripts(hs, mc, wd))
        # seeded random programs
        n_ep = prof["episodes"][0 if tier == "quick" else 1]
        for sh_ in range(JOBS):
            rng = random.Random("%s-%d-%d" % (prop, seed, sh_))
            path = "%s/script%d.ndjson" % (wd, sh_)
            with open(path, "w") as f:
                for e in range(sh_, n_ep, JOBS):
                    ep = profiles.episode(prop, rng, e)
                    f.write(ep.text())
            scripts.append(path)
        futs = [(s, i, ex.submit(do_shard, exe, s, wd, str(i))) for i, s in enumerate(scripts)]
        events = 0
        tstates = 0
        episodes = 0
        opcount = {}
        refused = 0
        sample = None
        for s, i, fut in futs:
            trace, ok, k, out, crashes = fut.result()
            g, d = stats(out)
            tstates += d
            for q, x in enumerate(open(trace)):
                if q >= k:
                    break
                e = json.loads(x)
                if e["op"] == "reset":
                    episodes += 1
                elif e["m"] != "sys":
                    events += 1
                    refused += "mis" in e
                    key = e["m"] + "." + e["op"]
                    opcount[key] = opcount.get(key, 0) + 1
                    if sample is None and events > 40:
                        sample = e
            if not ok:
                violations.append((s, i, trace, k))
        report = []
        for s, i, trace, k in violations[:3]:
            rp, ev, exp = confirm(exe, s, trace, k, wd, i, prop)
            if rp:
                report.append((rp, ev, exp))
                break
        if violations and not report:
            # none repeated (address- or time-dependent behaviour): the recorded trace itself is the evidence
            s, i, trace, k = violations[0]
            rp, ev, exp = record(prop, "recorded once", s, trace, k, [], wd)
            report.append((rp, ev, exp))
        cov = {"states": mc_states + tstates, "transitions": mc_trans + events,
               "traces_validated_against_impl": episodes,
               "events_validated": events, "misuse_calls_validated": refused, "behaviours_exported_by_tlc": exported,
               "model_checking": mc_report, "calls_per_operation": dict(sorted(opcount.items())),
               "samples": [sample] if sample else []}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
              "assumptions": prof.get("assumptions", []) + ["the interpreter's projections (harness/*.cpp) read the object's state through its public API"],
              "wall_s": round(time.time() - t0, 1), "violations": len(report)}
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (HERE, prop), "w"), indent=1)
        if report:
            rp, e, exp = report[0]
            print("rejected event: %s" % json.dumps(e)[:1500])
            if exp:
                print("the specification says: %s" % exp[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, HERE)))
            return 1
        print("%s: %d episodes, %d calls validated, %d spec states explored, %.1fs" % (prop, episodes, events, mc_states, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def mc_scripts(hs, mc, wd):
    """behaviours printed by TLC (a JSON array of calls each) -> scripts of about the same length"""
    n = max(4, sum(map(len, hs)) // 6000000)
    parts = [[] for _ in range(min(n, len(hs)))]
    for k, h in enumerate(hs):
        parts[k % len(parts)].append(h)
    paths = []
    for g, part in enumerate(parts):
        p = "%s/mc-%s-%d.ndjson" % (wd, mc, g)
        with open(p, "w") as f:
            for k, h in enumerate(part):
                f.write(json.dumps({"ep": k, "F": 1, "lim": 2000000000}, separators=(",", ":")) + "\n")
                for c in json.loads(json.loads('"' + h + '"')):
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
                f.write('{"m":"sys","op":"end","a":{"z":"z"}}\n')
        paths.append(p)
    return paths


def replay(path):
    doc = json.load(open(path))
    wd = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        from gen import profiles
        exe = build(bool(profiles.PROFILES.get(doc["property"], {}).get("par")))
        s = wd + "/script.ndjson"
        open(s, "w").write("\n".join(doc["script"]) + "\n")
        t, ok, k, out, crashes = do_shard(exe, s, wd, "0")
        if ok:
            print("accepted")
            return 0
        ev = json.loads(open(t).read().split("\n")[k])
        print("rejected event: %s" % json.dumps(ev))
        for c in crashes[:1]:
            print(c[2])
        if ev["op"] != "CRASH":
            print(debug_event(t, k, wd))
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--build":
            print(build())
            print(build(True))
            rc = 0
        elif sys.argv[1] == "--replay":
            rc = replay(sys.argv[2])
        else:
            rc = run_property(sys.argv[1])
    except CheckError as e:
        print("CHECK ERROR: %s" % e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
