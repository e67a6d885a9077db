#!/usr/bin/env python3
"""run.py <property id> [--replay file]: builds the explorers of a property from the working tree of /repo, explores
every execution within the bounds on all cores, writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines."""
import array, concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import table

REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE") or os.path.join(ROOT, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
WRAPS = "malloc calloc realloc free strdup fopen fclose fread fwrite fseek fflush ftell system exit".split()
SCHED_WRAPS = """pthread_create pthread_join pthread_exit pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock
 pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal
 pthread_cond_broadcast pthread_detach pthread_self nanosleep usleep sched_yield clock_nanosleep memset memcpy memmove
 pthread_cond_timedwait sem_init sem_destroy sem_wait sem_trywait sem_post sem_getvalue sem_timedwait pthread_once
 pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock pthread_rwlock_init pthread_rwlock_destroy
 pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock""".split()
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:detect_odr_violation=0:"
           "detect_stack_use_after_return=0:handle_segv=1:symbolize=1", LC_ALL="C")


class Broken(Exception):
    pass


def sh(cmd, what):
    if isinstance(cmd[0], list):
        for c in cmd: sh(c, what)
        return
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    if r.returncode:
        raise Broken("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-3000:]))


def build(part, dir):
    """a check is compiled in one unit with the library, or separately if names of both collide"""
    if part.get("sched"): return build_as(part, dir, False)
    try:
        return build_as(part, dir, bool(os.environ.get("VERIF_SPLIT")))
    except Broken as e:
        try: return build_as(part, dir, True)
        except Broken: raise e


def build_as(part, dir, split):
    src = os.path.join(REPO, "source")
    inc = os.path.join(dir, "inc")
    if not os.path.isdir(inc):
        os.makedirs(inc)
        os.symlink(os.path.join(src, "c/foreign/sph-sc-lib/sph-sp"), os.path.join(inc, "sph"))
    name = os.path.splitext(part["src"])[0] + part.get("suffix", "")
    base = ["-funsigned-char", "-std=c17", "-w", "-I" + src + "/c/foreign", "-I" + src + "/c/foreign/sph-sc-lib",
            "-I" + src + "/c-precompiled", "-I" + inc, "-I" + ROOT + "/lib", "-fno-math-errno", "-U_FORTIFY_SOURCE", "-g1"]
    base += part.get("cflags", [])
    main = src + "/c-precompiled/sph-sp/main.c"
    check = os.path.join(ROOT, "checks", part["src"])
    o = lambda n: os.path.join(dir, name + "-" + n + ".o")
    jobs = []
    wraps = list(WRAPS)
    if part.get("sched"):
        wraps += SCHED_WRAPS
        flags = ["-no-pie", "-fno-pie", "-fno-tree-loop-distribute-patterns"]
        own = ["-O2", "-w", "-DVF_SCHED", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-I" + ROOT + "/lib"] + flags
        # the globals of the library are collected in one section and restored before each execution
        lib = [["gcc", "-c", "-O1", "-fno-common", "-fsanitize=thread", "-fno-builtin"] + flags + base + [main, "-o", o("lib")],
               ["objcopy", "--set-section-flags", ".bss=alloc,load,contents", o("lib")],
               ["objcopy", "--rename-section", ".bss=vf_lib,alloc,load,data,contents", "--rename-section",
                ".data=vf_lib,alloc,load,data,contents", o("lib")]]
        jobs.append((lib, "compiling the library"))
        jobs.append((["gcc", "-c", "-O1", "-fcommon", "-DVF_SCHED", "-D_GNU_SOURCE"] + flags + base + [check, "-o", o("check")], "compiling the check"))
        jobs.append((["gcc", "-c"] + own + [ROOT + "/lib/mc.c", "-o", o("mc")], "compiling mc.c"))
        jobs.append((["gcc", "-c"] + own + [ROOT + "/lib/sched.c", "-o", o("sched")], "compiling sched.c"))
        objs = [o("lib"), o("check"), o("mc"), o("sched")]
        link = ["-no-pie", "-Wl,-z,muldefs"]
    else:
        opt = ["-Og", "-fsanitize=address", "-ftrivial-auto-var-init=pattern"]
        link = ["-fsanitize=address"]
        objs = [o("check"), o("mc")]
        if split:
            jobs.append((["gcc", "-c"] + opt + base + [main, "-o", o("lib")], "compiling the library"))
            jobs.append((["gcc", "-c", "-D_GNU_SOURCE"] + opt + base + ["-include", ROOT + "/lib/public.h", check, "-o", o("check")], "compiling the check"))
            objs.append(o("lib"))
            link.append("-Wl,-z,muldefs")
        else:
            jobs.append((["gcc", "-c"] + opt + base + ["-include", main, check, "-o", o("check")], "compiling the check with the library"))
        jobs.append((["gcc", "-c", "-O2", "-w", "-I" + ROOT + "/lib", ROOT + "/lib/mc.c", "-o", o("mc")], "compiling mc.c"))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(lambda a: sh(*a), jobs))
    exe = os.path.join(dir, name)
    sh(["gcc"] + link + objs + ["-o", exe, "-Wl," + ",".join("--wrap=" + w for w in wraps), "-lm", "-lpthread"], "linking")
    return exe


def read_choices(path):
    try:
        b = open(path, "rb").read()
        depth = int.from_bytes(b[8:12], "little")
        a = array.array("i")
        a.frombytes(b[12:12 + 4 * depth])
        return list(a)
    except OSError:
        return []


def run_one(exe, dir, tag, args, known, timeout):
    scratch = os.path.join(dir, "scratch-" + tag)
    os.makedirs(scratch, exist_ok=True)
    out, shared, err = (os.path.join(dir, tag + e) for e in (".out", ".shared", ".err"))
    cmd = [exe, "--out", out, "--shared", shared, "--scratch", scratch, "--tier", TIER, "--known", known] + args
    with open(err, "wb") as e:
        try:
            rc = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=e, stdin=subprocess.DEVNULL, env=ENV, timeout=timeout, cwd=scratch).returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    res = {"rc": rc, "known": [], "samples": [], "stats": None, "violation": None, "states": None}
    for line in open(out, errors="replace") if os.path.exists(out) else []:
        k, _, v = line.rstrip("\n").partition(" ")
        if k == "known": res["known"].append(v)
        elif k == "sample": res["samples"].append(v)
        elif k == "stats": res["stats"] = [int(x) for x in v.split()]
        elif k == "violation": res["violation"] = {"key": v}
        elif k in ("message", "choices", "case") and res["violation"] is not None: res["violation"][k] = v
        elif k == "done": res["done"] = True
    text = open(err, errors="replace").read()
    shutil.rmtree(scratch, ignore_errors=True)
    if rc == 0 and res.get("done"):
        res["states"] = out + ".states"
    elif rc == 1 and res["violation"]:
        res["states"] = out + ".states"
    elif rc in (90, 91, 92, 94) or rc == "timeout":
        res["error"] = "%s: %s %s" % (tag, rc, text[-600:])
    elif rc in (9, -9):
        res["error"] = "%s: killed (out of memory?) %s" % (tag, text[-600:])
    else:
        m = re.search(r"ERROR: AddressSanitizer:? [^\n]*", text)
        frames = re.findall(r"#\d+ 0x\w+ in (\w+)", text)[:8]
        frames = [f for f in frames if not f.startswith(("vf_", "__", "main"))]
        msg = "the execution does not terminate" if rc == 93 else \
            (m.group(0) + " in " + " < ".join(frames[:4]) if m else "crash (exit %s) %s" % (rc, text.strip()[-400:]))
        res["violation"] = {"key": "hang" if rc == 93 else "crash", "message": re.sub(r"0x[0-9a-f]+", "0x..", msg),
                            "choices": ",".join(map(str, read_choices(shared))), "case": ""}
    return res


def known_findings(prop):
    out = {}
    for line in open(os.path.join(ROOT, "KNOWN_FINDINGS")):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3).strip()
    return out


def confirm(exe, dir, part, v, shard_args, known, timeout):
    """replay: the choice sequence alone, twice; if it needs the executions before it, the whole shard again"""
    args = ["--replay", v["choices"], "--hang", "60"]
    r = [run_one(exe, dir, "replay%d" % i, args, known, timeout) for i in (1, 2)]
    if all(x["violation"] for x in r) and r[0]["violation"]["key"] == r[1]["violation"]["key"]:
        v = dict(v, **{k: x for k, x in r[0]["violation"].items() if x})
        return dict(v, mode="single", args=["--replay", v["choices"]])
    r = run_one(exe, dir, "replay3", shard_args + ["--hang", "60"], known, timeout)
    if r["violation"] and r["violation"]["key"] == v["key"] and r["violation"]["choices"] == v["choices"]:
        return dict(v, mode="history of executions in one process", args=shard_args)
    return None


def explore(prop, part, exe, dir, known):
    shards = part.get("shards", 24)
    split = str(part.get("split", 3))
    limit = part.get("timeout", 700 if TIER == "quick" else 7000)
    base = ["--split", split]
    wall = part.get("wall", {}).get(TIER)
    if wall: base += ["--wall", str(wall)]
    res = [None] * shards
    def one(i):
        args = base + ["--shard", "%d/%d" % (i, shards)]
        res[i] = run_one(exe, dir, "%s-%d" % (os.path.basename(exe), i), args, known, limit)
        res[i]["args"] = args
        return res[i]
    stop = False
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        todo = [ex.submit(one, i) for i in range(shards)]
        for f in concurrent.futures.as_completed(todo):
            if f.cancelled(): continue
            r = f.result()
            if r["violation"] and not stop:
                stop = True
                for g in todo: g.cancel()
    return [r for r in res if r], limit


def run(prop, replay=None):
    t0 = time.time()
    entry = table.checks[prop]
    known = known_findings(prop)
    known_arg = "|" + "|".join(known) + "|" if known else ""
    dir = tempfile.mkdtemp(prefix="vf-" + prop + "-")
    violation, seen_known, errors = None, set(), []
    stats, samples, states, caps, part_cov = [0] * 5, [], set(), [], {}
    try:
        if replay:
            spec = json.load(open(replay))
            part = entry["parts"][spec["part"]]
            exe = build(part, dir)
            global TIER
            TIER = spec["tier"]
            r = run_one(exe, dir, "replay", spec["args"], known_arg, 900)
            print(json.dumps(r["violation"], indent=1) if r["violation"] else "no violation (%s)" % r.get("error", r["rc"]))
            return 1 if r["violation"] else 2 if r.get("error") else 0
        for pi, part in enumerate(entry["parts"]):
            exe = build(part, dir)
            results, limit = explore(prop, part, exe, dir, known_arg)
            first = None
            pc = [0, 0]
            for r in results:
                seen_known.update(r["known"])
                if r["stats"]:
                    for i in range(4): stats[i] += r["stats"][i]
                    stats[4] = max(stats[4], r["stats"][4])
                    pc[0] += r["stats"][0]
                    if r["stats"][6]: caps.append("distinct state count capped")
                    if r["stats"][7]: caps.append("wall limit reached")
                samples += r["samples"][:2]
                if r["states"] and os.path.exists(r["states"]) and len(states) < 8000000:
                    a = array.array("Q")
                    b = open(r["states"], "rb").read()
                    a.frombytes(b)
                    states.update(a)
                    pc[1] += len(a)
                if r.get("error"): errors.append(r["error"])
                if r["violation"]:
                    k = (r["violation"]["choices"].count(","), r["violation"]["choices"])
                    if first is None or k < first[0]: first = (k, r)
            part_cov[part["src"]] = pc[0]
            if first:
                v = confirm(exe, dir, part, first[1]["violation"], first[1]["args"], known_arg, limit)
                if not v:
                    errors.append("a violation did not reproduce: %s" % json.dumps(first[1]["violation"])[:1500])
                else:
                    violation = dict(v, part=pi)
                    errors = []
                    break
            if errors: break
    except Broken as e:
        errors.append(str(e))
    finally:
        shutil.rmtree(dir, ignore_errors=True)
    os.makedirs(EVIDENCE, exist_ok=True)
    level = entry.get("level", "model_checking")
    cov = {"samples": samples[:6], "exhaustive": not caps and not violation and not errors, "bounds": entry["bounds"],
           "executions_per_part": part_cov, "longest_choice_sequence": stats[4]}
    if caps: cov["caps"] = sorted(set(caps))
    if level == "model_checking":
        cov.update(states=len(states), transitions=stats[1] + stats[2], traces_validated_against_impl=stats[0],
                   explanation="states: distinct fingerprints of observed results. transitions: choice points and operations executed. "
                   "traces: complete executions of the real code compared with the reference.")
    else:
        cov.update(evaluations=stats[0], distinct_nontrivial=stats[3], distinct_outcomes=len(states), rule=entry["rule"])
    if violation: cov["violation"] = violation
    if errors: cov["errors"] = errors
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": entry.get("assumptions", []) + table.common_assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    print("%s %s: %d executions, %d choices+operations, %d distinct states, %.1f s" % (prop, TIER, stats[0], stats[1] + stats[2], len(states), time.time() - t0))
    if violation:
        path = os.path.join(EVIDENCE, "replay-%s.json" % prop)
        json.dump(dict(violation, property=prop, tier=TIER), open(path, "w"), indent=1)
        print("%s: %s [%s]" % (violation["key"], violation.get("message", ""), violation.get("case", "")[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("ERROR " + "\n".join(errors)[:3000])
        return 2
    return 0


if __name__ == "__main__":
    if len(sys.argv) == 4 and sys.argv[2] == "--replay":
        sys.exit(run(sys.argv[1], sys.argv[3]))
    sys.exit(run(sys.argv[1]))
