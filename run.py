#!/usr/bin/env python3
"""run.py ID [--tier quick|thorough]   build the drivers of property ID from /repo's working tree and explore
   run.py replay FILE                  re-execute a recorded violation against the current tree
   run.py setup                        prebuild the engines
   run.py list"""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AMTL_REPO", "/repo")
B = os.path.join(V, "build")
CXX = "g++"
COMMON = ("-std=c++17 -g1 -Wall -Wno-unused -Wno-maybe-uninitialized -fno-omit-frame-pointer -fno-lifetime-dse -pthread -D_LINUX -DPOSIX -Dstricmp=strcasecmp "
          "-D_stricmp=strcasecmp -D_snprintf=snprintf -D_vsnprintf=vsnprintf -DHAVE_STDINT_H").split()
CFG = {
    # debug and release configurations of the project, sequential engine
    "dbg": dict(flags="-O1 -DDEBUG -D_DEBUG -fsanitize=address -fsanitize=alignment,null,bounds "
                      "-fno-sanitize-recover=all", san=True, link="-fsanitize=address,alignment,null,bounds"),
    "rel": dict(flags="-O2 -DNDEBUG -fsanitize=address", san=True, link="-fsanitize=address,alignment,null,bounds"),
    # uninstrumented, for very large data sweeps
    "fast": dict(flags="-O2 -DNDEBUG", san=False, link=""),
    "fastdbg": dict(flags="-O2 -DDEBUG -D_DEBUG", san=False, link=""),
    # thread engine: instrumented by -fsanitize=thread, linked against mc/thr.cpp instead of the TSan runtime
    "tdbg": dict(flags="-O1 -DDEBUG -D_DEBUG -fsanitize=thread --param tsan-distinguish-volatile=1", thr=True, link=""),
    "trel": dict(flags="-O1 -DNDEBUG -fsanitize=thread --param tsan-distinguish-volatile=1", thr=True, link=""),
}
# id -> list of (driver source, configurations, extra compile flags, extra sources of /repo)
CHECKS = json.load(open(os.path.join(V, "checks.json")))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def tree_digest():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "amtl"), os.path.join(REPO, "compat"), os.path.join(V, "mc"), os.path.join(V, "harness")):
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


def compile_obj(src, out, flags, deps):
    """Compile unless an object of exactly these inputs is already there."""
    key = hashlib.sha256((deps + " ".join(flags) + src).encode()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".key") and open(out + ".key").read() == key:
        return None
    tmp = out + ".%d" % os.getpid()
    r = sh([CXX] + flags + ["-c", src, "-o", tmp])
    if r.returncode:
        return "$ %s -c %s\n%s" % (CXX, src, r.stdout[-6000:])
    os.replace(tmp, out)
    with open(out + ".key", "w") as f:
        f.write(key)
    return None


def inc():
    return ["-I" + REPO, "-I" + V]


def engine_objs(cfg):
    c = CFG[cfg]
    if c.get("thr"):
        return [("core.cpp", "plain"), ("thr.cpp", "plain")]
    tag = "asan" if c["san"] else "plain"
    return [("core.cpp", tag), ("track.cpp", tag)]


def engine_digest():
    h = hashlib.sha256()
    for f in sorted(os.listdir(os.path.join(V, "mc"))):
        h.update(open(os.path.join(V, "mc", f), "rb").read())
    return h.hexdigest()


def build(ident, pool):
    """Returns list of (name, cfg, binary future)."""
    os.makedirs(B, exist_ok=True)
    eng = engine_digest()
    tree = tree_digest()
    eng_f = {}
    out = []
    for drv in CHECKS[ident]["drivers"]:
        for cfg in drv["cfgs"]:
            c = CFG[cfg]
            for src, tag in engine_objs(cfg):
                if (src, tag) not in eng_f:
                    fl = COMMON + ["-O2", "-Wextra"] + (["-fsanitize=address"] if tag == "asan" else []) + inc()
                    eng_f[src, tag] = pool.submit(compile_obj, os.path.join(V, "mc", src),
                                                  os.path.join(B, "%s.%s.o" % (src[:-4], tag)), fl, eng)
            base = os.path.splitext(drv["src"])[0]
            fl = COMMON + c["flags"].split() + drv.get("flags", "").replace("{V}", V).split() + inc()
            objs = [(os.path.join(V, "harness", drv["src"]), os.path.join(B, "%s.%s.o" % (base, cfg)))]
            for e in drv.get("repo_srcs", []):
                objs.append((os.path.join(REPO, e.replace("{V}", V)), os.path.join(B, "%s.%s.%s.o" % (base, os.path.basename(e), cfg))))
            futs = [pool.submit(compile_obj, s, o, fl, tree) for s, o in objs]
            out.append((base, cfg, drv, [o for _, o in objs], futs, [eng_f[e] for e in engine_objs(cfg)]))
    return out


def link(base, cfg, drv, objs, futs, engf):
    for f in futs + engf:
        err = f.result()
        if err:
            return None, err
    c = CFG[cfg]
    eng = [os.path.join(B, "%s.%s.o" % (s[:-4], t)) for s, t in engine_objs(cfg)]
    exe = os.path.join(B, "%s.%s" % (base, cfg))
    cmd = [CXX] + c["link"].split() + objs + eng + ["-pthread", "-ldl"] + drv.get("link", "").split() + ["-o", exe]
    r = sh(cmd)
    if r.returncode:
        return None, "$ %s\n%s" % (" ".join(cmd), r.stdout[-6000:])
    return exe, None


def client_broken(ident, base, cfg, drv, detail):
    """A driver uses nothing but the public interface in the ways its property names (move-only elements, every
    overload, every entry point).  When the tree itself still compiles - the headers alone and the sources the driver
    takes along - but that client does not, the property is broken for it.  Returns a violation record, or None when
    the tree does not compile at all (no verdict)."""
    src = os.path.join(V, "harness", drv["src"])
    incs, seen, todo = [], set(), [src]
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        for line in open(f):
            if line.startswith("#include"):
                name = line.split()[1].strip('<>"')
                if os.path.exists(os.path.join(V, "harness", name)):
                    todo.append(os.path.join(V, "harness", name))
                elif not name.startswith("mc/"):
                    incs.append(line)
    probe = os.path.join(B, "%s.%s.probe.%d.cpp" % (base, cfg, os.getpid()))
    with open(probe, "w") as f:
        f.write("".join(incs))
    fl = COMMON + CFG[cfg]["flags"].split() + drv.get("flags", "").replace("{V}", V).split() + inc()
    try:
        for s in [probe] + [os.path.join(REPO, e.replace("{V}", V)) for e in drv.get("repo_srcs", [])]:
            if sh([CXX] + fl + ["-fsyntax-only", s]).returncode:
                return None
    finally:
        os.unlink(probe)
    first = next((l for l in detail.splitlines() if " error: " in l or "undefined reference" in l), detail[:300])
    return dict(property=ident, driver=base, config=cfg, scenario="client program", kind="build", choices="", shard=0,
                nshards=1, message="a client of the public interface does not compile any more: " + first.strip(), log=detail)


def known_findings(ident):
    out = {}
    path = os.path.join(V, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % ident):
                rest = line.split(" ", 2)[2].strip()
                kid, text = rest.split(" ", 1)
                out[kid[3:] if kid.startswith("id=") else kid] = text
    return out


def check(ident, tier):
    t0 = time.time()
    spec = CHECKS[ident]
    known = known_findings(ident)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    tot = dict(executions=0, transitions=0, evaluations=0, states=0, outcomes=0, replays=0)
    scen, samples, findings, viol, err = [], [], {}, None, None
    exhaustive = True
    with cf.ThreadPoolExecutor(max_workers=8) as pool:
        jobs = build(ident, pool)
        for base, cfg, drv, objs, futs, engf in jobs:
            exe, e = link(base, cfg, drv, objs, futs, engf)
            if e:
                viol = None if spec.get("stub_os") else client_broken(ident, base, cfg, drv, e)
                if not viol:
                    err = "build of %s (%s) failed:\n%s" % (base, cfg, e)
                break
            res = os.path.join(B, "%s.%s.%d.json" % (base, cfg, os.getpid()))
            cmd = [exe, "--out", res, "--jobs", "8"]
            budget = float(spec.get("budget", {}).get(tier, min(240, 660 / max(1, len(jobs))) if tier == "quick" else 3000 / max(1, len(jobs))))
            cmd += ["--budget", str(budget)]
            if tier == "thorough":
                cmd.append("--thorough")
            for k in known:
                cmd += ["--known", k]
            env = dict(os.environ, MC_SCRATCH=B, TZ="UTC", LC_ALL="C", UBSAN_OPTIONS="")
            env.pop("ASAN_OPTIONS", None)
            r = sh(cmd, env=env)
            if r.stdout.strip():
                print(r.stdout.rstrip())
            if r.returncode not in (0, 1) or not os.path.exists(res):
                err = "%s (%s): engine exit %d\n%s" % (base, cfg, r.returncode, r.stdout[-3000:])
                break
            d = json.load(open(res))
            os.unlink(res)
            for s in d["scenarios"]:
                for k in tot:
                    tot[k] += s[k]
                row = dict(driver=base, config=cfg)
                row.update({k: s[k] for k in ("name", "executions", "transitions", "evaluations", "states", "outcomes",
                                              "max_choices", "deviation_bound", "bound_completed", "complete")})
                row["seconds"] = round(s["seconds"], 2)
                scen.append(row)
                exhaustive &= s["complete"]
                if s["executions"] == 0 and not d["violation"]:
                    err = "%s/%s explored nothing" % (base, s["name"])
                for x in s["samples"]:
                    if len(samples) < 12:
                        samples.append("%s/%s[%s]: %s" % (base, s["name"], cfg, x))
            for k, v in d["known"].items():
                findings.setdefault(k, dict(count=0, text=v["text"]))["count"] += v["count"]
            if d["violation"]:
                viol = dict(property=ident, driver=base, config=cfg, tier=tier, **d["violation"])
                break
            if err:
                break
        for f in [f for j in jobs for f in j[4]]:
            f.cancel()
    cov = dict(states=tot["states"], transitions=tot["transitions"],
               traces_validated_against_impl=tot["executions"] + tot["evaluations"],
               executions=tot["executions"], input_evaluations=tot["evaluations"],
               distinct_outcomes=tot["outcomes"], engine_reexecutions=tot["replays"],
               exhaustive=bool(exhaustive and not viol and not err), scenarios=scen, samples=samples,
               counting="states: distinct observed states (64-bit hash set); transitions: operations applied to the "
                        "real code; traces: complete executions of the real code compared with the reference")
    ev = dict(property=ident, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0)
    with open(os.path.join(V, "evidence", ident + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in findings.items():
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times)" % (ident, known[k], k, v["count"]))
    if viol:
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", ident + ".json")
        with open(rp, "w") as f:
            json.dump(viol, f, indent=1)
        print("%s [%s/%s, %s]: %s" % (ident, viol["driver"], viol["scenario"], viol["config"], viol["message"]))
        print("\n".join("  | " + l for l in viol["log"].splitlines()[-40:]))
        print("VIOLATION property=%s replay=%s" % (ident, rp))
        return 1
    if err:
        print("ERROR: " + err)
        return 2
    print("%s ok: %d executions, %d transitions, %d states, %d evaluations, %d scenarios, exhaustive=%s, %.1f s" % (
        ident, tot["executions"], tot["transitions"], tot["states"], tot["evaluations"], len(scen), exhaustive,
        time.time() - t0))
    return 0


def replay(path):
    v = json.load(open(path))
    with cf.ThreadPoolExecutor(max_workers=8) as pool:
        for base, cfg, drv, objs, futs, engf in build(v["property"], pool):
            if base != v["driver"] or cfg != v["config"]:
                continue
            exe, e = link(base, cfg, drv, objs, futs, engf)
            if e:
                print(e)
                return 1 if v.get("kind") == "build" else 2
            if v.get("kind") == "build":
                print("the client program compiles")
                return 0
            cmd = [exe, "--replay", v["scenario"], v["choices"], "--rshard", str(v["shard"]), str(v["nshards"])]
            if v.get("tier") == "thorough":
                cmd.append("--thorough")
            return subprocess.run(cmd, env=dict(os.environ, MC_SCRATCH=B)).returncode
    return 2


def main():
    a = sys.argv[1:]
    if not a or a[0] == "list":
        print("\n".join(sorted(CHECKS)))
        return 0
    if a[0] == "replay":
        return replay(a[1])
    if a[0] == "setup":
        os.makedirs(B, exist_ok=True)
        eng = engine_digest()
        with cf.ThreadPoolExecutor(max_workers=8) as pool:
            fs = []
            for cfg in CFG:
                for src, tag in engine_objs(cfg):
                    if not os.path.exists(os.path.join(V, "mc", src)):
                        continue
                    fl = COMMON + ["-O2", "-Wextra"] + (["-fsanitize=address"] if tag == "asan" else []) + inc()
                    fs.append((src, tag, fl))
            errs = list(pool.map(lambda x: compile_obj(os.path.join(V, "mc", x[0]), os.path.join(B, "%s.%s.o" % (x[0][:-4], x[1])), x[2], eng),
                                 dict(((s, t), (s, t, f)) for s, t, f in fs).values()))
        for e in errs:
            if e:
                print(e)
                return 2
        return 0
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
