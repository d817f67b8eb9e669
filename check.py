#!/usr/bin/env python3
"""Decides one property for the current tree of /repo.

    check.py PROPERTY quick|thorough        decide (VERIF_SEED: the seed)
    check.py --replay FILE                  run the case of a violation again

The harness (/verif/harness) is compiled into /repo's module with an overlay,
so that nothing is written in /repo, and is run with the tree's real code. A
violation is whatever the monitors of the harness report, the process dying or
not ending (for as long as a case can't possibly take), or a data race.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/snivilised/agenor"

# property: driver, race detector, number of processes
PROPS = {f"P{i:02}": ("check", False, 6) for i in list(range(1, 16)) + [20, 21, 22, 26, 27, 28, 31]}
PROPS.update({p: ("conc", True, 4) for p in ("P16", "P17", "P18", "P19", "P24")})
PROPS.update({"P23": ("units", False, 4), "P25": ("busx", True, 4), "P29": ("units", True, 4), "P30": ("units", False, 4)})

RULE = ("evaluations counts executions whose observations were compared by the oracle; distinct_nontrivial counts "
        "distinct renderings of what was observed (the event sequence the property selects, with attributes), by hash")


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", LANG="C.UTF-8", LC_ALL="C.UTF-8")
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


def build(work, driver, race):
    replace = {}
    for d, _, fs in os.walk(os.path.join(VERIF, "harness")):
        for f in fs:
            if f.endswith(".go"):
                p = os.path.join(d, f)
                replace[os.path.join(REPO, "zzverif", os.path.relpath(p, os.path.join(VERIF, "harness")))] = p
    overlay = os.path.join(work, "overlay.json")
    with open(overlay, "w") as f:
        json.dump({"Replace": replace}, f)
    for m in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, m), os.path.join(work, m))
    out = os.path.join(work, driver)
    cmd = ["go", "build", "-buildvcs=false", "-overlay", overlay, "-modfile", os.path.join(work, "go.mod"), "-o", out]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["./zzverif/cmd/" + driver], cwd=REPO, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        print("the harness does not build:\n" + p.stdout[-4000:] + p.stderr[-4000:])
        sys.exit(2)
    return out


RUNTIME = re.compile(r"^(runtime|internal|sync|reflect|sort|slices|strings|bytes|fmt|os|io|time|maps|iter|errors|context|syscall|strconv|path|unicode|encoding|math|hash|container|log|atomic)(/|\.|$)")


def races(text):
    """The reports of which an access is made by the code of the module."""
    found = []
    for rep in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
        for part in re.split(r"\n\n", rep):
            if not re.match(r"\s*((Previous|Atomic|Previous atomic) )?(read|write|Read|Write)", part.strip()):
                continue
            for ln in part.splitlines()[1:]:
                m = re.match(r"\s+([\w./\-\[\]()*·]+?)\(\)?", ln)
                if not m or ln.startswith("      "):
                    continue
                name = m.group(1)
                if RUNTIME.match(name) or name.startswith("testing."):
                    continue
                if name.startswith(MODULE):
                    found.append(rep)
                break
    return found


def run(binary, work, prop, tier, seed, shards, only=None):
    procs = []
    if only is not None:
        shards = 1
    for i in range(shards):
        d = os.path.join(work, f"s{i}")
        os.makedirs(os.path.join(d, "tmp"))
        e = env()
        e.update(TMPDIR=os.path.join(d, "tmp"), HOME=os.path.join(d, "tmp"), XDG_DATA_HOME=os.path.join(d, "tmp"),
                 XDG_CONFIG_HOME=os.path.join(d, "tmp"), XDG_STATE_HOME=os.path.join(d, "tmp"),
                 GORACE=f"halt_on_error=0 exitcode=0 history_size=3", GOTRACEBACK="all")
        cmd = [binary, "-prop", prop, "-tier", tier, "-seed", str(seed), "-shard", f"{i}/{shards}",
               "-out", os.path.join(d, "out.json"), "-now", os.path.join(d, "now")]
        if only is not None:
            cmd += ["-case", str(only)]
        err = open(os.path.join(d, "stderr"), "wb")
        out = open(os.path.join(d, "stdout"), "wb")
        procs.append((d, subprocess.Popen(cmd, cwd=d, env=e, stdout=out, stderr=err)))
    results = []
    limit = time.time() + (840 if tier == "quick" else 3 * 3600)
    for d, p in procs:
        hung = False
        try:
            p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            hung = True
            p.kill()
            p.wait()
        err = open(os.path.join(d, "stderr"), "rb").read().decode("utf8", "replace")
        now = open(os.path.join(d, "now")).read() if os.path.exists(os.path.join(d, "now")) else ""
        res = None
        if os.path.exists(os.path.join(d, "out.json")):
            try:
                res = json.load(open(os.path.join(d, "out.json")))
            except ValueError:
                res = None
        results.append(dict(rc=p.returncode, hung=hung, err=err, now=now, res=res))
    return results


def findings():
    known = {}
    path = os.path.join(VERIF, "KNOWN-FINDINGS.txt")
    if os.path.exists(path):
        for ln in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", ln)
            if m:
                known[(m.group(1), m.group(2))] = m.group(3).strip()
    return known


def decide(prop, tier, seed, only=None):
    t0 = time.time()
    driver, race, shards = PROPS[prop]
    work = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        binary = build(work, driver, race)
        results = run(binary, work, prop, tier, seed, shards, only)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    if any(r["rc"] == 3 for r in results):
        print(results[0]["err"][-2000:])
        return 2

    viol, counts, samples, seen, known = [], {}, [], set(), {}
    cases = evals = 0
    for r in results:
        case = int(r["now"].split()[0]) if r["now"].strip() else 0
        if r["hung"]:
            viol.append(dict(Case=case, Kind=r["now"] + " hang", Detail="the process did not end", Spec=None))
        elif r["rc"] == -9:
            print("the process was killed: no answer\n" + r["err"][-2000:])
            return 2
        elif r["rc"] != 0:
            e = r["err"]
            at = max(0, min([i for i in (e.find("fatal error:"), e.find("panic:"), e.find("runtime:")) if i >= 0] or [0]) - 200)
            viol.append(dict(Case=case, Kind=r["now"] + " crash", Detail=f"exit status {r['rc']}\n" + e[at:at + 12000], Spec=None))
        elif r["res"] is None:
            print("no result was written\n" + r["err"][-2000:])
            return 2
        if race:
            for rep in races(r["err"])[:3]:
                viol.append(dict(Case=case, Kind="data race", Detail=rep[:8000], Spec=None))
            counts["race reports elsewhere"] = counts.get("race reports elsewhere", 0) + r["err"].count("WARNING: DATA RACE") - len(races(r["err"]))
        d = r["res"]
        if d:
            cases = max(cases, d["cases"])
            evals += d["evals"]
            seen.update(d["seen"] or [])
            samples += (d["samples"] or [])[:2]
            viol += d["violations"] or []
            for k, v in (d["counts"] or {}).items():
                counts[k] = counts.get(k, 0) + v
            for k, v in (d["known"] or {}).items():
                known[k] = known.get(k, False) or v

    listed = findings()
    for k, v in sorted(known.items()):
        if not v:
            continue
        if (prop, k) in listed:
            print(f"KNOWN-FINDING: property={prop} {k}: {listed[(prop, k)]}")
        else:
            viol.append(dict(Case=0, Kind="unlisted finding " + k, Detail=k, Spec=None))

    if not viol and only is None and (evals == 0 or len(seen) < 2):
        print("nothing was observed: no answer")
        return 2

    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if only is None:
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(seen), rule=RULE,
                                samples=[dict(observed=s) for s in samples[:8]] or [dict(observed="none")],
                                cases=cases, observed=counts),
                  wall_s=round(time.time() - t0, 2), violations=len(viol),
                  assumptions=["the reference model (harness/model) states what the property says",
                               "schedules, trees and options beyond those generated for the seed are not covered"])
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")

    print(f"{prop} {tier} seed={seed}: {cases} cases, {evals} evaluations, {len(seen)} distinct, "
          f"{len(viol)} violations, {time.time() - t0:.1f}s")
    if not viol:
        return 0

    rdir = os.path.join(VERIF, "build", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{tier}-{seed}.json")
    v = viol[0]
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, case=v["Case"], violations=viol[:10]), f, indent=1)
        f.write("\n")
    for v in viol[:3]:
        print(f"--- {v['Kind']} (case {v['Case']})\n{v['Detail'][:3000]}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def main():
    a = sys.argv[1:]
    if len(a) == 2 and a[0] == "--replay":
        d = json.load(open(a[1]))
        sys.exit(decide(d["property"], d["tier"], d["seed"], d["case"] or None))
    if len(a) != 2 or a[0] not in PROPS or a[1] not in ("quick", "thorough"):
        print(__doc__)
        sys.exit(2)
    sys.exit(decide(a[0], a[1], int(os.environ.get("VERIF_SEED", "1"))))


if __name__ == "__main__":
    main()
