#!/usr/bin/env python3
"""run.py check <ID> | run.py replay <file> | run.py setup

Builds the harness from /repo's working tree, runs the shards of one property, merges
their results, writes the evidence file and reports. See DESIGN.md.
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
KNOWN = os.path.join(HERE, "known-findings.txt")
NODE_MODULES = "/opt/veriftools/node/node_modules"
SHARDS = 8
LIMIT = {"quick": 600, "thorough": 3300}
TS_PROPS = {"C20", "C21", "C22", "C23", "C24", "C25", "C26", "C34", "C35", "C37", "C38"}


class Broken(Exception):
    """The check could not give an answer (exit 2)."""


def env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
             GOSUMDB="off", GONOSUMDB="*", NODE_PATH=NODE_MODULES)
    for k in ("GODEBUG", "GOEXPERIMENT", "NODE_OPTIONS"):
        e.pop(k, None)
    return e


def sh(cmd, cwd, timeout=900, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode != 0:
        raise Broken(f"{what or cmd[0]} failed ({p.returncode}):\n{p.stdout.decode(errors='replace')[-4000:]}")
    return p.stdout.decode(errors="replace")


def build_go(tmp):
    """Builds the harness (and, for the properties that need it, the CLI) against REPO."""
    mod = open(os.path.join(HERE, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(os.path.join(tmp, "go.mod"), "w").write(mod)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(tmp, "go.sum"))
    out = os.path.join(tmp, "harness")
    sh(["go", "build", "-modfile", os.path.join(tmp, "go.mod"), "-o", out, "."], os.path.join(HERE, "harness"), what="building the Go harness")
    return out


def build_cli(tmp):
    """The command-line tools, built outside of REPO."""
    sh(["go", "build", "-o", os.path.join(tmp, "appendable"), "./cmd"], REPO, what="building cmd")


def build_rust(tmp):
    e = os.path.join(tmp, "cargo")
    p = subprocess.run(["cargo", "build", "--offline", "--workspace", "--target-dir", e], cwd=REPO,
                       env=dict(env(), CARGO_NET_OFFLINE="true"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
    if p.returncode != 0:
        raise Broken("building the Rust helper failed:\n" + p.stdout.decode(errors="replace")[-3000:])


def build_ts(tmp):
    esb = os.path.join(NODE_MODULES, ".bin", "esbuild")
    src = os.path.join(HERE, "ts", "main.ts")
    out = os.path.join(tmp, "main.cjs")
    sh([esb, src, "--bundle", "--platform=node", "--target=node20", "--format=cjs", "--log-level=error",
        f"--alias:@repo={REPO}/src", f"--outfile={out}", "--sourcemap=inline", f"--tsconfig-raw={{}}"], tmp, what="bundling the client")
    return out


def shard_cmd(prop, tmp, extra):
    if prop in TS_PROPS:
        return ["node", "--enable-source-maps", "--stack-size=2000", os.path.join(tmp, "main.cjs"),
                "--go", os.path.join(tmp, "harness")] + extra
    return [os.path.join(tmp, "harness")] + extra


def run_many(cmds, limit):
    procs = []
    for cmd, out in cmds:
        os.makedirs(out, exist_ok=True)
        log = open(os.path.join(out, "log"), "wb")
        procs.append((subprocess.Popen(cmd, cwd=out, env=env(), stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True), out))
    end = time.time() + limit
    codes = []
    for p, out in procs:
        try:
            codes.append(p.wait(max(0.1, end - time.time())))
        except subprocess.TimeoutExpired:
            codes.append("timeout")
    for p, _ in procs:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    return codes


def tail(out, n=3000):
    try:
        b = open(os.path.join(out, "log"), "rb").read()
    except OSError:
        return ""
    s = b.decode(errors="replace")
    return s if len(s) < 2 * n else s[:n] + "\n...\n" + s[-n:]


def prepare(prop, tmp):
    build_go(tmp)
    if prop in ("C27", "C32"):
        build_cli(tmp)
    if prop == "C28":
        build_rust(tmp)
    if prop in TS_PROPS:
        build_ts(tmp)


def keep_replay(path, prop):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, os.path.basename(path))
    shutil.copy(path, dst)
    return dst


def crashed(prop, cmd, out, code, limit):
    """A worker died. Re-run it recording each case, then judge that case alone."""
    codes = run_many([(cmd + ["--trace" if prop in TS_PROPS else "-trace"], out)], limit)
    tr = os.path.join(out, "trace.json")
    if codes[0] in (0, "timeout", -signal.SIGKILL) or not os.path.exists(tr):
        raise Broken(f"a worker died with {code}, not reproducibly ({codes[0]}):\n{tail(out)}")
    alone = out + "-alone"
    c2 = run_many([(shard_cmd(prop, os.path.dirname(out), ["-replay" if prop not in TS_PROPS else "--replay", tr] +
                              (["-out", alone] if prop not in TS_PROPS else ["--out", alone])), alone)], 300)[0]
    if c2 in (0, "timeout", -signal.SIGKILL):
        raise Broken(f"a worker died with {code}; the recorded case alone ends with {c2}:\n{tail(out)}")
    rf = json.load(open(tr))
    rf["error"] = "the process died on this case:\n" + tail(alone, 1500)
    name = os.path.join(out, f"{prop}-{rf['sub']}.json")
    json.dump(rf, open(name, "w"), indent=1)
    return {"sub": rf["sub"], "replay": name, "error": rf["error"]}


def stuck(prop, out):
    """A case did not finish. Judge it alone, with twice the time."""
    tr = os.path.join(out, "stuck.json")
    rf = json.load(open(tr))
    alone = out + "-alone"
    d = "--" if prop in TS_PROPS else "-"
    code = run_many([(shard_cmd(prop, os.path.dirname(out), [d + "replay", tr, d + "out", alone]), alone)], 300)[0]
    if code == 0:
        raise Broken(f"a case did not finish among others, but did so alone:\n{rf['error'][:2000]}")
    name = os.path.join(out, f"{prop}-{rf['sub']}.json")
    json.dump(rf, open(name, "w"), indent=1)
    return {"sub": rf["sub"], "replay": name, "error": rf["error"] + "\nalone: " + tail(alone, 1500)}


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1") or 4242
    tmp = tempfile.mkdtemp(prefix="verif-" + prop + "-")
    try:
        prepare(prop, tmp)
        cmds = []
        d = "--" if prop in TS_PROPS else "-"
        for i in range(SHARDS):
            out = os.path.join(tmp, f"shard{i}")
            cmds.append((shard_cmd(prop, tmp, [d + "prop", prop, d + "tier", tier, d + "seed", str(seed), d + "shard", str(i),
                                               d + "shards", str(SHARDS), d + "out", out, d + "known", KNOWN]), out))
        codes = run_many(cmds, LIMIT[tier])
        violations, res = [], []
        problem = None
        for (cmd, out), code in zip(cmds, codes):
            if code == 0:
                res.append(json.load(open(os.path.join(out, "result.json"))))
                continue
            if os.path.exists(os.path.join(out, "stuck.json")):
                if not violations:
                    try:
                        violations.append(stuck(prop, out))
                    except Broken as b:
                        problem = problem or b
                continue
            if code in ("timeout", -signal.SIGKILL, 2) and not fatal_go(out, code):
                problem = problem or Broken(f"shard {os.path.basename(out)} ended with {code}:\n{tail(out)}")
                continue
            if not violations:
                try:
                    violations.append(crashed(prop, cmd, out, code, LIMIT[tier]))
                except Broken as b:
                    problem = problem or b
        for r in res:
            violations += r["violations"] or []
        if problem and not violations:
            raise problem
        return report(prop, tier, seed, res, violations, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fatal_go(out, code):
    """Exit status 2 of a Go process is also a runtime crash; tell the two apart."""
    if code != 2:
        return False
    t = tail(out, 20000)
    return not t.lstrip().startswith("ERROR:") and ("fatal error:" in t or "panic:" in t or "SIGSEGV" in t or "SIGBUS" in t)


def report(prop, tier, seed, res, violations, t0):
    labels, per_sub, nt, samples, findings, stale, ev, rule = {}, {}, set(), [], [], [], 0, ""
    for r in res:
        ev += r["evaluations"]
        rule = r["rule"]
        for k, v in (r["labels"] or {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in (r["per_sub"] or {}).items():
            per_sub[k] = per_sub.get(k, 0) + v
        nt.update(r["nontrivial"] or [])
        samples += (r["samples"] or [])
        findings += r["findings"] or []
        stale += r["stale"] or []
    by_sub = {}
    for s in samples:
        by_sub.setdefault(s.get("sub"), []).append(s)
    samples = [s for v in by_sub.values() for s in sorted(v, key=lambda x: len(json.dumps(x)))[:2]][:12]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": len(nt), "rule": rule, "samples": samples,
                     "labels": dict(sorted(labels.items())), "per_search": per_sub,
                     "known_findings": findings, "exhaustive": False},
        "assumptions": ["generated search: no absence of violations is established beyond the cases explored"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for f in findings:
        print(f"KNOWN-FINDING: property={prop} {f['text']} [{f['key']}: {f['observed'][:300]}]")
    for s in sorted(set(stale)):
        print(f"note: known finding {s} no longer reproduces")
    seen = set()
    for v in violations:
        if v["sub"] in seen:
            continue
        seen.add(v["sub"])
        print(f"# {v['sub']}: {v['error'][:1500]}")
        print(f"VIOLATION property={prop} replay={keep_replay(v['replay'], prop)}")
    if not violations:
        print(f"{prop}: held on {ev} cases ({len(nt)} distinct non-trivial), {evidence['wall_s']} s")
    return 1 if violations else 0


def replay(path):
    path = os.path.abspath(path)
    prop = json.load(open(path))["property"]
    tmp = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        prepare(prop, tmp)
        d = "--" if prop in TS_PROPS else "-"
        out = os.path.join(tmp, "out")
        code = run_many([(shard_cmd(prop, tmp, [d + "replay", path, d + "out", out]), out)], 600)[0]
        print(tail(out, 20000))
        return code if isinstance(code, int) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    try:
        if len(sys.argv) == 3 and sys.argv[1] == "check":
            rc = check(sys.argv[2])
        elif len(sys.argv) == 3 and sys.argv[1] == "replay":
            rc = replay(sys.argv[2])
        elif len(sys.argv) == 2 and sys.argv[1] == "setup":
            tmp = tempfile.mkdtemp(prefix="verif-setup-")
            try:
                build_go(tmp)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            rc = 0
        else:
            print(__doc__)
            rc = 2
    except Broken as b:
        print("CHECK ERROR:", b, file=sys.stderr)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)


main()
