#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by symbolic execution of the real code:
  1. compile /repo (current working tree) together with the property's harnesses
     to one LLVM module;
  2. explore every path of every harness with engine/ (symbolic inputs, Z3);
  3. replay every counterexample, and a sample of the explored paths, with a
     native build of the same code;
  4. write evidence/<property>.json.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
from props import PROPS  # noqa: E402

WORK = os.path.join(HERE, ".work")
REPO = "/repo"
STUBS = ["sym_stub_memchr_raw", "sym_stub_memchr"]
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    e.pop("RUSTFLAGS", None)
    e.pop("RUSTC_WRAPPER", None)
    return e


ENV = env()


class CheckError(Exception):
    pass


def sh(cmd, cwd=None, target=None, what="command"):
    e = dict(ENV)
    if target:
        e["CARGO_TARGET_DIR"] = target
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def source_hash():
    h = hashlib.sha256()
    for crate in ("imap-codec", "imap-types"):
        for root, dirs, files in sorted(os.walk(os.path.join(REPO, crate))):
            dirs[:] = sorted(d for d in dirs if d not in ("target", "fuzz", "benchmark"))
            for f in sorted(files):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def invalidate(target, digest):
    """Cargo looks at modification times; make sure that a changed tree is rebuilt."""
    stamp = os.path.join(target, "source-hash")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != digest:
        for prof in ("release", "replay", "shipped"):
            fp = os.path.join(target, prof, ".fingerprint")
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith(("imap-", "vharness-", "vir-", "vreplay-")):
                        shutil.rmtree(os.path.join(fp, n))
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(digest)


def build_engine():
    t = os.path.join(WORK, "engine")
    sh(["cargo", "build", "-q", "--release", "--offline"], os.path.join(HERE, "engine"), t, "building the engine")
    return os.path.join(t, "release", "symex")


# Cargo features of imap-codec besides all extensions.  "default" is what a
# user gets (imap-codec's default features), "strict" has no quirks, "all" has
# every quirk.
CONFIGS = {"default": ["quirk"], "strict": [], "all": ["quirk", "quirk_all"]}


def features(cfg, config):
    return ",".join(cfg["features"] + CONFIGS[config])


def build_ir(cfg, config, prop, harnesses, digest):
    t = os.path.join(WORK, "ir-" + config)
    invalidate(t, digest)
    prof = cfg.get("profile", "release")
    d = os.path.join(t, prof)
    deps = os.path.join(d, "deps")
    for base in (os.path.join(d, ".fingerprint"), deps):
        if os.path.isdir(base):
            for n in os.listdir(base):
                if n.startswith(("vir-", "libvir-")):
                    p = os.path.join(base, n)
                    shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
    sh(["cargo", "rustc", "-q", "-p", "vir", "--profile", prof, "--offline", "--features", features(cfg, config),
        "--", "-C", "save-temps", "--emit=llvm-bc"], os.path.join(HERE, "harness"), t,
       "compiling /repo with the harnesses")
    bc = [n for n in os.listdir(deps) if n.startswith("vir-") and n.endswith(".bc") and "rcgu" not in n]
    if len(bc) != 1:
        raise CheckError("expected one bitcode file, found %r" % bc)
    sysroot = sh(["rustc", "--print", "sysroot"]).strip()
    bin_ = os.path.join(sysroot, "lib/rustlib/x86_64-unknown-linux-gnu/bin")
    out = os.path.join(WORK, prop + "-" + config + ".bc")
    ll = os.path.join(WORK, prop + "-" + config + ".ll")
    sh([bin_ + "/opt", "-passes=internalize,globaldce",
        "-internalize-public-api-list=" + ",".join(harnesses + STUBS), os.path.join(deps, bc[0]), "-o", out])
    sh([bin_ + "/llvm-dis", out, "-o", ll])
    os.remove(out)
    return ll


def build_replay(cfg, config, digest):
    t = os.path.join(WORK, "replay-" + config)
    invalidate(t, digest)
    prof = cfg.get("replay_profile", "replay")
    sh(["cargo", "build", "-q", "-p", "vreplay", "--profile", prof, "--offline", "--features",
        features(cfg, config)], os.path.join(HERE, "harness"), t, "building the native replayer")
    return os.path.join(t, prof, "vreplay")


def replay(binary, harness, inputs, path, timeout=30):
    with open(path, "w") as f:
        f.write(harness + "\n" + " ".join(map(str, inputs)) + "\n")
    try:
        p = subprocess.run([binary, harness, "/dev/stdin"], input=" ".join(map(str, inputs)) + "\n", text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return dict(rc="timeout", trace=[], notes=[], fail=None, err="")
    tr, notes, fail = [], [], None
    for line in p.stdout.splitlines():
        w = line.split(" ", 2)
        if w[0] == "T":
            tr.append([int(w[1]), int(w[2])])
        elif w[0] == "N":
            notes.append(line[2:])
        elif w[0] == "CHECKFAIL":
            fail = int(w[1])
    return dict(rc=p.returncode, trace=tr, notes=notes, fail=fail, err=p.stderr[-2000:])


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
        return p.stdout.split("\n")
    except OSError:
        return names


def short(n):
    import re
    return re.sub(r"\[[0-9a-f]{6,}\]", "", n)


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[prop]
    runs = []
    for r in cfg[tier]:
        for c in r.get("configs", ["default"]):
            runs.append(dict(r, config=c, name=r["h"] if c == "default" else r["h"] + "@" + c))
    configs = sorted(set(r["config"] for r in runs))
    os.makedirs(WORK, exist_ok=True)
    outdir = os.path.join(HERE, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    lock = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)

    # resolve the dependencies to the versions /repo uses
    shutil.copyfile(os.path.join(REPO, "Cargo.lock"), os.path.join(HERE, "harness", "Cargo.lock"))
    digest = source_hash()
    ex = cf.ThreadPoolExecutor(4)
    f_engine = ex.submit(build_engine)
    f_ir = {c: ex.submit(build_ir, cfg, c, prop, sorted(set(r["h"] for r in runs if r["config"] == c)), digest)
            for c in configs}
    f_replay = {c: ex.submit(build_replay, cfg, c, digest) for c in configs}
    engine = f_engine.result()
    ll = {c: f.result() for c, f in f_ir.items()}
    t_build = time.time() - t0

    # exploration
    limit = float(os.environ.get("VERIF_TIME", cfg.get("time", {}).get(tier, 420 if tier == "quick" else 3000)))
    budget_end = time.time() + limit
    results = []
    for r in runs:
        left = budget_end - time.time()
        o = os.path.join(WORK, "run", prop, r["name"])
        shutil.rmtree(o, ignore_errors=True)
        os.makedirs(o)
        cmd = [engine, "--ll", ll[r["config"]], "--out", o, "--harness", r["h"], "--seed", str(seed),
               "--jobs", str(os.cpu_count() or 8), "--total-time", "%.1f" % max(5.0, min(left, r.get("time", left))),
               "--job-time", "100000"] + r.get("args", [])
        subprocess.run(cmd, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        idx = os.path.join(o, "index.json")
        if not os.path.exists(idx):
            raise CheckError("the engine failed on " + r["name"])
        js = [json.load(open(p)) for p in json.load(open(idx))]
        results.append((r, js))
    t_explore = time.time() - t0 - t_build
    for p in ll.values():
        os.remove(p)

    binaries = {c: f.result() for c, f in f_replay.items()}

    def native(name, inputs, path, timeout=30):
        h, _, c = name.partition("@")
        return replay(binaries[c or "default"], h, inputs, path, timeout)

    rnd = random.Random(seed)

    tot = dict(paths=0, completed=0, assumed_away=0, forks=0, instructions=0, branch_queries=0, dom_unsat=0, dom_sat=0, enumerated=0, range_unsat=0,
               model_sat=0, crosschecked=0, checks=0, check_z3=0, check_static=0, z3_queries=0, z3_sat=0, z3_unsat=0,
               z3_unknown=0, z3_time=0.0)
    z3_max, max_inputs, max_depth, max_steps = 0.0, 0, 0, 0
    funcs, incomplete, viols, samples, per = set(), {}, [], [], []
    problems = []
    for r, js in results:
        h = dict(harness=r["name"], bounds=r.get("bounds", ""), paths=0, completed=0, checks=0, jobs=0, cpu_s=0.0, markers={})
        for d in js:
            if "crash" in d:
                k = "engine job ended with status %s" % d["crash"]
                incomplete.setdefault(k, []).append("%s/%s" % (r["name"], d["case"]))
                continue
            for k in tot:
                tot[k] += d[k]
            z3_max = max(z3_max, d["z3_max"])
            max_inputs = max(max_inputs, d["max_inputs"])
            max_depth = max(max_depth, d["max_depth"])
            max_steps = max(max_steps, d["max_path_steps"])
            funcs.update(d["functions"])
            h["jobs"] += 1
            h["cpu_s"] = round(h["cpu_s"] + d["wall_s"], 1)
            for k in ("paths", "completed", "checks"):
                h[k] += d[k]
            for k, n in d["reach"].items():
                h["markers"][k] = h["markers"].get(k, 0) + n
            for k, n in d["incomplete"].items():
                incomplete.setdefault(k, []).append("%s/%s (%d)" % (r["name"], d["case"], n))
            for v in d["violations"]:
                v["harness"], v["case"] = r["name"], d["case"]
                viols.append(v)
            for s in d["samples"]:
                s["harness"] = r["name"]
                samples.append(s)
        for m in r.get("need", ["r1"]):
            if not h["markers"].get(m) and not any(v["harness"] == r["name"] for v in viols):
                problems.append("%s: marker %s was never reached" % (r["name"], m))
        per.append(h)

    # counterexamples: only what the native build confirms is reported
    known = [k for k in json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
             if k["property"] == prop and k["status"] == "known"]
    confirmed, unconfirmed, seen_known = [], [], {}
    seen = {}
    for v in viols:
        if v["kind"] == "steps":
            continue
        key = (v["harness"], v["kind"], v["label"], v["msg"][:60] if v["kind"] != "check" else "")
        seen.setdefault(key, []).append(v)
    todo = []
    for key, vs in sorted(seen.items(), key=lambda x: str(x[0])):
        rnd2 = random.Random(1)
        if len(vs) > 8:
            vs = vs[:4] + rnd2.sample(vs[4:], 4)
        todo += vs
    n = 0
    for v in todo[:200]:
        n += 1
        path = os.path.join(outdir, "cex-%d.txt" % n)
        for _ in range(cfg.get("replays", 1)):  # races need not show at once
            r = native(v["harness"], v["inputs"], path)
            bad = r["fail"] is not None or (isinstance(r["rc"], int) and r["rc"] < 0)
            if bad:
                break
        info = dict(harness=v["harness"], case=v["case"], kind=v["kind"], label=v["label"], message=v["msg"],
                    inputs=v["inputs"], notes=r["notes"], native_rc=r["rc"], native_check=r["fail"],
                    native_stderr=r["err"][-600:], stack=demangle(v["stack"][:12]), replay=path)
        with open(path, "a") as f:
            f.write("\n".join("# " + x for x in json.dumps(info, indent=1).splitlines()) + "\n")
        if not bad:
            unconfirmed.append(info)
            continue
        hit = None
        for k in known:
            if k["harness"] in (v["harness"].split("@")[0], "*") and r["fail"] is not None and k["label"] == r["fail"]:
                hit = k
        if hit:
            seen_known.setdefault(hit["id"], (hit, info))
        else:
            confirmed.append(info)

    # non-termination: a path that exceeds the step limit must also not end natively
    for v in [v for v in viols if v["kind"] == "steps"][:3]:
        n += 1
        path = os.path.join(outdir, "cex-%d.txt" % n)
        r = native(v["harness"], v["inputs"], path, timeout=20)
        info = dict(harness=v["harness"], case=v["case"], kind="nontermination", label=0, message=v["msg"],
                    inputs=v["inputs"], notes=r["notes"], native_rc=r["rc"], native_check=r["fail"], replay=path)
        (confirmed if r["rc"] == "timeout" or r["fail"] is not None else unconfirmed).append(info)

    # validation of the symbolic executor: sampled paths must do the same natively
    want = cfg.get("validate", {}).get(tier, 200 if tier == "quick" else 1000)
    rnd.shuffle(samples)
    validated, mismatches, shown = 0, [], []
    spath = os.path.join(outdir, "sample.txt")
    tv = time.time()

    def one(i):
        s = samples[i]
        p = spath + str(i % 16)
        return s, native(s["harness"], s["inputs"], p + ".%d" % i)

    with cf.ThreadPoolExecutor(8) as pool:
        for s, r in pool.map(one, range(min(want, len(samples)))):
            if r["rc"] == 0 and r["trace"] == s["trace"]:
                validated += 1
                if len(shown) < 12 and r["notes"]:
                    shown.append(dict(harness=s["harness"], inputs=s["inputs"], notes=[x[:300] for x in r["notes"][:4]]))
                elif len(shown) < 3:
                    shown.append(dict(harness=s["harness"], inputs=s["inputs"]))
            else:
                mismatches.append(dict(harness=s["harness"], inputs=s["inputs"], expected=s["trace"][:50],
                                       native=r["trace"][:50], rc=r["rc"]))
    for f in os.listdir(outdir):
        if f.startswith("sample.txt"):
            os.remove(os.path.join(outdir, f))
    t_validate = time.time() - tv

    own = sorted(set(short(x) for x in demangle(sorted(f for f in funcs if "imap_codec" in f or "imap_types" in f))))
    complete = not incomplete and not problems
    cov = dict(
        states=tot["completed"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=shown,
        exhaustive=complete,
        explanation="states: complete symbolic paths, each covering every input that satisfies its path condition; "
                    "transitions: feasible branch alternatives explored (forks). "
                    "Every path within the bounds was explored." if complete else
                    "states: complete symbolic paths; transitions: forks. Exploration was cut, see incomplete.",
        technique="symbolic execution of LLVM IR compiled from /repo's current tree, Z3 as solver",
        harnesses=per, paths_including_assumed_away=tot["paths"], paths_outside_assumptions=tot["assumed_away"],
        ir_instructions=tot["instructions"],
        functions_encoded=dict(total=len(funcs), of_imap_codec_and_imap_types=len(own), names=own[:400]),
        bounds=dict(property=cfg.get("bounds", ""), outside=cfg.get("outside", ""),
                    max_symbolic_inputs_on_a_path=max_inputs, max_call_depth=max_depth, max_steps_on_a_path=max_steps),
        queries=dict(
            branch_decisions=tot["branch_queries"], decided_by_known_model=tot["model_sat"],
            decided_by_byte_domain_sat=tot["dom_sat"], decided_by_byte_domain_unsat=tot["dom_unsat"],
            decided_by_enumerating_a_byte_domain=tot["enumerated"],
            decided_by_interval_analysis=tot["range_unsat"],
            byte_domain_answers_crosschecked_by_z3=tot["crosschecked"],
            assertions=tot["checks"], assertions_true_on_the_whole_path_after_simplification=tot["check_static"],
            assertions_decided_by_z3=tot["check_z3"], z3_queries=tot["z3_queries"], z3_sat=tot["z3_sat"],
            z3_unsat=tot["z3_unsat"], z3_unknown=tot["z3_unknown"], z3_seconds=round(tot["z3_time"], 2),
            z3_longest_query_s=round(z3_max, 3)),
        incomplete={k: v[:20] + (["... %d more" % (len(v) - 20)] if len(v) > 20 else []) for k, v in incomplete.items()},
        problems=problems, unconfirmed_counterexamples=unconfirmed[:10], trace_mismatches=mismatches[:10],
        known_findings=[k["id"] for k, _ in seen_known.values()],
        seconds=dict(build=round(t_build, 1), explore=round(t_explore, 1), validate=round(t_validate, 1)),
        source_sha256=digest)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=cfg.get("assumptions", []) + COMMON_ASSUMPTIONS,
              wall_s=round(time.time() - t0, 1), violations=len(confirmed))
    if confirmed:
        ev["coverage"]["violations_found"] = confirmed[:10]
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    print("%s %s: %d paths (%d checks, %d z3 queries, %.1f s in z3), %d native traces agree, build %.0f s, explore %.0f s"
          % (prop, tier, tot["completed"], tot["checks"], tot["z3_queries"], tot["z3_time"], validated, t_build, t_explore))
    for k, v in incomplete.items():
        print("INCOMPLETE: %s: %s" % (k, ", ".join(v[:4])))
    for u in unconfirmed[:5]:
        print("UNCONFIRMED (ignored): %s %s label=%s %s" % (u["harness"], u["kind"], u["label"], u["message"][:120]))
    for k, info in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if confirmed:
        for c in confirmed[:20]:
            print("  %s case=%s %s label=%s %s %s" % (c["harness"], c["case"], c["kind"], c["label"], c["message"][:100],
                                                       " | ".join(c["notes"])[:300]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0]["replay"]))
        return 1
    if mismatches:
        print("ERROR: %d sampled paths behave differently in the native build: %r" % (len(mismatches), mismatches[0]))
        return 2
    if problems:
        print("ERROR: " + "; ".join(problems))
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "trusted: rustc's compilation to LLVM IR (opt-level z, fat LTO), the executor in /verif/engine, Z3; every reported "
    "counterexample and the sampled paths are re-executed natively",
    "heap allocation succeeds; HashMap seeds are fixed; one thread",
    "cargo features: all extensions (starttls, ext_*) and the default features (quirk); harnesses named @strict: "
    "without quirks; @all: with every quirk",
]

if __name__ == "__main__":
    try:
        rc = main()
    except CheckError as e:
        print("ERROR:", e)
        rc = 2
    sys.exit(rc)
