#!/usr/bin/env python3
"""Decides one property: builds what its check needs from /repo's working tree,
runs the generated-input search, writes evidence/<id>.json.

    check.py ID [quick|thorough] [--scale X]
    check.py --replay FILE
    check.py --setup

Exit 0: held on everything explored. Exit 1: VIOLATION printed. Anything else: no answer."""
import contextlib
import fcntl
import hashlib
import json
import os
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
BUILD = os.path.join(VERIF, "build")
STABLE = "stable-x86_64-unknown-linux-gnu"
WASM_TOOLCHAIN = "1.98.0-x86_64-unknown-linux-gnu"
WASM = "wasm32-unknown-unknown"

PAINT = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C22", "C28"]
CODEGEN = ["C16", "C17", "C18", "C19", "C23", "C24", "C25", "C26", "C27", "C29"]
ALL = sorted(PAINT + CODEGEN + ["C20", "C21", "C30"])

ASSUME = {
    "paint": [
        "the oracle's reading of the source sprite sheets, indices and alias lists in codegen/ (PNG decoding included) is right",
        "rustc, the standard library and the machine behave as documented",
    ],
    "C05": ["texts in which a cluster that is not indexed has the hash of one that is are judged as known findings (known_findings.json)"],
    "C18": ["a failing write shows as an error of the system call (full device, file size limit, missing or wrong kind of path)"],
    "C20": ["node executes WebAssembly as specified"],
    "C30": ["node executes WebAssembly as specified"],
    "C21": ["the stand-ins for canvas, fetch and document behave like a browser's for what the page uses"],
}


class Error(Exception):
    pass


def environment():
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_INCREMENTAL", "GOBIN"):
        e.pop(k, None)
    e.update(
        HOME="/root",
        LANG="C.UTF-8",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN=STABLE,
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_TARGET_DIR=TARGET,
        RUST_BACKTRACE="0",
        GOTOOLCHAIN="local",
        GOPROXY="off",
        GOFLAGS="",
        GOCACHE="/root/.cache/go-build",
    )
    return e


ENV = environment()


def sh(cmd, cwd=VERIF, env=None, what=None):
    e = dict(ENV)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise Error("%s failed:\n%s" % (what or " ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def repo_hash():
    h = hashlib.sha256()
    for top in ("Cargo.toml", "build.rs", ".cargo", "src", "wasm_demo/Cargo.toml", "wasm_demo/.cargo", "wasm_demo/src"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            with open(f, "rb") as fh:
                h.update(f.encode() + b"\0" + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


@contextlib.contextmanager
def lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def fresh(name, clean):
    """Cargo goes by file times; we go by content. True if the build must not be reused"""
    stamp = os.path.join(BUILD, "stamp-" + name)
    want = repo_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have != want:
        clean()
        if os.path.exists(stamp):
            os.remove(stamp)
    return stamp, want


def done(s):
    with open(s[0], "w") as f:
        f.write(s[1])


def build_pbt(profile):
    d = os.path.join(TARGET, profile)

    def clean():
        if os.path.isdir(d):
            sh(["cargo", "clean", "--offline", "-p", "blitstr", "--profile", profile], cwd=os.path.join(VERIF, "harness"))

    s = fresh("pbt-" + profile, clean)
    sh(["cargo", "build", "--offline", "--profile", profile], cwd=os.path.join(VERIF, "harness"), what="building the harness with the library")
    done(s)
    return os.path.join(d, "pbt")


def build_wasm(profile):
    t = os.path.join(TARGET, "wasm-" + profile)
    s = fresh("wasm-" + profile, lambda: shutil.rmtree(t, ignore_errors=True))
    sh(["cargo", "build", "--offline", "--profile", profile, "--target", WASM, "--target-dir", t], cwd=os.path.join(VERIF, "wasm_harness"), env={"RUSTUP_TOOLCHAIN": WASM_TOOLCHAIN}, what="building the library for wasm32")
    done(s)
    return os.path.join(t, WASM, profile, "wasm_harness.wasm")


def build_wasm_demo():
    t = os.path.join(TARGET, "wasm_demo")
    s = fresh("wasm_demo", lambda: shutil.rmtree(t, ignore_errors=True))
    sh(["cargo", "build", "--offline", "--release", "--target", WASM, "--target-dir", t], cwd=os.path.join(REPO, "wasm_demo"), env={"RUSTUP_TOOLCHAIN": WASM_TOOLCHAIN}, what="building wasm_demo")
    done(s)
    return os.path.join(t, WASM, "release", "demo.wasm")


def build_codegen():
    out = os.path.join(BUILD, "codegen")
    sh(["go", "build", "-buildvcs=false", "-o", out, "."], cwd=os.path.join(REPO, "codegen"), what="building the code generator")
    return out


def passes(pid, tier):
    """The runs that decide a property: (profile name, builder of command and environment)"""
    if pid in ("C21", "C30"):
        return ["web"]
    if pid == "C20":
        return ["wasm-release", "wasm-checked"]
    if pid in CODEGEN:
        return ["release"]
    if pid == "C02" or tier == "thorough":
        return ["release", "checked"]
    return ["release"]


def quick_scale(pid, profile):
    """Case counts of the quick tier, as a multiple of those written in the harness"""
    if profile == "checked":
        return 1.0
    return {"C02": 2.0, "C11": 8.0, "C12": 4.0, "C13": 6.0, "C22": 8.0, "C21": 1.0, "C20": 1.0, "C16": 1.0, "C17": 1.0, "C18": 1.0, "C19": 1.0, "C23": 1.0, "C24": 2.0, "C25": 1.0, "C26": 1.0, "C27": 1.0, "C29": 1.0, "C30": 1.0}.get(pid, 3.0)


def prepare(pid, profile, out):
    """Build; then command line prefix for a run, for a replay, and the environment"""
    env = {"PBT_REPO": REPO, "PBT_KNOWN": os.path.join(VERIF, "known_findings.json")}
    with lock():
        if profile == "web":
            exe = build_pbt("release")
            wasm = build_wasm_demo()
            sh([exe, "run", "demos", "quick", "1", "release", out], env=env, what="painting the demo screen natively")
            base = ["node", "--no-warnings", "--experimental-vm-modules", os.path.join(VERIF, "tools/module_check.mjs" if pid == "C30" else "tools/web_check.mjs"), REPO]
            tail = [wasm, os.path.join(out, "demo.hex")]
            return (lambda tier, seed, scale: base + [tier, str(seed), out] + tail), (lambda f: base + ["quick", "1", out] + tail + [f]), env
        exe = build_pbt("checked" if profile == "checked" else "release")
        if profile.startswith("wasm-"):
            env["PBT_WASM"] = build_wasm(profile[5:])
            env["PBT_WASM_HOST"] = os.path.join(VERIF, "tools/wasm_host.js")
        if pid in CODEGEN:
            env["PBT_CODEGEN"] = build_codegen()
            env["PBT_RUSTC"] = sh(["rustup", "which", "rustc"]).strip()
    return (
        (lambda tier, seed, scale: [exe, "run", pid, tier, str(seed), profile, out, str(scale)]),
        (lambda f: [exe, "replay", f, profile, out]),
        env,
    )


def call(cmd, env, limit):
    e = dict(ENV)
    e.update(env)
    p = subprocess.Popen(cmd, cwd=VERIF, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=limit)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        with contextlib.suppress(ProcessLookupError):
            os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise Error("no result after %d s" % limit)


def save_replay(pid, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(failure, indent=1, sort_keys=True)
    path = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(body.encode()).hexdigest()[:12]))
    with open(path, "w") as f:
        f.write(body + "\n")
    return path


def read_result(out):
    p = os.path.join(out, "result.json")
    return json.load(open(p)) if os.path.exists(p) else None


def after_crash(out, pid, profile, env, replay_cmd, code, text):
    """The process died: find the case that does it, each in a process of its own"""
    for n in sorted(os.listdir(out)):
        if not n.startswith("journal-"):
            continue
        raw = open(os.path.join(out, n), "rb").read().split(b"\0", 1)[0]
        try:
            f = json.loads(raw)
        except ValueError:
            continue
        case = os.path.join(out, "crash-case.json")
        with open(case, "w") as fh:
            json.dump(f, fh)
        try:
            rc, _ = call(replay_cmd(case), env, 120)
        except Error:
            continue
        if rc < 0 or rc > 100:
            f["message"] = "the process dies (%s)" % (signal.Signals(-rc).name if rc < 0 else "exit %d" % rc)
            return f
        if rc == 1:
            return read_result(out)["failure"]
    raise Error("the harness ended with %s and no single case explains it:\n%s" % (code, text[-3000:]))


def decide(pid, tier, seed, scale):
    started = time.time()
    limit = 820 if tier == "quick" else 6 * 3600
    results, failure, base = [], None, os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    hashes, enumerated = set(), 0
    try:
        for profile in passes(pid, tier):
            out = os.path.join(base, profile)
            os.makedirs(out, exist_ok=True)
            run_cmd, replay_cmd, env = prepare(pid, profile, out)
            part = scale * (quick_scale(pid, profile) if tier == "quick" else 1)
            env["PBT_SCALE"] = str(part)
            code, text = call(run_cmd(tier, seed, part), env, max(10, limit - (time.time() - started)))
            if code == 3 or code == 2:
                raise Error("harness error:\n" + text[-4000:])
            r = read_result(out)
            if code not in (0, 1) or r is None:
                failure = after_crash(out, pid, profile, env, replay_cmd, code, text)
                r = None
            elif code == 1:
                failure = r["failure"]
            if r:
                results.append(r)
                raw = open(os.path.join(out, "hashes.bin"), "rb").read()
                hashes.update(struct.unpack("<%dQ" % (len(raw) // 8), raw))
                enumerated = max(enumerated, r["distinct_enumerated"])
            if failure:
                break
    finally:
        shutil.rmtree(base, ignore_errors=True)

    def add(key):
        t = {}
        for r in results:
            for k, v in r[key].items():
                t[k] = t.get(k, 0) + v
        return t

    known = list(dict.fromkeys(k for r in results for k in r["known"]))
    samples = [dict(s, profile=r["profile"]) for r in results for s in r["samples"]][:9]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes) + enumerated,
            "rule": results[0]["rule"] if results else "",
            "samples": samples,
            "profiles": [r["profile"] for r in results],
            "phases": add("phases"),
            "labels": add("labels"),
            "excluded": add("excluded"),
            "enumerated_completely": sorted({e for r in results for e in r["exhaustive"]}),
            "known_findings_reproduced": len(known),
            "notes": [n for r in results for n in r.get("notes", [])],
        },
        "assumptions": (ASSUME["paint"] if pid not in ("C21", "C30") else []) + ASSUME.get(pid, []),
        "wall_s": round(time.time() - started, 2),
        "violations": 1 if failure else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if failure:
        path = save_replay(pid, failure)
        print("%s: %s" % (failure.get("phase"), failure.get("message")))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    c = evidence["coverage"]
    print("%s held: %d cases, %d distinct and non-trivial, %.1f s" % (pid, c["evaluations"], c["distinct_nontrivial"], evidence["wall_s"]))
    return 0


def replay(path):
    path = os.path.abspath(path)
    f = json.load(open(path))
    out = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(out)
    try:
        _, cmd, env = prepare(f["property"], f.get("profile") or "release", out)
        code, text = call(cmd(path), env, 600)
        r = read_result(out)
        if code in (2, 3):
            raise Error(text)
        if code == 0:
            print("the case passes")
            return 0
        print(r["failure"]["message"] if r else "the process dies (%d)" % code)
        print("VIOLATION property=%s replay=%s" % (f["property"], path))
        return 1
    finally:
        shutil.rmtree(out, ignore_errors=True)


def setup():
    with lock():
        for p in ("release", "checked"):
            build_pbt(p)
        for p in ("release", "checked"):
            build_wasm(p)
        build_wasm_demo()
        build_codegen()


def main(argv):
    try:
        if argv[:1] == ["--setup"]:
            setup()
            return 0
        if argv[:1] == ["--replay"] and len(argv) == 2:
            return replay(argv[1])
        scale = 1.0
        if "--scale" in argv:
            i = argv.index("--scale")
            scale = float(argv[i + 1])
            del argv[i : i + 2]
        if not argv or argv[0] not in ALL:
            print(__doc__)
            return 2
        tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            print(__doc__)
            return 2
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = 1
        return decide(argv[0], tier, abs(seed), scale)
    except Error as e:
        print("ERROR " + str(e))
        return 4


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
