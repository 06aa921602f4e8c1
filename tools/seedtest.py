#!/usr/bin/env python3
"""Development aid: seedtest.py ID... : confirm a planted change in a scratch copy (builds, stable tests pass, demonstration
passes without and fails with it), then run the property's check against it in /repo and undo it. No check uses this."""
import json, os, subprocess, sys, shutil, re, time
S = "/tmp/seed/repo"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, "/opt/vp")
def sh(cmd, cwd, env=None, timeout=1200):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
           CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=S + "/target", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           CARGO_PROFILE_DEV_OPT_LEVEL="1", PROPTEST_RNG_SEED="20230925", INSTA_UPDATE="no", RUST_BACKTRACE="0", RUSTC_WRAPPER="")
def reset():
    if not os.path.isdir(S):
        os.makedirs("/tmp/seed", exist_ok=True); subprocess.check_call(["cp", "-a", "/repo", S])
    sh("git checkout -q -- . && git clean -fdq -e target -e Cargo.lock", S)
    rc, o = sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", S); assert rc == 0, o
def results(log):
    import results as R
    d = {}
    open("/tmp/seed/log.txt", "w").write(log)
    for name, ok in R.cargo("/tmp/seed/log.txt"):
        d[name] = d.get(name, True) and ok
    return d
def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for i in args:
        d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json")); pid = meta["property"]
        patch = d + "/patch.diff"
        if "--check" not in sys.argv:
            reset()
            rc, o = sh(["bash", d + "/demo.sh"], S, timeout=300); print(i, "demo clean rc", rc, "" if rc == 0 else o[-1500:])
            rc, o = sh(["git", "apply", patch], S); assert rc == 0, o
            t = time.time()
            rc, o = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", S, ENV)
            res = results(o); stable = [s for s in json.load(open("/opt/vp/BASELINE.json"))["stable"] if not s.startswith("bench:")]
            bad = [s for s in stable if not res.get(s)]
            print(i, "tests: stable not passing:", len(bad), bad[:6], "%.0fs" % (time.time() - t))
            if len(bad) > 50: print(o[-1500:])
            rc, o = sh(["bash", d + "/demo.sh"], S, timeout=300); print(i, "demo patched rc", rc, o[-300:].replace("\n", " | "))
            reset()
        if "--nocheck" not in sys.argv:
            assert sh("git status --porcelain", "/repo")[1] == "", "repo dirty"
            rc, o = sh(["git", "apply", patch], "/repo"); assert rc == 0, o
            try:
                rc, o = sh(["python3", "check.py", pid], V, dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            finally:
                sh("git checkout -- .", "/repo")
            v = [l for l in o.splitlines() if "VIOLATION" in l]
            rf = V + "/tools/seed_results.json"
            r = json.load(open(rf)) if os.path.exists(rf) else {}
            r[i] = pid if rc == 1 and v else "not caught"
            json.dump(r, open(rf, "w"), indent=1, sort_keys=True)
            print(i, "check", pid, "rc", rc, v[:1] or o[-500:])
            sys.stdout.flush()
main()
