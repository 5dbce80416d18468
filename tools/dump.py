#!/usr/bin/env python3
"""dump.py OUT.json: compile /repo's library (check mode, nightly) and the probe crate; dump MIR."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=NIGHTLY, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TARGET_DIR=os.path.join(B, "target"), RUSTC_WRAPPER="", RUSTC_WORKSPACE_WRAPPER="",
             CARGO_TERM_COLOR="never",
             RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=off -Coverflow-checks=on -Awarnings")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e

def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=env(), text=True).strip()

def build_driver():
    os.makedirs(B, exist_ok=True)
    src = os.path.join(V, "driver", "main.rs"); out = os.path.join(B, "mirdump")
    if os.path.exists(out) and os.path.getmtime(out) > os.path.getmtime(src): return
    subprocess.run(["rustc", "-O", "--edition", "2021", src, "-o", out, "-Awarnings"], env=env(), check=True)

class BuildError(Exception): pass

def fingerprint():
    """hash of the library sources this run analysed"""
    import hashlib
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk("/repo/src")):
        ds.sort()
        for f in sorted(fs):
            h.update(os.path.join(d, f).encode()); h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:16]

def dump(out, cut):
    """-> features of the probe crate that compiled against the current sources"""
    build_driver()
    err = None
    for fs in (["visitors", "spec", "values"], ["visitors", "spec"], ["spec", "values"], ["spec"], []):
        try: dump1(out, cut, fs); return fs
        except BuildError as e: err = err or e
    raise err

def dump1(out, cut, features):
    p = subprocess.run(["cargo", "check", "--offline", "-q", "--message-format=json-render-diagnostics", "--no-default-features", "--features", ",".join(features)],
                       cwd=os.path.join(V, "probe"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    rm, dirs, ext = None, [], {}
    for l in p.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rmeta", ".rlib", ".so")):
                    d = os.path.dirname(f)
                    if d not in dirs: dirs.append(d)
            if m["target"]["name"] in ("pest", "enquote", "regex"):
                ext[m["target"]["name"]] = [f for f in m["filenames"] if f.endswith(".rmeta")][0]
            if m["target"]["name"] == "dockerfile_parser":
                rm = [f for f in m["filenames"] if f.endswith(".rmeta")][0]
    if p.returncode or not rm: raise BuildError(p.stderr[-3000:])
    e = env(); e["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    cmd = [os.path.join(B, "mirdump"), out, cut, os.path.join(V, "probe/src/lib.rs"), "--crate-name", "probe",
           "--crate-type", "lib", "--edition", "2021", "--emit=metadata", "-o", os.path.join(B, "probe.rmeta"),
           *[x for f in features for x in ("--cfg", 'feature="%s"' % f)], *e["RUSTFLAGS"].split(), "--extern", "dockerfile_parser=" + rm]
    for k, f in ext.items(): cmd += ["--extern", k + "=" + f]
    for d in dirs: cmd += ["-L", "dependency=" + d]
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: raise BuildError(p.stderr[-3000:])

if __name__ == "__main__":
    dump(sys.argv[1] if sys.argv[1:] else os.path.join(B, "mir.json"), os.path.join(V, "analysis", "cut.txt"))
