"""Builds the rustc_private driver and dumps the type-checked program of /repo's
current working tree as facts.  Nothing in /repo is written: cargo's target
directory lives under /verif/.build (git-ignored)."""
import fcntl, hashlib, os, pickle, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))

CRATES = ["circom", "circom_algebra", "code_producers", "compiler", "constant_tracking",
          "constraint_generation", "constraint_list", "constraint_writers", "dag", "parser",
          "program_structure", "type_analysis"]


def tree_files(root):
    out = []
    for d, ds, fs in os.walk(root):
        rel = os.path.relpath(d, root)
        ds[:] = sorted(x for x in ds if not x.startswith(".") and not (rel == "." and x in ("target", "mkdocs"))
                       and x != "node_modules")
        for f in sorted(fs):
            out.append(os.path.join(d, f))
    return out


def tree_key():
    h = hashlib.sha256()
    for root in (REPO, os.path.join(VERIF, "driver")):
        for f in tree_files(root):
            if "/driver/target/" in f:
                continue
            h.update(os.path.relpath(f, root).encode() + b"\0")
            try:
                with open(f, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                h.update(b"?")
    with open(os.path.join(VERIF, "tools", "rustc_wrap.sh"), "rb") as fh:
        h.update(fh.read())
    h.update(REPO.encode())
    return h.hexdigest()[:24]


def env_base():
    e = {k: v for k, v in os.environ.items() if not k.startswith("CARGO") and k not in
         ("RUSTFLAGS", "RUSTC", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "RUSTC_BOOTSTRAP")}
    if "CARGO_HOME" in os.environ:
        e["CARGO_HOME"] = os.environ["CARGO_HOME"]
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def run(cmd, env, cwd, what):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        sys.stderr.write("sa: %s failed (exit %d)\n" % (what, p.returncode))
        raise SystemExit(2)
    return p.stdout


def build_driver(env):
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env, VERIF, "rustc --print sysroot").strip()
    env = dict(env, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"))
    tgt = os.path.join(BUILD, "driver")
    run(["cargo", "+nightly", "build", "--offline", "--target-dir", tgt], env, os.path.join(VERIF, "driver"), "driver build")
    return os.path.join(tgt, "debug", "mirfacts"), env


def facts():
    """Returns the directory with the facts of the current tree, extracting if needed."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_key()
        out = os.path.join(BUILD, "facts", key)
        if os.path.exists(os.path.join(out, "ok")):
            return out, key
        t0 = time.time()
        shutil.rmtree(os.path.join(BUILD, "facts"), ignore_errors=True)
        os.makedirs(out)
        drv, env = build_driver(env_base())
        # Cargo's freshness cache would skip the wrapper on a warm target directory: a wrapper
        # with a per-tree path forces every workspace crate (and only those) to be re-analysed.
        wdir = os.path.join(BUILD, "wrap")
        shutil.rmtree(wdir, ignore_errors=True)
        os.makedirs(wdir)
        w = os.path.join(wdir, "mirfacts-%s-%x" % (key, time.time_ns()))
        shutil.copy(drv, w)
        env = dict(env, MIRFACTS_OUT=out, RUSTC_WORKSPACE_WRAPPER=w,
                   RUSTC_WRAPPER=os.path.join(VERIF, "tools", "rustc_wrap.sh"),
                   CARGO_PROFILE_DEV_DEBUG="0")
        tgt = os.path.join(BUILD, "target")
        ntgt = os.path.join(tgt, "stamp_count")
        if os.path.isdir(tgt):
            n = int(open(ntgt).read()) if os.path.exists(ntgt) else 0
            if n > 40:
                shutil.rmtree(tgt, ignore_errors=True)
                n = 0
        else:
            n = 0
        run(["cargo", "+nightly", "check", "--workspace", "--offline", "--target-dir", tgt], env, REPO, "cargo check of the analysed tree")
        open(ntgt, "w").write(str(n + 1))
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + ".jsonl"))]
        if missing:
            sys.stderr.write("sa: no facts for crates %s\n" % missing)
            raise SystemExit(2)
        open(os.path.join(out, "ok"), "w").write("%.1f" % (time.time() - t0))
        return out, key


if __name__ == "__main__":
    print(facts())
