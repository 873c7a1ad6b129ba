"""Builds, from /repo's current working tree: the LLVM IR that is executed symbolically, and the
native library used for replays.  Everything goes to /verif/.build (git-ignored)."""
import hashlib, os, subprocess, shutil, re, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")

class BuildError(Exception): pass

def tree_hash(extra=()):
    h = hashlib.sha256()
    fs = []
    for base in (os.path.join(REPO, "lib"), os.path.join(REPO, "cli")) + tuple(os.path.join(VERIF, e) for e in extra):
        for d, ds, ns in os.walk(base):
            ds[:] = [x for x in ds if x not in ("target", ".git")]
            for n in ns: fs.append(os.path.join(d, n))
    for f in sorted(fs):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh: h.update(fh.read())
    return h.hexdigest()

def split_use(m):
    """use std::{..., fs::..., ...} -> the same with fs replaced"""
    items = []; depth = 0; cur = ""
    for ch in m.group(2) + ",":
        if ch == "," and depth == 0: items.append(cur.strip()); cur = ""; continue
        depth += (ch == "{") - (ch == "}"); cur += ch
    vis = m.group(1) or ""
    out = [f"{vis}use std::{i};" for i in items if i and not re.match(r"fs\b", i)] + [f"{vis}use crate::verif_{i};" for i in items if re.match(r"fs\b", i)]
    return "\n".join(out).replace("use crate::verif_fs::self", "use crate::verif_fs as fs").replace("use crate::verif_fs;", "use crate::verif_fs as fs;").replace("use std::self;", "use std;")

def cli_crate():
    """the command line's sources with std::fs replaced, over stub crates for png, jpeg-decoder and clap; written to .build/cshim_src"""
    dst = os.path.join(BUILD, "cshim_src"); src = os.path.join(VERIF, "climod")
    if os.path.isdir(dst): shutil.rmtree(dst)
    shutil.copytree(os.path.join(REPO, "cli", "src"), os.path.join(dst, "src"))
    shutil.copy(os.path.join(src, "Cargo.toml"), dst)
    for n in ("verif_fs.rs", "verif_entry.rs"): shutil.copy(os.path.join(src, n), os.path.join(dst, "src"))
    for d, _, ns in os.walk(os.path.join(dst, "src")):
        for n in ns:
            if n.startswith("verif_") or not n.endswith(".rs"): continue
            p = os.path.join(d, n); s = open(p).read()
            s = re.sub(r"(?<![\w:])(::)?std::fs\b", "crate::verif_fs", s)
            s = re.sub(r"(pub(?:\([^)]*\))?\s+)?use\s+std::\{([^;]*)\}\s*;", split_use, s)
            if n == "main.rs": s += "\nmod verif_fs;\nmod verif_entry;\n"
            open(p, "w").write(s)
    return dst

def cli_ir():
    cli_crate()
    return ir(os.path.join(".build", "cshim_src"), "cshim", name="cshim", extra=("climod", "stubs"))

def cli_bin():
    """the real command line program"""
    target, stamp, h, ok = _fresh("cli", ())
    out = os.path.join(target, "release", "texpresso")
    if not (ok and os.path.exists(out)):
        _cargo(os.path.join(REPO, "cli"), target, ["build", "--release", "--offline", "--bin", "texpresso"], "-A warnings -C debug-assertions=on -C overflow-checks=on")
        open(stamp, "w").write(h)
    return out

def cli_path(): return os.path.join(BUILD, "cli", "release", "texpresso")

def _cargo(crate, target, args, rustflags):
    env = dict(os.environ)
    env["PATH"] = env.get("PATH", "") + ":/root/.cargo/bin"
    env.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=target, RUSTFLAGS=rustflags, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env.pop("CARGO_INCREMENTAL", None)
    r = subprocess.run(["cargo"] + args, cwd=os.path.join(VERIF, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError(f"building {crate} failed:\n{r.stdout[-4000:]}")

def _fresh(name, extra):
    """remove the target dir when the sources differ from the ones it was built from"""
    target = os.path.join(BUILD, name); stamp = os.path.join(BUILD, name + ".stamp")
    h = tree_hash(extra)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old == h and os.path.isdir(target): return target, stamp, h, True
    if os.path.isdir(target): shutil.rmtree(target)
    if os.path.exists(stamp): os.remove(stamp)
    os.makedirs(BUILD, exist_ok=True)
    return target, stamp, h, False

def ir(crate="shim", lib="shim", features=(), name=None, extra=None):
    name = name or crate + ("-" + "-".join(features) if features else "")
    target, stamp, h, ok = _fresh(name, extra or (crate + "/src", "stubs", "shim/src", "nshim/src"))
    out = os.path.join(target, "release", "deps", lib + ".ll")
    if not (ok and os.path.exists(out)):
        args = ["rustc", "--release", "--offline", "--lib"]
        if features: args += ["--features", ",".join(features)]
        _cargo(crate, target, args + ["--", "--emit=llvm-ir", "-C", "link-dead-code=no"], "-C no-vectorize-loops -C no-vectorize-slp -A warnings")
        if not os.path.exists(out):
            import glob
            c = glob.glob(os.path.join(target, "release", "deps", lib + "*.ll"))
            if len(c) != 1: raise BuildError("no IR produced for " + crate)
            os.rename(c[0], out)
        open(stamp, "w").write(h)
    return out

def native(crate="nshim", lib="libnshim.so", features=()):
    name = crate + ("-" + "-".join(features) if features else "")
    target, stamp, h, ok = _fresh(name, (crate + "/src", "stubs", "shim/src", "nshim/src"))
    out = os.path.join(target, "release", lib)
    if not (ok and os.path.exists(out)):
        args = ["build", "--release", "--offline"]
        if features: args += ["--features", ",".join(features)]
        _cargo(crate, target, args, "-A warnings")
        open(stamp, "w").write(h)
    return out

if __name__ == "__main__":
    print(ir()); print(native())
