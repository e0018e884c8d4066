"""Rebuild the LLVM IR of the code under test (and of everything it calls).

  work/std/*.ll     Rust's own standard library, from the bitcode in its rlibs
  work/dep/*.ll     third-party crates
  work/repo/*.ll    the crates of /repo and the harnesses
  work/mods.txt     module list handed to symx

Nothing is taken from an earlier build unless the sources it came from are
byte for byte the same (content hashes, never modification times).
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "work"))
TC = "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu"
LLVM = TC + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
RLIB = TC + "/lib/rustlib/x86_64-unknown-linux-gnu/lib/"
TRIPLE = "x86_64-unknown-linux-gnu"
STD = ["core", "alloc", "std", "hashbrown", "memchr", "compiler_builtins", "std_detect", "rustc_demangle", "addr2line", "gimli", "miniz_oxide", "libc", "cfg_if", "adler2", "object", "panic_abort", "panic_unwind", "unwind"]
STD_USED = STD
# crates whose code is never executed symbolically: kept out of the module list
SKIP = set()
REPO_CRATES = ["oca-ast-semantics", "oca-bundle-semantics", "oca-file-semantics", "oca-dag-semantics", "oca-rs", "oca-file", "transformation-ast", "transformation-file", "oca-file-transformation", "oca-bundle-transformation", "harness"]


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise SystemExit("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd) if isinstance(cmd, list) else cmd, p.stdout[-6000:]))
    return p.stdout


def tree_hash(root, skip=("target", ".git", "work")):
    h = hashlib.sha256()
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            if not (f.endswith((".rs", ".toml", ".pest", ".lock", ".json", ".ocafile", ".c")) ):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            try:
                h.update(hashlib.sha256(open(p, "rb").read()).digest())
            except OSError:
                pass
    return h.hexdigest()


def src_hash():
    return hashlib.sha256((tree_hash(REPO) + tree_hash(os.path.join(VERIF, "harness")) + tree_hash(os.path.join(VERIF, "csrc")) + open(__file__).read()).encode()).hexdigest()


NOINLINE = [
    re.compile(rb"4core4hash3sip"),
    re.compile(rb"_6blake34hash"),
    re.compile(rb"9panicking"),
    re.compile(rb"10phf_shared4hash"),
    re.compile(rb"5regex6stringNtB5_5Regex3new"),
]


def mark(src, dst):
    """mark the functions symx intercepts as not inlinable, in the IR text"""
    with open(src, "rb") as f:
        t = f.read()

    def fix(m):
        line = m.group(0)
        at = line.find(b"@")
        name = line[at:line.find(b"(", at)]
        if any(p.search(name) for p in NOINLINE):
            i = line.rfind(b" {")
            j = line.rfind(b") ", 0, i)
            # attributes end with "#N {" (or "{")
            k = line.rfind(b" #", j, i)
            p = k if k > 0 else i
            # keep personality etc. after
            q = line.find(b" personality", j)
            if q > 0:
                p = min(p, q)
            line = line[:p] + b" noinline" + line[p:]
        return line

    t = re.sub(rb"^define [^\n]*\{$", fix, t, flags=re.M)
    t = re.sub(rb"^(attributes #\d+ = \{[^\n]*)alwaysinline", rb"\1", t, flags=re.M)
    with open(dst, "wb") as f:
        f.write(t)


def opt(src, dst):
    tmp = dst + ".tmp"
    mark(src, tmp)
    run([LLVM + "opt", "-S", "-passes=default<O1>", "-vectorize-loops=false", "-vectorize-slp=false", "-disable-loop-unrolling", tmp, "-o", dst + ".part"])
    os.remove(tmp)
    os.rename(dst + ".part", dst)


def std_ir():
    out = os.path.join(WORK, "std")
    os.makedirs(out, exist_ok=True)

    def one(c):
        dst = os.path.join(out, c + ".ll")
        if os.path.exists(dst):
            return
        rl = [f for f in os.listdir(RLIB) if f.startswith("lib%s-" % c) and f.endswith(".rlib")]
        if not rl:
            return
        d = os.path.join(WORK, "tmp", "std." + c)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        run([LLVM + "llvm-ar", "x", RLIB + rl[0]], cwd=d)
        bcs = []
        for o in sorted(os.listdir(d)):
            if o.endswith(".o"):
                bc = os.path.join(d, o + ".bc")
                subprocess.run([LLVM + "llvm-objcopy", "--dump-section=.llvmbc=" + bc, o, "/dev/null"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(bc) and os.path.getsize(bc):
                    bcs.append(bc)
        for i, bc in enumerate(bcs):
            ll = bc[:-3] + ".ll"
            run([LLVM + "llvm-dis", bc, "-o", ll])
            opt(ll, dst if i == 0 else dst[:-3] + ".%d.ll" % i)
        shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, STD_USED))


def sqlite_ir():
    """SQLite (the source its Rust binding carries), which the crates link as a C library"""
    src = os.path.join(VERIF, "csrc", "sqlite.c")
    crates = glob.glob("/root/.cargo/registry/src/*/libsqlite3-sys-*/sqlite3")
    if not crates:
        return None
    out = os.path.join(WORK, "dep")
    os.makedirs(out, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read() + open(os.path.join(crates[0], "sqlite3.c"), "rb").read()).hexdigest()[:16]
    dst = os.path.join(out, "sqlite-%s.ll" % h)
    if not os.path.exists(dst):
        t = os.path.join(WORK, "tmp", "sqlite.ll")
        run(["clang", "-O1", "-fno-builtin", "-Xclang", "-disable-llvm-passes", "-w", "-S", "-emit-llvm", "-I", crates[0], src, "-o", t])
        opt(t, dst)
        os.remove(t)
    return dst


def cargo_ir(first):
    tgt = os.path.join(WORK, "ir-target")
    e = env()
    e["CARGO_TARGET_DIR"] = tgt
    e["RUSTFLAGS"] = "--emit=llvm-ir -Copt-level=0"
    h = os.path.join(VERIF, "harness")
    if not first:
        cmd = ["cargo", "clean", "--offline", "--target", TRIPLE]
        pk = json.loads(run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=h, env=e).split("\n")[-2])["packages"]
        names = [p["name"] + "@" + p["version"] for p in pk if not p["source"]]
        for n in names:
            cmd += ["-p", n]
        run(cmd, cwd=h, env=e)
        d = os.path.join(tgt, TRIPLE, "debug", "deps")
        for n in names:
            c = n.split("@")[0].replace("-", "_")
            for f in os.listdir(d):
                if f.startswith(c + "-") and f.endswith(".ll"):
                    os.remove(os.path.join(d, f))
    run(["cargo", "build", "--offline", "--target", TRIPLE], cwd=h, env=e)
    return os.path.join(tgt, TRIPLE, "debug", "deps")


def local_crates():
    pk = json.loads(run(["cargo", "metadata", "--offline", "--format-version", "1"], cwd=os.path.join(VERIF, "harness"), env=env()).split("\n")[-2])["packages"]
    out = set()
    for p in pk:
        if not p["source"]:
            for t in p["targets"]:
                if "lib" in t["kind"] or "rlib" in t["kind"] or "cdylib" in t["kind"]:
                    out.add(t["name"].replace("-", "_"))
    return out


def build(verbose=False):
    """returns the path of the module list"""
    t0 = time.time()
    os.makedirs(os.path.join(WORK, "tmp"), exist_ok=True)
    stamp = os.path.join(WORK, "stamp")
    mods = os.path.join(WORK, "mods.txt")
    h = src_hash()
    if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(mods):
        return mods
    if os.path.exists(stamp):
        os.remove(stamp)
    sqlite = ThreadPoolExecutor(1).submit(sqlite_ir)
    std_ir()
    t1 = time.time()
    first = not os.path.exists(os.path.join(WORK, "ir-target"))
    deps = cargo_ir(first)
    t2 = time.time()
    local = local_crates()
    dd, rr = os.path.join(WORK, "dep"), os.path.join(WORK, "repo")
    shutil.rmtree(rr, ignore_errors=True)
    os.makedirs(dd, exist_ok=True)
    os.makedirs(rr, exist_ok=True)
    jobs, lst = [], []
    for f in sorted(os.listdir(deps)):
        if not f.endswith(".ll"):
            continue
        c = f.rsplit("-", 1)[0]
        src = os.path.join(deps, f)
        if c in local:
            dst = os.path.join(rr, f)
        else:
            if c in SKIP:
                continue
            dst = os.path.join(dd, f)
        lst.append(dst)
        if not os.path.exists(dst):
            jobs.append((os.path.getsize(src), src, dst))
    jobs.sort(reverse=True)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: opt(j[1], j[2]), jobs))
    lst += [f for f in [sqlite.result()] if f]
    for f in sorted(os.listdir(os.path.join(WORK, "std"))):
        if f.endswith(".ll"):
            lst.append(os.path.join(WORK, "std", f))
    lst.sort(key=lambda p: (0 if "/repo/" in p[len(WORK):] else 1, p))
    open(mods, "w").write("\n".join(lst) + "\n")
    open(stamp, "w").write(h)
    if verbose:
        print("ir: std %.1fs cargo %.1fs opt %.1fs (%d modules)" % (t1 - t0, t2 - t1, time.time() - t2, len(lst)))
    return mods


def symx():
    exe = os.path.join(WORK, "symx-target", "release", "symx")
    st = os.path.join(WORK, "symx.stamp")
    h = tree_hash(os.path.join(VERIF, "symx"))
    if not (os.path.exists(exe) and os.path.exists(st) and open(st).read() == h):
        e = env()
        e["CARGO_TARGET_DIR"] = os.path.join(WORK, "symx-target")
        if os.path.exists(st):
            run(["cargo", "clean", "--offline", "--release", "-p", "symx"], cwd=os.path.join(VERIF, "symx"), env=e)
        run(["cargo", "build", "--offline", "--release"], cwd=os.path.join(VERIF, "symx"), env=e)
        open(st, "w").write(h)
    return exe


if __name__ == "__main__":
    print(symx())
    print(build(True))
