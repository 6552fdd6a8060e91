"""The builds of the code under test that C49 compares: for release, with fewer features, with 32-bit words, as WebAssembly."""
import os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

WASM, I686 = "wasm32-unknown-unknown", "i686-unknown-linux-gnu"
LIB32 = {"libgcc_s.so": "libgcc_s.so.1", "libc.so": "libc.so.6", "libm.so": "libm.so.6", "ld-linux.so.2": "ld-linux.so.2"}


class Failed(Exception):
    pass


def sh(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise Failed(" ".join(cmd) + "\n" + p.stdout[-5000:])
    return p.stdout


def sysroot(verif, triple, env):
    """The standard library for a target no toolchain here has: compiled from the sources that come with the nightly one."""
    home = os.path.join(verif, "target", "sys")
    root = os.path.join(home, triple)
    rustc = sh(["rustc", "+nightly", "--version", "--verbose"], verif, env)
    stamp = os.path.join(root, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == rustc:
        return root
    src = os.path.join(sh(["rustc", "+nightly", "--print", "sysroot"], verif, env).strip(), "lib/rustlib/src/rust/library/vendor")
    os.makedirs(home, exist_ok=True)
    d = tempfile.mkdtemp(dir=home)
    try:
        os.makedirs(os.path.join(d, ".cargo"))
        os.makedirs(os.path.join(d, "src"))
        put = lambda n, t: open(os.path.join(d, n), "w").write(t)
        put(".cargo/config.toml", f'[source.crates-io]\nreplace-with="v"\n[source.v]\ndirectory="{src}"\n')
        put("Cargo.toml", '[package]\nname="wsr"\nversion="0.1.0"\nedition="2021"\n[workspace]\n[profile.release]\ndebug=false\n')
        put("src/lib.rs", "")
        e = dict(env, CARGO_TARGET_DIR=os.path.join(d, "target"))
        e.pop("RUSTFLAGS", None)
        std = "std,panic_abort" if triple == WASM else "std,panic_unwind"
        sh(["cargo", "+nightly", "build", "--offline", "--release", "--lib", "--target", triple, f"-Zbuild-std={std}"], d, e)
        lib = os.path.join(d, "root", "lib/rustlib", triple, "lib")
        os.makedirs(lib)
        for at, _, files in os.walk(os.path.join(d, "target", triple, "release")):
            for f in files:
                if f.endswith((".rlib", ".rmeta")) and not f.startswith("libwsr"):
                    shutil.copy(os.path.join(at, f), lib)
        shutil.rmtree(root, ignore_errors=True)
        shutil.move(os.path.join(d, "root"), root)
        open(stamp, "w").write(rustc)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return root


def start32(verif, env):
    """What a linker needs to make 32-bit programs where only the libraries to run them are installed."""
    d = os.path.join(verif, "target", "i686")
    os.makedirs(d, exist_ok=True)
    sh(["as", "--32", os.path.join(verif, "tools/i686/start.s"), "-o", os.path.join(d, "start.o")], verif, env)
    for name, of in LIB32.items():
        p = os.path.join(d, name)
        if not os.path.islink(p):
            if not os.path.exists("/usr/lib32/" + of):
                raise Failed("no /usr/lib32/" + of)
            os.symlink("/usr/lib32/" + of, p)
    return d


def builds(verif, env):
    """[{name, ops: prefixes of the operations it answers, argv}], each built from the working tree."""
    env = dict(env, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    here = os.path.join(verif, "rust/full")
    out = lambda n: os.path.join(verif, "target", n)
    ALL, cargo = "js,cli,std,parallel", ["build", "--offline", "--locked", "-p", "same", "--features"]

    def release():
        sh(["cargo", *cargo, ALL, "--release"], here, dict(env, CARGO_TARGET_DIR=out("same-release")))
        return {"name": "release", "ops": [""], "argv": [out("same-release/release/same")]}

    def lean():
        sh(["cargo", *cargo, "js,std"], here, dict(env, CARGO_TARGET_DIR=out("same-lean")))
        return {"name": "lean", "ops": ["js-", "core-encap", "core-decap"], "argv": [out("same-lean/debug/same")]}

    def wasm():
        root = sysroot(verif, WASM, env)
        e = dict(env, CARGO_TARGET_DIR=out("same-wasm"), RUSTFLAGS=f"--sysroot {root} -Clinker=rust-lld")
        sh(["cargo", "+nightly", *cargo, "js,std", "--release", "--example", "wasm", "--target", WASM], here, e)
        return {"name": "wasm", "ops": ["js-"], "argv": ["node", "--stack-size=900", os.path.join(verif, "js/wasm_same.mjs"), out(f"same-wasm/{WASM}/release/examples/wasm.wasm")]}

    def i686():
        root, d = sysroot(verif, I686, env), start32(verif, env)
        e = dict(env, CARGO_TARGET_DIR=out("same-i686"), I686=d, RUSTFLAGS=f"--sysroot {root} -Clinker={os.path.join(verif, 'tools/i686/cc')}")
        sh(["cargo", "+nightly", *cargo, ALL, "--target", I686], here, e)
        return {"name": "i686", "ops": [""], "argv": [out(f"same-i686/{I686}/debug/same")]}

    with ThreadPoolExecutor(4) as t:
        return [f.result() for f in [t.submit(b) for b in (release, lean, wasm, i686)]]
