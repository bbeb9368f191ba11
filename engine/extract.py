"""Build the driver if needed and extract MIR facts from /repo's current working tree.

Nothing is written under /repo: a throw-away cargo workspace of symlinks lives in
/verif/target.  Only the workspace crates are re-checked on every run; third-party
dependencies stay warm in /verif/target/dep.
"""
import fcntl, glob, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
FACTS = os.path.join(TARGET, "facts")
CRATES = ["ursa", "zmix", "bbs", "bulletproofs_amcl", "ursa_sharing"]


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTUP_TOOLCHAIN="nightly",
        RUSTFLAGS="",
        RUSTC_WRAPPER="",
        LIBCLANG_PATH="/usr/lib/llvm-14/lib",
    )
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e.pop("RUSTC_WORKSPACE_WRAPPER", None)
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("%s failed (exit %d):\n%s" % (what, p.returncode, p.stdout[-6000:]))
    return p.stdout


def sync(src, dst):
    """symlink farm"""
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


def write(path, s):
    if os.path.exists(path) and open(path).read() == s:
        return
    with open(path, "w") as f:
        f.write(s)


def workspaces():
    ws = os.path.join(TARGET, "ws")
    lu = os.path.join(ws, "libursa")
    os.makedirs(lu, exist_ok=True)
    sync(os.path.join(REPO, "libzmix"), os.path.join(ws, "libzmix"))
    for f in os.listdir(lu):
        p = os.path.join(lu, f)
        if os.path.islink(p):
            os.unlink(p)
    for f in os.listdir(os.path.join(REPO, "libursa")):
        if f not in ("Cargo.toml", "target", "Cargo.lock"):
            sync(os.path.join(REPO, "libursa", f), os.path.join(lu, f))
    toml = open(os.path.join(REPO, "libursa", "Cargo.toml")).read()
    toml = "".join(l for l in toml.splitlines(True) if not l.replace(" ", "").startswith("bytebuffer-rs="))
    write(os.path.join(lu, "Cargo.toml"), toml)
    write(
        os.path.join(ws, "Cargo.toml"),
        '[workspace]\nmembers = ["libursa", "libzmix", "libzmix/bbs", "libzmix/bulletproofs_amcl"]\nresolver = "1"\n',
    )
    shutil.copyfile(os.path.join(VERIF, "locks", "ws.lock"), os.path.join(ws, "Cargo.lock"))
    ws2 = os.path.join(TARGET, "ws2")
    os.makedirs(ws2, exist_ok=True)
    sync(os.path.join(REPO, "ursa_sharing"), os.path.join(ws2, "ursa_sharing"))
    write(os.path.join(ws2, "Cargo.toml"), '[workspace]\nmembers = ["ursa_sharing"]\nresolver = "1"\n')
    shutil.copyfile(os.path.join(VERIF, "locks", "sharing.lock"), os.path.join(ws2, "Cargo.lock"))
    return ws, ws2


def driver(e):
    run(
        ["cargo", "build", "--offline", "--target-dir", os.path.join(TARGET, "driver")],
        os.path.join(VERIF, "driver"),
        e,
        "building the MIR fact extractor",
    )
    return os.path.join(TARGET, "driver", "debug", "mirfacts")


def extract(crates=None, verbose=False):
    """(Re-)extract facts for the given crates; returns (facts by crate, info)."""
    t0 = time.time()
    crates = list(crates or CRATES)
    if os.environ.get("VERIF_REUSE_FACTS"):
        # development aid for running many checks on one tree; never set by setup_cmd or the checks
        return load(crates), dict(extract_s=0.0, reused=True)
    os.makedirs(FACTS, exist_ok=True)
    lock = open(os.path.join(TARGET, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    e = env()
    ws, ws2 = workspaces()
    drv = driver(e)
    sysroot = subprocess.run(
        ["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True, check=True
    ).stdout.strip()
    for c in CRATES:
        p = os.path.join(FACTS, c + ".json")
        if c in crates and os.path.exists(p):
            os.unlink(p)
    for sub in ("dep", "dep2"):
        for c in CRATES:
            for prof in ("debug",):
                for d in (
                    os.path.join(TARGET, sub, prof, "build", c),
                ):
                    if os.path.isdir(d):
                        shutil.rmtree(d)
                for d in glob.glob(os.path.join(TARGET, sub, prof, ".fingerprint", c + "-*")):
                    shutil.rmtree(d)
    e["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
    e["RUSTC_WORKSPACE_WRAPPER"] = drv
    e["MIRFACTS_OUT"] = FACTS
    e["MIRFACTS_CRATES"] = ",".join(crates)
    main = [c for c in crates if c != "ursa_sharing"]
    if main:
        cmd = ["cargo", "check", "--offline", "--lib"]
        for c in main:
            cmd += ["-p", c]
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "dep")
        run(cmd, ws, e, "cargo check of libursa/libzmix")
    if "ursa_sharing" in crates:
        e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "dep2")
        run(["cargo", "check", "--offline", "--lib", "-p", "ursa_sharing"], ws2, e, "cargo check of ursa_sharing")
    facts = load(crates)
    fcntl.flock(lock, fcntl.LOCK_UN)
    lock.close()
    return facts, dict(extract_s=round(time.time() - t0, 2))


def load(crates):
    facts = {}
    for c in crates:
        p = os.path.join(FACTS, c + ".json")
        if not os.path.exists(p):
            raise ExtractError("no facts were produced for crate %s" % c)
        with open(p) as f:
            txt = f.read()
        # `extern crate x;` makes rustc print x's items as <this crate>::x::...
        i = txt.index('"externs":[')
        for n in json.loads(txt[i + 10 : txt.index("]", i) + 1]):
            txt = txt.replace("%s::%s::" % (c, n), n + "::")
        facts[c] = json.loads(txt)
    return facts


if __name__ == "__main__":
    f, info = extract()
    for c, d in f.items():
        print(c, "functions:", len(d["fns"]), "types:", len(d["adts"]), "impls:", len(d["impls"]))
    print(info)
