#!/usr/bin/env python3
"""run.py <property> | --setup: builds the monitor crate of a property against /repo's working tree, runs it."""
import hashlib, json, os, resource, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
# monitor crate -> properties it decides
CRATES = {
    "mon-ssz": ["S01", "S02", "S03", "S04"],
    "mon-core": ["C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C18"],
    "mon-committee": ["C06"],
    "mon-builder": ["S05", "S06", "S07"],
    "mon-host": ["H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08", "H09", "H10", "H11", "H12"],
    "mon-tool": ["C17", "G01", "G02", "G03", "G04", "G05"],
}


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="1.88",
             CARGO_INCREMENTAL="0")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def repo_digest():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target"))
        for f in sorted(files):
            p = os.path.join(base, f)
            if f.endswith((".rs", ".toml", ".yaml", ".yml")):
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build(crate, quiet=True):
    """cargo decides by file times; the digest makes sure that a changed tree is rebuilt whatever the times say"""
    manifest = os.path.join(ROOT, "harness", crate, "Cargo.toml")
    stamp = os.path.join(TARGET, f".{crate}.digest")
    digest = repo_digest()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != digest:
        pk = [d for d in os.listdir(os.path.join(ROOT, "shadow"))]
        # the crate itself, too: it may compile programs straight from /repo
        args = ["cargo", "clean", "--offline", "--release", "--manifest-path", manifest, "-p", crate]
        have = subprocess.run(["cargo", "metadata", "--offline", "--format-version", "1", "--manifest-path", manifest],
                              env=env(), capture_output=True, text=True).stdout
        for n in pk:
            if f'"name":"{package_name(n)}"' in have:
                args += ["-p", package_name(n)]
        subprocess.run(args, env=env(), capture_output=True)
    r = subprocess.run(["cargo", "build", "--offline", "--locked", "--release", "--manifest-path", manifest],
                       env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stderr[-12000:])
        print(f"BUILD-FAILED {crate}")
        sys.exit(4)
    os.makedirs(TARGET, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(digest)


def package_name(shadow):
    with open(os.path.join(ROOT, "shadow", shadow, "Cargo.toml")) as f:
        for line in f:
            if line.startswith("name = "):
                return line.split('"')[1]


def main():
    if sys.argv[1] == "--setup":
        for c in CRATES:
            t = time.time()
            build(c)
            print(f"built {c} in {time.time() - t:.0f}s", flush=True)
        return 0
    prop = sys.argv[1]
    crate = next((c for c, ps in CRATES.items() if prop in ps), None)
    if crate is None:
        print("unknown property", prop)
        return 2
    build(crate)
    limit = 840 if os.environ.get("VERIF_TIER") != "thorough" else 7200
    # far more than any monitor needs: observed code that allocates without end fails instead of filling the machine
    bound = lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
    try:
        r = subprocess.run([os.path.join(TARGET, "release", crate), prop], env=env(), timeout=limit, preexec_fn=bound)
    except subprocess.TimeoutExpired:
        print(f"INCONCLUSIVE property={prop}: watchdog after {limit}s")
        return 5
    if r.returncode in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGILL, -signal.SIGBUS):
        # the monitors contain panics; what ends the process all the same (a refused allocation, an exhausted stack,
        # a panic during unwinding) is the observed code crashing on an input it has to answer
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, f"{prop}-crash.json")
        with open(replay, "w") as f:
            json.dump({"property": prop, "seed": os.environ.get("VERIF_SEED", "1"), "tier": os.environ.get("VERIF_TIER", "quick"),
                       "what": f"the process observing the code was ended by signal {-r.returncode}",
                       "rerun": f"VERIF_SEED={os.environ.get('VERIF_SEED', '1')} {os.path.join(TARGET, 'release', crate)} {prop}"}, f)
        print(f"crash: the observed code ended the process with signal {-r.returncode}")
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    # a monitor that was ended from outside (out of memory) gives no verdict
    return r.returncode if r.returncode in (0, 1) else 6


if __name__ == "__main__":
    sys.exit(main())
