"""Builds the MIR server and the harness crate (against /repo's working tree) and
returns how to start the server.  Everything goes under /verif/build (git-ignored)."""
import hashlib, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("JLX_BUILD", os.path.join(ROOT, "build"))
TOOL = "nightly-x86_64-unknown-linux-gnu"


def _env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN=TOOL, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_INCREMENTAL="0",
             RUSTC_WRAPPER="", RUSTC_BOOTSTRAP="1", HOME="/root", CARGO_HOME="/root/.cargo",
             PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def sysroot():
    return subprocess.check_output(["rustc", "--print", "sysroot"], env=_env(), text=True).strip()


def build_server():
    src = os.path.join(ROOT, "driver", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "mirsrv-" + h)
    if not os.path.exists(out):
        r = subprocess.run(["rustc", "-O", src, "-o", out + ".tmp%d" % os.getpid(), "--edition", "2021"], env=_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("building the MIR server failed:\n" + r.stdout[-4000:])
        os.rename(out + ".tmp%d" % os.getpid(), out)
    return out


def build_harness():
    """cargo build of the harness (lib + replay binary); returns the rustc args of the lib."""
    os.makedirs(BUILD, exist_ok=True)
    wrap = os.path.join(BUILD, "wrap.sh")
    log = os.path.join(BUILD, "harness.args")
    with open(wrap, "w") as f:
        f.write('#!/bin/sh\ncase " $* " in *" --crate-name harness "*) { pwd; for a in "$@"; do printf "%%s\\n" "$a"; done; } > "%s" ;; esac\nexec "$@"\n' % log)
    os.chmod(wrap, 0o755)
    env = _env()
    env["RUSTC_WORKSPACE_WRAPPER"] = wrap
    env["RUSTFLAGS"] = "-Zalways-encode-mir --cfg jlx_verif -Awarnings"
    env["CARGO_PROFILE_DEV_DEBUG"] = "line-tables-only"
    # cargo goes by mtime: always recompile the library and the harness
    man = os.path.join(ROOT, "harness", "Cargo.toml")
    subprocess.run(["cargo", "clean", "--offline", "--manifest-path", man, "-p", "japanese_law_xml_schema", "-p", "harness"],
                   env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if os.path.exists(log):
        os.unlink(log)
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", man],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("building the harness failed:\n" + r.stdout[-6000:])
    lines = open(log).read().split("\n")
    cwd, args = lines[0], [a for a in lines[1:] if a != ""]
    return cwd, args


def prepare():
    os.makedirs(BUILD, exist_ok=True)
    srv = build_server()
    cwd, args = build_harness()
    sr = sysroot()
    # args[0] is rustc itself
    rargs = [a for a in args[1:]]
    cmd = [srv] + rargs + ["--sysroot", sr]
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = os.path.join(sr, "lib")
    info = {"cmd": cmd, "cwd": cwd, "env": {"LD_LIBRARY_PATH": env["LD_LIBRARY_PATH"]},
            "replay": os.path.join(BUILD, "target", "debug", "replay")}
    return info


if __name__ == "__main__":
    print(json.dumps(prepare(), indent=1))
