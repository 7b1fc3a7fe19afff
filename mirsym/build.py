"""Building: MIR dumps and native replays, with debug assertions ("on") and without ("off")."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))


def dump(crate, path, mode, timeout):
    """(dump or None, log)"""
    if os.path.exists(path): os.unlink(path)
    p = subprocess.run(["bash", os.path.join(HERE, "dump.sh"), crate, path, mode], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return (json.load(open(path)) if os.path.exists(path) else None), p.stdout


def run(crate, target, mode, timeout):
    """cargo run: (exit code, output)"""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
    env.pop("RUSTFLAGS", None)
    if mode == "off":
        target += "-off"
        env.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG_ASSERTIONS="false")
    p = subprocess.run(["cargo", "run", "--quiet", "--offline", "--target-dir", target], cwd=crate, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout
