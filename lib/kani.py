"""Engine K: run Kani on chosen harnesses, read its verdicts, replay its counterexamples natively."""
import json, os, re, shutil, signal, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
STABLE = "stable-x86_64-unknown-linux-gnu"
OK = ("Success", "Satisfied", "Unreachable")
CORES = os.cpu_count() or 4


def env(toolchain=STABLE, **extra):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=toolchain, CARGO_TERM_COLOR="never", **extra)
    e.pop("RUSTFLAGS", None)
    return e


def run(cmd, timeout, cwd=HARNESS, environ=None):
    """Runs in its own process group, killed as a whole on timeout. Returns (rc or None, output)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=environ or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


class Verdict:
    """What Kani says about one harness."""
    def __init__(self, name):
        self.name = name
        self.ran = False
        self.failed = []      # descriptions of failed assertions (a counterexample exists)
        self.unwind = False   # a loop bound was too small
        self.vacuous = False  # the end of the harness is unreachable
        self.broken = None    # no verdict: why
        self.vccs = self.vccs_left = self.program = 0
        self.symex_s = self.solver_s = self.wall_s = 0.0
        self.checks = 0
        self.functions = set()

    @property
    def held(self):
        return self.ran and not (self.failed or self.unwind or self.vacuous or self.broken)


def mode_env(mode):
    """Compile with or without debug assertions, each in its own directory."""
    return os.path.join(BUILD, "kani" if mode == "on" else "kani-off"), env(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true" if mode == "on" else "false")


def debug_modes():
    """Whether the sources may behave differently without debug assertions."""
    for top in ("/repo/src", "/repo/crevice-derive/src"):
        for d, _, fs in os.walk(top):
            for f in fs:
                if f.endswith(".rs") and "debug_assert" in open(os.path.join(d, f), errors="replace").read():
                    return ["on", "off"]
    return ["on"]


def kani(harnesses, features, harness_timeout, total_timeout, jobs=CORES, extra=(), tag="k", mode="on"):
    """Decide the harnesses. Returns ({name: Verdict}, log)."""
    target, environ = mode_env(mode)
    os.makedirs(BUILD, exist_ok=True)
    out_json = os.path.join(BUILD, f"{tag}.json")
    if os.path.exists(out_json):
        os.unlink(out_json)
    cmd = ["cargo", "kani", "--lib", "--exact", "--target-dir", target,
           "--no-assertion-reach-checks", "-Z", "unstable-options",
           "--harness-timeout", f"{int(harness_timeout)}s", "--export-json", out_json]
    if jobs > 1:
        cmd += ["-j", str(jobs), "--output-format=terse"]
    if features:
        cmd += ["--features", ",".join(features)]
    cmd += list(extra)
    for h in harnesses:
        cmd += ["--harness", f"props::{h}"]
    rc, log = run(cmd, total_timeout, environ=environ)
    res = {h: Verdict(h) for h in harnesses}
    try:
        data = json.load(open(out_json))
    except (OSError, ValueError):
        why = "Kani ran out of time" if rc is None else "Kani gave no result"
        m = re.search(r"^error.*(?:\n.*){0,12}", log, re.M)
        for v in res.values():
            v.broken = why + (": " + m.group(0) if m else "")
        return res, log
    stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in data.get("cbmc", [])}
    for r in data["verification_results"]["results"]:
        name = r["harness_id"].split("::", 1)[1]
        v = res.get(name)
        if v is None:
            continue
        v.ran = True
        v.wall_s = r["duration_ms"] / 1000
        st = stats.get(r["harness_id"], {})
        v.vccs = int(st.get("vccs_generated") or 0)
        v.vccs_left = int(st.get("vccs_remaining") or 0)
        v.program = int(st.get("size_program_expression") or 0)
        v.symex_s = float(st.get("runtime_symex_s") or 0)
        v.solver_s = float(st.get("runtime_decision_procedure_s") or 0)
        v.checks = len(r["checks"])
        reached, odd = None, []
        for c in r["checks"]:
            loc = c.get("location") or {}
            if "/repo/" in str(loc.get("file")) or "crevice::" in c["function"] or "std140" in c["function"]:
                v.functions.add(c["function"])
            s, d, cat = c["status"], c["description"].strip('"'), c.get("category")
            if cat == "cover":
                if s == "Satisfied":
                    reached = True
                elif reached is None and s in ("Unsatisfiable", "Unreachable"):
                    reached = False
                elif s not in ("Unsatisfiable", "Unreachable"):
                    odd.append(f"cover: {s}")
            elif s == "Failure":
                if "unwinding" in d or cat == "unwind":
                    v.unwind = True
                else:
                    v.failed.append(d)
            elif s not in OK:
                odd.append(f"{d}: {s}")
        if not r["checks"]:
            v.broken = "no checks reported (out of time or memory?)"
        elif not v.failed and not v.unwind:
            if odd:
                v.broken = "undecided: " + "; ".join(sorted(set(odd))[:3])
            elif not reached:
                v.vacuous = True
            elif r["status"] != "Success":
                v.broken = f"status {r['status']}"
    for v in res.values():
        if not v.ran and not v.broken:
            v.broken = "not run"
    return res, log


def counterexamples(harness, features, timeout, extra=(), mode="on"):
    """Concrete values for the failed assertions of one harness: [(description, [hex, ...])]."""
    target, environ = mode_env(mode)
    cmd = ["cargo", "kani", "--lib", "--exact", "--target-dir", target,
           "--no-assertion-reach-checks", "-Z", "unstable-options", "-Z", "concrete-playback",
           "--concrete-playback=print"]
    if features:
        cmd += ["--features", ",".join(features)]
    cmd += list(extra) + ["--harness", f"props::{harness}"]
    _, log = run(cmd, timeout, environ=environ)
    out = []
    for m in re.finditer(r"/// Check for `([^`]*)`: \"(.*)\"\n(?:.*\n)*?.*concrete_vals: Vec<Vec<u8>> = vec!\[\n((?:.*\n)*?)\s*\];", log):
        kind, desc, body = m.groups()
        if kind == "cover":
            continue
        vals = [bytes(int(x) for x in v.split(",") if x.strip()).hex()
                for v in re.findall(r"vec!\[([0-9, ]*)\]", body)]
        out.append((desc.strip('"').replace('\\"', ''), vals))
    return out


def build_replay(features, profile, timeout=300):
    cmd = ["cargo", "build", "--quiet", "--bin", "replay", "--target-dir", os.path.join(BUILD, "native")]
    if profile == "release":
        cmd.append("--release")
    if features:
        cmd += ["--features", ",".join(features)]
    rc, log = run(cmd, timeout)
    exe = os.path.join(BUILD, "native", "release" if profile == "release" else "debug", "replay")
    return (exe if rc == 0 else None), log


def replay(harness, features, values_file):
    """Replays on the real code. Returns (reproduced, text)."""
    text = []
    for profile in ("dev", "release"):
        exe, log = build_replay(features, profile)
        if exe is None:
            text.append(f"{profile}: the replay does not build:\n{log[-2000:]}")
            continue
        rc, out = run([exe, harness, values_file], 60)
        text.append(f"{profile}: exit {rc}\n{out.strip()}")
        # 10: an assertion failed. Negative: killed by a signal (memory error in the code under test).
        if rc == 10 or (rc is not None and rc < 0) or rc == 134:
            return True, "\n".join(text)
    # Memory the compiled program happens to find zeroed, invalid values and the like.
    cmd = ["cargo", "miri", "run", "--quiet", "--bin", "replay", "--target-dir", os.path.join(BUILD, "miri")]
    if features:
        cmd += ["--features", ",".join(features)]
    rc, out = run(cmd + ["--", harness, values_file], 240,
                  environ=env("nightly", MIRIFLAGS="-Zmiri-disable-isolation"))
    text.append(f"miri: exit {rc}\n{out.strip()[-3000:]}")
    return rc == 10 or "Undefined Behavior" in out, "\n".join(text)


def clean():
    for d in ("kani", "kani-off", "native", "miri"):
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
