#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decide one property on /repo's current working tree.

Exit 0: held on everything explored. 1: violated (VIOLATION line, replayed on the real code).
2: no answer (most of it could not be decided or did not reproduce). Symbolic runs without an answer are not part of
what was explored: they are printed and listed in the evidence as undecided.
"""
import json, os, re, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import kani as K

T0 = time.time()
PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
VERIF = K.VERIF
EVID = os.path.join(VERIF, "evidence")
BUDGET = {"quick": 840, "thorough": 4 * 3600}[TIER]
HARNESS_TIMEOUT = {"quick": 420, "thorough": 2400}[TIER]
INDEX = json.load(open(os.path.join(VERIF, "harness", "index.json")))
NOTES = json.load(open(os.path.join(VERIF, "lib", "notes.json")))


def left():
    return BUDGET - (time.time() - T0)


def known(prop):
    """Harnesses whose failure is a recorded finding: {harness: what fails}."""
    out = {}
    for line in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) harness=(\S+) fallback=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = (m.group(3), m.group(4))
    return out


def save_replay(harness, feats, desc, vals, text):
    path = os.path.join(EVID, f"{PROP}.replay.txt")
    flag = f" --features {','.join(feats)}" if feats else ""
    with open(path, "w") as f:
        f.write(f"# property {PROP}: {desc}\n# harness {harness} (verif/harness/src/props.rs)\n"
                f"# replay: cd {K.HARNESS} && cargo run --offline{flag} --bin replay -- {harness} {path}\n")
        for line in text.splitlines():
            f.write(f"# {line}\n")
        for v in vals:
            f.write(v + "\n")
    return path


def main():
    os.makedirs(EVID, exist_ok=True)
    violations, inconclusive, lines, extra_cov = [], [], [], {}
    mine = {h: d for h, d in INDEX.items()
            if d["property"] == PROP and (TIER == "thorough" or d["tier"] == "quick")}
    findings = known(PROP)
    verdicts = {}

    # Engines M and W. What they cannot decide is left to engine K, within its bounds.
    import engine_m
    for m in engine_m.decide(PROP, TIER, left):
        extra_cov.update(m["coverage"])
        violations += m["violations"]
        if violations:
            break

    # Engine K.
    groups = {}
    for h, d in mine.items():
        groups.setdefault(tuple(d.get("features", [])), []).append(h)
    modes = K.debug_modes()
    for mode, feats, hs in [(m, f, h) for m in modes for f, h in sorted(groups.items())]:
        if violations:
            break
        hs.sort()
        res, log = K.kani(hs, feats, HARNESS_TIMEOUT, left(), tag=f"k-{PROP}", mode=mode)
        if all(v.broken and not v.ran for v in res.values()):
            sys.stderr.write(log[-4000:])
        # A loop bound that is too small for the code as it is now: try again with a larger one.
        again = [h for h in hs if res[h].unwind and not res[h].failed]
        if again and left() > 60:
            bound = 4 * max(mine[h]["unwind"] for h in again)
            res2, _ = K.kani(again, feats, HARNESS_TIMEOUT, left(), extra=["--unwind", str(bound)], tag=f"k2-{PROP}", mode=mode)
            for h in again:
                if not res2[h].unwind and res2[h].ran:
                    res[h] = res2[h]
                    res[h].bound = bound
        verdicts.update({h if mode == "on" else h + " without debug assertions": v for h, v in res.items()})
        failed = sorted((v for v in res.values() if v.failed), key=lambda v: v.wall_s)
        for v in list(failed):
            if v.name in findings:
                fallback, what = findings[v.name]
                fb = res.get(fallback)
                if fb is not None and fb.held:
                    lines.append(f"KNOWN-FINDING: property={PROP} {what}")
                    failed.remove(v)
                    v.known = True
                elif fb is not None and fb.failed:
                    # Not the recorded behaviour either: the fallback's counterexample shows it.
                    failed.remove(v)
                    v.known = True
        fallbacks = {fb: h for h, (fb, _) in findings.items()}
        for v in list(failed):
            # Where the array rules themselves hold, what was recorded instead of them need not.
            if v.name in fallbacks and res[fallbacks[v.name]].held:
                failed.remove(v)
                v.known = True
        tried = 0
        for v in failed:
            if violations or left() < 30 or tried >= 6:
                break
            tried += 1
            bound = getattr(v, "bound", None)
            cexs = K.counterexamples(v.name, feats, left(), ["--unwind", str(bound)] if bound else [], mode)
            # Assertions of the harness first; what the compiler inserted afterwards.
            for desc, vals in cexs[:4]:
                path = save_replay(v.name, feats, desc, vals, "")
                ok, text = K.replay(v.name, feats, path)
                if ok:
                    path = save_replay(v.name, feats, desc, vals, text)
                    violations.append((f"{v.name}: {desc}", path))
                    break
                print(f"note: counterexample of {v.name} ({desc}) does not reproduce: {text}", file=sys.stderr)
        if failed and not violations:
            inconclusive.append("counterexamples that do not reproduce: " + ", ".join(v.name for v in failed))
    for v in verdicts.values():
        if v.held or v.failed:
            continue
        inconclusive.append(f"{v.name}: " + (v.broken or ("loop bound too small" if v.unwind else "vacuous")))

    held = [v for v in verdicts.values() if v.held]
    note = NOTES[PROP]
    funcs = sorted({f for v in verdicts.values() for f in v.functions})
    cov = {
        "explanation": note["explanation"],
        "method": "Kani 0.68 / CBMC 6.11 symbolic execution of the compiled real code, CaDiCaL decides; one harness is one symbolic run",
        "harnesses": len(verdicts),
        "harnesses_held": len(held),
        "assertions_decided": sum(v.checks for v in verdicts.values()),
        "verification_conditions": sum(v.vccs for v in verdicts.values()),
        "verification_conditions_given_to_solver": sum(v.vccs_left for v in verdicts.values()),
        "program_steps_encoded": sum(v.program for v in verdicts.values()),
        "symex_s": round(sum(v.symex_s for v in verdicts.values()), 1),
        "solver_s": round(sum(v.solver_s for v in verdicts.values()), 1),
        "reachability_witnesses": len(held),
        "functions_encoded": funcs[:400],
        "bounds": note["bounds"],
        "outside_bounds": note["outside"],
        "debug_assertions": "decided with and without" if len(modes) > 1 else "not mentioned in the sources",
        "samples": [{"harness": h, "body": mine[h.split()[0]]["run"], "loop_bound": getattr(verdicts[h], "bound", mine[h.split()[0]]["unwind"]),
                     "verdict": "held" if verdicts[h].held else "known finding" if getattr(verdicts[h], "known", False) else "not held",
                     "conditions": verdicts[h].vccs, "solver_s": round(verdicts[h].solver_s, 2)}
                    for h in sorted(verdicts)],
        "known_findings": lines,
        "undecided": inconclusive,
    }
    cov.update(extra_cov)
    json.dump({"property": PROP, "tier": TIER, "seed": SEED, "level": "other", "coverage": cov,
               "assumptions": note["assumptions"], "wall_s": round(time.time() - T0, 1),
               "violations": len(violations)},
              open(os.path.join(EVID, f"{PROP}.json"), "w"), indent=1)

    if os.environ.get("VERBOSE"):
        for v in sorted(verdicts.values(), key=lambda v: -v.wall_s)[:12]:
            print(f"  {v.name} wall {v.wall_s:.0f} symex {v.symex_s:.0f} solver {v.solver_s:.0f} conditions {v.vccs}")
    for l in lines:
        print(l)
    if violations:
        what, path = violations[0]
        print(f"{PROP} is violated: {what}")
        print(f"VIOLATION property={PROP} replay={path}")
        return 1
    for x in inconclusive:
        print(f"undecided: {x}")
    open_ = [v for v in verdicts.values() if not v.held and not getattr(v, "known", False)]
    if inconclusive and 2 * len(open_) > len(verdicts):
        print(f"{PROP}: no answer")
        return 2
    print(f"{PROP} held: {len(held)} of {len(verdicts)} symbolic runs, {cov['assertions_decided']} assertions, "
          f"{cov['verification_conditions']} conditions, {time.time() - T0:.0f} s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
