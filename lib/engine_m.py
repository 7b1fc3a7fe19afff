"""Engines M and W: MIR of the real code executed symbolically, z3 decides. Each runs in its own process
(python3-vt). M (mirsym/decide.py): what the derive macros generate, for struct definitions whose field types have
unknown sizes, alignments, values and names. W (mirsym/stream.py): Writer, Sizer and DynamicUniform for types of any
size and positions of any value."""
import json, os, subprocess, sys
import kani as K
FIELDS = {"quick": 20, "thorough": 40}
ENGINES = {
    "M": dict(properties=("C01", "C02", "C05", "C06", "C12", "C15", "C16", "C18"), key="all_definitions", limit={"quick": 300, "thorough": 3600},
              args=lambda prop, tier, limit, out: ["decide.py", prop, str(FIELDS[tier]), str(limit), out]),
    "W": dict(properties=("C09", "C10", "C11", "C12", "C13", "C14", "C17"), key="all_types", limit={"quick": 300, "thorough": 5400},
              args=lambda prop, tier, limit, out: ["stream.py", prop, tier, str(limit), out]),
}


def decide(prop, tier, left):
    """One result for each engine that takes part."""
    for name, e in ENGINES.items():
        if prop not in e["properties"]: continue
        out = os.path.join(K.BUILD, "mir", f"{prop}.{name}.json")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if os.path.exists(out): os.unlink(out)
        limit = int(min(left() - 60, e["limit"][tier]))
        script, *args = e["args"](prop, tier, limit, out)
        rc, log = K.run(["python3-vt", os.path.join(K.VERIF, "mirsym", script), *args], limit + 60, cwd=K.VERIF, environ=dict(os.environ))
        if os.path.exists(out): r = json.load(open(out))
        else: r = dict(undecided=[f"no result: {log[-600:]}"], violations=[])
        v = r.pop("violations")
        yield dict(coverage={e["key"]: r}, violations=[tuple(x) for x in v])
