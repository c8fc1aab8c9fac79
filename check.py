#!/usr/bin/env python3
""" Decides one property on the current source of /repo: check.py <property id>.

Exit 0: every decided obligation holds. Exit 1, with a line VIOLATION property=<id> replay=<path>: a construct of the
current source breaks the property; the replay file lists the constructs. Nothing of /repo is executed. """
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from props import P  # noqa: E402
from sa.program import Program, AnalysisError  # noqa: E402
from sa.conform import Conformance, Verdict, describe  # noqa: E402
import rules  # noqa: E402

FACETS = ["signature", "value", "attrs", "effects", "raises"]
ROOT = os.environ.get("VERIF_REPO", "/repo")


def known_findings(property_id):
    """ Entries 'finding: property=<id> construct=<name> :: text' of the known findings file. """
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path, encoding="utf-8") as stream:
            for line in stream:
                if not line.startswith("finding: "):
                    continue
                head, _, text = line[len("finding: "):].partition(" :: ")
                words = dict(w.partition("=")[::2] for w in head.split())
                if words.get("property") == property_id:
                    out[words["construct"]] = text.strip()
    return out


def guarded(kind, name, fn, *args):
    """ Verdicts of one obligation; an internal failure of the analysis leaves it undecided, and visible. """
    try:
        v = fn(*args)
    except AnalysisError:
        raise
    except Exception as err:
        return [Verdict(kind, name, "", "undecided", [(f"analysis failed: {type(err).__name__}: {err}", None, None)])]
    if v is None:
        return []
    return list(v) if isinstance(v, (list, tuple)) else [v]


def obligations(prop, conf, tier):
    """ Verdicts of a property. """
    out = []
    names = conf.select(prop["functions"]) if prop["functions"] else []
    for q in names:
        out += guarded("function", q, conf.function, q, FACETS)
        out += guarded("decorators", q, conf.decorators, q)
    pre = conf.ref.package + "."
    for c in prop["classes"]:
        c, _, attrs = c.partition(":")
        out += guarded("class", c, conf.klass, pre + c, attrs.split(",") if attrs else None)
    for t in conf.tables(prop["tables"]):
        out += guarded("table", t, conf.table, t)
    for r in prop["rules"]:
        out += guarded("rule", r, rules.run, r, conf)
    return out


def main():
    """ Entry point. """
    start = time.time()
    pid = sys.argv[1]
    prop = next(p for p in P if p["id"] == pid)
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ref = Program(os.path.join(HERE, "model"))
    try:
        impl = Program(ROOT, reference=ref)
        conf = Conformance(impl, ref, budget=60000 if tier == "quick" else 200000, depth=7 if tier == "quick" else 9)
        verdicts = obligations(prop, conf, tier)
        analysed, size = len(conf.analysed), len(impl.funcs)
    except AnalysisError as err:
        verdicts = [Verdict("source", "dessia_common", ROOT, "violated", [(f"unreadable source: {err}", None, None)])]
        analysed = size = 0
    known = known_findings(pid)
    counts = {}
    bad, listed = [], []
    for v in verdicts:
        key = (v.kind, v.status)
        counts[key] = counts.get(key, 0) + 1
        if v.status == "violated":
            (listed if v.name in known else bad).append(v)
    kinds = sorted({k for k, _ in counts})
    coverage = {
        "explanation": ("Static analysis of /repo's current source (nothing is executed). Each function under the "
                        "property is abstracted to its behaviour (returned value, attributes written, effects on "
                        "arguments, errors, signature) over all inputs, and compared in a canonical term algebra with "
                        "the behaviour the property specifies; class attributes, constants and cross-function rules "
                        "are further obligations. 'undecided' obligations are ones the analysis could not settle: "
                        "they are neither claimed nor reported."),
        "obligations": len(verdicts),
        "functions_analysed_including_callees": analysed,
        "functions_in_source": size,
        "by_kind": {k: {s: n for (kk, s), n in sorted(counts.items()) if kk == k} for k in kinds},
        "undecided": [f"{v.kind} {v.name}" for v in verdicts if v.status == "undecided"][:50],
        "samples": [f"{v.kind} {v.name} ({v.where}): {v.status}" for v in verdicts[:: max(1, len(verdicts) // 8)]][:10],
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": coverage,
                "assumptions": ["Python semantics as abstracted in sa/ (DESIGN.md, 'What the abstraction assumes')",
                                "library functions behave as documented"],
                "violations": len(bad), "wall_s": round(time.time() - start, 2)}
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w", encoding="utf-8") as stream:
        json.dump(evidence, stream, indent=1)
    for v in listed:
        print(f"KNOWN-FINDING: property={pid} {v.name}: {known[v.name]}")
    print(f"{pid}: {len(verdicts)} obligations, " +
          ", ".join(f"{k} {s}: {n}" for (k, s), n in sorted(counts.items())))
    if not verdicts:
        print("no obligation: the check has nothing to decide")
        bad = [Verdict("check", pid, "", "violated", [("no obligation", None, None)])]
    if bad:
        replay = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
        with open(replay, "w", encoding="utf-8") as stream:
            for v in bad:
                stream.write(f"{v.where}: {v.kind} {v.name}\n")
                for line in describe(v.details, 3000):
                    stream.write(f"    {line}\n")
        for v in bad[:8]:
            print(f"  {v.where}: {v.kind} {v.name}")
            for line in describe(v.details, 240)[:3]:
                print(f"      {line}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # an internal error decides nothing: say so and stay quiet
        traceback.print_exc()
        code = 2
    sys.exit(code)
