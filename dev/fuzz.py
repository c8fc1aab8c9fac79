""" Development aid: how often the analysis sees through behaviour-preserving rewrites, and how often it sees mutations.
usage: fuzz.py refactor|mutate [rounds] [module-prefix] """
import ast
import collections
import copy
import random
import sys

sys.path.insert(0, "/verif")
from sa.program import Program, Func          # noqa: E402
from sa.flow import Flow                      # noqa: E402
from sa.behave import Behaviour, diff         # noqa: E402
from dev.transform import REFACTORINGS, MUTATIONS   # noqa: E402

EXCL = ("dessia_common.tests", "dessia_common.models", "dessia_common.datatools", "dessia_common.optimization",
        "dessia_common.generation", "dessia_common.forms", "dessia_common.document_generator", "dessia_common.templates")


def variant(p, f, node, helpers):
    g = Func(f.module, node, cls=f.cls)
    for h in helpers:
        hf = Func(f.module, h)
        p.funcs[hf.qual] = hf
        f.module.symbols_extra = getattr(f.module, "symbols_extra", {})
    return g


def run(p, f):
    return Behaviour(Flow(p, budget=40000).run(f, f.cls))


def noann(node):
    node = copy.deepcopy(node)
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            n.returns = None
        if isinstance(n, ast.arg):
            n.annotation = None
        if isinstance(n, ast.AnnAssign):
            n.annotation = ast.Constant(None)
    return ast.unparse(node)


def noisy(node, txt):
    import difflib
    ch = [x[1:].strip() for x in difflib.unified_diff(ast.unparse(node).splitlines(), txt.splitlines(), lineterm="", n=0)
          if x[:1] == "-" and x[:3] != "---"]
    return bool(ch) and all(x.startswith(("raise ", "print(", "warnings.warn", "msg ", "log", "error_msg")) for x in ch)


def work(job):
    mode, rounds, only, limit, quals = job
    p = PROG
    rng = random.Random(rounds)
    stats = collections.defaultdict(lambda: [0, 0])
    out = []
    seen = set()
    for q in quals:
        f = p.funcs[q]
        if False:
            continue
        try:
            base = run(p, f)
        except Exception as e:
            out.append(("BASE", f"BASE FAIL {q} {e!r}"))
            continue
        for tr in (REFACTORINGS if mode == "refactor" else MUTATIONS):
            if only and tr.__name__ != only:
                continue
            for k in range(rounds):
                node = copy.deepcopy(f.node)
                helpers = []

                def register(args, body):
                    name = f"_extracted_helper_{len(helpers)}"
                    h = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                                        body, [], None, type_params=[])
                    helpers.append(h)
                    return ast.Call(ast.Name(name, ast.Load()), [ast.Name(a, ast.Load()) for a in args], [])
                ok = tr(node, rng, register) if tr.__name__.startswith("r_helper") else tr(node, rng)
                if not ok:
                    break
                ast.fix_missing_locations(node)
                txt = ast.unparse(node)
                key = (q, tr.__name__, txt)
                if key in seen or txt == ast.unparse(f.node):
                    continue
                seen.add(key)
                if mode == "mutate" and (noann(node) == noann(f.node) or noisy(f.node, txt)):
                    continue
                g = Func(f.module, node, cls=f.cls)
                added = []
                for h in helpers:
                    ast.fix_missing_locations(h)
                    hf = Func(f.module, h)
                    p.add_helper(f.module, hf)
                    added.append(hf)
                try:
                    d = diff(run(p, g), base)
                except RecursionError:
                    d = [("recursion", None, None)]
                finally:
                    for hf in added:
                        p.del_helper(f.module, hf)
                stats[tr.__name__][0] += 1
                bad = bool(d) if mode == "refactor" else not d
                if bad:
                    stats[tr.__name__][1] += 1
                    import difflib
                    a = ast.unparse(f.node).splitlines()
                    text = f"---- {tr.__name__} {q}\n"
                    text += "\n".join(x for x in difflib.unified_diff(a, txt.splitlines(), lineterm="", n=1) if x[:3] not in ("---", "+++"))[:700] + "\n"
                    for h in helpers:
                        text += ast.unparse(h)[:300] + "\n"
                    for x in d[:2]:
                        text += f"   DIFF {x[0][:80]}\n     got  {str(x[1])[:limit]}\n     want {str(x[2])[:limit]}\n"
                    out.append((tr.__name__, text))
    return dict(stats), out


def main():
    import argparse
    import multiprocessing
    ap = argparse.ArgumentParser()
    ap.add_argument("mode")
    ap.add_argument("-r", type=int, default=1)
    ap.add_argument("-m", default="")
    ap.add_argument("-t", default=None)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-w", type=int, default=300)
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    quals = [q for q, f in sorted(PROG.funcs.items()) if (a.all or not f.module.name.startswith(EXCL)) and a.m in q]
    random.Random(0).shuffle(quals)
    jobs = [(a.mode, a.r, a.t, a.w, quals[i::64]) for i in range(64)]
    stats = collections.defaultdict(lambda: [0, 0])
    shown = collections.Counter()
    with multiprocessing.Pool(8) as pool:
        for st, out in pool.imap_unordered(work, jobs):
            for k, (n, b) in st.items():
                stats[k][0] += n
                stats[k][1] += b
            for k, text in out:
                if shown[k] < a.s:
                    shown[k] += 1
                    print(text)
    tot = fail = 0
    for k, (n, b) in sorted(stats.items()):
        print(f"{k:20s} {n:5d} {b:5d} {100 * b / n:5.1f}%")
        tot, fail = tot + n, fail + b
    print("TOTAL", tot, fail, f"{100 * fail / max(tot, 1):.2f}%")


PROG = Program()
if __name__ == "__main__":
    main()
