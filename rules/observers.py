""" Effects of the functions that read, describe, compare, copy, check, display or export. """
from rules import rule
from sa.behave import Behaviour
from sa.conform import Verdict
from sa.flow import Flow
from sa.terms import T, mk, subterms, show

OBSERVERS = [
    "serialization.*", "core.*", "utils.*", "schemas.core.*", "checks.*", "displays.*", "exports.is_*",
    "exports.ExportFormat.*", "breakdown.*", "files.*", "typings.*", "templates.*", "decorators.get_*",
    "graph.*", "excel_reader.process_*", "excel_reader.check_*", "measures.*",
    "datatools.dataset.*", "datatools.cluster.*", "datatools.sampling.*", "datatools.metrics.*",
    "workflow.utils.*", "workflow.blocks.*", "!workflow.blocks.*.evaluate", "!workflow.blocks.*.__init__",
    "workflow.core.*.to_dict", "workflow.core.*.dict_to_object", "workflow.core.*.*equivalent*", "workflow.core.*.__hash__",
    "workflow.core.*.__eq__", "workflow.core.*._data_*", "workflow.core.*.*script*", "workflow.core.*.*schema*",
    "workflow.core.*.*copy*", "workflow.core.*.*__deepcopy__", "workflow.core.*.*index*", "workflow.core.*.*upstream*",
    "workflow.core.*.*pipe*", "!workflow.core.*._activate_pipe", "!workflow.core.Workflow.handle_pipe",
    "workflow.core.*.*display*", "!workflow.core.*.add_step_display", "!workflow.core.*.add_display_setting",
    "!workflow.core.*.compute_step_display", "workflow.core.*.*export*", "workflow.core.*.*selector*",
    "workflow.core.*.*branch*", "!workflow.core.*.evaluate_branch", "workflow.core.*.*layout*", "workflow.core.*.nodes",
    "workflow.core.*.jointjs_data", "workflow.core.*.match_variables", "workflow.core.*.*file_inputs",
    "workflow.core.*.to_markdown", "workflow.core.*.is_*", "workflow.core.*.find_*", "workflow.core.*._find*",
    "workflow.core.*._branch*", "workflow.core.*._get*", "workflow.core.*.input_values", "workflow.core.*.default_values",
    "workflow.core.*.dict_to_arguments", "workflow.core.*.*dict", "workflow.core.*.progress", "workflow.core.*.available*",
    "workflow.core.*.value_*", "workflow.core.value_type_check", "workflow.core.*.displayable_*",
    "workflow.core.*.output_disconnected_elements", "workflow.core.*.zip_settings", "workflow.core.*._export*",
    "workflow.core.*.runtime_blocks", "workflow.core.*.block_*", "!workflow.core.*.block_evaluation*",
    "workflow.core.deserialize_pipes", "workflow.core.initialize_workflow",
]
CONSTRUCT = ("__init__", "__setattr__", "__setstate__")
ROOTED = ("attr", "item", "elem", "slice")


def roots(t, depth=0):
    """ {(parameter, first attribute)} a written place may belong to; fresh values have none. """
    path = []
    while isinstance(t, T):
        if t.tag == "param":
            return {(t.a[0], path[-1] if path else "")}
        if t.tag == "classof":
            return {("class", path[-1] if path else "")}
        if t.tag == "attr":
            path.append(t.a[1] if isinstance(t.a[1], str) else "*")
            t = t.a[0]
        elif t.tag == "item" and isinstance(t.a[1], T) and t.a[1].tag == "slicekey":
            return set()
        elif t.tag in ("item", "elem", "slice", "iter", "each"):
            t = t.a[0]
        elif t.tag in ("ite", "phi", "alt") and depth < 4:
            out = set()
            for x in t.a:
                if isinstance(x, T):
                    for r, p in roots(x, depth + 1):
                        out.add((r, p or (path[-1] if path else "")))
            return out
        else:
            return set()
    return set()


class Writes:
    """ Places of its arguments a function writes, directly, in helpers, or through the functions it calls. """

    def __init__(self, conf, prog):
        self.conf, self.prog, self.memo = conf, prog, {}

    def of(self, f, cls, depth=0):
        key = (f.qual, cls.qual if cls is not None else None)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = {}
        flow = Flow(self.prog, budget=30000, depth=5)
        s = flow.run(f, cls)
        self.conf.analysed |= flow.n_funcs
        out = {}
        init = f.name in CONSTRUCT
        for (base, name), v in s.over.items():
            if base.tag == "param" and base.a[0] == "self" and init:
                continue
            if v is mk("attr", base, name):
                continue
            for r in roots(mk("attr", base, name) if isinstance(name, str) else base):
                out.setdefault(r, f"writes {show(base)[:60]}.{name}")
        for e in s.events:
            line = f"{e.frame.func.module.rel}:{e.node.lineno}" if getattr(e, "frame", None) is not None and \
                getattr(e, "node", None) is not None else f.where
            if e.kind == "mutate":
                for r in roots(e.term):
                    if not (init and r[0] == "self"):
                        out.setdefault(r, f"{line} modifies {show(e.term)[:80]} by {show(e.extra)[:60]}")
            elif e.kind == "call" and depth < 6:
                for r, why in self.through(f, cls, e.term, depth):
                    if not (init and r[0] == "self"):
                        out.setdefault(r, f"{line} {why}")
        if s.exhausted:
            out[("?", "")] = "analysis budget exhausted"
        self.memo[key] = out
        return out

    def through(self, f, cls, t, depth):
        """ Writes of the callee of a call term, in terms of the caller's places. """
        g, recv, args, kw = None, None, (), ()
        if t.tag == "mcall":
            recv, name, args, kw = (tuple(t.a) + ((), ()))[:4]
            if recv.tag == "param" and recv.a[0] == "self" and cls is not None:
                g = cls.find(name)
            else:
                c = self.prog.method_index.get(name, [])
                g = c[0] if len(c) == 1 else None
        elif t.tag == "call" and isinstance(t.a[0], str) and t.a[0].startswith("func:"):
            g = self.prog.funcs.get(t.a[0][5:])
            args, kw = t.a[1], t.a[2] if len(t.a) > 2 else ()
        if g is None or g.name in CONSTRUCT:
            return
        w = self.of(g, g.cls if g.cls is not cls else cls, depth + 1)
        if not w:
            return
        names = [p[0] for p in g.call_params()]
        bound = dict(zip(names, args)) if isinstance(args, tuple) else {}
        for k in kw if isinstance(kw, tuple) else ():
            if isinstance(k, tuple) and len(k) == 2:
                bound[k[0]] = k[1]
        for (root, a), why in w.items():
            target = recv if root == "self" else bound.get(root)
            if target is None or not isinstance(target, T):
                continue
            for r, p in roots(target):
                yield (r, p or a), f"calls {g.short}, which {why}"


@rule
def observers(conf):
    """ No observer writes a place of its arguments that its specification does not write. """
    here, model = Writes(conf, conf.impl), Writes(conf, conf.ref)
    private = {n for c in conf.ref.classes.values() for n in c.attrs}
    for q in conf.select(OBSERVERS):
        ref = conf.ref.funcs[q]
        f, cls = conf.locate(q)
        if f is None or ref.name.endswith("@setter") or "@setter" in q:
            continue
        got = here.of(f, cls or f.cls)
        want = model.of(ref, ref.cls)
        if ("?", "") in got:
            yield Verdict("observer", q, f.where, "undecided")
            continue
        new = {r: why for r, why in got.items() if r not in want and not (r[0] in ("self", "class") and
               r[1].startswith("_") and r[1] not in private and r[1] not in fields(conf.ref))}
        yield Verdict("observer", q, f.where, "violated" if new else "holds",
                      [(f"modifies {r[0]}{'.' + r[1] if r[1] else ''}: {why}", None, None) for r, why in new.items()])


_FIELDS = {}


def fields(prog):
    """ Attribute names assigned on some receiver in a program. """
    if id(prog) not in _FIELDS:
        _FIELDS[id(prog)] = {n for a in prog.effects.attrs.values() for n in a}
    return _FIELDS[id(prog)]
