""" Interprocedural, flow-sensitive, guarded value-flow analysis (gated single-assignment form over the syntax tree).

A function is abstracted to: its returned value as a term over its parameters, the events it performs (calls,
raises, attribute stores, container mutations) each with the conjunction of conditions that dominate it, and the
final attribute overlay.  Repository callees are inlined (helper extraction is invisible), loops and comprehensions
over the same collection give the same element terms, `if`/conditional expression/early return give the same guarded
choice, dict literals, item stores and `update` give the same entries. """
import ast
import builtins
import codecs

from sa.program import Func, Class
from sa.terms import (T, mk, const, TRUE, FALSE, NONE, is_const, neg, conj, disj, guards_cond, norm_guards, phi, alts,
                      show, subterms, subst, exists, iterates)

MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "popitem", "remove", "clear", "setdefault", "sort",
            "reverse", "discard", "__setitem__", "__delitem__", "appendleft", "difference_update",
            "intersection_update", "symmetric_difference_update", "move_to_end", "popleft"}
BUILTIN_METHODS = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | set(dir(tuple)) | {"write", "read",
                                                                                                     "close", "seek"}
FULL = mk("slicekey", NONE, NONE, NONE)
OF_KEYS = {"sorted", "set", "list", "tuple", "min", "max", "frozenset", "len", "iter", "enumerate", "any", "all"}
BASIC_TYPES = {"int", "float", "str", "bool", "complex", "bytes", "list", "tuple", "dict", "set", "type"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}


class Event:
    """ Something the function does. """

    __slots__ = ("kind", "pc", "term", "extra", "node", "func", "order")

    def __init__(self, kind, pc, term, extra, node, func, order):
        self.kind, self.pc, self.term, self.extra, self.node, self.func, self.order = \
            kind, pc, term, extra, node, func, order

    @property
    def where(self):
        return f"{self.func.module.rel}:{getattr(self.node, 'lineno', self.func.node.lineno)} ({self.func.short})"

    def __repr__(self):
        g = " & ".join(show(x) for x in self.pc)
        return f"<{self.kind} [{g}] {show(self.term)} {show(self.extra) if self.extra is not None else ''}>"


class State:
    """ Environment, heap, attribute overlay, path condition. """

    __slots__ = ("env", "heap", "over", "pc")

    def __init__(self, env, heap, over, pc):
        self.env, self.heap, self.over, self.pc = env, heap, over, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.over), self.pc)

    def become(self, other):
        self.env, self.heap, self.over, self.pc = other.env, other.heap, other.over, other.pc


CUT = const("cut")


def is_cut(e):
    return e[1] == "op" and e[2] is CUT


def passes(e):
    """ Iterations an entry of a list is given in. """
    out = [g for g in e[0] if g.tag == "foreach"]
    if e[1] == "splat":
        out.append(mk("foreach", e[-1], sum(1 for g in out if g.a[0] is e[-1])))
    return out


class Obj:
    """ Heap container: kind list/set/dict, entries, pc at creation. """

    __slots__ = ("kind", "entries", "pc", "closed")

    def __init__(self, kind, entries, pc):
        self.kind, self.entries, self.pc = kind, entries, pc


class Frame:
    """ Activation of a function. """

    def __init__(self, func, cls_exact, parent_env=None, self_term=None):
        self.func, self.cls_exact, self.self_term = func, cls_exact, self_term
        self.parent_env = parent_env or {}
        self.returns = []      # (state, value)
        self.loops = []        # [{"break": [], "continue": []}]
        self.yields = None     # oid


class Budget(Exception):
    """ Analysis budget exhausted. """


class Summary:
    """ Result of analysing one entry point. """

    def __init__(self, func, value, state, events, exhausted, flow):
        self.func, self.value, self.state, self.events, self.exhausted, self.flow = \
            func, value, state, events, exhausted, flow

    @property
    def over(self):
        return self.state.over if self.state else {}

    def calls(self, pred=None):
        return [e for e in self.events if e.kind == "call" and (pred is None or pred(e.term))]

# parameters of standard functions that are given by position or by name
EXT_PARAMS = {"open": ("file", "mode", "buffering", "encoding"), "zipfile.ZipFile": ("file", "mode", "compression"),
              "json.dump": ("obj", "fp"), "json.dumps": ("obj",), "json.loads": ("s",), "json.load": ("fp",),
              "round": ("number", "ndigits"), "math.isclose": ("a", "b"), "random.uniform": ("a", "b"),
              "networkx.add_path": ("G_to_add_to", "nodes_for_path"), "copy.deepcopy": ("x", "memo")}


def backwards(c):
    """ X[::-1] and range(n - 1, -1, -1) visit the same things as reversed(...). """
    if c.tag == "item" and c.a[1].tag == "slicekey" and c.a[1].a[0] is NONE and c.a[1].a[1] is NONE and \
            is_const(c.a[1].a[2], -1):
        return mk("call", "builtin:reversed", (("0", c.a[0]),))
    if c.tag == "call" and c.a[0] == "builtin:range" and len(c.a[1]) == 3:
        hi, lo, step = (v for _, v in c.a[1])
        if is_const(lo, -1) and is_const(step, -1) and hi.tag == "bin" and hi.a[0] == "-" and is_const(hi.a[2], 1):
            return mk("call", "builtin:reversed", (("0", mk("call", "builtin:range", (("0", hi.a[1]),))),))
    return c


TYPE_NAMES = {"int", "float", "str", "bool", "list", "dict", "tuple", "set", "frozenset", "bytes", "complex", "type",
              "object"}
NEVER_NONE = {f"ext:{x}" for x in ("inspect.getfullargspec", "inspect.signature", "typing.get_type_hints",
                                   "typing.get_args", "importlib.import_module", "inspect.getsource", "ast.parse",
                                   "inspect.getmembers", "inspect.getmro")} | \
             {f"builtin:{x}" for x in ("len", "str", "int", "float", "list", "dict", "tuple", "set", "sorted", "type",
                                       "repr", "enumerate", "zip", "range", "isinstance", "hasattr", "open")}


FAILING = {"int", "float", "complex", "hash", "next", "iter"}  # what is asked by trying


UNBOUND = mk("unbound")


def cannot_fail(body):
    """ Statements of which nothing can be raised: everything that may fail is within a broad handler of its own. """
    for stmt in body:
        if isinstance(stmt, ast.Try):
            broad = any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException")
                        for h in stmt.handlers)
            if not broad or not all(cannot_fail(h.body) for h in stmt.handlers) or \
                    not cannot_fail(stmt.orelse + stmt.finalbody):
                return False
        elif isinstance(stmt, (ast.Return, ast.Assign)):
            if any(not isinstance(n, (ast.Constant, ast.Name, ast.Load, ast.Store, ast.Return, ast.Assign))
                   for n in ast.walk(stmt)):
                return False
        elif not isinstance(stmt, (ast.Pass, ast.Break, ast.Continue)):
            return False
    return True


def can_fail(body):
    """ Statements that may raise though they call nothing of interest: lookups, arithmetic, iterations. """
    return any(isinstance(n, (ast.For, ast.Raise, ast.BinOp, ast.comprehension, ast.Call)) or
               isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) for x in body for n in ast.walk(x))


def codec_name(t):
    """ Encodings have several names. """
    if is_const(t) and isinstance(t.a[1], str):
        try:
            return const(codecs.lookup(t.a[1]).name)
        except LookupError:
            pass
    return t


class Flow:
    """ The analysis. """

    def __init__(self, program, inline=(), depth=7, budget=60000, stop=None, inline_props=True,
                 fresh_dicts=("to_dict", "base_dict", "_serializable_dict")):
        self.p = program
        self.fresh_dicts = set(fresh_dicts)
        self.inline_set = set(inline)
        self.stop = stop or self.default_stop
        self.depth, self.budget0 = depth, budget
        self.inline_props = inline_props
        self._fields = {}
        self._globals = {}
        self.closures = {}
        self.tried = []
        self.walked, self.walking = {}, ()
        self.fresh = set()
        self.distinct = set()
        self.nested = 0
        self.seen = None
        self.after = {}
        self.n_funcs = set()
        self.declared = {}
        self.open_loops = []

    def default_stop(self, f):
        """ Functions of the reference vocabulary stay opaque unless listed; new functions (helpers) are inlined. """
        if f.name in self.inline_set or f.short in self.inline_set or f.qual in self.inline_set:
            return False
        return f.qual in self.p.vocabulary

    # -- entry -----------------------------------------------------------------------------------------------------
    def run(self, func, cls=None, args=None, self_term=None):
        """ Analyse func as a method of concrete class cls; parameters are symbolic unless given in args. """
        self.events = []
        self.order = 0
        self.budget = self.budget0
        self.stack = []
        self.while_ids = {}
        self.oid = 0
        self.mute = 0
        self.open_loops = []
        a = func.node.args
        self.declared = {x.arg: x.annotation.id for x in a.posonlyargs + a.args + a.kwonlyargs
                         if isinstance(x.annotation, ast.Name)}
        for x, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, ast.Constant) and d.value is None:
                self.declared.pop(x.arg, None)
        self.exhausted = False
        env = {}
        params = func.params()
        start = 0
        st = self_term
        if func.cls is not None and not func.is_static:
            name = params[0][0]
            start = 1
            if func.is_class:
                st = st or mk("classof", mk("param", "cls"))
            else:
                st = st or mk("param", "self")
            env[name] = st
        self.expanding = []
        self.types = {}
        if st is not None and func.cls is not None:
            self.types[st] = (cls or func.cls, True)
            if st.tag == "classof":
                self.types[st] = self.types[st.a[0]] = (cls or func.cls, False)
        for name, kind, default, annotation in params[start:]:
            if args and name in args:
                env[name] = args[name]
            else:
                env[name] = mk("param", name) if kind not in ("vararg", "kwarg") else mk("param", ("*" if kind == "vararg" else "**") + name)
                c = self.annot_class(func.module, annotation)
                if c is not None:
                    self.types[env[name]] = (c, False)
        state = State(env, {}, {}, ())
        for name, kind, default, annotation in params[start:]:
            if kind == "kwarg" and env[name].tag == "param":
                self.fresh.add(env[name])
                env[name] = self.alloc(state, "dict", [((), "splat", NONE, env[name])])
        frame = Frame(func, cls or func.cls, self_term=st)
        try:
            value, out = self.run_frame(frame, state)
        except Budget:
            self.exhausted = True
            value, out = mk("unk", "budget"), None
        if out is not None:
            if self.boolish(value):
                value = self.cond(value, out)
            value = self.freeze(value, out)
        return Summary(func, value, out, self.events, self.exhausted, self)

    def run_frame(self, frame, state):
        """ Execute a function body; returns (value, state) – state None when no normal exit. """
        func = frame.func
        self.n_funcs.add(func.qual)
        base_pc = state.pc
        node = func.node
        if isinstance(node, ast.Lambda):
            v = self.ev(node.body, state, frame)
            return v, state
        gen = func.is_generator()
        if gen:
            frame.yields = self.alloc(state, "list", ())
        end = self.block(node.body, state, frame)
        if end is not None:
            frame.returns.append((end, NONE))
        if not frame.returns:
            return mk("unk", "noreturn"), None
        if gen:
            merged = self.merge(base_pc, [s for s, _ in frame.returns])
            return frame.yields, merged
        if len(frame.returns) == 1:
            s, v = frame.returns[0]
            extra = s.pc[len(base_pc):] if s.pc[:len(base_pc)] == base_pc else ()
            if any(x.tag == "foreach" for x in extra) and not self.is_refval(v):
                s = s.copy()
                s.pc = base_pc
                v = phi([(extra, v)])
            return v, s
        key = "\0ret"
        states = []
        for s, v in frame.returns:
            s = s.copy()
            s.env[key] = v
            states.append(s)
        merged = self.merge(base_pc, states)
        return merged.env.pop(key), merged

    # -- state merge -----------------------------------------------------------------------------------------------
    def merge(self, base_pc, states):
        """ Join of states whose pc extends base_pc. """
        if len(states) == 1:
            return states[0]
        nb = len(base_pc)
        extras = [s.pc[nb:] for s in states]
        out = State({}, {}, {}, base_pc)
        keys = []
        seen = set()
        for s in states:
            for k in s.env:
                if k not in seen:
                    seen.add(k)
                    keys.append(k)
        for k in keys:
            vals = [(e, s.env[k] if k in s.env else UNBOUND) for e, s in zip(extras, states)
                    if k in s.env or k[:1] != "\0"]
            first = vals[0][1]
            if all(v is first for _, v in vals):
                out.env[k] = first
            else:
                out.env[k] = phi(vals)
        okeys = []
        seen = set()
        for s in states:
            for k in s.over:
                if k not in seen:
                    seen.add(k)
                    okeys.append(k)
        for k in okeys:
            vals = [(e, s.over.get(k, self.initial(k))) for e, s in zip(extras, states)]
            first = vals[0][1]
            out.over[k] = first if all(v is first for _, v in vals) else phi(vals)
        for s in states:
            for oid, obj in s.heap.items():
                cur = out.heap.get(oid)
                if cur is None or cur is obj:
                    out.heap[oid] = obj
                elif cur.entries != obj.entries:
                    n = 0
                    for x, y in zip(cur.entries, obj.entries):
                        if x != y:
                            break
                        n += 1
                    m = 0
                    for x, y in zip(reversed(cur.entries[n:]), reversed(obj.entries[n:])):
                        if x != y:
                            break
                        m += 1
                    k = len(cur.entries) - m
                    rest = [y for y in obj.entries[n:len(obj.entries) - m] if y not in cur.entries[n:]]
                    ents = cur.entries[:k] + tuple(rest) + cur.entries[k:]
                    flags = [e for e in ents if self.is_shared(e)]
                    if flags:
                        ents = tuple(flags[:1]) + tuple(e for e in ents if e not in flags)
                    out.heap[oid] = Obj(cur.kind, ents, cur.pc)
        lits = [list(e) for e in extras]
        common = [g for g in lits[0] if all(g in e for e in lits[1:])]
        pc = list(base_pc) + [g for g in common if g.tag != "foreach"]
        residual = [[g for g in e if g not in common] for e in lits]
        if all(residual) and sum(len(r) for r in residual) <= 24 and \
                not any(g.tag == "foreach" for r in residual for g in r):
            d = disj(*[conj(*r) for r in residual])
            if d is not TRUE and d is not FALSE:
                pc.append(d)
        out.pc = norm_guards(tuple(pc)) or tuple(pc)
        if out.pc[:nb] != base_pc:
            out.pc = base_pc
        return out

    @staticmethod
    def initial(k):
        """ Content of a place nothing was written to. """
        return mk("attr", k[0], k[1]) if isinstance(k[1], str) else mk("item", k[0], k[1][1])

    def with_guard(self, state, cond):
        """ state under cond, or None when contradictory. """
        if cond is FALSE:
            return None
        s = state.copy()
        if cond is not TRUE:
            pc = norm_guards(s.pc + (cond,))
            if pc is None:
                return None
            s.pc = pc
        return s

    # -- statements ------------------------------------------------------------------------------------------------
    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()

    def emit(self, kind, state, term, extra, node, frame):
        if self.mute and self.seen is None:
            return
        if isinstance(term, T):
            term = self.freeze(term, state)
        if extra is not None:
            extra = self.freeze(extra, state)
        if self.mute:
            self.seen += [x for x in (term, extra) if x is not None] + list(state.pc)
            return
        self.order += 1
        self.events.append(Event(kind, state.pc, term, extra, node, frame.func, self.order))

    def block(self, stmts, state, frame):
        for stmt in stmts:
            if state is None:
                return None
            state = self.stmt(stmt, state, frame)
        return state

    def stmt(self, node, state, frame):
        self.tick()
        m = getattr(self, "s_" + type(node).__name__, None)
        if m is None:
            return state
        return m(node, state, frame)

    def s_Expr(self, node, state, frame):
        if isinstance(node.value, ast.Constant):
            return state
        v = self.ev(node.value, state, frame)
        if v is None:
            return None
        return state if not self.dead(state) else None

    def dead(self, state):
        return getattr(state, "pc", None) == ("dead",)

    def s_Return(self, node, state, frame):
        v = NONE if node.value is None else self.ev(node.value, state, frame)
        if self.dead(state):
            return None
        frame.returns.append((state, v))
        return None

    def s_Raise(self, node, state, frame):
        v = NONE if node.exc is None else self.ev(node.exc, state, frame)
        if self.dead(state):
            return None
        self.emit("raise", state, v, None, node, frame)
        return None

    def s_Pass(self, node, state, frame):
        return state

    def s_Assert(self, node, state, frame):
        c = self.cond(self.ev(node.test, state, frame), state)
        bad = self.with_guard(state, neg(c))
        if bad is not None:
            self.emit("raise", bad, mk("ext", "AssertionError"), None, node, frame)
        ok = self.with_guard(state, c)
        return ok

    def s_Assign(self, node, state, frame):
        v = self.ev(node.value, state, frame)
        if self.dead(state):
            return None
        if v.tag == "item" and v.a[1] is FULL and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and \
                self.grows(node.targets[0].id, frame):
            v = self.alloc(state, "list", self.splat_entries(v.a[0], state))       # a copy of a list
        for t in node.targets:
            self.assign(t, v, state, frame)
        return state

    @staticmethod
    def grows(name, frame):
        """ The function calls on a variable what only lists have. """
        return any(isinstance(n, ast.Attribute) and n.attr in ("append", "extend", "insert") and
                   isinstance(n.value, ast.Name) and n.value.id == name for n in ast.walk(frame.func.node))

    def s_AnnAssign(self, node, state, frame):
        if node.value is not None:
            v = self.ev(node.value, state, frame)
            if self.dead(state):
                return None
            self.assign(node.target, v, state, frame)
        return state

    def s_AugAssign(self, node, state, frame):
        load = ast.copy_location(self.as_load(node.target), node.target)
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Attribute) and \
                node.target.attr in self.p.list_attributes():
            call = ast.Call(ast.Attribute(load, "extend", ast.Load()), [node.value], [])
            self.ev(ast.fix_missing_locations(ast.copy_location(call, node)), state, frame)
            return None if self.dead(state) else state
        cur = self.ev(load, state, frame)
        v = self.ev(node.value, state, frame)
        if self.dead(state):
            return None
        if isinstance(node.op, ast.Add) and self.any_ref(cur, state, ("list",)):
            self.call_container(cur, "extend", [v], {}, state, frame, node)
            return state
        if isinstance(node.op, ast.Add) and isinstance(node.target, ast.Name) and \
                cur.tag in ("param", "attr", "item", "elem") and (
                    self.any_ref(v, state, ("list",)) or
                    v.tag == "attr" and v.a[1] in self.p.list_attributes()):
            # what a list can be added to in place is the list itself
            self.call_attr(cur, "extend", [v], {}, None, [], state, frame, node)
            return None if self.dead(state) else state
        new = self.binop(BIN[type(node.op)], cur, v, state)
        if isinstance(node.target, ast.Name):
            state.env[node.target.id] = new
        else:
            self.assign(node.target, new, state, frame, aug=True)
        return state

    @staticmethod
    def as_load(t):
        if isinstance(t, ast.Name):
            return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute):
            return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript):
            return ast.Subscript(t.value, t.slice, ast.Load())
        return t

    def assign(self, target, v, state, frame, aug=False):
        if isinstance(target, ast.Name):
            state.env[target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(target.elts), state,
                                [i for i, e in enumerate(target.elts) if isinstance(e, ast.Starred)])
            for t, x in zip(target.elts, parts):
                self.assign(t.value if isinstance(t, ast.Starred) else t, x, state, frame)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v, state, frame)
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value, state, frame)
            self.setattr(base, target.attr, v, state, frame, target)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value, state, frame)
            key = self.ev_key(target.slice, state, frame)
            self.setitem(base, key, v, state, frame, target)

    def unpack(self, v, n, state, starred):
        v1 = v
        if starred:
            k = starred[0]
            after = n - 1 - k
            rest = mk("slicekey", const(k) if k else NONE, const(-after) if after else NONE, NONE)
            return [self.getitem(v1, const(i), state) for i in range(k)] + [self.getitem(v1, rest, state)] + \
                [self.getitem(v1, const(i - after), state) for i in range(after)]
        if isinstance(v1, T) and v1.tag == "phi":
            cols = [[] for _ in range(n)]
            for g, x in v1.a[0]:
                for i, y in enumerate(self.unpack(x, n, state, starred)):
                    cols[i].append((g, y))
            return [phi(c) for c in cols]
        if isinstance(v1, T) and v1.tag == "tuple" and len(v1.a[0]) == n and not starred:
            return list(v1.a[0])
        if isinstance(v1, T) and v1.tag == "ref":
            obj = state.heap.get(v1.a[0])
            if obj is not None and obj.kind in ("list",) and len(obj.entries) == n and not starred and \
                    all(not e[0] and e[1] == "item" for e in obj.entries):
                return [e[2] for e in obj.entries]
        return [self.getitem(v1, const(i), state) for i in range(n)]

    def setattr(self, base, name, v, state, frame, node):
        for g, b in alts(base):
            fb = self.freeze(b, state)
            s = state
            if g:
                s = State(state.env, state.heap, state.over, state.pc + tuple(g))
            self.emit("setattr", s, fb, mk("tuple", (const(name), self.freeze(v, state))), node, frame)
            old = state.over.get((fb, name), mk("attr", fb, name))
            state.over[(fb, name)] = v if not g else phi([(g, v), ((neg(guards_cond(g)),), old)])

    def setitem(self, base, key, v, state, frame, node):
        for g, b in alts(base):
            if b.tag == "ref" and b.a[0] in state.heap:
                obj = state.heap[b.a[0]]
                rel = self.rel(state.pc, obj.pc) + tuple(x for x in g if x not in obj.pc)
                if obj.kind == "dict":
                    state.heap[b.a[0]] = Obj("dict", obj.entries + ((rel, "item", key, v),), obj.pc)
                    continue
            self.emit("mutate", state, b, mk("tuple", (const("__setitem__"), self.freeze(key, state), self.freeze(v, state))), node,
                      frame)
            fb = self.freeze(b, state)
            state.over[(fb, ("item", self.freeze(key, state)))] = v

    @staticmethod
    def rel(pc, base):
        n = 0
        for x, y in zip(pc, base):
            if x is not y:
                break
            n += 1
        return tuple(pc[n:])

    def s_Delete(self, node, state, frame):
        for t in node.targets:
            if isinstance(t, ast.Name):
                state.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, state, frame)
                key = self.ev_key(t.slice, state, frame)
                for g, b in alts(base):
                    if b.tag == "ref" and b.a[0] in state.heap and state.heap[b.a[0]].kind == "dict":
                        obj = state.heap[b.a[0]]
                        self.removed(b, key, tuple(g), state, frame, node)
                        rel = self.if_there(self.rel(state.pc, obj.pc) + tuple(g), key, b, state)
                        state.heap[b.a[0]] = Obj("dict", obj.entries + ((rel, "del", key, NONE),), obj.pc)
                    else:
                        self.emit("mutate", state, b, mk("tuple", (const("__delitem__"), self.freeze(key, state))), node, frame)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, state, frame)
                self.emit("mutate", state, base, mk("tuple", (const("__delattr__"), const(t.attr))), node, frame)
        return state

    def removed(self, base, key, guards, state, frame, node):
        """ Removing a key that is not there fails. """
        pc = norm_guards(state.pc + guards + (neg(self.compare("in", key, base, state)),))
        if pc is None or any(g.tag == "foreach" for g in pc):
            return
        had, state.pc = state.pc, pc
        self.emit("raise", state, mk("call", "builtin:KeyError", ()), None, node, frame)
        state.pc = had

    def if_there(self, guards, key, base, state):
        """ Removing a key that is there is removing it whatever. """
        c = self.compare("in", key, base, state)
        return tuple(x for x in guards if x is not c)

    @staticmethod
    def extremum(test, then, other):
        """ Keeping the greater (smaller) of two values is taking their maximum (minimum). """
        if not isinstance(test, ast.Compare) or len(test.ops) != 1 or \
                not isinstance(test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            return None
        a, b, x, y = (ast.dump(n) for n in (test.left, test.comparators[0], then, other))
        if a == b or {a, b} != {x, y}:
            return None
        less = isinstance(test.ops[0], (ast.Lt, ast.LtE))
        name = "max" if less == (x == b) else "min"
        call = ast.Call(ast.Name(name, ast.Load()), [other, then], [])
        return ast.fix_missing_locations(ast.copy_location(call, test))

    def s_If(self, node, state, frame):
        if len(node.body) == 1 and not node.orelse and isinstance(node.body[0], ast.Assign) and \
                len(node.body[0].targets) == 1 and isinstance(node.body[0].targets[0], ast.Name):
            name = ast.Name(node.body[0].targets[0].id, ast.Load())
            call = self.extremum(node.test, node.body[0].value, name)
            if call is not None:
                return self.stmt(ast.copy_location(ast.Assign(node.body[0].targets, call), node), state, frame)
        c = self.cond(self.ev(node.test, state, frame), state)
        if self.dead(state):
            return None
        base = state.pc
        s1 = self.with_guard(state, c)
        s2 = self.with_guard(state, neg(c))
        r = []
        if s1 is not None:
            x = self.block(node.body, s1, frame)
            if x is not None:
                r.append(x)
        if s2 is not None:
            x = self.block(node.orelse, s2, frame)
            if x is not None:
                r.append(x)
        if not r:
            return None
        return self.merge(base, r)

    def s_With(self, node, state, frame):
        for it in node.items:
            v = self.ev(it.context_expr, state, frame)
            self.emit("within", state, self.freeze(v, state), None, node, frame)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, state, frame)
        return self.block(node.body, state, frame)

    s_AsyncWith = s_With

    @staticmethod
    def asked(node):
        """ Looking something up and catching that it is not there is asking whether it is there first. """
        if len(node.handlers) != 1 or node.finalbody or len(node.body) != 1:
            return None
        st, h = node.body[0], node.handlers[0]
        if h.name:
            causes = [n.cause for b in h.body for n in ast.walk(b) if isinstance(n, ast.Raise)]
            if any(isinstance(n, ast.Name) and n.id == h.name and not any(n is c for c in causes)
                   for b in h.body for n in ast.walk(b)):
                return None
        if not isinstance(st, (ast.Return, ast.Assign)) or not isinstance(h.type, ast.Name):
            return None
        e = st.value

        def simple(x):
            return x is not None and all(isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.Tuple,
                                                        ast.Subscript))
                                         for n in ast.walk(x))
        test = None
        if h.type.id == "ValueError" and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                e.func.attr == "index" and len(e.args) == 1 and not e.keywords and simple(e.args[0]) and \
                simple(e.func.value):
            test = ast.Compare(e.args[0], [ast.In()], [e.func.value])
        elif h.type.id == "KeyError" and isinstance(e, ast.Subscript) and simple(e.value) and simple(e.slice):
            test = ast.Compare(e.slice, [ast.In()], [e.value])
        elif h.type.id == "AttributeError" and isinstance(e, ast.Attribute) and simple(e.value):
            test = ast.Call(ast.Name("hasattr", ast.Load()), [e.value, ast.Constant(e.attr)], [])
        if test is None:
            return None
        return ast.fix_missing_locations(ast.copy_location(ast.If(test, node.body + node.orelse, h.body), node))

    def s_Try(self, node, state, frame):
        asked = self.asked(node)
        if asked is not None:
            return self.s_If(asked, state, frame)
        if node.handlers and not node.finalbody and cannot_fail(node.body):
            return self.block(node.body + node.orelse, state, frame)
        base = state.pc
        pre = state.copy()
        nret, ne, nt = len(frame.returns), len(self.events), len(self.tried)
        body = self.block(node.body, state, frame)
        tried = [e.term for e in self.events[ne:] if e.kind in ("call", "mutate")] + self.tried[nt:]
        outs = []
        if body is not None and node.orelse:
            body = self.block(node.orelse, body, frame)
        if body is not None:
            outs.append(body)
        hid = f"{ast.unparse(node.body[0])[:60]}" if node.body else ""
        for h in node.handlers:
            names = "*" if h.type is None else ast.unparse(h.type)
            # state at the exception point: assigned variables may or may not have been updated
            hs = pre.copy()
            src = body if body is not None else (frame.returns[-1][0] if len(frame.returns) > nret else None)
            if src is not None:
                for k, obj in src.heap.items():
                    hs.heap.setdefault(k, obj)
            hs.pc = base + (mk("except", names, frame.func.qual, hid),)
            if h.name:
                hs.env[h.name] = mk("excvalue", names)
            loop = frame.loops[-1] if frame.loops else {}
            nr, nl = len(frame.returns), sum(map(len, loop.values()))
            nh = len(self.events)
            x = self.block(h.body, hs, frame)
            if x is not None:
                outs.append(x)
            if x is not None or len(frame.returns) > nr or sum(map(len, loop.values())) > nl:
                # what the body raises itself does not leave the function
                for e in [e for e in self.events[ne:nh] if e.kind == "raise" and self.catches(h.type, e.term)]:
                    self.events.remove(e)
                    tried.append(e.term)
                    nh -= 1
                if not tried and names in ("*", "Exception", "BaseException") and can_fail(node.body):
                    tried.append(const("statements"))
                self.emit("handled", pre, mk("tuple", tuple(dict.fromkeys(tried))), const(names), node, frame)
        if node.finalbody:
            self.emit("handled", pre, mk("tuple", tuple(dict.fromkeys(tried))), const("finally"), node, frame)
        if not outs:
            if node.finalbody:
                self.block(node.finalbody, pre.copy(), frame)
            return None
        out = self.merge(base, outs)
        if node.finalbody:
            out = self.block(node.finalbody, out, frame)
        return out

    s_TryStar = s_Try

    def catches(self, types, raised):
        """ Whether a handler of these types catches what is raised. """
        if types is None:
            return True
        if isinstance(types, ast.Tuple):
            return any(self.catches(t, raised) for t in types.elts)
        name = types.attr if isinstance(types, ast.Attribute) else types.id if isinstance(types, ast.Name) else None
        if name in ("Exception", "BaseException"):
            return True
        full = raised.a[0] if raised.tag in ("call", "new", "class", "ext") else None
        if not isinstance(full, str):
            return False
        cls = self.p.classes.get(full)
        if cls is not None:
            return any(c.name == name for c in cls.mro())
        last = full.replace(":", ".").split(".")[-1]
        one, other = getattr(builtins, last, None), getattr(builtins, name or "", None)
        return last == name or isinstance(one, type) and isinstance(other, type) and issubclass(one, other)

    def s_FunctionDef(self, node, state, frame):
        state.env[node.name] = self.closure(node, state, frame)
        return state

    s_AsyncFunctionDef = s_FunctionDef

    def closure(self, node, state, frame):
        f = Func(frame.func.module, node, cls=None, parent=frame.func)
        f.encl_cls = getattr(frame.func, "cls", None) or getattr(frame.func, "encl_cls", None)
        cid = len(self.closures)
        self.closures[cid] = (f, state, dict(frame.parent_env), frame)
        return mk("closure", cid)

    def s_Import(self, node, state, frame):
        for a in node.names:
            nm = a.asname or a.name.split(".")[0]
            state.env[nm] = self.symbol(self.p.resolve_dotted(a.name if a.asname else nm), nm)
        return state

    def s_ImportFrom(self, node, state, frame):
        base = node.module or ""
        if node.level:
            parts = frame.func.module.name.split(".")
            if not frame.func.module.is_package:
                parts = parts[:-1]
            parts = parts[:len(parts) - (node.level - 1)]
            base = ".".join(parts + ([node.module] if node.module else []))
        for a in node.names:
            state.env[a.asname or a.name] = self.symbol(self.p.resolve_dotted(f"{base}.{a.name}"), a.name)
        return state

    def s_Break(self, node, state, frame):
        frame.loops[-1]["break"].append(state)
        return None

    def s_Continue(self, node, state, frame):
        frame.loops[-1]["continue"].append(state)
        return None

    def s_Global(self, node, state, frame):
        return state

    def s_ClassDef(self, node, state, frame):
        state.env[node.name] = mk("unk", "localclass:" + node.name)
        return state

    def s_Match(self, node, state, frame):
        subj = self.ev(node.subject, state, frame)
        base = state.pc
        outs = []
        cur = state
        for case in node.cases:
            if cur is None:
                break
            c = TRUE
            s = cur.copy()
            pat = case.pattern
            if isinstance(pat, ast.MatchValue):
                c = self.compare("==", subj, self.ev(pat.value, s, frame), s)
            elif isinstance(pat, ast.MatchSingleton):
                c = self.compare("is", subj, const(pat.value), s)
            elif isinstance(pat, ast.MatchOr) and all(isinstance(x, ast.MatchValue) for x in pat.patterns):
                c = disj(*[self.compare("==", subj, self.ev(x.value, s, frame), s) for x in pat.patterns])
            elif isinstance(pat, ast.MatchAs) and pat.pattern is None:
                if pat.name:
                    s.env[pat.name] = subj
            else:
                c = mk("truth", mk("unk", "match:" + ast.unparse(pat)))
            if case.guard is not None:
                c = conj(c, self.cond(self.ev(case.guard, s, frame), s))
            s1 = self.with_guard(s, c)
            if s1 is not None:
                x = self.block(case.body, s1, frame)
                if x is not None:
                    outs.append(x)
            cur = self.with_guard(cur, neg(c))
        if cur is not None:
            outs.append(cur)
        if not outs:
            return None
        return self.merge(base, outs)

    # -- loops -----------------------------------------------------------------------------------------------------
    def iteration(self, coll, state):
        """ [(guards, element)]: the abstract iterations of a collection, in order. """
        out = []
        for g, c in alts(coll):
            self.walk(c, g, state)
            for g2, e in self._iter1(c, state):
                out.append((tuple(g) + tuple(g2), e))
        return out

    def walk(self, c, guards, state):
        """ Note what is iterated over, and whether it is known not to be None there. """
        if c.tag == "mcall" and c.a[1] in ("items", "keys", "values") and not c.a[2]:
            c = c.a[0]
        if c.tag not in ("param", "attr", "item"):
            return
        gs = tuple(state.pc) + tuple(self.walking) + tuple(guards)
        if any(g.tag == "foreach" and g.a[0] is c for g in gs):
            return
        cond = conj(*[g for g in gs if g.tag != "foreach"])
        none = {mk("cmp", op, *sorted((NONE, c), key=show)): TRUE for op in ("is", "==")}
        surely = cond is not TRUE and subst(cond, none) is FALSE
        self.walked.setdefault(c, set()).add(
            "tested" if surely else "there" if cond is not TRUE and
            subst(cond, {**none, mk("truth", c): FALSE}) is FALSE else "bare")

    def level(self, coll, state):
        n = 0
        for g in state.pc:
            if g.tag == "foreach" and g.a[0] is coll:
                n += 1
        return n

    def sym_iter(self, coll, state):
        coll = self.freeze(coll, state)
        k = self.level(coll, state)
        return mk("foreach", coll, k), mk("elem", coll, k), mk("idx", coll, k)

    def _iter1(self, c, state):
        c0 = c
        if c.tag == "global":
            content = self.global_content(c)
            if content is not None:
                c = content
        if c.tag == "const" and isinstance(c.a[1], str) and len(c.a[1]) <= 12:
            return [((), const(ch)) for ch in c.a[1]]
        if c.tag == "tuple":
            return [((), x) for x in c.a[0]]
        entries = None
        if c.tag == "ref" and c.a[0] in state.heap:
            obj = state.heap[c.a[0]]
            entries = obj.entries if obj.kind != "dict" else self.dict_entries(obj.entries)
            kind = obj.kind
        elif c.tag in ("list", "set", "dict"):
            entries, kind = c.a[0], c.tag
            if kind == "dict":
                entries = self.dict_entries(entries)
        if entries is not None and (any(e[1] in ("op", "front") for e in entries) or
                                    kind == "set" and any(e[1] == "splat" or e[0] or e[2].tag != "const"
                                                          for e in entries)):
            fe, el, _ = self.sym_iter(c, state)
            return [((fe,), el)]
        if entries is not None and len(entries) <= 64:
            out = []
            for e in entries:
                if e[1] == "splat":
                    v = e[-1]
                    for g2, x in self.iteration(v, state):
                        out.append((tuple(e[0]) + tuple(g2), x))
                elif e[1] == "item":
                    out.append((tuple(e[0]), e[2]))
            return out
        c = c0
        if c.tag == "mcall" and c.a[1] in ("items", "keys", "values") and not c.a[2]:
            base = c.a[0]
            fe, el, _ = self.sym_iter(base, state)
            self.distinct.add(fe)
            val = self.getitem(base, el, state)
            if c.a[1] == "items":
                return [((fe,), mk("tuple", (el, val)))]
            return [((fe,), el if c.a[1] == "keys" else val)]
        if c.tag == "bin" and c.a[0] == "+":
            return self.iteration(c.a[1], state) + self.iteration(c.a[2], state)
        c = backwards(c)
        if c.tag == "call" and c.a[0].startswith("ext:itertools."):
            its = self.combined(c.a[0][14:], [v for k, v in c.a[1] if k.isdigit()], state)
            if its is not None:
                return its
        if c.tag == "call" and c.a[0].startswith("builtin:"):
            fn = c.a[0][8:]
            args = [v for k, v in c.a[1]]
            if fn == "enumerate" and args and args[0].tag == "call" and args[0].a[0] == "builtin:zip":
                inner = self._iter1(args[0], state)
                fe = inner[0][0]
                first = fe[0].a[0]
                return [(g, mk("tuple", (mk("idx", first, self.level(first, state)), x))) for g, x in inner]
            if fn == "enumerate" and args:
                src = args[0]
                its = self.iteration(src, state)
                fe, el, ix = self.sym_iter(src, state)
                start = args[1] if len(args) > 1 else const(0)
                first = start.a[1] if start.tag == "const" and start.a[0] == "int" else None
                if its and all(not g for g, _ in its) and first is not None and \
                        not (len(its) == 1 and its[0][1] is el):
                    return [((), mk("tuple", (const(first + i), x))) for i, (g, x) in enumerate(its)]
                if len(its) > 1 and first is not None and all(not g for g, _ in its[:-1]) and \
                        [x.tag for x in its[-1][0]].count("foreach") == 1 and its[-1][0][0].tag == "foreach":
                    # fixed elements, then those of a loop
                    g = its[-1][0]
                    n = const(first + len(its) - 1)
                    ix = mk("idx", *g[0].a) if len(g) == 1 else \
                        mk("partial", const(0), g[0], mk("list", ((tuple(g), "item", const(1)),)))
                    return [((), mk("tuple", (const(first + i), x))) for i, (_, x) in enumerate(its[:-1])] + \
                        [(g, mk("tuple", (self.binop("+", n, ix, state), its[-1][1])))]
                if len(its) == 1 and len(its[0][0]) == 1:
                    fe1 = its[0][0][0]
                    if fe1.tag == "foreach":
                        ix = mk("idx", fe1.a[0], fe1.a[1])
                if len(args) > 1 and not is_const(args[1], 0):
                    ix = mk("bin", "+", ix, args[1])
                return [(g, mk("tuple", (ix, x))) for g, x in its]
            if fn == "zip" and args:
                cols = [self.iteration(a, state) for a in args]
                if all(cols) and all(all(not g for g, _ in col) for col in cols):
                    n = min(len(col) for col in cols)
                    return [((), mk("tuple", tuple(col[i][1] for col in cols))) for i in range(n)]
                gs, els = (), []
                for a in args:
                    fe, el, _ = self.sym_iter(a, state)
                    its = self.iteration(a, state)
                    if len(gs) == 1 and gs[0].tag == "foreach" and len(its) == 1 and its[0][1] is el and \
                            self.as_long(gs[0].a[0], fe.a[0], state):
                        el = self.getitem(a, mk("idx", *gs[0].a), state)
                    elif len(its) == 1:
                        g, el = its[0]
                        gs += tuple(x for x in g if x not in gs)
                    else:
                        gs += (fe,)
                    els.append(el)
                if all(x.tag == "foreach" for x in gs):
                    gs = tuple(sorted(gs, key=show))
                if sum(x.tag == "foreach" for x in gs) > 1:
                    gs += (mk("together", tuple(x for x in gs if x.tag == "foreach")),)
                return [(gs, mk("tuple", tuple(els)))]
            if fn == "range" and len(args) == 1 and args[0].tag == "call" and args[0].a[0] == "builtin:len":
                src = args[0].a[1][0][1]
                fe, el, ix = self.sym_iter(src, state)
                return [((fe,), ix)]
            if fn == "range" and len(args) == 2 and is_const(args[0]) and type(args[0].a[1]) is int:
                # range(k, k + len(x)): the positions of x, from k on
                stop = args[1]
                rest = [x for x in stop.a[1:] if x is not args[0]] if stop.tag == "bin" and stop.a[0] == "+" else []
                if len(rest) == 1 and rest[0].tag == "call" and rest[0].a[0] == "builtin:len" and len(rest[0].a[1]) == 1:
                    fe, el, ix = self.sym_iter(rest[0].a[1][0][1], state)
                    return [((fe,), self.binop("+", ix, args[0], state))]
                if len(rest) == 1 and args[0].a[1]:
                    # range(k, k + n): range(n), from k on
                    low = mk("call", "builtin:range", (("0", rest[0]),))
                    fe, el, ix = self.sym_iter(low, state)
                    return [((fe,), self.binop("+", el, args[0], state))]
            if fn == "range" and all(is_const(a) for a in args):
                vals = list(range(*[a.a[1] for a in args]))
                if len(vals) <= 16:
                    return [((), const(v)) for v in vals]
            if fn in ("list", "tuple", "iter") and len(args) == 1:
                return self.iteration(args[0], state)
            if fn in ("reversed", "sorted", "set", "frozenset") and args:
                its = self.iteration(args[0], state)
                fe, el, _ = self.sym_iter(args[0], state)
                if len(its) == 1 and its[0][0] and its[0][0][0].tag == "foreach":
                    # same elements, order differs
                    src = self.freeze(c, state)
                    k = self.level(src, state)
                    if its[0][1] is el:
                        return [((mk("foreach", src, k),), mk("elem", src, k))]
                    if fn in ("set", "frozenset"):
                        return its
                    a = args[0]
                    if a.tag == "mcall" and a.a[1] in ("items", "keys") and not a.a[2] and \
                            (fn == "reversed" or len(c.a[1]) == 1):
                        # pairs are ordered by their key
                        base = mk("call", c.a[0], ((c.a[1][0][0], a.a[0]),))
                        k = self.level(base, state)
                        el = mk("elem", base, k)
                        if a.a[1] == "keys":
                            return [((mk("foreach", base, k),), el)]
                        return [((mk("foreach", base, k),), mk("tuple", (el, self.getitem(a.a[0], el, state))))]
        fe, el, _ = self.sym_iter(c, state)
        return [((fe,), el)]

    def as_long(self, a, b, state):
        """ The path goes through a test that the two collections have the same size. """
        sizes = [mk("call", "builtin:len", (("0", x),)) for x in (a, b)]
        return any(g.tag == "cmp" and g.a[0] == "==" and set(g.a[1:]) == set(sizes) for g in state.pc)

    def combined(self, fn, args, state):
        """ Elements of an iterator of the itertools module. """
        if fn == "compress" and len(args) == 2:
            pairs = self.iteration(mk("call", "builtin:zip", (("0", args[0]), ("1", args[1]))), state)
            if all(x.tag == "tuple" and len(x.a[0]) == 2 for _, x in pairs):
                out = [(norm_guards(tuple(g) + (self.cond(x.a[0][1], state),)), x.a[0][0]) for g, x in pairs]
                return [(g, x) for g, x in out if g is not None]
        if fn == "chain":
            return [it for a in args for it in self.iteration(a, state)]
        if fn == "chain.from_iterable" and len(args) == 1:
            return [(tuple(g) + tuple(h), y) for g, x in self.iteration(args[0], state)
                    for h, y in self.iteration(x, state)]
        return None

    def by_position(self, node, frame):
        """ `for i in range(len(X))` using i only in X[i] is a loop over X. """
        it = node.iter
        if not (isinstance(node.target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and
                it.func.id == "range" and len(it.args) == 1 and isinstance(it.args[0], ast.Call) and
                isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == "len" and len(it.args[0].args) == 1):
            return node
        i, coll = node.target.id, it.args[0].args[0]
        if any(not isinstance(n, (ast.Name, ast.Attribute, ast.Load)) for n in ast.walk(coll)):
            return node
        what = ast.dump(coll)
        roots = {n.id for n in ast.walk(coll) if isinstance(n, ast.Name)}
        hits, inside = set(), {node.target}
        for x in node.body:
            for n in ast.walk(x):
                inside.add(n)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and \
                        n.slice.id == i and ast.dump(n.value) == what:
                    hits.add(n.slice)
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id in roots | {i}:
                    return node
        for n in (ast.walk(frame.func.node) if not getattr(node, "counted", False) else ()):
            if isinstance(n, ast.Name) and n.id == i and n not in hits and n not in inside and \
                    isinstance(n.ctx, ast.Load):
                return node
        if not hits or any(isinstance(n, ast.Name) and n.id == i and n not in hits and n is not node.target
                           for n in inside):
            return node
        new = f"{i}\0elem"

        class Swap(ast.NodeTransformer):
            def visit_Subscript(self, n):
                if n.slice in hits:
                    return ast.copy_location(ast.Name(new, ast.Load()), n)
                return self.generic_visit(n)
        import copy
        memo = {id(h): h for h in hits}
        body = [Swap().visit(copy.deepcopy(x, dict(memo))) for x in node.body]
        return ast.fix_missing_locations(ast.copy_location(
            ast.For(ast.Name(new, ast.Store()), coll, body, node.orelse), node))

    def s_For(self, node, state, frame):
        node = self.by_position(node, frame)
        coll = self.ev(node.iter, state, frame)
        if self.dead(state):
            return None
        base = state.pc
        breaks = []
        its = self.iteration(coll, state)
        for g, el in its:
            frame.loops.append({"break": [], "continue": []})
            symbolic = any(x.tag == "foreach" for x in g)
            pre = state
            if symbolic:
                def once(st, g=g, el=el):
                    gg = norm_guards(st.pc + tuple(g))
                    if gg is None:
                        return None, None
                    st.pc = gg
                    self.assign(node.target, el, st, frame)
                    return gg, self.block(node.body, st, frame)
                fes = [x for x in g if x.tag == "foreach"]
                head, folds = self.loop_head(node, pre, frame, once, fes, g)
                after = self.after
            else:
                head = pre.copy()
            nr, ne = len(frame.returns), len(self.events)
            head_pc = head.pc
            gg = norm_guards(head.pc + tuple(g))
            if gg is None:
                frame.loops.pop()
                continue
            head.pc = gg
            carried = head.copy() if symbolic else None
            self.assign(node.target, el, head, frame)
            if symbolic:
                self.open_loops.append((set(g), {oid: frozenset(o.entries) for oid, o in head.heap.items()}))
                self.nested += 1
            post = self.block(node.body, head, frame)
            if symbolic:
                self.open_loops.pop()
                self.nested -= 1
            rec = frame.loops.pop()
            ends = rec["continue"] + ([post] if post is not None else [])
            if symbolic:
                self.uncarry(carried, pre, ends + rec["break"] + [r for r, _ in frame.returns[nr:]], None, after)
            skip = pre.copy()
            outs = [skip] if g else []
            if g and ends:
                for s in ends:
                    self.settle(s, pre, gg)
                m = self.merge(gg, ends) if all(s.pc[:len(gg)] == gg for s in ends) else ends[0]
                m = m.copy()
                m.pc = gg if m.pc[:len(gg)] != gg else gg
                if symbolic:
                    self.uncarry(carried, pre, [], m, after)
                skip.pc = base + (neg(guards_cond(g)),) if self.rel(skip.pc, base) == () else skip.pc
                outs = [m, skip]
                state = self.loop_join(base if pre.pc[:len(base)] == base else pre.pc, pre, m,
                                       carried if symbolic else None)
                if symbolic:
                    for k, v in folds.items():
                        state.env[k] = v
            elif ends:
                state = self.merge(head_pc, ends) if len(ends) > 1 else ends[0]
            elif g:
                state = pre
            else:
                state = None
            for b in rec["break"]:
                breaks.append(b)
            marks = []
            if symbolic:
                stops = [x.pc[len(gg):] for x in rec["break"] + [r for r, _ in frame.returns[nr:]]
                         if x.pc[:len(gg)] == gg]
                n = len(gg)
                bstops = [x.pc[n:] for x in rec["break"] if x.pc[:n] == gg]
                rstops = [x.pc[n:] for x, _ in frame.returns[nr:] if x.pc[:n] == gg]
                if bstops or rstops:
                    if rstops:
                        rmark = mk("before", disj(*[guards_cond(x) for x in rstops]))
                        marks.append(rmark)
                        for b in rec["break"]:
                            if b.pc[:n] == gg:
                                b.pc = gg + (rmark,) + b.pc[n:]
                    if bstops:
                        bmark = mk("before", disj(*[guards_cond(x) for x in bstops]))
                        marks.append(bmark)
                        for i in range(nr, len(frame.returns)):
                            s, v = frame.returns[i]
                            if s.pc[:n] == gg:
                                s = s.copy()
                                s.pc = gg + (bmark,) + s.pc[n:]
                                frame.returns[i] = (s, v)
                    if not self.mute:
                        mark = mk("before", disj(*[guards_cond(x) for x in bstops + rstops]))
                        for e in self.events[ne:]:
                            if e.kind == "raise" and e.pc[:n] == gg:
                                e.pc = gg + (mark,) + e.pc[n:]
                if stops:
                    self.cut_short(gg, disj(*[guards_cond(x) for x in stops]), pre, ne,
                                   [x for x in [state] + rec["break"] + [r for r, _ in frame.returns[nr:]]
                                    if x is not None])
            # no early exit happened: strengthen the path condition
            if symbolic and state is not None:
                conds = []
                for s in [r for r, _ in frame.returns[nr:]] + rec["break"]:
                    if s.pc[:len(pre.pc)] == pre.pc:
                        conds.append(guards_cond([x for x in s.pc[len(pre.pc):] if x not in marks]))
                if not self.mute:
                    for e in self.events[ne:]:
                        if e.kind == "raise" and e.pc[:len(pre.pc)] == pre.pc and \
                                not any(x.tag == "except" for x in e.pc[len(pre.pc):]):
                            conds.append(guards_cond(e.pc[len(pre.pc):]))
                for c in conds:
                    pc = norm_guards(state.pc + (neg(c),))
                    if pc is not None:
                        state.pc = pc
            if state is None:
                break
        if state is not None and node.orelse:
            state = self.block(node.orelse, state, frame)
        if breaks:
            cand = ([state] if state is not None else []) + breaks
            fix = []
            for s in cand:
                if s.pc[:len(base)] != base:
                    s = s.copy()
                    s.pc = base
                fix.append(s)
            state = self.merge(base, fix)
        return state

    s_AsyncFor = s_For

    def cut_short(self, gg, stop, pre, ne, states):
        """ A loop left early: what an iteration does happens only when no earlier iteration left the loop. """
        mark = mk("before", stop)
        n = len(gg)
        last = next(g for g in reversed(gg) if g.tag == "foreach")

        def guards(g):
            if last in g and mark not in g:
                i = g.index(last) + 1
                return tuple(g[:i]) + (mark,) + tuple(g[i:])
            return g
        if not self.mute:
            for e in self.events[ne:]:
                if e.pc[:n] == gg and e.kind != "raise":
                    e.pc = e.pc[:n] + (mark,) + e.pc[n:]
        for s in states:
            for oid, obj in list(s.heap.items()):
                old = pre.heap.get(oid)
                if old is None or old.entries == obj.entries:
                    continue
                keep = set(old.entries)
                s.heap[oid] = Obj(obj.kind, tuple(e if e in keep else (guards(e[0]),) + tuple(e[1:])
                                                  for e in obj.entries), obj.pc)
            for k, v in list(s.over.items()):
                if pre.over.get(k) is not v and v.tag == "phi":
                    s.over[k] = mk("phi", tuple((guards(g), x) for g, x in v.a[0]))

    def settle(self, s, pre, gg):
        """ Conditions stored in variables whose truth the path decides. """
        known = set(s.pc[len(gg):]) if s.pc[:len(gg)] == gg else ()
        if known:
            for k, v in s.env.items():
                if pre.env.get(k) is not v and v.tag in ("cmp", "isinst", "exists", "not", "truth", "and", "or"):
                    if v in known:
                        s.env[k] = TRUE
                    elif neg(v) in known or neg(v).tag == "and" and set(neg(v).a[0]) <= known:
                        s.env[k] = FALSE

    def probe(self, pre, frame, once):
        """ One iteration analysed without recording anything: (guards, merged end state or None, what it read). """
        self.mute += 1
        self.nested += 1
        nr, saved, self.seen = len(frame.returns), self.seen, []
        try:
            head = pre.copy()
            frame.loops.append({"break": [], "continue": []})
            gg, post = once(head)
            rec = frame.loops.pop()
            ends = rec["continue"] + ([post] if post is not None else [])
            seen = self.seen
            for x in ends + rec["break"] + [r for r, _ in frame.returns[nr:]]:
                seen.extend(x.pc)
            for x in rec["break"]:
                seen.extend(v for k, v in x.env.items() if head.env.get(k) is not v and pre.env.get(k) is not v)
            seen.extend(v for _, v in frame.returns[nr:])
        finally:
            self.mute -= 1
            self.nested -= 1
            del frame.returns[nr:]
            self.seen = saved
        if saved is not None:
            saved.extend(seen)
        if gg is None or not ends:
            return gg, None, seen
        return gg, ends[0] if len(ends) == 1 else self.merge(gg, [self.rebase(x, gg) for x in ends]), seen

    def loop_head(self, node, pre, frame, once, fes, g):
        """ State at the loop head: joins what a previous iteration may have left; and the values after the loop of
        the variables that accumulate. once(state) analyses an iteration. """
        head = pre.copy()
        folds, self.after = {}, {}
        gg, m, seen = self.probe(pre, frame, once)
        if m is None:
            return head, folds
        loaded = self.loaded(node)
        vs, syms, eaten, flags, built = {}, {}, set(), {}, {}
        top = pre
        for _ in range(4):
            more = False
            for k, v in m.env.items():
                old = pre.env.get(k)
                if old is not None and top.env.get(k) is not v and ("env", k) not in vs and k in loaded:
                    kind = self.rebound(v, old, pre, m)
                    if kind is None:
                        continue
                    if kind:
                        built["env", k] = kind
                    vs["env", k] = old
                    more = True
            for k, v in m.over.items():
                if top.over.get(k) is not v and ("over", k) not in vs and \
                        not any(isinstance(k[0], T) and iterates(k[0], fe) for fe in fes) and \
                        not any(fe in self.distinct and k[1] == ("item", mk("elem", *fe.a)) for fe in fes):
                    vs["over", k] = pre.over.get(k, self.initial(k))
                    more = True
            for oid, obj in m.heap.items():
                old = pre.heap.get(oid)
                if old is None:
                    continue
                if oid not in eaten and self.shrinks(top.heap[oid], obj):
                    eaten.add(oid)
                    vs["heap", oid] = mk("ref", oid)
                    more = True
                elif top.heap[oid].entries != obj.entries and ("heap", oid) not in vs:
                    keep = set(top.heap[oid].entries)
                    new = [e for e in obj.entries if e not in keep]
                    flag = next((e for e in new if self.is_shared(e)), None)
                    if flag is not None and oid not in flags:
                        flags[oid] = flag
                        head.heap[oid] = Obj(pre.heap[oid].kind, (flag,) + pre.heap[oid].entries, pre.heap[oid].pc)
                        more = True
                    if flag is None or len(new) > 1:
                        vs["heap", oid] = mk("ref", oid)
                        more = True
            if not more:
                break
            for i, k in enumerate(vs):
                if k not in syms:
                    syms[k] = mk("sym", self.nested, i, *(() if k[0] == "heap" else ("text",) if self.is_text(vs[k]) else
                                                          ("bool",) if vs[k] in (TRUE, FALSE) else ()))
            top = pre.copy()
            for oid in flags:
                top.heap[oid] = head.heap[oid]
            for (kind, k), sym in syms.items():
                if kind == "env":
                    top.env[k] = self.holding(built.get((kind, k)), sym, top, gg)
                elif kind == "over":
                    top.over[k] = sym
                else:
                    top.heap[k] = self.grown(head.heap[k], sym, k in eaten)
            gg, m, seen = self.probe(top, frame, once)
            if m is None:
                return head, folds
        if not vs:
            return head, folds
        back = {s: k for k, s in syms.items()}
        allsyms = set(back)
        steps, bare = {}, {}
        for k, sym in syms.items():
            if k[0] == "env":
                steps[k] = m.env.get(k[1], sym)
            elif k[0] == "over":
                steps[k] = m.over.get(k[1], sym)
            else:
                obj, start = m.heap[k[1]], top.heap[k[1]]
                es = self.dict_entries(obj.entries) if obj.kind == "dict" else obj.entries
                if k[1] not in eaten:
                    keep = set(start.entries)
                    es = [e for e in es if e not in keep and not (e[1] == "del" and obj.kind == "dict")]
                steps[k] = mk(obj.kind, tuple(es))
            steps[k] = self.freeze(steps[k], m)
            if k in built:
                # left as it is
                steps[k] = subst(steps[k], {mk(built[k], ((((), "splat") + ((NONE,) if built[k] == "dict" else ()) +
                                                           (sym,)),)): sym})
        # accumulators
        known = {}
        todo = [k for k in syms if k[0] == "env" and g is not None]
        while todo:
            solved = []
            for k in todo:
                end = subst(steps[k], known) if known else steps[k]
                r = self.accumulator(vs[k], syms[k], end, g, gg, allsyms, pre, m)
                if r is not None:
                    folds[k[1]] = r[1]
                    solved.append(k)
                    if r[0] is not None:
                        head.env[k[1]] = r[0]
                        known[syms[k]] = r[0]
            todo = [k for k in todo if k not in solved] if any(syms[k] in known for k in solved) else []
        rest = {k: subst(v, known) if known else v for k, v in steps.items() if syms[k] not in known}
        # what is the same after every iteration
        again = mk("earlier", *fes[:1])
        for k in list(rest):
            v = rest[k]
            if k[0] != "heap" and v.tag != "phi" and not self.has_ref(v) and \
                    not any(iterates(v, fe) for fe in fes) and not allsyms & subterms(v):
                c = phi([((neg(again),), vs[k]), ((again,), v)])
                (head.env if k[0] == "env" else head.over)[k[1]] = self.holding(built.get(k), c, head, gg)
                known[syms[k]] = c
                del rest[k]
        if known:
            rest = {k: subst(v, known) for k, v in rest.items()}
        # what nothing reads
        read = set()
        for x in seen:
            read |= subterms(x)
        for k, v in m.env.items():
            if ("env", k) not in syms and top.env.get(k) is not v:
                read |= subterms(v)
        for k, v in m.over.items():
            if ("over", k) not in syms and top.over.get(k) is not v:
                read |= subterms(v)
        for oid, obj in m.heap.items():
            if oid not in pre.heap:
                read |= subterms(obj.entries)
        for k, v in steps.items():
            sym = syms[k]
            if k[0] == "heap" and k[1] in eaten:
                read.add(sym)
                continue
            for h, x in alts(v):
                read |= subterms(h)
                if x is not sym:
                    read |= subterms(x)
        rest = {k: v for k, v in rest.items() if syms[k] in read and (k[0] != "heap" or v.a[0])}
        names = self.named(rest, vs, syms, pre)
        steps = {k: subst(v, {syms[j]: names[j] for j in names}) for k, v in rest.items()}
        by = {names[k]: k for k in names}
        for k in rest:
            group, todo = set(), [k]
            while todo:
                j = todo.pop()
                if j in group:
                    continue
                group.add(j)
                todo += [by[x] for x in subterms(steps[j]) if x in by]
            eqs = tuple(sorted(((names[j], self.freeze(vs[j], pre), steps[j]) for j in group), key=lambda x: show(x[0])))
            val = mk("fix", tuple(fes), names[k], eqs)
            if k[0] == "env":
                head.env[k[1]] = self.holding(built.get(k), val, head, gg)
            elif k[0] == "over":
                head.over[k[1]] = val
            else:
                head.heap[k[1]] = self.grown(head.heap[k[1]], val, k[1] in eaten)
                if k[1] in eaten:
                    self.after[k[1]] = Obj(pre.heap[k[1]].kind, self.grown(pre.heap[k[1]], mk("after", val), True).entries,
                                           pre.heap[k[1]].pc)
        return head, folds

    @staticmethod
    def shrinks(old, new):
        """ Something may have been taken out of a list, or its order changed. """
        if old.kind == "dict" or old is new:
            return False
        keep = set(new.entries)
        return any(e not in keep for e in old.entries) or \
            any(e[1] == "op" and is_const(e[2]) and e[2].a[1] in ("pop", "remove", "discard") for e in new.entries
                if e not in old.entries)

    @staticmethod
    def grown(obj, what, eaten=False):
        e = ((), "splat", NONE, what) if obj.kind == "dict" else ((), "splat", what)
        return Obj(obj.kind, ((e,) if eaten else obj.entries + (e,)), obj.pc)

    def named(self, steps, vs, syms, pre):
        """ Names of recurrent variables that do not depend on how they are called. """
        anon = {s: mk("sym", "any") for s in syms.values()}
        names = {}
        for kind in ("place", "value"):
            ks = [k for k in steps if (k[0] == "heap") == (kind == "place")]
            if len(ks) > 1:
                ks.sort(key=lambda k: (show(self.freeze(vs[k], pre)), show(subst(steps[k], anon))))
            for i, k in enumerate(ks):
                names[k] = f"{kind}{i}" if i else kind
        return {k: mk("sym", self.nested, n, *syms[k].a[2:]) for k, n in names.items()}

    @staticmethod
    def loaded(node):
        """ Variables that the loop reads, or whose truth it sets. """
        out = set()
        for s in node.body + ([node.test] if isinstance(node, ast.While) else []):
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    out.add(n.id)
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                    out.add(n.target.id)
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool):
                    out.update(x.id for x in n.targets if isinstance(x, ast.Name))
        return out

    def accumulator(self, init, sym, end, g, gg, syms, pre, m):
        """ (value during the loop, value after it) of a variable that one iteration turns from sym into end. """
        if end is sym:
            return None
        n = len(gg)
        if init is TRUE or init is FALSE:
            c = self.cond(end, m)
            s = mk("truth", sym)
            hi, lo = subst(c, {s: TRUE}), subst(c, {s: FALSE})
            if any(x in syms for x in subterms(hi) | subterms(lo)):
                return None
            if init is FALSE and hi is TRUE:
                return None, phi([(tuple(g) + (lo,), TRUE), ((), FALSE)])
            if init is TRUE and lo is FALSE:
                return None, phi([(tuple(g) + (neg(hi),), FALSE), ((), TRUE)])
            return None
        if is_const(init) and init.a[1] is None:
            return None
        text = self.is_text(init)
        entries = []
        for h, v in alts(end):
            if any(x in syms for x in subterms(h)):
                return None
            adds = self.addends(v, sym, text)
            if adds is None or any(x in syms for k, a in adds for y in k + (a,) for x in subterms(y)):
                return None
            entries += [(tuple(g) + tuple(h) + k, "item", self.freeze(a, m)) for k, a in adds]
        if not entries:
            return None
        if not text and len(entries) == 1 and not alts(end)[0][0] and is_const(entries[0][2], 1) and len(g) == 1:
            fe = g[0]
            during = mk("idx", *fe.a)
            size = mk("call", "builtin:len", (("0", fe.a[0]),))
            if is_const(init, 0):
                return during, size
            return self.binop("+", during, init, pre), self.binop("+", size, init, pre)
        spread = []
        for e in entries:
            v = e[2]
            if not text and v.tag == "call" and v.a[0] == "builtin:sum" and len(v.a[1]) == 1 and \
                    v.a[1][0][1].tag == "list":
                spread += [(e[0] + tuple(x[0]),) + tuple(x[1:]) for x in v.a[1][0][1].a[0]]
            elif text and v.tag == "join" and is_const(v.a[0], "") and v.a[1].tag == "list":
                spread += [(e[0] + tuple(x[0]),) + tuple(x[1:]) for x in v.a[1].a[0]]
            else:
                spread.append(e)
        content = mk("list", tuple(spread))
        if text:
            total = mk("join", const(""), content)
            after = total if is_const(init, "") else self.mkstr(self.strparts(init) + self.strparts(total))
        else:
            total = mk("call", "builtin:sum", (("0", content),))
            after = total if is_const(init, 0) else mk("bin", "+", self.freeze(init, pre), total)
        return mk("partial", init, g[0], content), after

    def is_text(self, v):
        if v.tag == "phi":
            return all(self.is_text(x) for _, x in v.a[0])
        return v.tag in ("str", "join") or is_const(v) and isinstance(v.a[1], str) or \
            v.tag == "sym" and v.a[-1] == "text" or v.tag in ("call", "mcall", "param") and self.typed_as(v, ("str",))

    def addends(self, v, sym, text):
        """ What is added to sym to give v, in order, each with the conditions under which it is. """
        if v is sym:
            return []
        if v.tag == "phi":
            out = []
            for h, w in v.a[0]:
                adds = self.addends(w, sym, text)
                if adds is None:
                    return None
                out += [(tuple(h) + k, a) for k, a in adds]
            return out
        if v.tag == "str" and text:
            parts = v.a[0]
            if isinstance(parts[0], tuple) and not parts[0][2]:
                xs = self.addends(parts[0][1], sym, text)
                if xs is None:
                    return None
                rest = parts[1:]
                if len(rest) == 1 and isinstance(rest[0], tuple) and not rest[0][2]:
                    return xs + [((), rest[0][1])]
                return xs + [((), self.mkstr(rest))]
            return None
        if v.tag == "bin" and v.a[0] == "+":
            xs = self.addends(v.a[1], sym, text)
            if xs is not None:
                return xs + [((), v.a[2])]
            if not text:
                xs = self.addends(v.a[2], sym, text)
                if xs is not None:
                    return xs + [((), v.a[1])]
        return None

    def uncarry(self, head, pre, states, end=None, after=None):
        """ Remove what the loop head added once the body has been analysed. """
        for oid, old in pre.heap.items():
            h = head.heap.get(oid)
            if h is None or h is old:
                continue
            if oid in (after or {}):
                if end is not None:
                    end.heap[oid] = after[oid]
                continue
            extra = {e for e in set(h.entries) - set(old.entries) if e[1] == "splat" and e[-1].tag == "fix"}
            if not extra:
                continue
            for s in states:
                obj = s.heap.get(oid)
                if obj is not None and any(e in extra for e in obj.entries):
                    s.heap[oid] = Obj(obj.kind, tuple(e for e in obj.entries if e not in extra), obj.pc)

    def holding(self, kind, v, state, gg):
        """ A container of an iteration with what v holds. """
        if not kind:
            return v
        ref = self.alloc(state, kind, (((), "splat") + ((NONE,) if kind == "dict" else ()) + (v,),))
        state.heap[ref.a[0]] = Obj(kind, state.heap[ref.a[0]].entries, gg)
        return ref

    @staticmethod
    def rebound(v, old, pre, post):
        """ Kind of the container an iteration builds anew for a variable, "" for another value, None when it is only
        filled. """
        refs = [x for _, x in alts(v) if x.tag == "ref"]
        fresh = [x for x in refs if x.a[0] not in pre.heap and x.a[0] in post.heap]
        if fresh:
            return post.heap[fresh[0].a[0]].kind
        if old.tag == "ref":
            return pre.heap[old.a[0]].kind if not refs and old.a[0] in pre.heap else None
        return None if v.tag == "ref" else ""

    @staticmethod
    def is_refval(v):
        return v.tag == "ref"

    def loop_join(self, base, pre, post, head=None):
        """ After a symbolic loop: each variable is the last iteration's value or the previous one. """
        out = pre.copy()
        extra = post.pc[len(pre.pc):] if post.pc[:len(pre.pc)] == pre.pc else post.pc
        loop = next((x for x in extra if x.tag == "foreach"), None)

        def last(v, old):
            """ The last iteration decides, when iterations may give different values. """
            vs = [x for _, x in alts(v) if x is not old]
            if loop is not None and (len(vs) > 1 or any(iterates(x, loop) for x in vs) or
                                     any(x.tag == "ref" and x.a[0] not in pre.heap for y in vs for x in subterms(y))):
                return tuple(extra) + (mk("last", loop),)
            return extra

        def moved(v, had, old):
            """ Without the alternatives where the iteration changes nothing. """
            if had is None or had is old or had.tag != "fix":
                return v
            if v is had:
                return old
            left = [(g, x) for g, x in alts(v) if x is not had]
            return phi(left) if len(left) == len(alts(v)) else mk("phi", tuple(left))
        for k, v in post.env.items():
            old = pre.env.get(k)
            if old is not None and head is not None:
                v = moved(v, head.env.get(k), old)
            if old is v:
                continue
            out.env[k] = phi([(last(v, old), v), ((), old if old is not None else UNBOUND)])
        for k, v in post.over.items():
            old = pre.over.get(k, self.initial(k))
            if head is not None:
                v = moved(v, head.over.get(k), old)
            if old is v:
                continue
            if loop is not None and isinstance(k[0], T) and iterates(k[0], loop) and \
                    sum(1 for x in extra if x.tag == "foreach") == 1:
                # something of the element of the iteration
                c = conj(*[x for x in extra if x.tag != "foreach"])
                out.over[k] = v if c is TRUE else phi([((c,), v), ((neg(c),), old)])
            else:
                out.over[k] = phi([(last(v, old), v), ((), old)])
        for oid, obj in post.heap.items():
            out.heap[oid] = obj
        return out

    def counted(self, node, state, frame):
        """ `while C and i < len(X): ...; i += 1` from i = 0 is a loop over the positions of X left once C fails. """
        tests = node.test.values if isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And) \
            else [node.test]
        hit = None
        for t in tests:
            if isinstance(t, ast.Compare) and len(t.ops) == 1:
                a, op, b = t.left, t.ops[0], t.comparators[0]
                if isinstance(op, ast.Gt):
                    a, b = b, a
                elif not isinstance(op, (ast.Lt, ast.NotEq)):
                    continue
                if isinstance(a, ast.Name) and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and \
                        b.func.id == "len" and len(b.args) == 1 and is_const(state.env.get(a.id, NONE), 0):
                    hit = t, a.id, b
                    break
        if hit is None or node.orelse:
            return None
        test, i, size = hit
        steps = [k for k, x in enumerate(node.body) if isinstance(x, ast.AugAssign) and
                 isinstance(x.op, ast.Add) and isinstance(x.target, ast.Name) and x.target.id == i and
                 isinstance(x.value, ast.Constant) and x.value.value == 1]
        if len(steps) != 1:
            return None
        step = node.body[steps[0]]
        inside = {n for x in ast.walk(node) for n in [x]}
        stored = {n.id for n in inside if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and
                  n is not step.target}
        used = {n.id for n in ast.walk(size) if isinstance(n, ast.Name)}
        if i in stored or used & stored or any(isinstance(n, ast.Continue) for n in inside) or \
                any(isinstance(n, ast.Call) for n in ast.walk(size) if n is not size):
            return None
        after = node.body[steps[0] + 1:]
        if any(isinstance(n, ast.Name) and n.id == i for x in after for n in ast.walk(x)):
            return None
        if any(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Load) and n not in inside
               for n in ast.walk(frame.func.node)):
            return None
        body = [x for x in node.body if x is not step]
        rest = [t for t in tests if t is not test]
        if rest:
            c = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
            leave = ast.If(ast.UnaryOp(ast.Not(), c), [ast.Break()], [])
            self.mute += 1
            first = self.cond(self.ev(c, state.copy(), frame), state)
            self.mute -= 1
            body = body + [leave] if first is TRUE else [leave] + body
        loop = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name("range", ast.Load()), [size], []), body or
                       [ast.Pass()], [])
        loop.counted = True
        return ast.fix_missing_locations(ast.copy_location(loop, node))

    @staticmethod
    def until(node):
        """ `while True: A; if c: break; B` is `again = True; while again: again = False; A; if not c: B; again = True`. """
        if not (isinstance(node.test, ast.Constant) and node.test.value) or node.orelse:
            return None

        def exits(n):
            if isinstance(n, (ast.Break, ast.Continue)):
                return 1
            if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                return sum(exits(x) for x in getattr(n, "orelse", []) if isinstance(n, (ast.For, ast.While)))
            return sum(exits(x) for x in ast.iter_child_nodes(n))
        hits = [i for i, x in enumerate(node.body) if isinstance(x, ast.If) and not x.orelse and
                len(x.body) == 1 and isinstance(x.body[0], ast.Break)]
        if len(hits) != 1 or sum(exits(x) for x in node.body) != 1:
            return None
        i = hits[0]

        def again(v):
            return ast.Assign([ast.Name("\0again", ast.Store())], ast.Constant(v))
        go = ast.If(ast.UnaryOp(ast.Not(), node.body[i].test), node.body[i + 1:] + [again(True)], [])
        new = ast.While(ast.Name("\0again", ast.Load()), [again(False)] + node.body[:i] + [go], [])
        return ast.fix_missing_locations(ast.copy_location(new, node))

    def s_While(self, node, state, frame):
        loop = self.counted(node, state, frame)
        if loop is not None:
            return self.s_For(loop, state, frame)
        if not hasattr(node, "again"):
            node.again = self.until(node)
        loop = node.again
        if loop is not None:
            state.env["\0again"] = TRUE
            out = self.s_While(loop, state, frame)
            if out is not None:
                out.env.pop("\0again", None)
            return out
        base = state.pc
        pre = state.copy()
        lid = mk("loop", self.while_ids.setdefault(id(node), len(self.while_ids)))
        fe = mk("foreach", lid, 0)

        def once(st):
            c = self.cond(self.ev(node.test, st, frame), st)
            if self.seen is not None:
                self.seen.append(c)
            st = self.with_guard(st, c)
            if st is None:
                return base, None
            st.pc = base + (fe,) + st.pc[len(base):]
            return base + (fe,), self.block(node.body, st, frame)
        if self.cond(self.ev(node.test, pre.copy(), frame), pre) is FALSE:
            return self.block(node.orelse, state, frame) if node.orelse else state
        head, _ = self.loop_head(node, pre, frame, once, [fe], None)
        after = self.after
        nr, ne = len(frame.returns), len(self.events)
        carried = head.copy()
        c = self.cond(self.ev(node.test, head, frame), head)
        frame.loops.append({"break": [], "continue": []})
        s1 = self.with_guard(head, c)
        post = None
        if s1 is not None:
            s1.pc = base + (fe,) + s1.pc[len(base):]
            self.nested += 1
            post = self.block(node.body, s1, frame)
            self.nested -= 1
        rec = frame.loops.pop()
        ends = rec["continue"] + ([post] if post is not None else [])
        self.uncarry(carried, pre, ends + rec["break"] + [r for r, _ in frame.returns[nr:]], None, after)
        gg = base + (fe,)
        stops = [x.pc[len(gg):] for x in rec["break"] + [r for r, _ in frame.returns[nr:]] if x.pc[:len(gg)] == gg]
        if stops and all(len(x) > (c is not TRUE) for x in stops):
            self.cut_short(gg, disj(*[guards_cond(x) for x in stops]), pre, ne,
                           ends + rec["break"] + [r for r, _ in frame.returns[nr:]])
        outs = []
        if c is not TRUE:
            ex = pre.copy()
            ex.pc = base
            if ends:
                m = ends[0] if len(ends) == 1 else self.merge(base, [self.rebase(s, base) for s in ends])
                m = self.rebase(m, base).copy()
                self.uncarry(carried, pre, [], m, after)
                if c is not TRUE and m.pc[:len(base) + 1] != base + (fe,):
                    m.pc = base + (fe, c)
                ex = self.loop_join(base, ex, m, carried)
                ex.pc = base
            outs.append(ex)
        for b in rec["break"]:
            outs.append(self.rebase(b, base))
        if not outs:
            return None
        out = self.merge(base, outs)
        if node.orelse:
            out = self.block(node.orelse, out, frame)
        return out

    @staticmethod
    def rebase(s, base):
        if s.pc[:len(base)] == base:
            return s
        s = s.copy()
        s.pc = base
        return s

    # -- heap ------------------------------------------------------------------------------------------------------
    def alloc(self, state, kind, entries):
        self.oid += 1
        state.heap[self.oid] = Obj(kind, tuple(entries), state.pc)
        return mk("ref", self.oid)

    def any_ref(self, v, state, kinds=("list", "dict", "set")):
        return any(x.tag == "ref" and x.a[0] in state.heap and state.heap[x.a[0]].kind in kinds for _, x in alts(v))

    @staticmethod
    def dict_entries(entries):
        """ Drop shadowed entries. """
        out = []
        for i, e in enumerate(entries):
            shadowed = False
            if e[1] in ("item", "del"):
                for later in entries[i + 1:]:
                    if later[1] in ("item", "del") and later[2] is e[2] and set(later[0]) <= set(e[0]):
                        shadowed = True
                        break
            if not shadowed and not (e[1] == "del" and not any(x[1] == "splat" for x in entries[:i])):
                out.append(e)
        return tuple(out)

    def freeze(self, v, state, seen=()):
        """ Replace heap references by their contents. """
        if isinstance(v, tuple):
            return tuple(self.freeze(x, state, seen) for x in v)
        if isinstance(v, frozenset):
            return frozenset(self.freeze(x, state, seen) for x in v)
        if not isinstance(v, T):
            return v
        if not self.has_ref(v):
            return v
        if v.tag == "ref":
            oid = v.a[0]
            obj = state.heap.get(oid)
            if obj is None or oid in seen:
                return mk("unk", "cyclic")
            entries = obj.entries if obj.kind != "dict" else self.dict_entries(obj.entries)
            if obj.kind in ("list", "dict") and len(entries) == 1 and entries[0][1] == "splat" and \
                    not entries[0][0] and entries[0][-1] in self.fresh:
                return entries[0][-1]
            fr = []
            for e in entries:
                for g, had in self.open_loops:
                    # an entry of the current iteration
                    if e[0] and e not in had.get(oid, (e,)):
                        e = (tuple(x for x in e[0] if x not in g),) + tuple(e[1:])
                fr.append((self.freeze(e[0], state, seen + (oid,)), e[1]) +
                          tuple(self.freeze(x, state, seen + (oid,)) for x in e[2:]))
            return mk(obj.kind, tuple(fr))
        na = tuple(self.freeze(a, state, seen) for a in v.a)
        if v.tag == "phi":
            return phi(list(na[0]))
        if v.tag == "and":
            return conj(*na[0])
        if v.tag == "or":
            return disj(*na[0])
        if v.tag == "not":
            return neg(na[0])
        return mk(v.tag, *na)

    _href = {}

    def has_ref(self, v):
        r = self._href.get(v)
        if r is None:
            r = any(x.tag == "ref" for x in subterms(v))
            self._href[v] = r
        return r

    # -- conditions ------------------------------------------------------------------------------------------------
    def cond(self, v, state):
        """ Truth value of v as a condition. """
        if v.tag == "const":
            return TRUE if v.a[1] else FALSE
        if v.tag in ("cmp", "not", "and", "or", "exists", "truth", "isinst"):
            return v
        if v.tag == "phi":
            return self.outcome(v, lambda x: self.cond(x, state))
        if v.tag in ("list", "dict", "set") or v.tag == "ref" and v.a[0] in state.heap:
            obj = state.heap[v.a[0]] if v.tag == "ref" else Obj(v.tag, v.a[0], ())
            es = self.dict_entries(obj.entries) if obj.kind == "dict" else obj.entries
            if any(e[1] == "op" and not is_const(e[2], "sort") and not is_const(e[2], "reverse") and not is_cut(e)
                   for e in es):
                return mk("truth", self.freeze(v, state))
            es = [e for e in es if e[1] != "op"]
            return disj(*[(guards_cond(e[0]) if e[1] in ("item", "front") else
                           conj(guards_cond(e[0]), self.cond(e[-1], state))) for e in es if e[1] != "del"])
        if v.tag == "tuple":
            return TRUE if v.a[0] else FALSE
        if v.tag == "str" and any(isinstance(p, str) and p for p in v.a[0]):
            return TRUE
        if v.tag in ("new", "class", "func", "closure"):
            known = self.typeof(v) if v.tag == "new" else None
            if v.tag == "new" and (known is None and v.a[0].tag == "classof" or known is not None and
                                   (known[0].find("__len__") or known[0].find("__bool__"))):
                return mk("truth", self.freeze(v, state))
            return TRUE
        if v.tag == "bin" and v.a[0] == "|":
            return disj(self.cond(v.a[1], state), self.cond(v.a[2], state))
        if v.tag == "bin" and v.a[0] == "&" and self.boolish(v.a[1]) and self.boolish(v.a[2]):
            return conj(self.cond(v.a[1], state), self.cond(v.a[2], state))
        if v.tag == "call" and v.a[0] == "builtin:len" and v.a[1]:
            return self.cond(v.a[1][0][1], state)
        if v.tag == "call" and v.a[0] == "builtin:bool" and v.a[1]:
            return self.cond(v.a[1][0][1], state)
        return mk("truth", self.freeze(v, state))

    @staticmethod
    def outcome(v, test):
        """ Condition under which the outcome of the choice v satisfies the test. """
        if any(x.tag == "foreach" for g, _ in v.a[0] for x in g):
            # iterations override the initial value (accumulator, or return inside a loop)
            true_, false_, init = [], [], []
            for g, x in v.a[0]:
                c = test(x)
                if not any(y.tag == "foreach" for y in g):
                    init.append(conj(*(tuple(g) + (c,))))
                    continue
                true_.append(guards_cond(tuple(g) + (c,)))
                false_.append(guards_cond(tuple(g) + (neg(c),)))
            return disj(*(true_ + [conj(*([disj(*init)] + [neg(x) for x in false_]))]))
        failures = {y for g, _ in v.a[0] for c in g if c.tag in ("except", "or", "not")
                    for y in subterms(c) if y.tag == "except"}
        out = []
        for g, x in v.a[0]:
            # the value of a handled failure overrides the one it would have had
            have = {y for c in g if failures for y in subterms(c) if y.tag == "except"}
            out.append(conj(*(tuple(g) + tuple(neg(y) for y in failures - have) + (test(x),))))
        return disj(*out)

    def boolish(self, v):
        """ v is a boolean whatever the path. """
        if v.tag == "phi":
            return all(self.boolish(x) for _, x in v.a[0])
        if v.tag == "truth" and v.a[0].tag in ("sym", "fix"):
            v = v.a[0]
        if v.tag in ("sym", "fix"):
            return (v if v.tag == "sym" else v.a[1]).a[-1] == "bool"
        return v.tag in ("cmp", "not", "and", "or", "exists", "isinst") or is_const(v, True) or is_const(v, False) or \
            (v.tag == "truth" and (v.a[0].tag == "call" and (v.a[0].a[0].startswith("builtin:") or
                                                             v.a[0].a[0][5:] in self.p.booleans()[0]) or
                                   v.a[0].tag == "mcall" and v.a[0].a[1] in self.p.booleans()[0] or
                                   v.a[0].tag == "attr" and v.a[0].a[1] in self.p.booleans()[1]))

    def typed_as(self, t, types, state=None):
        """ t is declared with one of the basic types, or known to be of one where it is used. """
        if t.tag == "attr" and t.a[1] == "name":
            return "str" in types
        if state is not None and any(g.tag == "isinst" and g.a[0] is t and g.a[1].tag == "ext" and g.a[1].a[0] in types
                                     for g in state.pc if isinstance(g, T)):
            return True
        if t.tag == "call" and t.a[0].startswith("func:"):
            f = self.p.funcs.get(t.a[0][5:])
            return f is not None and self.gives(f) in types
        if t.tag == "mcall":
            cands = self.p.method_index.get(t.a[1], [])
            return bool(cands) and all(self.gives(f) in types for f in cands)
        return t.tag == "param" and self.declared.get(t.a[0]) in types

    @staticmethod
    def gives(f):
        """ Declared type of what a function returns. """
        return f.node.returns.id if isinstance(f.node.returns, ast.Name) and not f.is_property else None

    def no_value(self, g, x, state):
        """ Condition under which the alternative x of a search is the outcome and is None. """
        if not any(y.tag == "foreach" for y in g):
            return conj(*(tuple(g) + (self.compare("is", x, NONE, state),)))
        if any(y.tag == "attr" and y.a[0] is x for c in g if c.tag != "foreach" for y in subterms(c)):
            return FALSE        # an attribute of it was read
        return None

    @staticmethod
    def is_type(t):
        return t.tag == "class" or t.tag == "ext" and (
            t.a[0] in BASIC_TYPES or t.a[0].startswith("collections.abc.") or t.a[0] in ("typing.Union", "typing.Any"))

    def compare(self, op, a, b, state):
        a, b = self.force(a), self.force(b)
        if op == "!=":
            return neg(self.compare("==", a, b, state))
        if op == "is not":
            return neg(self.compare("is", a, b, state))
        if op == "not in":
            return neg(self.compare("in", a, b, state))
        if op == ">":
            return self.compare("<", b, a, state)
        if op == ">=":
            return neg(self.compare("<", a, b, state))
        if op == "<=":
            return neg(self.compare("<", b, a, state))
        if a.tag == "phi" and len(a.a[0]) <= 6 and not any(x.tag == "foreach" for g, _ in a.a[0] for x in g):
            return self.outcome(a, lambda x: self.compare(op, x, b, state))
        if b.tag == "phi" and len(b.a[0]) <= 6 and not any(x.tag == "foreach" for g, _ in b.a[0] for x in g):
            return self.outcome(b, lambda x: self.compare(op, a, x, state))
        if op == "==" and (self.is_type(a) or self.is_type(b)):
            op = "is"
        if op == "==":
            # a text (number) is falsy when it is empty (zero)
            for x, y in ((a, b), (b, a)):
                if is_const(y, "") and (x.tag in ("str", "join") or self.typed_as(x, ("str",), state)) or \
                        y.tag == "const" and y.a[0] in ("int", "float") and y.a[1] == 0 and \
                        self.typed_as(x, ("int", "float"), state):
                    return neg(self.cond(x, state))
        if op == "is" and NONE in (a, b):
            other = b if a is NONE else a
            if other.tag == "phi" and len(other.a[0]) <= 6:
                if all(self.compare("is", x, NONE, state) in (TRUE, FALSE) for _, x in other.a[0]):
                    return self.outcome(other, lambda x: self.compare("is", x, NONE, state))
                cs = [self.no_value(g, x, state) for g, x in other.a[0]]
                if None not in cs:
                    return disj(*cs)
        if a.tag == "const" and b.tag == "const":
            try:
                r = {"==": lambda x, y: x == y, "<": lambda x, y: x < y, "is": lambda x, y: x is y or (x == y and type(x) is type(y)),
                     "in": lambda x, y: x in y}[op](a.a[1], b.a[1])
                return TRUE if r else FALSE
            except TypeError:
                pass
        if op in ("==", "is") and a is b and a.tag in ("class", "param", "attr"):
            return TRUE if op == "is" else mk("cmp", op, a, b)
        if op == "is" and (is_const(a, None) or is_const(b, None)):
            other = b if is_const(a, None) else a
            if other.tag == "item" and other.a[0].tag == "global":
                return FALSE        # module tables and caches hold values
            if other.tag in ("new", "tuple", "str", "join", "list", "dict", "set", "class", "func", "closure", "ref",
                             "cmp", "and", "or", "not", "truth", "isinst", "exists") or \
                    other.tag == "call" and other.a[0] in NEVER_NONE or self.is_type(other):
                return FALSE
        if op == "==":
            xs, ys = self.literal(a, state), self.literal(b, state)
            if xs is not None and ys is not None and (a.tag == "tuple") == (b.tag == "tuple"):
                if len(xs) != len(ys):
                    return FALSE
                if xs:
                    return conj(*[self.compare("==", x, y, state) for x, y in zip(xs, ys)])
            # len(x) == 0
            for x, y in ((a, b), (b, a)):
                if x.tag == "call" and x.a[0] == "builtin:len" and is_const(y, 0):
                    return neg(self.cond(x.a[1][0][1], state))
                if is_const(y, True) and self.boolish(x):
                    return self.cond(x, state)
                if is_const(y, False) and self.boolish(x):
                    return neg(self.cond(x, state))
        if op == "is":
            for x, y in ((a, b), (b, a)):
                if is_const(y, True) and self.boolish(x):
                    return self.cond(x, state)
                if is_const(y, False) and self.boolish(x):
                    return neg(self.cond(x, state))
        if op == "<":
            if b.tag == "call" and b.a[0] == "builtin:len" and is_const(a, 0):
                return self.cond(b.a[1][0][1], state)
            if a.tag == "call" and a.a[0] == "builtin:len" and is_const(b, 1):
                return neg(self.cond(a.a[1][0][1], state))
        if op == "in":
            bb = b
            if bb.tag == "global" and self.global_content(bb) is not None and \
                    self.global_content(bb).tag in ("list", "set", "dict", "tuple"):
                bb = self.global_content(bb)
            if bb.tag == "mcall" and bb.a[1] == "keys" and not bb.a[2]:
                return self.compare("in", a, bb.a[0], state)
            ents = None
            if bb.tag == "ref" and bb.a[0] in state.heap:
                obj = state.heap[bb.a[0]]
                ents = self.dict_entries(obj.entries) if obj.kind == "dict" else obj.entries
            elif bb.tag in ("list", "set", "dict"):
                ents = bb.a[0]
            elif bb.tag == "tuple":
                ents = [((), "item", x) for x in bb.a[0]]
            if ents is not None and len(ents) <= 16 and not any(e[1] == "op" and not is_cut(e) for e in ents):
                ops = []
                for e in ents:
                    if e[1] == "splat":
                        ops.append(guards_cond(tuple(e[0]) + (self.compare("in", a, e[-1], state),)))
                    elif e[1] in ("item", "front"):
                        ops.append(guards_cond(tuple(e[0]) + (self.compare("==", a, e[2], state),)))
                if not any(e[1] == "del" for e in ents):
                    return disj(*ops)
        fa, fb = self.freeze(a, state), self.freeze(b, state)
        if op in ("==", "is") and show(fb) < show(fa):
            fa, fb = fb, fa
        return mk("cmp", op, fa, fb)

    @staticmethod
    def literal(v, state):
        """ Elements of a tuple or list that is spelled out, or None. """
        if v.tag == "tuple":
            return v.a[0] if not any(x.tag == "star" for x in v.a[0]) else None
        if v.tag == "ref" and v.a[0] in state.heap and state.heap[v.a[0]].kind == "list":
            es = state.heap[v.a[0]].entries
            if all(not e[0] and e[1] == "item" for e in es):
                return [e[2] for e in es]
        return None

    def force(self, v):
        return v

    # -- expressions -----------------------------------------------------------------------------------------------
    def ev(self, node, state, frame):
        self.tick()
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            return mk("unk", type(node).__name__)
        v = m(node, state, frame)
        return v if v is not None else mk("unk", "none")

    def e_Constant(self, node, state, frame):
        return const(node.value)

    def e_Name(self, node, state, frame):
        return self.lookup(node.id, state, frame)

    def lookup(self, name, state, frame):
        if name in state.env:
            v = state.env[name]
            return self.narrow(v, state) if v.tag == "phi" else v
        if name in frame.parent_env:
            return frame.parent_env[name]
        return self.expand(self.symbol(self.p.resolve(frame.func.module, name), name), state)

    def expand(self, t, state):
        """ Constants that are not part of the vocabulary (or asked for) are seen through. """
        if t.tag != "global" or (t.a[0] in self.p.known_consts and t.a[0] not in self.inline_set) or \
                t in self.expanding:
            return t
        mod, _, nm = t.a[0].rpartition(".")
        m = self.p.modules.get(mod)
        if m is None or m.symbols.get(nm, ("",))[0] != "const" or nm in self.p.written_globals():
            return t
        return self.const_expr(t, m, m.symbols[nm][1], state)

    def const_expr(self, key, module, node, state):
        fr = Frame(Func(module, ast.parse("def _g(): pass").body[0]), None)
        self.expanding.append(key)
        saved, state.env = state.env, {}
        self.mute += 1
        try:
            return self.ev(node, state, fr)
        finally:
            self.mute -= 1
            state.env = saved
            self.expanding.pop()

    @staticmethod
    def narrow(v, state):
        """ Alternatives of v that the path condition excludes are dropped. """
        if not state.pc:
            return v
        pc = set(state.pc)
        ors = [x for x in state.pc if x.tag == "or"]
        live = [(g, x) for g, x in v.a[0] if not any(neg(y) in pc for y in g) and
                not (ors and g and conj(*ors, *[y for y in g if y.tag != "foreach"]) is FALSE)]
        if not live or len(live) == len(v.a[0]):
            return v
        if len(live) == 1 and not any(y.tag == "foreach" for y in live[0][0]):
            return live[0][1]
        return phi(live)

    def symbol(self, r, name):
        if r is None:
            return mk("ext", name)
        if r[0] == "func":
            return mk("func", r[1].qual)
        if r[0] == "class":
            return mk("class", r[1].qual)
        if r[0] == "module":
            return mk("module", r[1].name)
        if r[0] == "ext":
            return mk("ext", r[1])
        if r[0] == "builtin":
            return mk("ext", r[1])
        if r[0] == "const":
            _, module, node, nm = r
            if nm in self.p.written_globals():
                return mk("global", f"{module.name}.{nm}")
            if isinstance(node, ast.Constant):
                return const(node.value)
            if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant) and \
                    isinstance(node.op, ast.USub):
                return const(-node.operand.value)
            return mk("global", f"{module.name}.{nm}")
        return mk("ext", name)

    def global_content(self, term):
        """ Frozen literal content of a module constant, or None. """
        q = term.a[0]
        if q not in self._globals:
            self._globals[q] = None
            mod, _, nm = q.rpartition(".")
            m = self.p.modules.get(mod)
            if m is not None and nm in m.symbols and m.symbols[nm][0] == "const" and nm not in self.p.written_globals():
                node = m.symbols[nm][1]
                f = ast.parse("def _g(): pass").body[0]
                fr = Frame(Func(m, f), None)
                st = State({}, {}, {}, ())
                try:
                    saved = (getattr(self, "events", None), getattr(self, "mute", 0))
                    self.mute = getattr(self, "mute", 0) + 1
                    v = self.freeze(self.ev(node, st, fr), st)
                    self.mute -= 1
                    if v.tag in ("list", "dict", "set", "tuple", "const"):
                        self._globals[q] = v
                except Budget:
                    raise
        return self._globals[q]

    def e_Attribute(self, node, state, frame):
        base = self.ev(node.value, state, frame)
        if self.dead(state):
            return base
        return self.getattr(base, node.attr, state, frame, node)

    def getattr(self, base, name, state, frame, node=None):
        if base.tag == "phi":
            return phi([(g, self.getattr(b, name, state, frame, node)) for g, b in base.a[0]])
        fb = self.freeze(base, state) if self.has_ref(base) else base
        if (fb, name) in state.over:
            return state.over[(fb, name)]
        if base.tag == "module":
            m = self.p.modules[base.a[0]]
            r = self.p.resolve(m, name)
            if r is not None and r[0] != "builtin":
                return self.expand(self.symbol(r, name), state)
            if f"{m.name}.{name}" in self.p.modules:
                return mk("module", f"{m.name}.{name}")
            return mk("ext", f"{m.name}.{name}")
        if base.tag == "ext":
            if name == "__name__" and base.a[0] in TYPE_NAMES:
                return const(base.a[0])
            return mk("ext", f"{base.a[0]}.{name}")
        if name == "__class__":
            return self.classof(base)
        if base.tag == "class" and name in ("__name__", "__qualname__"):
            return const(base.a[0].rpartition(".")[2])
        c = self.typeof(base)
        if c is not None:
            f = c[0].find(name)
            if f is not None and f.is_property and self.inline_props and not self.stop(f) and \
                    (c[1] or not self.overridden(c[0], name)):
                v = self.inline(f, c[0] if c[1] else c[0], base, [], {}, None, None, state, frame, node)
                if v is not None:
                    return v
        elif base.tag not in ("const", "str", "ref", "tuple", "class", "func", "closure"):
            cands = [f for f in self.p.method_index.get(name, []) if f.is_property]
            if len(cands) == 1 and len(self.p.method_index.get(name, [])) == 1 and self.inline_props and \
                    name.startswith("_") and not self.stop(cands[0]) and name not in self.field_names():
                v = self.inline(cands[0], cands[0].cls, base, [], {}, None, None, state, frame, node)
                if v is not None:
                    return v
        if base.tag == "new":
            v = self.field_of_new(base, name)
            if v is not None:
                return v
        k = self.p.classes.get(base.a[0]) if base.tag == "class" else c[0] if c is not None else None
        if k is not None:
            owner, node_ = k.find_attr(name)
            if owner is not None and k.find(name) is None and name not in self.field_names() and \
                    name not in self.p.written_globals():
                q = f"{owner.qual}.{name}"
                if (q not in self.p.known_consts or q in self.inline_set) and q not in self.expanding:
                    return self.const_expr(q, owner.module, node_, state)
        return self.wrap(name, mk("attr", fb, name), state)

    def field_names(self):
        if not hasattr(self, "_fn"):
            self._fn = set()
            for m in self.p.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                        self._fn.add(n.attr)
        return self._fn

    def classof(self, base):
        if base.tag == "new" and base.a[0].tag == "class":
            return base.a[0]
        return mk("classof", base)

    def overridden(self, cls, name):
        return any(name in s.methods for s in cls.all_subclasses())

    def typeof(self, t):
        """ (Class, exact) or None. """
        if t in self.types:
            return self.types[t]
        r = None
        if t.tag == "new" and t.a[0].tag == "class":
            c = self.p.classes.get(t.a[0].a[0])
            r = (c, True) if c else None
        elif t.tag == "new" and t.a[0].tag == "classof":
            r = self.typeof(t.a[0].a[0])
        elif t.tag == "class":
            c = self.p.classes.get(t.a[0])
            r = (c, True) if c else None
        elif t.tag == "classof":
            r = self.typeof(t.a[0])
        elif t.tag == "attr":
            bt = self.typeof(t.a[0])
            if bt is not None:
                r = self.field_type(bt[0], t.a[1])
                if r is not None:
                    r = (r, False)
        elif t.tag == "elem":
            src = t.a[0]
            if src.tag == "attr":
                bt = self.typeof(src.a[0])
                if bt is not None:
                    e = self.field_type(bt[0], src.a[1], elem=True)
                    r = (e, False) if e else None
        self.types[t] = r
        return r

    def field_type(self, cls, name, elem=False):
        """ Static type of an instance attribute from annotations of constructors. """
        for c in cls.mro():
            if name in c.annots:
                return self.annot_class(c.module, c.annots[name], elem)
            init = c.methods.get("__init__")
            if init is None:
                continue
            ann = {n: a for n, _, _, a in init.params()}
            for s in ast.walk(init.node):
                if isinstance(s, (ast.Assign, ast.AnnAssign)):
                    targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr == name:
                            if isinstance(s, ast.AnnAssign):
                                return self.annot_class(c.module, s.annotation, elem)
                            v = s.value
                            if isinstance(v, ast.Name) and v.id in ann:
                                return self.annot_class(c.module, ann[v.id], elem)
                            if isinstance(v, ast.Call) and not elem:
                                r = self.p.resolve_expr(c.module, v.func)
                                if r and r[0] == "class":
                                    return r[1]
        return None

    def annot_class(self, module, node, elem=False):
        """ Class named by an annotation. """
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(node, ast.Subscript):
            head = ast.unparse(node.value).split(".")[-1]
            if head in ("Optional", "InstanceOf"):
                return self.annot_class(module, node.slice, elem)
            if elem and head in ("List", "list", "Sequence", "Iterable", "Set"):
                return self.annot_class(module, node.slice)
            return None
        if elem:
            return None
        r = self.p.resolve_expr(module, node) if isinstance(node, (ast.Name, ast.Attribute)) else None
        if r and r[0] == "class":
            return r[1]
        return None

    def field_of_new(self, t, name):
        """ Value of an attribute of a freshly built repository object. """
        if t.a[0].tag != "class":
            return None
        c = self.p.classes.get(t.a[0].a[0])
        if c is None:
            return None
        fm = self.fields(c)
        if name not in fm:
            return None
        mapping = {mk("param", k): v for k, v in t.a[1] if isinstance(k, str)}
        init = c.find("__init__")
        if init is not None:
            for pn, kind, d, _ in init.call_params():
                if mk("param", pn) not in mapping and kind in ("pos", "kwonly"):
                    if d is not None:
                        mapping[mk("param", pn)] = self.default_value(init, d)
        v = fm[name]
        if any(x.tag == "param" and x not in mapping for x in subterms(v)):
            return None
        return subst(v, mapping)

    def default_value(self, func, node):
        if isinstance(node, ast.Constant):
            return const(node.value)
        fr = Frame(Func(func.module, ast.parse("def _g(): pass").body[0]), None)
        st = State({}, {}, {}, ())
        return self.freeze(self.ev(node, st, fr), st)

    def fields(self, cls):
        """ attribute -> term over the constructor parameters, from __init__ along the MRO. """
        if cls.qual in self._fields:
            return self._fields[cls.qual]
        self._fields[cls.qual] = {}
        init = cls.find("__init__")
        if init is None:
            return {}
        sub = Flow(self.p, stop=lambda f: f.name != "__init__" and self.stop(f), depth=4, budget=8000)
        sub._fields = self._fields
        s = sub.run(init, cls)
        out = {}
        me = mk("param", "self")
        if s.state is not None:
            for (b, n), v in s.state.over.items():
                if b is me and isinstance(n, str):
                    out[n] = sub.freeze(v, s.state)
        self._fields[cls.qual] = out
        return out

    def e_Subscript(self, node, state, frame):
        base = self.ev(node.value, state, frame)
        key = self.ev_key(node.slice, state, frame)
        return self.getitem(base, key, state)

    def ev_key(self, node, state, frame):
        if isinstance(node, ast.Slice):
            p = [NONE if x is None else self.ev(x, state, frame) for x in (node.lower, node.upper, node.step)]
            return mk("slicekey", *p)
        return self.ev(node, state, frame)

    def getitem(self, base, key, state):
        if base.tag == "phi" and len(base.a[0]) <= 12:
            return phi([(g, self.getitem(b, key, state)) for g, b in base.a[0]])
        if key.tag == "phi" and base.tag == "ref" and base.a[0] in state.heap and state.heap[base.a[0]].kind == "dict":
            e = next(iter(reversed(state.heap[base.a[0]].entries)), None)
            if e is not None and e[1] == "item" and e[2] is key and all(x in state.pc for x in e[0]):
                return e[3]
        if key.tag == "phi" and base.tag in ("attr", "param", "global", "item"):
            stored = state.over.get((self.freeze(base, state), ("item", self.freeze(key, state))))
            if stored is not None:
                return stored
        if key.tag == "phi" and len(key.a[0]) <= 4 and not any(x.tag == "foreach" for g, _ in key.a[0] for x in g):
            return phi([(g, self.getitem(base, k, state)) for g, k in key.a[0]])
        fk = self.freeze(key, state)
        if base.tag == "tuple":
            if key.tag == "const" and isinstance(key.a[1], int) and -len(base.a[0]) <= key.a[1] < len(base.a[0]):
                return base.a[0][key.a[1]]
        b = base
        if b.tag == "global" and (b, ("item", fk)) not in state.over:
            content = self.global_content(b)
            if content is not None:
                if content.tag == "dict" and key.tag == "const":
                    for e in content.a[0]:
                        if e[1] == "item" and e[2] is key and not e[0]:
                            if e[3].tag in ("const", "class", "func", "tuple", "ext", "str"):
                                return e[3]
                            break
                elif content.tag in ("list", "tuple") and key.tag == "const":
                    es = [x[2] if content.tag == "list" else x for x in content.a[0]]
                    if isinstance(key.a[1], int) and -len(es) <= key.a[1] < len(es):
                        return es[key.a[1]]
        if b.tag == "ref" and b.a[0] in state.heap:
            obj = state.heap[b.a[0]]
            if obj.kind == "dict":
                v = self.dict_lookup(obj.entries, key, state, b)
                return self.narrow(v, state) if v.tag == "phi" else v
            if obj.kind == "list" and key.tag == "const" and isinstance(key.a[1], int) and \
                    not any(e[1] in ("op", "front") for e in obj.entries):
                es = obj.entries
                if len(es) == 1 and es[0][1] == "item" and len(es[0][0]) == 1 and es[0][0][0].tag == "foreach" and \
                        key.a[1] >= 0:
                    # of what each element gives
                    fe = es[0][0][0]
                    at = self.getitem(fe.a[0], key, state)
                    return subst(es[0][2], {mk("elem", *fe.a): at, mk("idx", *fe.a): key})
                if all(not e[0] and e[1] == "item" for e in es) and -len(es) <= key.a[1] < len(es):
                    return es[key.a[1]][2]
                if key.a[1] >= 0 and len(es) > key.a[1] and all(not e[0] and e[1] == "item" for e in es[:key.a[1] + 1]):
                    return es[key.a[1]][2]
                if es and key.a[1] == -1 and not es[-1][0] and es[-1][1] == "item":
                    return es[-1][2]
            if obj.kind == "list" and key.tag == "idx":
                pass
        if b.tag == "dict":
            v = self.dict_lookup(b.a[0], key, state, b)
            return self.narrow(v, state) if v.tag == "phi" else v
        fb = self.freeze(b, state)
        if (fb, ("item", fk)) in state.over:
            return state.over[(fb, ("item", fk))]
        if fk.tag == "idx" and fk.a[0] is fb:
            return mk("elem", fb, fk.a[1])
        if fb.tag == "call" and fb.a[0] in ("builtin:list", "builtin:tuple") and len(fb.a[1]) == 1 and \
                fk.tag == "slicekey":
            fb = fb.a[1][0][1]
        if fb.tag == "item" and fb.a[1].tag == "slicekey" and is_const(fk) and isinstance(fk.a[1], int) and \
                fk.a[1] >= 0:
            lo, hi, step = [x.a[1] if is_const(x) else x for x in fb.a[1].a]
            lo = 0 if lo is None else lo
            if step is None and isinstance(lo, int) and lo >= 0 and \
                    (hi is None or isinstance(hi, int) and hi > lo + fk.a[1]):
                return mk("item", fb.a[0], const(lo + fk.a[1]))
        return mk("item", fb, fk)

    def dict_lookup(self, entries, key, state, base, default=None):
        """ Value of base[key] from the entries (last first). """
        out = []
        neg_guards = ()
        fk = self.freeze(key, state)
        entries = list(self.dict_entries(entries))
        for i, e in reversed(list(enumerate(entries))):
            if e[1] == "splat":
                v = self.getitem(e[-1], key, state) if default is None else \
                    self.dict_get(e[-1], key, default, state)
                g = conj(guards_cond(e[0]), self.compare("in", key, e[-1], state))
                if g is FALSE:
                    continue
                out.append((neg_guards + (g,), v))
                neg_guards += (neg(g),)
                continue
            ek = self.freeze(e[2], state)
            if ek is fk or (ek.tag == "elem" and fk.tag == "elem" and ek is fk):
                g = e[0]
                if e[1] == "item":
                    out.append((neg_guards + tuple(g), e[3]))
                if not g or all(x.tag == "foreach" for x in g) and ek.tag == "elem" or all(x in state.pc for x in g):
                    neg_guards = None
                    break
                # of the same iteration
                g = tuple(x for x in g if x.tag != "foreach" or x not in state.pc or not iterates(ek, x))
                neg_guards += (neg(guards_cond(g)),)
            elif ek.tag == "const" and fk.tag == "const":
                continue
            else:
                same = self.compare("==", key, e[2], state)
                if same is FALSE:
                    continue
                if e[1] == "item" and any(x.tag == "foreach" for x in e[0]) and \
                        all(y[1] == "item" for y in entries[:i]):
                    # an entry per element: whichever has the key
                    part = mk("dict", self.freeze(tuple(entries[:i + 1]), state))
                    rest = mk("item", part, fk)
                    if default is not None:
                        c = self.compare("in", key, part, state)
                        rest = phi([((c,), rest), ((neg(c),), default)])
                    out.append((neg_guards, rest))
                    neg_guards = None
                    break
                if e[1] == "item":
                    out.append((neg_guards + tuple(e[0]) + (same,), e[3]))
                    if not any(x.tag == "foreach" for x in e[0]):
                        neg_guards += (neg(guards_cond(tuple(e[0]) + (same,))),)
        if neg_guards is not None:
            rest = default if default is not None else mk("item", self.freeze(base, state), fk)
            if not out:
                return rest
            if default is not None or len(out) > 0:
                out.append((neg_guards, rest))
        if len(out) == 1:
            return out[0][1]
        return phi(out)

    def dict_get(self, base, key, default, state):
        if base.tag == "phi":
            return phi([(g, self.dict_get(b, key, default, state)) for g, b in base.a[0]])
        if base.tag == "ref" and base.a[0] in state.heap and state.heap[base.a[0]].kind == "dict":
            return self.dict_lookup(state.heap[base.a[0]].entries, key, state, base, default=default)
        if base.tag == "dict":
            return self.dict_lookup(base.a[0], key, state, base, default=default)
        c = self.compare("in", key, base, state)
        if c is TRUE:
            return self.getitem(base, key, state)
        if c is FALSE:
            return default
        return phi([((c,), self.getitem(base, key, state)), ((neg(c),), default)])

    def e_Tuple(self, node, state, frame):
        vals = []
        for x in node.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, state, frame)
                if v.tag == "tuple":
                    vals.extend(v.a[0])
                else:
                    vals.append(mk("star", self.freeze(v, state)))
            else:
                vals.append(self.ev(x, state, frame))
        return mk("tuple", tuple(vals))

    def e_List(self, node, state, frame):
        return self.alloc(state, "list", self.seq(node.elts, state, frame))

    def e_Set(self, node, state, frame):
        return self.alloc(state, "set", self.seq(node.elts, state, frame))

    def seq(self, elts, state, frame):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out = list(self.joined(out, self.splat_entries(self.ev(x.value, state, frame), state)))
            else:
                out.append(((), "item", self.ev(x, state, frame)))
        return tuple(out)

    def joined(self, ents, new, rel=(), oid=None):
        """ Entries of a list, then others: a cut tells two passes over the same values from a single one. """
        ents, new = tuple(ents), tuple(new)
        if rel is None or not ents or not new or ents[-1][1] not in ("item", "splat") or new[0][1] not in ("item", "splat"):
            return ents + new
        before = passes(ents[-1])
        for fe in passes(new[0]):
            if fe not in before:
                continue
            if fe in rel and (self is None or not any(fe in g and ents[-1] in had.get(oid, ())
                                                      for g, had in self.open_loops)):
                continue
            return ents + ((tuple(rel[:rel.index(fe)] if fe in rel else rel), "op", CUT),) + new
        return ents + new

    def splat_entries(self, v, state, guards=()):
        """ Entries contributed by extending a list with v. """
        if v.tag == "phi":
            out = []
            for g, x in v.a[0]:
                out.extend(self.splat_entries(x, state, guards + tuple(g)))
            return out
        if v.tag == "tuple":
            return [(guards, "item", x) for x in v.a[0]]
        ents = None
        if v.tag == "ref" and v.a[0] in state.heap and state.heap[v.a[0]].kind in ("list", "set"):
            ents, kind = state.heap[v.a[0]].entries, state.heap[v.a[0]].kind
        if v.tag in ("list", "set"):
            ents, kind = v.a[0], v.tag
        if ents is not None:
            if any(e[1] in ("op", "front") and not is_cut(e) for e in ents) or (kind == "set" and len(ents) > 0 and
                                                   any(e[1] == "splat" or e[0] or e[2].tag != "const" for e in ents)):
                return [(guards, "splat", self.freeze(v, state))]
            return [(guards + tuple(e[0]), e[1], e[2]) for e in ents]
        self.walking, had = self.walking + guards, self.walking
        its = self.iteration(v, state)
        self.walking = had
        f = self.freeze(v, state)
        if len(its) == 1 and its[0][1].tag == "elem" and its[0][1].a[0] is f:
            return [(guards, "splat", v)]
        return [(guards + tuple(g), "item", x) for g, x in its]

    def e_Dict(self, node, state, frame):
        ents = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                ents.extend(self.dict_splat(self.ev(v, state, frame), state))
            else:
                kk = self.ev(k, state, frame)
                ents.append(((), "item", kk, self.ev(v, state, frame)))
        return self.alloc(state, "dict", ents)

    def dict_splat(self, v, state, guards=()):
        if v.tag == "phi":
            out = []
            for g, x in v.a[0]:
                out.extend(self.dict_splat(x, state, guards + tuple(g)))
            return out
        if v.tag == "global" and self.global_content(v) is not None and self.global_content(v).tag == "dict":
            v = self.global_content(v)
        if v.tag == "ref" and v.a[0] in state.heap and state.heap[v.a[0]].kind == "dict":
            return [(guards + tuple(e[0]),) + e[1:] for e in self.dict_entries(state.heap[v.a[0]].entries)]
        if v.tag == "dict":
            return [(guards + tuple(e[0]),) + e[1:] for e in v.a[0]]
        return [(guards, "splat", NONE, v)]

    def comp(self, node, state, frame, leaf):
        """ Evaluate a comprehension: calls leaf(state, guards) for each innermost iteration. """
        saved = dict(state.env)
        base = state.pc

        def rec(i, guards):
            if i == len(node.generators):
                leaf(guards)
                return
            gen = node.generators[i]
            coll = self.ev(gen.iter, state, frame)
            for g, el in self.iteration(coll, state):
                envs = dict(state.env)
                pc0 = state.pc
                pc = norm_guards(state.pc + tuple(g))
                if pc is None:
                    continue
                state.pc = pc
                self.assign(gen.target, el, state, frame)
                ok = True
                for cnode in gen.ifs:
                    c = self.cond(self.ev(cnode, state, frame), state)
                    pc = norm_guards(state.pc + (c,)) if c is not FALSE else None
                    if pc is None:
                        ok = False
                        break
                    state.pc = pc
                if ok:
                    rec(i + 1, state.pc[len(base):])
                state.env = envs
                state.pc = pc0
        rec(0, ())
        state.env = saved
        state.pc = base

    def e_ListComp(self, node, state, frame, kind="list"):
        ents = []

        def leaf(guards):
            ents.append((guards, "item", self.ev(node.elt, state, frame)))
        self.comp(node, state, frame, leaf)
        return self.alloc(state, kind, ents)

    def e_GeneratorExp(self, node, state, frame):
        return self.e_ListComp(node, state, frame)

    def e_SetComp(self, node, state, frame):
        return self.e_ListComp(node, state, frame, kind="set")

    def e_DictComp(self, node, state, frame):
        ents = []

        def leaf(guards):
            k = self.ev(node.key, state, frame)
            ents.append((guards, "item", k, self.ev(node.value, state, frame)))
        self.comp(node, state, frame, leaf)
        return self.alloc(state, "dict", ents)

    def e_Lambda(self, node, state, frame):
        return self.closure(node, state, frame)

    def e_NamedExpr(self, node, state, frame):
        v = self.ev(node.value, state, frame)
        state.env[node.target.id] = v
        return v

    def e_Starred(self, node, state, frame):
        return mk("star", self.freeze(self.ev(node.value, state, frame), state))

    def e_Await(self, node, state, frame):
        return self.ev(node.value, state, frame)

    def e_Yield(self, node, state, frame):
        v = NONE if node.value is None else self.ev(node.value, state, frame)
        if frame.yields is not None:
            obj = state.heap.get(frame.yields.a[0])
            if obj is not None:
                state.heap[frame.yields.a[0]] = Obj("list", self.joined(
                    obj.entries, ((self.rel(state.pc, obj.pc), "item", v),), self.rel(state.pc, obj.pc),
                    frame.yields.a[0]), obj.pc)
        return NONE

    def e_YieldFrom(self, node, state, frame):
        v = self.ev(node.value, state, frame)
        if frame.yields is not None:
            obj = state.heap.get(frame.yields.a[0])
            if obj is not None:
                rel = self.rel(state.pc, obj.pc)
                ents = self.joined(obj.entries, self.splat_entries(v, state, rel), rel, frame.yields.a[0])
                state.heap[frame.yields.a[0]] = Obj("list", ents, obj.pc)
        return NONE

    def e_BoolOp(self, node, state, frame):
        # value semantics: and/or with short-circuit guards for events
        vals, conds = [], []
        base = state.pc
        isand = isinstance(node.op, ast.And)
        for i, x in enumerate(node.values):
            v = self.ev(x, state, frame)
            vals.append(v)
            c = self.cond(v, state)
            conds.append(c)
            if i < len(node.values) - 1:
                g = c if isand else neg(c)
                pc = norm_guards(state.pc + (g,)) if g is not FALSE else None
                if pc is None:
                    break
                state.pc = pc
        state.pc = base
        if all(self.boolish(v) for v in vals):
            return conj(*conds) if isand else disj(*conds)
        out, acc = [], ()
        for i, (v, c) in enumerate(zip(vals, conds)):
            last = i == len(vals) - 1
            if last:
                out.append((acc, v))
            else:
                stopc = neg(c) if isand else c
                out.append((acc + (stopc,), v))
                acc += (neg(stopc),)
        return phi(out)

    def e_UnaryOp(self, node, state, frame):
        v = self.ev(node.operand, state, frame)
        if isinstance(node.op, ast.Not):
            return neg(self.cond(v, state))
        if v.tag == "const" and isinstance(v.a[1], (int, float)):
            if isinstance(node.op, ast.USub):
                return const(-v.a[1])
            if isinstance(node.op, ast.UAdd):
                return v
        return mk("un", type(node.op).__name__, self.freeze(v, state))

    def e_IfExp(self, node, state, frame):
        call = self.extremum(node.test, node.body, node.orelse)
        if call is not None:
            return self.ev(call, state, frame)
        c = self.cond(self.ev(node.test, state, frame), state)
        base = state.pc
        outs = []
        for g, x in ((c, node.body), (neg(c), node.orelse)):
            if g is FALSE:
                continue
            pc = norm_guards(base + (g,))
            if pc is None:
                continue
            state.pc = pc
            outs.append(((g,), self.ev(x, state, frame)))
        state.pc = base
        return phi(outs) if outs else NONE

    def e_Compare(self, node, state, frame):
        left = self.ev(node.left, state, frame)
        out = []
        for op, r in zip(node.ops, node.comparators):
            right = self.ev(r, state, frame)
            out.append(self.compare(CMP[type(op)], left, right, state))
            left = right
        return conj(*out)

    def e_BinOp(self, node, state, frame):
        a = self.ev(node.left, state, frame)
        b = self.ev(node.right, state, frame)
        if isinstance(node.op, ast.Add):
            if (a.tag == "ref" and self.any_ref(a, state, ("list",))) or \
                    (b.tag == "ref" and self.any_ref(b, state, ("list",))) or \
                    (a.tag == "phi" and self.any_ref(a, state, ("list",))) or \
                    (b.tag == "phi" and self.any_ref(b, state, ("list",))):
                return self.alloc(state, "list", self.joined(self.splat_entries(a, state), self.splat_entries(b, state)))
            if a.tag == "tuple" and b.tag == "tuple":
                return mk("tuple", a.a[0] + b.a[0])
        if isinstance(node.op, ast.Mult):
            r = self.repeated(a, b, state) or self.repeated(b, a, state)
            if r is not None:
                return r
        if isinstance(node.op, ast.BitOr) and a.tag == b.tag == "ref" and self.any_ref(a, state, ("set",)) and \
                self.any_ref(b, state, ("set",)):
            return self.alloc(state, "set", tuple(state.heap[a.a[0]].entries) + tuple(state.heap[b.a[0]].entries))
        f = self.operator_method(node.op, a, b, state, frame, node)
        if f is not None:
            return f
        return self.binop(BIN[type(node.op)], a, b, state)

    def repeated(self, a, n, state):
        """ [v] * n is a v per number below n. """
        if a.tag != "ref" or not self.any_ref(a, state, ("list",)):
            return None
        es = state.heap[a.a[0]].entries
        n = self.freeze(n, state)
        if len(es) != 1 or es[0][0] or es[0][1] != "item" or n.tag in ("ref", "list", "phi") or \
                any(x.tag in ("ref", "new", "call", "mcall", "list", "dict", "set", "closure") for x in
                    subterms(es[0][2])):
            return None
        return self.alloc(state, "list", [(tuple(g), "item", es[0][2]) for g, _ in
                                          self.iteration(mk("call", "builtin:range", (("0", n),)), state)])

    def operator_method(self, op, a, b, state, frame, node):
        name = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__"}.get(type(op))
        c = self.typeof(a) if name else None
        if c is not None:
            m = c[0].find(name)
            if m is not None and not self.stop(m):
                return self.inline(m, c[0], a, [b], {}, None, None, state, frame, node)
        return None

    def strparts(self, v):
        if v.tag == "str":
            return v.a[0]
        if v.tag == "const" and isinstance(v.a[1], str):
            return (v.a[1],) if v.a[1] else ()
        return (("hole", v, ""),)

    @staticmethod
    def mkstr(parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != "":
                out.append(p)
        if not out:
            return const("")
        if len(out) == 1 and isinstance(out[0], str):
            return const(out[0])
        if len(out) == 1 and out[0][1].tag == "join" and not out[0][2]:
            return out[0][1]
        return mk("str", tuple(out))

    def binop(self, op, a, b, state):
        if op == "+" and is_const(a, 0):
            return b
        if op == "+" and is_const(b, 0):
            return a
        if op == "+" and is_const(a, "") and b.tag not in ("const", "phi"):
            return b
        if op == "+" and is_const(b, "") and a.tag not in ("const", "phi"):
            return a
        if op == "+" and a.tag == "phi" and any(is_const(v, 0) for _, v in a.a[0]):
            return phi([(g, self.binop(op, v, b, state)) for g, v in a.a[0]])
        if a.tag == "const" and b.tag == "const":
            try:
                x, y = a.a[1], b.a[1]
                if isinstance(x, (int, float, str)) and isinstance(y, (int, float, str)):
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                         "%": lambda: x % y, "**": lambda: x ** y if abs(y) < 20 else None, "//": lambda: x // y}[op]()
                    if r is not None and not (isinstance(r, str) and len(r) > 2000):
                        return const(r)
            except Exception:
                pass
        if op == "+":
            def stringy(v):
                return self.is_text(v) or (v.tag == "bin" and v.a[0] == "*" and (stringy(v.a[1]) or stringy(v.a[2])))
            if stringy(a) or stringy(b):
                return self.mkstr(self.strparts(self.freeze(a, state)) + self.strparts(self.freeze(b, state)))
        return mk("bin", op, self.freeze(a, state), self.freeze(b, state))

    def e_JoinedStr(self, node, state, frame):
        parts = ()
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts += (v.value,)
            else:
                x = self.freeze(self.ev(v.value, state, frame), state)
                spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                if v.conversion == 114:
                    x = mk("call", "builtin:repr", (("0", x),))
                if not spec and x.tag == "str":
                    parts += x.a[0]
                elif not spec and x.tag == "const" and isinstance(x.a[1], (str, int)) :
                    parts += (str(x.a[1]),)
                else:
                    parts += (("hole", x, spec),)
        return self.mkstr(parts)

    e_TemplateStr = e_JoinedStr

    # -- calls -----------------------------------------------------------------------------------------------------
    def e_Call(self, node, state, frame):
        # super()
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Call) and \
                isinstance(node.func.value.func, ast.Name) and node.func.value.func.id == "super":
            return self.super_call(node, state, frame)
        fn = None
        recv = None
        if isinstance(node.func, ast.Attribute):
            recv = self.ev(node.func.value, state, frame)
            if self.dead(state):
                return recv
        else:
            fn = self.ev(node.func, state, frame)
        args, kwargs, star, dstar = self.ev_args(node, state, frame)
        if self.dead(state):
            return NONE
        if recv is not None:
            return self.call_attr(recv, node.func.attr, args, kwargs, star, dstar, state, frame, node)
        return self.call_value(fn, args, kwargs, star, dstar, state, frame, node)

    def ev_args(self, node, state, frame):
        args, kwargs, star, dstar = [], {}, None, []
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, state, frame)
                its = None
                if v.tag == "tuple":
                    its = list(v.a[0])
                elif v.tag == "ref" and v.a[0] in state.heap and state.heap[v.a[0]].kind == "list" and \
                        all(not e[0] and e[1] == "item" for e in state.heap[v.a[0]].entries):
                    its = [e[2] for e in state.heap[v.a[0]].entries]
                if its is not None and star is None:
                    args.extend(its)
                else:
                    star = v
            else:
                args.append(self.ev(a, state, frame))
        for k in node.keywords:
            if k.arg is None:
                v = self.ev(k.value, state, frame)
                done = False
                ents = None
                if v.tag == "ref" and v.a[0] in state.heap and state.heap[v.a[0]].kind == "dict":
                    ents = self.dict_entries(state.heap[v.a[0]].entries)
                elif v.tag == "dict":
                    ents = v.a[0]
                if ents is not None:
                    rest = []
                    for e in ents:
                        if e[1] == "item" and e[2].tag == "const" and isinstance(e[2].a[1], str) and not e[0]:
                            kwargs[e[2].a[1]] = e[3]
                        elif e[1] == "item" and e[2].tag == "const" and isinstance(e[2].a[1], str):
                            kwargs[e[2].a[1]] = phi([(e[0], e[3]), ((neg(guards_cond(e[0])),), mk("missing"))])
                        else:
                            rest.append(e)
                    done = True
                    if rest:
                        dstar.append(self.alloc(state, "dict", rest))
                if not done:
                    dstar.append(v)
            else:
                kwargs[k.arg] = self.ev(k.value, state, frame)
        return args, kwargs, star, dstar

    def super_call(self, node, state, frame):
        name = node.func.attr
        args, kwargs, star, dstar = self.ev_args(node, state, frame)
        owner = frame.func.cls or getattr(frame.func, "encl_cls", None)
        cls = frame.cls_exact or owner
        given = node.func.value.args
        if given:
            named = self.ev(given[0], state, frame)
            above = self.p.classes.get(named.a[0]) if named.tag == "class" else None
            if above is not None and cls is not None and above in cls.mro():
                owner = above
        f = cls.find_after(owner, name) if owner is not None and cls is not None else None
        me = frame.self_term if frame.self_term is not None else mk("param", "self")
        if f is None:
            t = mk("mcall", mk("super", me), name, self.flat(args, kwargs, star, dstar, state))
            self.emit("call", state, t, None, node, frame)
            return t
        same = cls.find(name) is f and not self.overridden(cls, name)
        return self.call_func(f, cls, me, args, kwargs, star, dstar, state, frame, node, via_super=not same)

    def flat(self, args, kwargs, star, dstar, state):
        out = [(str(i), self.freeze(a, state)) for i, a in enumerate(args)]
        if star is not None:
            out.append(("*", self.freeze(star, state)))
        out.extend((k, self.freeze(v, state)) for k, v in sorted(kwargs.items()))
        out.extend(("**", self.freeze(v, state)) for v in dstar)
        return tuple(out)

    def call_attr(self, recv, name, args, kwargs, star, dstar, state, frame, node):
        """ recv.name(args). """
        if name in ("encode", "decode") and star is None and not dstar and len(args) <= 1 and not kwargs and \
                recv.tag not in ("class", "func", "module", "ext"):
            args = [codec_name(args[0]) if args else const("utf-8")]
        if name == "__len__" and not args and recv.tag in ("param", "new", "attr", "elem", "item"):
            return self.b_len([recv], {}, state, frame, node)
        if recv.tag == "phi" and len(recv.a[0]) <= 6:
            if self.any_ref(recv, state) and name in BUILTIN_METHODS:
                return self.call_container(recv, name, args, kwargs, state, frame, node)
            outs = []
            base = state.pc
            for g, r in recv.a[0]:
                pc = norm_guards(base + tuple(g))
                if pc is None:
                    continue
                s = state.copy()
                s.pc = pc
                v = self.call_attr(r, name, list(args), dict(kwargs), star, dstar, s, frame, node)
                if not self.dead(s):
                    outs.append((s, v))
            if not outs:
                state.pc = ("dead",)
                return NONE
            for s, v in outs:
                s.env["\0v"] = v
                if s.pc[:len(base)] != base:
                    s.pc = base
            m = self.merge(base, [s for s, _ in outs])
            v = m.env.pop("\0v")
            m.pc = base
            state.become(m)
            return v
        if recv.tag in ("module", "ext") or name == "__class__":
            fn = self.getattr(recv, name, state, frame)
            return self.call_value(fn, args, kwargs, star, dstar, state, frame, node)
        if recv.tag == "ref" and recv.a[0] in state.heap:
            if name == "get" and len(args) == 2 and args[1] is NONE and not kwargs and self.typeof(recv) is None:
                args = args[:1]
            return self.call_container(recv, name, args, kwargs, state, frame, node)
        if recv.tag in ("const", "str"):
            r = self.str_method(recv, name, args, kwargs, state)
            if r is not None:
                return r
        fb = self.freeze(recv, state)
        if (fb, name) in state.over:
            return self.call_value(state.over[(fb, name)], args, kwargs, star, dstar, state, frame, node)
        # method resolution
        f, cls, me = None, None, recv
        ty = self.typeof(recv)
        if ty is not None:
            f = ty[0].find(name)
            cls = ty[0]
            if f is not None and not ty[1] and self.overridden(ty[0], name) and recv.tag != "class":
                # several implementations: keep opaque but bind arguments
                return self.opaque_method(f, recv, name, args, kwargs, star, dstar, state, frame, node)
            if f is not None and f.is_property:
                v = self.getattr(recv, name, state, frame, node)
                return self.call_value(v, args, kwargs, star, dstar, state, frame, node)
        elif name not in BUILTIN_METHODS and recv.tag not in ("closure", "func"):
            cands = [m for m in self.p.method_index.get(name, []) if not m.is_property]
            if len(cands) == 1:
                f, cls = cands[0], cands[0].cls
            elif cands:
                return self.opaque_method(cands[0] if self.same_sig(cands) else None, recv, name, args, kwargs, star,
                                          dstar, state, frame, node)
        if f is not None:
            if recv.tag == "class" and not f.is_class and not f.is_static and args:
                # Class.method(self, ...)
                me2 = args[0]
                owner = self.typeof(me2)
                same = owner is not None and owner[0].find(name) is f
                return self.call_func(f, owner[0] if owner else cls, me2, args[1:], kwargs, star, dstar, state, frame,
                                      node, via_super=not same)
            return self.call_func(f, cls, me, args, kwargs, star, dstar, state, frame, node)
        if name in ("items", "keys", "values", "copy", "get") and recv.tag in ("global", "dict") :
            content = self.global_content(recv) if recv.tag == "global" else recv
            if content is not None and content.tag == "dict":
                if name == "get":
                    return self.dict_get(recv if recv.tag == "dict" else recv, args[0], args[1] if len(args) > 1 else NONE, state)
                if name == "copy":
                    return self.alloc(state, "dict", content.a[0])
                tmp = self.alloc(state, "dict", content.a[0])
                return self.call_container(tmp, name, args, kwargs, state, frame, node)
        if name == "get" and 1 <= len(args) <= 2 and recv.tag not in ("class", "func") and not kwargs:
            return self.dict_get(recv, args[0], args[1] if len(args) == 2 else NONE, state)
        if name == "copy" and not args and not kwargs and recv.tag in ("param", "attr", "item", "elem"):
            t = mk("mcall", fb, name, ())
            self.emit("call", state, t, None, node, frame)
            return t
        if name == "setdefault" and recv.tag in ("param", "attr", "item", "elem") and 1 <= len(args) <= 2 and not kwargs:
            d = args[1] if len(args) == 2 else NONE
            there = self.compare("in", args[0], recv, state)
            res = self.dict_get(recv, args[0], d, state)
            base, outs = state.pc, []
            for c in (neg(there), there):
                pc = norm_guards(base + (c,))
                if pc is not None:
                    st = state.copy()
                    st.pc = pc
                    if c is not there:
                        self.setitem(recv, args[0], d, st, frame, node)
                    outs.append(st)
            m = self.merge(base, outs)
            m.pc = base
            state.become(m)
            return res
        if name in ("issubset", "issuperset") and len(args) == 1 and recv.tag == "set":
            other = self.freeze(self.as_set(args[0], state), state)
            a, b = (other, fb) if name == "issuperset" else (fb, other)
            return neg(self.compare("<", b, a, state))
        if name == "pop" and recv.tag == "param" and recv.a[0].startswith("**") and args:
            return self.dict_get(recv, args[0], args[1] if len(args) == 2 else NONE, state)
        if name == "pop" and recv.tag in ("param", "attr", "item", "elem", "mcall", "call") and len(args) == 2 and not kwargs:
            res = self.dict_get(recv, args[0], args[1], state)
            pc = norm_guards(state.pc + (self.compare("in", args[0], recv, state),))
            if pc is not None:
                key = self.freeze(args[0], state)
                base, state.pc = state.pc, pc
                self.emit("mutate", state, recv, mk("tuple", (const("pop"), key)), node, frame)
                self.emit("call", state, mk("mcall", fb, name, (("0", key),)), None, node, frame)
                state.pc = base
            return res
        if name == "get" and len(args) == 2 and args[1] is NONE and not kwargs:
            args = args[:1]
        flat = self.flat(args, kwargs, star, dstar, state)
        t = mk("mcall", fb, name, flat)
        if name == "update" and recv.tag in ("param", "attr", "item", "elem") and len(args) <= 1 and not dstar:
            ents = list(self.dict_splat(args[0], state)) if args else []
            ents += [((), "item", const(k), v) for k, v in kwargs.items()]
            if ents and all(e[1] == "item" and not e[0] for e in ents):
                for e in ents:
                    self.setitem(recv, e[2], e[3], state, frame, node)
                return NONE
        if name in MUTATORS and recv.tag not in ("class", "func", "ext", "module"):
            self.emit("mutate", state, recv, mk("tuple", (const(name),) + tuple(v for _, v in flat)), node, frame)
        self.emit("call", state, t, None, node, frame)
        return t

    def same_sig(self, cands):
        sigs = {tuple(p[0] for p in f.call_params()) for f in cands}
        return len(sigs) == 1

    def opaque_method(self, f, recv, name, args, kwargs, star, dstar, state, frame, node):
        ty = self.typeof(recv)
        if ty is not None:
            cands = [f] if f is not None else []
            if not ty[1]:
                cands += [s.methods[name] for s in ty[0].all_subclasses() if name in s.methods]
        else:
            cands = self.p.method_index.get(name, [])
        args, star = self.unstar(f, args, kwargs, star, dstar, state)
        self.havoc(cands, recv, args, kwargs, state)
        fb = self.freeze(recv, state)
        if f is not None and star is None:
            names = [p[0] for p in f.call_params() if p[1] == "pos"]
            kw = dict(kwargs)
            rest = []
            for i, a in enumerate(args):
                if i < len(names):
                    kw[names[i]] = a
                else:
                    rest.append(a)
            flat = self.flat(rest, kw, star, dstar, state)
        else:
            if name == "get" and f is None and len(args) == 2 and args[1] is NONE and not kwargs:
                # whatever answers to get, None is what it gives by default
                args = args[:1]
            flat = self.flat(args, kwargs, star, dstar, state)
        t = mk("mcall", fb, name, flat)
        self.emit("call", state, t, None, node, frame)
        return self.wrap(name, t, state)

    def unstar(self, f, args, kwargs, star, dstar, state):
        """ f(*x) where f takes a fixed number of arguments is f(x[0], ..., x[n]). """
        if f is None or star is None or dstar or star.tag not in ("mcall", "call", "item", "attr", "elem", "param"):
            return args, star
        params = f.call_params() if f.cls is not None else f.params()
        if any(p[1] == "vararg" for p in params):
            return args, star
        rest = [p for p in params if p[1] == "pos"][len(args):]
        if not rest or len(rest) > 6 or any(p[2] is not None or p[0] in kwargs for p in rest):
            return args, star
        return list(args) + [self.getitem(star, const(i), state) for i in range(len(rest))], None

    def havoc(self, cands, recv, args, kwargs, state):
        """ Forget what a call to functions that stay opaque may change: containers passed to it or held by its receiver. """
        eff = self.p.effects
        touched = []
        for c in cands:
            mp = eff.params.get(c.qual, ())
            if mp:
                names = [p[0] for p in (c.call_params() if c.cls is not None else c.params()) if p[1] == "pos"]
                touched += [a for i, a in enumerate(args) if i < len(names) and names[i] in mp]
                touched += [a for k, a in kwargs.items() if k in mp]
        seen = set()
        for v in touched:
            for g, x in alts(v):
                if x.tag == "ref" and x.a[0] in state.heap and x.a[0] not in seen:
                    seen.add(x.a[0])
                    self.blur(x, state)
        if recv is None or not state.over:
            return
        attrs = set()
        for c in cands:
            attrs |= eff.attrs.get(c.qual, set())
        if not attrs:
            return
        fb = self.freeze(recv, state)
        for (base, name), v in list(state.over.items()):
            if name in attrs and base is fb:
                for g, x in alts(v):
                    if x.tag == "ref" and x.a[0] in state.heap:
                        self.blur(x, state)
                    elif not any(y.tag == "shared" for _, y in alts(v)):
                        state.over[(base, name)] = mk("shared", self.freeze(v, state))
                        break

    def blur(self, ref, state):
        """ Flag a container as shared with a callee that modifies it. """
        obj = state.heap[ref.a[0]]
        if obj.entries and self.is_shared(obj.entries[0]):
            return
        if obj.kind == "dict":
            e = ((), "splat", NONE, mk("shared", self.freeze(ref, state)))
        else:
            e = ((), "op", const("shared"))
        state.heap[ref.a[0]] = Obj(obj.kind, (e,) + obj.entries, obj.pc)

    @staticmethod
    def is_shared(e):
        return e[1] == "op" and is_const(e[2], "shared") or e[1] == "splat" and len(e) > 3 and e[3].tag == "shared"

    def wrap(self, name, t, state):
        """ Results of calls known to build a fresh dict are tracked as dicts (so that later stores are seen). """
        if name in self.fresh_dicts:
            return self.alloc(state, "dict", [((), "splat", NONE, t)])
        which = (t.a[0][5:] if t.tag == "call" else name)
        for kind in ("list", "dict"):
            if which in self.p.fresh(kind)[1 if t.tag == "attr" else 0]:
                self.fresh.add(t)
                return self.alloc(state, kind, [((), "splat", t) if kind == "list" else ((), "splat", NONE, t)])
        if which in self.p.booleans()[1 if t.tag == "attr" else 0]:
            return mk("truth", t)
        return t

    def call_value(self, fn, args, kwargs, star, dstar, state, frame, node):
        if fn.tag == "phi" and len(fn.a[0]) <= 6:
            outs = []
            base = state.pc
            for g, r in fn.a[0]:
                pc = norm_guards(base + tuple(g))
                if pc is None:
                    continue
                s = state.copy()
                s.pc = pc
                v = self.call_value(r, list(args), dict(kwargs), star, dstar, s, frame, node)
                if not self.dead(s):
                    s.env["\0v"] = v
                    if s.pc[:len(base)] != base:
                        s.pc = base
                    outs.append(s)
            if not outs:
                state.pc = ("dead",)
                return NONE
            m = self.merge(base, outs)
            v = m.env.pop("\0v")
            m.pc = base
            state.become(m)
            return v
        if fn.tag == "func":
            f = self.p.funcs[fn.a[0]]
            return self.call_func(f, None, None, args, kwargs, star, dstar, state, frame, node)
        if fn.tag == "class":
            return self.construct(fn, self.p.classes[fn.a[0]], args, kwargs, star, dstar, state, frame, node)
        if fn.tag == "classof":
            ty = self.typeof(fn.a[0])
            return self.construct(fn, ty[0] if ty else None, args, kwargs, star, dstar, state, frame, node)
        if fn.tag == "closure":
            return self.call_closure(fn, args, kwargs, star, dstar, state, frame, node)
        if fn.tag == "attr" and fn.a[0].tag in ("param", "attr", "new", "class", "elem"):
            ty = self.typeof(fn.a[0])
            if ty is not None and ty[0].find(fn.a[1]) is not None and not ty[0].find(fn.a[1]).is_property:
                return self.call_attr(fn.a[0], fn.a[1], args, kwargs, star, dstar, state, frame, node)
        if fn.tag == "ext":
            return self.call_ext(fn.a[0], args, kwargs, star, dstar, state, frame, node)
        if fn.tag == "attr" and len(fn.a) == 2 and fn.a[1] != "__class__" and \
                fn.a[0].tag in ("param", "attr", "elem", "item", "mcall", "call") and \
                (fn.a[0], fn.a[1]) not in state.over and not self.is_property(fn.a[0], fn.a[1]):
            return self.call_attr(fn.a[0], fn.a[1], args, kwargs, star, dstar, state, frame, node)
        t = mk("vcall", self.freeze(fn, state), self.flat(args, kwargs, star, dstar, state))
        self.emit("call", state, t, None, node, frame)
        return t

    def is_property(self, recv, name):
        ty = self.typeof(recv)
        f = ty[0].find(name) if ty is not None else None
        return f is not None and f.is_property

    def construct(self, fn, cls, args, kwargs, star, dstar, state, frame, node):
        binding = None
        init = cls.find("__init__") if cls is not None else None
        if cls is not None:
            names = []
            if init is not None and star is None:
                names = [p[0] for p in init.call_params() if p[1] == "pos"]
                kw = dict(kwargs)
                rest = []
                for i, a in enumerate(args):
                    if i < len(names):
                        kw[names[i]] = a
                    else:
                        rest.append(a)
                kw = self.given(init, kw)
                binding = self.flat(rest, kw, star, dstar, state)
        if binding is None:
            binding = self.flat(args, kwargs, star, dstar, state)
        t = mk("new", fn, binding)
        self.emit("call", state, t, None, node, frame)
        if cls is not None and star is None and not dstar:
            # what it is given may still grow
            held = {k: v for k, v in list(kwargs.items()) + [(str(i), a) for i, a in enumerate(args)]
                    if v.tag == "ref"}
            if init is not None:
                held.update({names[i]: a for i, a in enumerate(args) if i < len(names) and a.tag == "ref"})
            if held:
                t = mk("new", fn, tuple((k, held.get(k, v)) for k, v in binding))
        return t

    def call_closure(self, fn, args, kwargs, star, dstar, state, frame, node):
        f, defstate, penv, dframe = self.closures[fn.a[0]]
        if len(self.stack) > self.depth or any(x is f.node for x in self.stack):
            t = mk("vcall", fn, self.flat(args, kwargs, star, dstar, state))
            self.emit("call", state, t, None, node, frame)
            return t
        parent = dict(penv)
        parent.update(defstate.env)
        if dframe is frame or dframe in getattr(frame, "encl", [dframe]):
            parent.update({k: v for k, v in state.env.items() if dframe is frame})
        env = self.bind(f, args, kwargs, star, dstar, state, f.params())
        fr = Frame(f, dframe.cls_exact, parent_env=parent, self_term=dframe.self_term)
        return self.enter(fr, env, state, frame, node)

    def call_func(self, f, cls, me, args, kwargs, star, dstar, state, frame, node, via_super=False):
        """ Call of a resolved repository function. """
        args, star = self.unstar(f, args, kwargs, star, dstar, state)
        v = None
        if not self.stop(f):
            v = self.inline(f, cls, me, args, kwargs, star, dstar, state, frame, node)
        if v is not None:
            return v
        self.havoc([f], me, args, kwargs, state)
        params = f.call_params() if f.cls is not None else f.params()
        names = [p[0] for p in params if p[1] == "pos"]
        kw = dict(kwargs)
        rest = []
        if star is None:
            for i, a in enumerate(args):
                if i < len(names):
                    kw[names[i]] = a
                else:
                    rest.append(a)
        else:
            rest = args
        kw = self.given(f, kw)
        flat = self.flat(rest, kw, star, dstar, state)
        if f.cls is not None and not f.is_static:
            rt = self.freeze(me, state)
            t = mk("mcall", mk("super", rt, f.cls.name) if via_super else rt, f.name, flat)
        else:
            t = mk("call", "func:" + f.qual, flat)
        self.emit("call", state, t, None, node, frame)
        return self.wrap(f.name, t, state)

    def inline(self, f, cls, me, args, kwargs, star, dstar, state, frame, node):
        """ Inline a function body; None when it has to stay opaque. """
        if len(self.stack) >= self.depth or any(x is f.node for x in self.stack):
            return None
        if len(f.node.body) == 0 or any(d.split(".")[-1] in ("abstractmethod",) for d in f.decorators):
            return None
        if any(d.split(".")[-1] not in ("property", "cached_property", "classmethod", "staticmethod", "wraps",
                                        "lru_cache", "cache", "set_decoration", "DeprecatedClass")
               and not self.transparent_decorator(d) for d in f.decorators):
            return None
        params = f.params()
        env0 = {}
        if f.cls is not None and not f.is_static:
            recv = me
            if f.is_class and recv is not None and recv.tag not in ("class", "classof"):
                recv = self.classof(recv)
                if cls is not None:
                    self.types.setdefault(recv, (cls, False))
            env0[params[0][0]] = recv
            params = params[1:]
        env = self.bind(f, args, kwargs, star, dstar, state, params)
        env.update(env0)
        st = env0.get(f.params()[0][0]) if env0 else None
        if st is not None and cls is not None and self.types.get(st) is None:
            self.types[st] = (cls, False)
        fr = Frame(f, cls or f.cls, self_term=st)
        return self.enter(fr, env, state, frame, node)

    def transparent_decorator(self, d):
        """ Display / export decorators only attach metadata. """
        return d.split(".")[-1] in ("plot_data_view", "picture_view", "markdown_view", "cad_view", "export_docx",
                                    "export_xlsx", "export_json", "export_step", "export_stl", "export_markdown",
                                    "export", "set_block_variable_names_from_dict", "get_decorated_methods",
                                    "deprecated", "deprecation_warning", "contextmanager")

    def enter(self, fr, env, state, frame, node):
        self.stack.append(fr.func.node)
        saved_env = state.env
        s = State(env, state.heap, state.over, state.pc)
        try:
            v, out = self.run_frame(fr, s)
        finally:
            self.stack.pop()
        if out is None:
            state.pc = ("dead",)
            return NONE
        state.heap, state.over = out.heap, out.over
        state.env = saved_env
        pc = tuple(g for g in out.pc)
        if pc[:len(state.pc)] == state.pc:
            state.pc = pc
        return v

    def bind(self, f, args, kwargs, star, dstar, state, params):
        env = {}
        args = list(args)
        kw = dict(kwargs)
        pos = [p for p in params if p[1] == "pos"]
        for i, (name, kind, default, _) in enumerate(params):
            if kind == "pos":
                if args:
                    env[name] = args.pop(0)
                elif name in kw:
                    env[name] = kw.pop(name)
                else:
                    env[name] = self.missing(f, name, default, star, dstar, state)
            elif kind == "kwonly":
                if name in kw:
                    env[name] = kw.pop(name)
                else:
                    env[name] = self.missing(f, name, default, None, dstar, state)
            elif kind == "vararg":
                if star is not None:
                    env[name] = self.alloc(state, "list", [((), "item", a) for a in args] + [((), "splat", star)])
                else:
                    env[name] = mk("tuple", tuple(args))
                args = []
            elif kind == "kwarg":
                ents = [((), "item", const(k), v) for k, v in kw.items()]
                for d in dstar or []:
                    ents = list(self.dict_splat(d, state)) + ents
                env[name] = self.alloc(state, "dict", ents)
        for n, v in list(env.items()):
            if v.tag == "phi" and any(x.tag == "missing" for _, x in v.a[0]):
                default = next((p[2] for p in params if p[0] == n), None)
                dv = self.default_value(f, default) if default is not None else mk("unk", "missing")
                env[n] = phi([(g, dv if x.tag == "missing" else x) for g, x in v.a[0]])
        return env

    def given(self, f, kw):
        """ Arguments that are given on some paths only have their default on the others. """
        out = {}
        for n, v in kw.items():
            if v.tag == "phi" and any(x.tag == "missing" for _, x in v.a[0]):
                default = next((p[2] for p in f.params() if p[0] == n), None)
                if default is not None:
                    dv = self.default_value(f, default)
                    v = phi([(g, dv if x.tag == "missing" else x) for g, x in v.a[0]])
            out[n] = v
        return out

    def missing(self, f, name, default, star, dstar, state):
        dv = self.default_value(f, default) if default is not None else mk("unk", "unbound:" + name)
        if star is not None:
            return mk("unk", "star:" + name)
        for d in dstar or []:
            dv = self.dict_get(d, const(name), dv, state) if d.tag != "phi" else dv
        return dv

    # -- builtins and externals ------------------------------------------------------------------------------------
    def call_ext(self, name, args, kwargs, star, dstar, state, frame, node):
        short = name
        if short in OF_KEYS and args and args[0].tag == "mcall" and args[0].a[1] == "keys" and not args[0].a[2]:
            args = [args[0].a[0]] + list(args[1:])
        if star is None and not dstar:
            m = getattr(self, "b_" + short.replace(".", "_"), None)
            if m is not None:
                r = m(args, kwargs, state, frame, node)
                if r is not None:
                    return r
        if star is None and short in EXT_PARAMS:
            names = EXT_PARAMS[short]
            kwargs = dict(kwargs)
            kwargs.update(zip(names[:len(args)], args))
            args = args[len(names):]
        if short == "open" and "encoding" in kwargs:
            kwargs = dict(kwargs, encoding=codec_name(kwargs["encoding"]))
        flat = self.flat(args, kwargs, star, dstar, state)
        isb = hasattr(builtins, short)
        t = mk("call", ("builtin:" if isb else "ext:") + short, flat)
        if isb and short in FAILING and not any(v.tag == "const" for _, v in flat):
            self.tried.append(t)
        if not isb and not short.startswith(("itertools.", "operator.", "math.")) or short in ("print", "open", "exec", "eval", "setattr", "delattr"):
            self.emit("call", state, t, None, node, frame)
        if short in ("copy.deepcopy", "copy.copy") and kwargs.get("x", NONE).tag == "global":
            content = self.global_content(kwargs["x"])
            if content is not None and content.tag in ("dict", "list"):
                # a copy of a constant
                self.fresh.add(t)
                return self.alloc(state, content.tag, [((), "splat", t) if content.tag == "list" else
                                                       ((), "splat", NONE, t)])
        return t

    def b_isinstance(self, args, kwargs, state, frame, node):
        if len(args) != 2:
            return None
        v, c = args
        if c.tag == "tuple":
            return disj(*[self.b_isinstance([v, x], {}, state, frame, node) for x in c.a[0]])
        if v.tag == "phi" and len(v.a[0]) <= 6 and not any(x.tag == "foreach" for g, _ in v.a[0] for x in g):
            return disj(*[conj(*(tuple(g) + (self.b_isinstance([x, c], {}, state, frame, node),))) for g, x in v.a[0]])
        if v.tag == "const" and c.tag == "ext":
            k = getattr(builtins, c.a[0], None)
            if isinstance(k, type):
                return TRUE if isinstance(v.a[1], k) else FALSE
        if v.tag == "ref" and v.a[0] in state.heap and c.tag == "ext" and c.a[0] in ("list", "dict", "set", "str", "tuple"):
            return TRUE if state.heap[v.a[0]].kind == c.a[0] else FALSE
        if v.tag == "tuple" and c.tag == "ext" and c.a[0] in ("list", "dict", "set", "str", "tuple"):
            return TRUE if c.a[0] == "tuple" else FALSE
        if v.tag == "new" and c.tag == "class":
            ty = self.typeof(v)
            if ty is not None and ty[1] and ty[0].is_subclass(self.p.classes[c.a[0]]):
                return TRUE
        return mk("isinst", self.freeze(v, state), self.freeze(c, state))

    def b_bytes(self, args, kwargs, state, frame, node):
        if len(args) != 2 or kwargs or not (is_const(args[1]) and isinstance(args[1].a[1], str)):
            return None
        return self.call_attr(args[0], "encode", [args[1]], {}, None, (), state, frame, node)

    def b_len(self, args, kwargs, state, frame, node):
        if len(args) != 1:
            return None
        v = args[0]
        if v.tag == "tuple":
            return const(len(v.a[0]))
        if v.tag == "const" and isinstance(v.a[1], str):
            return const(len(v.a[1]))
        if v.tag == "call" and v.a[0] in ("builtin:list", "builtin:tuple") and len(v.a[1]) == 1:
            v = v.a[1][0][1]
        if v.tag == "mcall" and v.a[1] in ("keys", "values", "items") and not v.a[2]:
            v = v.a[0]
        if v.tag == "ref" and v.a[0] in state.heap:
            es = state.heap[v.a[0]].entries
            if all(not e[0] and e[1] == "item" for e in es) and state.heap[v.a[0]].kind == "list":
                return const(len(es))
            if len(es) == 1 and not es[0][0] and es[0][1] == "splat" and state.heap[v.a[0]].kind == "list":
                return self.b_len([es[0][-1]], kwargs, state, frame, node)
        if v.tag in ("param", "new", "attr", "elem", "item"):
            ty = self.typeof(v)
            m = ty[0].find("__len__") if ty is not None else None
            if m is not None and (ty[1] or not self.overridden(ty[0], "__len__")) and m.node not in self.stack:
                return self.inline(m, ty[0], v, [], {}, None, None, state, frame, node)
        return mk("call", "builtin:len", (("0", self.freeze(v, state)),))

    def b_bool(self, args, kwargs, state, frame, node):
        if len(args) == 1:
            return self.cond(args[0], state)
        return None

    def b_getattr(self, args, kwargs, state, frame, node):
        if len(args) >= 2 and args[1].tag == "const" and isinstance(args[1].a[1], str):
            v = self.getattr(args[0], args[1].a[1], state, frame, node)
            if len(args) == 2:
                return v
            c = mk("truth", mk("call", "builtin:hasattr", (("0", self.freeze(args[0], state)), ("1", args[1]))))
            return phi([((c,), v), ((neg(c),), args[2])])
        if len(args) == 2:
            return mk("dynattr", self.freeze(args[0], state), self.freeze(args[1], state))
        return None

    def b_setattr(self, args, kwargs, state, frame, node):
        if len(args) == 3 and args[1].tag == "const":
            self.setattr(args[0], args[1].a[1], args[2], state, frame, node)
            return NONE
        if len(args) == 3:
            self.emit("mutate", state, args[0], mk("tuple", (const("setattr"), self.freeze(args[1], state),
                                                            self.freeze(args[2], state))), node, frame)
            return NONE
        return None

    def b_type(self, args, kwargs, state, frame, node):
        if len(args) == 1:
            return self.classof(args[0])
        return None

    def b_any(self, args, kwargs, state, frame, node):
        if len(args) == 1:
            its = self.iteration(args[0], state)
            return disj(*[guards_cond(tuple(g) + (self.cond(x, state),)) for g, x in its])
        return None

    def b_all(self, args, kwargs, state, frame, node):
        if len(args) == 1:
            its = self.iteration(args[0], state)
            return conj(*[neg(guards_cond(tuple(g) + (neg(self.cond(x, state)),))) for g, x in its])
        return None

    def b_list(self, args, kwargs, state, frame, node):
        if not args:
            return self.alloc(state, "list", ())
        v = args[0]
        ents = self.splat_entries(v, state)
        return self.alloc(state, "list", ents)

    def b_tuple(self, args, kwargs, state, frame, node):
        if not args:
            return mk("tuple", ())
        v = args[0]
        if v.tag == "tuple":
            return v
        ents = self.splat_entries(v, state)
        if all(not e[0] and e[1] == "item" for e in ents):
            return mk("tuple", tuple(e[2] for e in ents))
        return mk("call", "builtin:tuple", (("0", self.freeze(v, state)),))

    def b_set(self, args, kwargs, state, frame, node):
        if not args:
            return self.alloc(state, "set", ())
        return self.alloc(state, "set", self.splat_entries(args[0], state))

    def b_dict(self, args, kwargs, state, frame, node):
        ents = []
        if args:
            v = args[0]
            d = self.dict_splat(v, state)
            if len(d) == 1 and d[0][1] == "splat" and v.tag in ("ref", "list", "call") and \
                    not (v.tag == "ref" and state.heap[v.a[0]].kind == "dict"):
                ents = []
                for g, x in self.iteration(v, state):
                    if x.tag == "tuple" and len(x.a[0]) == 2:
                        ents.append((g, "item", x.a[0][0], x.a[0][1]))
                    elif v.tag == "list" or v.tag == "ref" and state.heap[v.a[0]].kind == "list":
                        ents.append((g, "item", self.getitem(x, const(0), state), self.getitem(x, const(1), state)))
                    else:
                        ents.append((g, "splat", NONE, x))
            else:
                ents = d
        ents = list(ents) + [((), "item", const(k), v) for k, v in kwargs.items()]
        return self.alloc(state, "dict", ents)

    def b_dict_fromkeys(self, args, kwargs, state, frame, node):
        if 1 <= len(args) <= 2:
            v = args[1] if len(args) > 1 else NONE
            return self.alloc(state, "dict", [(g, "item", x, v) for g, x in self.iteration(args[0], state)])
        return None

    def b_str(self, args, kwargs, state, frame, node):
        if len(args) == 1:
            v = self.freeze(args[0], state)
            if v.tag == "str" or (v.tag == "const" and isinstance(v.a[1], str)):
                return v
            if v.tag == "const" and isinstance(v.a[1], int) and not isinstance(v.a[1], bool):
                return const(str(v.a[1]))
            return mk("str", (("hole", v, ""),))
        return None

    def b_map(self, args, kwargs, state, frame, node):
        if len(args) == 2:
            ents = []
            base = state.pc
            for g, x in self.iteration(args[1], state):
                pc = norm_guards(base + tuple(g))
                if pc is None:
                    continue
                state.pc = pc
                v = self.call_value(args[0], [x], {}, None, [], state, frame, node)
                if self.dead(state):
                    state.pc = base
                    continue
                state.pc = base
                ents.append((g, "item", v))
            return self.alloc(state, "list", ents)
        return None

    def b_filter(self, args, kwargs, state, frame, node):
        if len(args) == 2:
            ents = []
            base = state.pc
            for g, x in self.iteration(args[1], state):
                pc = norm_guards(base + tuple(g))
                if pc is None:
                    continue
                state.pc = pc
                c = self.cond(x if is_const(args[0], None) else
                              self.call_value(args[0], [x], {}, None, [], state, frame, node), state)
                state.pc = base
                if c is not FALSE:
                    ents.append((norm_guards(tuple(g) + (c,)), "item", x))
            return self.alloc(state, "list", ents)
        return None

    def b_next(self, args, kwargs, state, frame, node):
        if args and args[0].tag == "ref":
            its = self.iteration(args[0], state)
            if len(args) == 1:
                return self.getitem(args[0], const(0), state)
            out = [(g, x) for g, x in its]
            none = ()
            for g, _ in its:
                none += (neg(guards_cond(g)),)
            none = norm_guards(none)
            if none is not None:
                out.append((none, args[1]))
            return phi(out) if out else None
        return None

    def b_iter(self, args, kwargs, state, frame, node):
        if len(args) == 1 and args[0].tag != "ref":
            return args[0]
        return None

    def b_hasattr(self, args, kwargs, state, frame, node):
        if len(args) == 2:
            return mk("truth", mk("call", "builtin:hasattr", (("0", self.freeze(args[0], state)),
                                                             ("1", self.freeze(args[1], state)))))
        return None

    def b_issubclass(self, args, kwargs, state, frame, node):
        if len(args) == 2:
            v, c = args
            if c.tag == "tuple":
                return disj(*[self.b_issubclass([v, x], {}, state, frame, node) for x in c.a[0]])
            return mk("truth", mk("call", "builtin:issubclass", (("0", self.freeze(v, state)), ("1", self.freeze(c, state)))))
        return None

    def b_callable(self, args, kwargs, state, frame, node):
        if len(args) == 1:
            return mk("truth", mk("call", "builtin:callable", (("0", self.freeze(args[0], state)),)))
        return None

    def str_method(self, recv, name, args, kwargs, state):
        if name == "join" and len(args) == 1:
            ents = self.splat_entries(args[0], state)
            if all(not e[0] and e[1] == "item" for e in ents) and ents:
                parts = ()
                for i, e in enumerate(ents):
                    if i:
                        parts += self.strparts(recv)
                    parts += self.strparts(self.freeze(e[2], state))
                return self.mkstr(parts)
            tmp = self.alloc(state, "list", ents)
            return mk("join", recv, self.freeze(tmp, state))
        if name == "format" and recv.tag == "const" and isinstance(recv.a[1], str):
            import string
            parts, auto = (), 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(recv.a[1]):
                    if lit:
                        parts += (lit,)
                    if field is None:
                        continue
                    if field == "":
                        v, auto = args[auto], auto + 1
                    elif field.isdigit():
                        v = args[int(field)]
                    elif field in kwargs:
                        v = kwargs[field]
                    else:
                        return None
                    parts += self.strparts(self.freeze(v, state)) if not spec else (("hole", self.freeze(v, state), spec),)
                return self.mkstr(parts)
            except (ValueError, IndexError):
                return None
        if recv.tag == "const" and isinstance(recv.a[1], str) and name in ("lower", "upper", "strip", "capitalize",
                                                                         "title") and not args:
            return const(getattr(recv.a[1], name)())
        if recv.tag == "const" and isinstance(recv.a[1], str) and name == "split" and \
                all(is_const(a) for a in args):
            try:
                return self.alloc(state, "list", [((), "item", const(x)) for x in recv.a[1].split(*[a.a[1] for a in args])])
            except TypeError:
                return None
        return None

    def as_set(self, v, state):
        v = self.freeze(v, state)
        if v.tag in ("list", "set"):
            return mk("set", v.a[0])
        return mk("set", (((), "splat", v),))

    def call_container(self, recv, name, args, kwargs, state, frame, node):
        """ Method of a tracked container (or guarded choice of containers). """
        result = []
        for g, r in alts(recv):
            if not (r.tag == "ref" and r.a[0] in state.heap):
                base = state.pc
                pc = norm_guards(base + tuple(g))
                if pc is None:
                    continue
                state.pc = pc
                v = self.call_attr(r, name, args, kwargs, None, [], state, frame, node)
                if self.dead(state):
                    v = NONE
                state.pc = base
                result.append((g, v))
                continue
            oid = r.a[0]
            obj = state.heap[oid]
            rel = self.rel(state.pc, obj.pc) + tuple(x for x in g if x not in obj.pc)
            ents = obj.entries
            res = NONE
            if obj.kind in ("list", "set"):
                if name in ("append", "add") and args:
                    ents = self.joined(ents, ((rel, "item", args[0]),), rel if obj.kind == "list" else None, oid)
                elif name == "extend" and args:
                    ents = self.joined(ents, self.splat_entries(args[0], state, rel), rel, oid)
                elif name == "update" and args and obj.kind == "set":
                    for a in args:
                        ents = ents + tuple(self.splat_entries(a, state, rel))
                elif name == "insert" and len(args) == 2:
                    if is_const(args[0], 0) and any(x.tag == "foreach" for x in rel):
                        ents = ents + ((rel, "front", args[1]),)
                    elif is_const(args[0], 0) and not any(e[1] == "op" for e in ents):
                        ents = ((rel, "item", args[1]),) + ents
                    else:
                        ents = ents + ((rel, "op", const("insert"), args[0], args[1]),)
                elif name == "pop":
                    k = args[0] if args else const(-1)
                    res = self.getitem(r, k, state)
                    if not rel and ents and all(not e[0] and e[1] == "item" for e in ents) and k.tag == "const" and \
                            isinstance(k.a[1], int) and -len(ents) <= k.a[1] < len(ents):
                        lst = list(ents)
                        lst.pop(k.a[1])
                        ents = tuple(lst)
                    else:
                        ents = ents + ((rel, "op", const(name)) + tuple(x for _, x in self.flat(args, kwargs, None, [], state)),)
                elif name == "clear":
                    ents = () if not rel else ents + ((rel, "op", const(name)),)
                elif name == "copy":
                    res = self.alloc(state, obj.kind, ents)
                elif name in ("discard", "difference_update") and obj.kind == "set" and len(args) == 1 and not rel:
                    less = self.as_set(args[0], state) if name != "discard" else \
                        mk("set", (((), "item", self.freeze(args[0], state)),))
                    ents = (((), "splat", mk("bin", "-", self.freeze(r, state), less)),)
                elif name in ("difference", "intersection") and obj.kind == "set" and len(args) == 1:
                    res = mk("bin", "-" if name == "difference" else "&", self.freeze(r, state),
                             self.as_set(args[0], state))
                elif name in ("issubset", "issuperset") and obj.kind == "set" and len(args) == 1:
                    a, b = self.freeze(r, state), self.as_set(args[0], state)
                    res = neg(self.compare("<", b, a, state) if name == "issubset" else self.compare("<", a, b, state))
                elif name == "union" and obj.kind == "set" and len(args) == 1:
                    res = self.alloc(state, "set", tuple(ents) + tuple(self.splat_entries(args[0], state)))
                elif name in ("sort", "reverse", "remove", "discard", "difference_update", "intersection_update"):
                    ents = ents + ((rel, "op", const(name)) + tuple(x for _, x in self.flat(args, kwargs, None, [], state)),)
                else:
                    res = mk("mcall", self.freeze(r, state), name, self.flat(args, kwargs, None, [], state))
                    if name not in BUILTIN_METHODS:
                        self.emit("call", state, res, None, node, frame)
            else:
                if name == "update":
                    new = ()
                    if args:
                        new += tuple((rel + tuple(e[0]),) + tuple(e[1:]) for e in self.dict_splat(args[0], state))
                    new += tuple((rel, "item", const(k), v) for k, v in kwargs.items())
                    ents = ents + new
                elif name == "setdefault" and args:
                    d = args[1] if len(args) > 1 else NONE
                    c = self.compare("in", args[0], r, state)
                    res = self.dict_get(r, args[0], d, state)
                    if c is not TRUE:
                        ents = ents + ((rel + ((neg(c),) if c is not FALSE else ()), "item", args[0], d),)
                elif name == "get" and args:
                    res = self.dict_get(r, args[0], args[1] if len(args) > 1 else NONE, state)
                elif name == "pop" and args:
                    res = self.dict_get(r, args[0], args[1], state) if len(args) > 1 else self.getitem(r, args[0], state)
                    if len(args) == 1:
                        self.removed(r, args[0], tuple(g), state, frame, node)
                    ents = ents + ((self.if_there(rel, args[0], r, state), "del", args[0], NONE),)
                elif name == "items":
                    res = self.alloc(state, "list", [(e[0], "item", mk("tuple", (e[2], e[3]))) if e[1] == "item" else
                                                     (e[0], "splat", mk("mcall", self.freeze(e[3], state), "items", ()))
                                                     for e in self.dict_entries(ents) if e[1] != "del"])
                elif name == "keys":
                    res = self.alloc(state, "list", [(e[0], e[1], e[2] if e[1] == "item" else e[3])
                                                     for e in self.dict_entries(ents) if e[1] != "del"])
                elif name == "values":
                    res = self.alloc(state, "list", [(e[0], "item", e[3]) if e[1] == "item" else
                                                     (e[0], "splat", mk("mcall", self.freeze(e[3], state), "values", ()))
                                                     for e in self.dict_entries(ents) if e[1] != "del"])
                elif name == "copy":
                    res = self.alloc(state, "dict", self.dict_entries(ents))
                elif name == "clear":
                    ents = () if not rel else ents + ((rel, "op", const(name), NONE),)
                else:
                    res = mk("mcall", self.freeze(r, state), name, self.flat(args, kwargs, None, [], state))
                    if name not in BUILTIN_METHODS:
                        self.emit("call", state, res, None, node, frame)
            if ents is not obj.entries and oid in state.heap:
                state.heap[oid] = Obj(obj.kind, ents, obj.pc)
            result.append((g, res))
        return phi(result) if result else NONE
