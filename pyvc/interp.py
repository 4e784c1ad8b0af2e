"""An interpreter of Python's abstract syntax over symbolic values: generates the verification conditions."""
import ast
import builtins as _bi
import os

import z3

from . import signatures
from .core import (B, Budget, HeapObj, I, IteV, Obj, Opaque, PathEnd, Poison, PyRaise, R, RestartUnit, SV, Unsupported, Value, same)
from .values import (BoundMethod, BuiltinCls, ClsV, CM, Coll, DictV, Env, ExtCls, Fam, FamRef, GenV, Inst, ListV, Model, ModuleV, PyFunc, Schema, UserModel,
                     SetV, TypeOf, subst, subst_f, term_vars, walk)

REPO_SRC = os.environ.get("PYVC_REPO_SRC", "/repo/src")

box_int = z3.Function("box_int", I, Obj)
unbox_int = z3.Function("unbox_int", Obj, I)
box_bool = z3.Function("box_bool", B, Obj)
box_real = z3.Function("box_real", R, Obj)
alloc = z3.Function("alloc", Obj, I)
truthy = z3.Function("truthy", Obj, B)
strlen = z3.Function("strlen", Obj, I)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class GenExit(Exception):
    """The consumer of an inlined generator leaves early."""


CONTROL = (Return, Break, Continue)


class ModuleInfo:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.source = f.read()
        self.tree = ast.parse(self.source)
        self.index = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.index[st.name] = ("def", st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.index[t.id] = ("assign", st)
                    elif isinstance(t, ast.Tuple):
                        for k, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.index[e.id] = ("assign_item", (st, k))
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                self.index[st.target.id] = ("assign", st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    self.index[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    pkg = parts if self.path.endswith("__init__.py") else parts[:-1]
                    pkg = pkg[: len(pkg) - (st.level - 1)]
                    base = ".".join(pkg + ([st.module] if st.module else []))
                for a in st.names:
                    self.index[a.asname or a.name] = ("from", (base, a.name))
            elif isinstance(st, ast.If):
                self._scan(st.body)
                self._scan(st.orelse)
            elif isinstance(st, ast.Try):
                self._scan(st.body)


_modules = {}


MUTATORS = {"append", "appendleft", "extend", "extendleft", "insert", "remove", "pop", "popleft", "popitem", "clear", "sort", "reverse", "rotate", "add",
            "discard", "update", "setdefault", "difference_update", "intersection_update", "symmetric_difference_update", "move_to_end", "subtract",
            "__setitem__", "__delitem__", "__setattr__", "put", "set", "register"}


class State:
    """Module-level names and class attributes whose values change after their module was loaded, found in the text of the whole repository.

    A contract is proved for the values that loading leaves: using one of these is out of reach. (What a unit changes without naming it is found
    by comparing the module-level objects at the end of every path, see Interp.check_static.)
    """

    def __init__(self):
        self.names, self.attrs = set(), set()
        self.fields = set()  # attributes stored or changed outside constructors
        names = []
        for d, _, files in os.walk(os.path.join(REPO_SRC, "uberjob")):
            for f in files:
                if f.endswith(".py"):
                    n = os.path.relpath(os.path.join(d, f), REPO_SRC)[:-3].replace(os.sep, ".")
                    names.append(n[:-9] if n.endswith(".__init__") else n)
        for n in sorted(names):
            m = load_module(n)
            if m is not None:
                self.module(m)

    def module(self, m):
        for st in m.tree.body:
            self.toplevel(m, st)
        for node in ast.walk(m.tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                local = {a.arg for a in ast.walk(node.args) if isinstance(a, ast.arg)}
                body = node.body if isinstance(node.body, list) else [node.body]
                glob = {n for x in ast.walk(node) if isinstance(x, ast.Global) for n in x.names}
                local |= assigned_names(body) - glob
                for n in glob:
                    self.name(m, n)
                for st in body:
                    for x in ast.walk(st):
                        self.changes(m, x, local)
                        if getattr(node, "name", "") != "__init__":
                            self.field(x)

    def toplevel(self, m, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Assert)):
            return
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return
        if isinstance(st, (ast.If, ast.Try)):
            for b in (st.body, st.orelse, getattr(st, "finalbody", []), *[h.body for h in getattr(st, "handlers", [])]):
                for x in b:
                    self.toplevel(m, x)
            return
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            for x in ast.walk(st):
                self.changes(m, x, set(), True)
            return
        for x in ast.walk(st):
            if isinstance(x, ast.Name):
                self.name(m, x.id)
            self.changes(m, x, set())

    def changes(self, m, x, local, top=False):
        if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            self.chain(m, x, local, top)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            self.chain(m, x.func.value, local, top, call=True)
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr", "next") and x.args:
            self.chain(m, x.args[0], local, top, call=True)

    def field(self, x):
        if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)):
            pass
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
            x = x.func.value
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "delattr", "next") and x.args:
            if len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                self.fields.add(x.args[1].value)
            x = x.args[0]
        else:
            return
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            if isinstance(x, ast.Attribute):
                self.fields.add(x.attr)
            x = x.value

    def chain(self, m, x, local, top, call=False):
        """x is changed: x[..], x.a or x itself."""
        attrs = []
        first = True
        while isinstance(x, (ast.Subscript, ast.Attribute)):
            if isinstance(x, ast.Attribute):
                attrs.append((x.attr, first and not call))
            first = False
            x = x.value
        if isinstance(x, ast.Name) and x.id not in local and x.id in m.index:
            kind, y = m.index[x.id]
            if kind == "module" and not y.startswith("uberjob") or kind == "from" and not y[0].startswith("uberjob"):
                return
            if kind in ("assign", "assign_item"):
                if top and attrs and kind == "assign" and y.value is not None and ast.unparse(y.value).startswith(("reprlib.Repr(", "Repr(")):
                    return
                self.name(m, x.id)
            elif kind == "def" and not attrs:
                self.name(m, x.id)
            elif kind == "from":
                o = load_module(y[0])
                if o is not None and o.index.get(y[1], ("",))[0] in ("assign", "assign_item"):
                    self.name(o, y[1])
                self.name(m, x.id) if not attrs else None
            for a, _ in attrs:
                self.attrs.add(a)
            return
        # an attribute of some object: a class attribute, unless the object has its own
        for a, direct in attrs:
            if not direct:
                self.attrs.add(a)

    def name(self, m, n):
        self.names.add((m.name, n))
        if n in m.index and m.index[n][0] == "from":
            self.names.add(m.index[n][1])


_state = []


def state():
    if not _state:
        _state.append(State())
    return _state[0]


def load_module(name):
    if name not in _modules:
        base = os.path.join(REPO_SRC, *name.split("."))
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                _modules[name] = ModuleInfo(name, p)
                break
        else:
            _modules[name] = None
    return _modules[name]


def assigned_names(nodes):
    """Names bound in a list of statements, without entering nested functions."""
    out = set()

    def target(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                target(e)
        elif isinstance(t, ast.Starred):
            target(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    target(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                target(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            target(n.target)
        elif isinstance(n, ast.NamedExpr):
            target(n.target)
        elif isinstance(n, ast.For):
            target(n.target)
        elif isinstance(n, ast.withitem):
            if n.optional_vars is not None:
                target(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split(".")[0])
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in nodes:
        visit(n)
    return out


def scope_decls(body):
    nl, gl = set(), set()

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            return
        if isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in body:
        visit(n)
    return nl, gl


def has_yield(body):
    found = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp)):
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            found.append(n)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for n in body:
        visit(n)
    return bool(found)


_fn_info = {}


def fn_info(node):
    k = id(node)
    if k not in _fn_info:
        if isinstance(node, ast.Lambda):
            body = [ast.Return(node.body)]
            nl, gl = set(), set()
            gen = False
            names = set()
        else:
            body = node.body
            nl, gl = scope_decls(body)
            gen = has_yield(body)
            names = assigned_names(body)
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        _fn_info[k] = (node, body, (names | set(params)) - nl - gl, nl, gl, gen)
    return _fn_info[k]


class Interp:
    def __init__(self, ctx, overrides=None):
        self.ctx = ctx
        ctx.it = self
        self.globals = {}
        self.static = []
        self.overrides = overrides or {}  # "module.name" -> Value or fn(interp) -> Value
        self.executed = ctx.x.persist.setdefault("executed", set())
        self.yield_handlers = []
        self.loop_contracts = []  # fn(interp, stmt, env) -> handler or None
        self.call_contracts = {}  # qualified name -> fn(interp, args, kwargs)
        self.depth = 0
        self.reads = None
        self.current_exc = []
        self.frames = []
        self.hook = None  # fn(interp, function, args, kwargs) -> value or NotImplemented
        from . import models

        self.models = models
        models.install(self)

    # ------------------------------------------------------------ terms
    def none_term(self):
        return self.ctx.const("None")

    def term(self, v):
        if isinstance(v, SV):
            if v.kind == "obj":
                return v.t
            return {"int": box_int, "bool": box_bool, "real": box_real}[v.kind](v.t)
        if v is None or v is True or v is False or v is Ellipsis:
            return self.ctx.const(repr(v))
        if isinstance(v, int):
            return box_int(z3.IntVal(v))
        if isinstance(v, (str, bytes, float)):
            t = self.ctx.const(repr(v))
            if isinstance(v, str) and ("strlen", v) not in self.ctx.extra:
                self.ctx.extra[("strlen", v)] = True
                self.ctx.assume(strlen(t) == len(v))
                self.ctx.assume(truthy(t) == bool(v))
            return t
        if isinstance(v, tuple):
            ts = [self.term(x) for x in v]
            f = z3.Function(f"tuple{len(ts)}", *([Obj] * len(ts)), Obj) if ts else None
            return f(*ts) if ts else self.ctx.const("()")
        if isinstance(v, IteV):
            out = self.term(v.cases[-1][1])
            for g, x in reversed(v.cases[:-1]):
                out = z3.If(g, self.term(x), out)
            return out
        if isinstance(v, FamRef):
            fam = v.fam
            if fam.term is None:
                self.ctx.names += 1
                n = self.ctx.names
                sorts = [x.sort() for x in fam.xs]
                fam.term = z3.Function(f"fam!{n}", *sorts, Obj)
                self._fam_axioms(fam)
            return fam.term(*v.ts)
        if isinstance(v, HeapObj):
            if v.term is None:
                v.term = self.ctx.fresh("obj", Obj)
                self.ctx.extra["nalloc"] = self.ctx.extra.get("nalloc", 0) + 1
                self.ctx.assume(alloc(v.term) == self.ctx.names)
                self.ctx.assume(v.term != self.none_term())
                self.ctx.term_values[str(v.term)] = v
            return v.term
        if isinstance(v, TypeOf):
            raise Unsupported("type object used as a term")
        if isinstance(v, (ClsV, PyFunc)):
            return self.ctx.const("def:" + v.qual + (":" + str(id(v.env)) if isinstance(v, PyFunc) and v.env is not None and v.env.func is not None else ""))
        if isinstance(v, (BuiltinCls, Model, ModuleV, ExtCls)):
            return self.ctx.const("def:" + v.name)
        if isinstance(v, Opaque):
            return self.ctx.const("opaque:" + v.name + str(id(v)))
        if isinstance(v, BoundMethod):
            f = z3.Function("boundmethod", Obj, Obj, Obj)
            return f(self.term(v.self_), self.term(v.fn))
        if isinstance(v, Poison):
            raise Unsupported(f"use of a variable assigned in a summarised loop ({v.why})")
        raise Unsupported(f"no term for {v!r}")

    def _fam_axioms(self, fam):
        n = str(fam.term)
        sorts = [x.sort() for x in fam.xs]
        self.ctx.names += 1
        num = self.ctx.names
        vs = [z3.Const(f"fv{i}", s) for i, s in enumerate(sorts)]
        app = fam.term(*vs)
        conj = [alloc(app) == num, app != self.none_term()]
        for i, s in enumerate(sorts):
            inv = z3.Function(f"{n}_inv{i}", Obj, s)
            conj.append(inv(app) == vs[i])
        self.ctx.assume(z3.ForAll(vs, z3.And(*conj), patterns=[app]))

    # ------------------------------------------------------------ basic predicates
    def resolve(self, v):
        """Branch until the value is not conditional."""
        while isinstance(v, IteV):
            cases = v.cases
            if len(cases) == 1:
                v = cases[0][1]
                continue
            if self.ctx.branch(cases[0][0]):
                v = cases[0][1]
            else:
                v = IteV(cases[1:])
        if isinstance(v, Poison):
            raise Unsupported(f"use of a variable assigned in a summarised loop ({v.why})")
        if isinstance(v, Tmpl):
            v = v.instantiate(self)
        return v

    def truth(self, v):
        return self.ctx.branch(self.truth_f(v))

    def truth_f(self, v):
        v = self.resolve(v)
        if isinstance(v, (bool, int, float, str, bytes, tuple)) or v is None:
            return bool(v)
        if isinstance(v, SV):
            if v.kind == "bool":
                return v.t
            if v.tag is not None:
                return v.tag.truth(self, v)
            if v.kind in ("int", "real"):
                return v.t != 0
            return truthy(v.t)
        if isinstance(v, ListV):
            self.models.note(self, v)
            if any(s[0] == "one" for s in v.segs):
                return True
            return z3.Or(*[self.coll_nonempty(s[1]) for s in v.segs]) if v.segs else False
        if isinstance(v, DictV):
            return self.models.dict_nonempty(self, v)
        if isinstance(v, SetV):
            return self.models.set_nonempty(self, v)
        if isinstance(v, Inst):
            m = self.find_method(v.cls, "__bool__")
            if m is not None:
                return self.truth_f(self.call(BoundMethod(v, m), [], {}))
            m = self.find_method(v.cls, "__len__")
            if m is not None:
                n = self.call(BoundMethod(v, m), [], {})
                return self.truth_f(n)
            if v.ext is not None and hasattr(v.ext, "truth"):
                return v.ext.truth(self, v)
            return True
        if isinstance(v, Coll):
            return self.coll_nonempty(v)
        if isinstance(v, UserModel):
            return z3.Function("truth_of", Obj, B)(self.term(v))
        if isinstance(v, (FamRef, PyFunc, ClsV, BuiltinCls, Model, BoundMethod, ModuleV, ExtCls, GenV, TypeOf)):
            return True
        if isinstance(v, HeapObj) and hasattr(v, "truth"):
            return v.truth(self)
        if isinstance(v, Opaque) and v.name == "tzinfo":
            return True
        raise Unsupported(f"truth of {v!r}")

    def coll_nonempty(self, c):
        if c.n is not None:
            return c.n > 0
        mem = c.mem
        if mem is False:
            return False
        return z3.Exists(c.xs, mem) if c.xs else mem

    def is_(self, a, b):
        """Identity: bool or formula."""
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            if not isinstance(a, TypeOf):
                a, b = b, a
            if isinstance(b, TypeOf):
                raise Unsupported("comparison of two types of values")
            return self.type_is(a.v, b)
        for x, y in ((a, b), (b, a)):
            if x is None or x is True or x is False:
                if isinstance(y, SV):
                    if getattr(y.tag, "never_none", False):
                        return False
                    if y.kind == "obj":
                        return y.t == self.term(x)
                    if y.kind == "bool" and x is not None:
                        return y.t == x
                    return False
                return x is y
        if isinstance(a, SV) or isinstance(b, SV):
            if isinstance(a, SV) and isinstance(b, SV) and a.kind != b.kind:
                return False
            return self.term(a) == self.term(b)
        if isinstance(a, FamRef) or isinstance(b, FamRef):
            if isinstance(a, FamRef) and isinstance(b, FamRef) and a.fam is b.fam:
                return z3.And(*[x == y for x, y in zip(a.ts, b.ts)]) if a.ts else True
            return False
        if isinstance(a, (ClsV, PyFunc)) and type(a) is type(b):
            return a.qual == b.qual and (not isinstance(a, PyFunc) or a.env is b.env)
        if isinstance(a, BuiltinCls) and isinstance(b, BuiltinCls):
            return a.cls is b.cls
        if isinstance(a, (Model, ModuleV, ExtCls)) and type(a) is type(b):
            return a.name == b.name
        if isinstance(a, (int, str, float, bytes, tuple)) and isinstance(b, (int, str, float, bytes, tuple)):
            if type(a) is type(b) and not isinstance(a, tuple):
                return a == b
            return a is b
        if isinstance(a, BoundMethod) and isinstance(b, BoundMethod):
            return False
        return a is b

    def user(self, v):
        """Whether v is an object of a user's class, whose == and hash are unknown."""
        if isinstance(v, SV):
            u = getattr(v.tag, "user", False)
            return u if isinstance(u, bool) else u(self, v)
        if isinstance(v, Inst):
            return getattr(v.ext, "user", False)
        return isinstance(v, UserModel)

    def same(self, a, b):
        """Whether a container counts a and b as equal: identical or ==."""
        a, b = self.resolve(a), self.resolve(b)
        e = self.eq(a, b)
        return self.disj([self.is_(a, b), e]) if self.user(a) or self.user(b) else e

    def ident(self, a, b):
        """For specifications: the very same object, if it is a user's; else ==."""
        a, b = self.resolve(a), self.resolve(b)
        return self.is_(a, b) if self.user(a) or self.user(b) else self.eq(a, b)

    def no_user_key(self, v):
        v = self.resolve(v)
        for x in v if isinstance(v, tuple) else (v,):
            if self.user(self.resolve(x)):
                raise Unsupported("a user's object as a key: its hash and == are unknown")

    def eq(self, a, b):
        """== : bool or formula."""
        a, b = self.resolve(a), self.resolve(b)
        if isinstance(a, TypeOf) or isinstance(b, TypeOf):
            return self.is_(a, b)
        if isinstance(a, tuple) and isinstance(b, ListV):
            b = self.as_tuple(b)
        if isinstance(b, tuple) and isinstance(a, ListV):
            a = self.as_tuple(a)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            fs = [self.same(x, y) for x, y in zip(a, b)]
            return self.conj(fs)
        conc = (bool, int, str, float, bytes, type(None))
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                m = self.find_method(x.cls, "__eq__")
                if m is not None:
                    return self.truth_f(self.call(BoundMethod(x, m), [y], {}))
        if self.user(a) or self.user(b):
            return z3.Function("user_eq", Obj, Obj, B)(self.term(a), self.term(b))
        if isinstance(a, SV) and isinstance(b, SV) and a.t.sort() == b.t.sort():
            return a.t == b.t
        if isinstance(a, SV) and a.kind in ("int", "real") and isinstance(b, (int, float)):
            return a.t == b
        if isinstance(b, SV) and b.kind in ("int", "real") and isinstance(a, (int, float)):
            return b.t == a
        if isinstance(a, SV) and isinstance(b, SV) and {a.kind, b.kind} <= {"int", "real"}:
            return self.num(a) == self.num(b)
        if isinstance(a, SV) and a.kind == "bool" and isinstance(b, bool):
            return a.t == b
        if isinstance(b, SV) and b.kind == "bool" and isinstance(a, bool):
            return b.t == a
        if isinstance(a, (ListV,)) and isinstance(b, ListV):
            if a is b:
                return True
            if a.concrete() and b.concrete():
                if len(a.segs) != len(b.segs):
                    return False
                return self.conj([self.same(x[1], y[1]) for x, y in zip(a.segs, b.segs)])
            if a.kind == b.kind == "tuple":
                from .units.graphs import seq_term

                value = z3.Function("seq_value", Obj, Obj)
                return value(seq_term(self, a)) == value(seq_term(self, b))
            raise Unsupported("equality of symbolic sequences")
        if isinstance(a, (DictV, SetV)) and isinstance(b, (DictV, SetV)) and a is not b:
            raise Unsupported("equality of containers")
        return self.is_(a, b)

    def conj(self, fs):
        out = []
        for f in fs:
            if f is False:
                return False
            if f is True:
                continue
            out.append(f)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def disj(self, fs):
        out = []
        for f in fs:
            if f is True:
                return True
            if f is False:
                continue
            out.append(f)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def neg(self, f):
        return (not f) if isinstance(f, bool) else z3.Not(f)

    def as_tuple(self, v):
        if isinstance(v, tuple):
            return v
        if isinstance(v, ListV):
            return tuple(v.items())
        raise Unsupported("not a concrete tuple")

    def num(self, v):
        v = self.resolve(v)
        if isinstance(v, SV):
            if v.kind == "bool":
                return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
            if v.kind in ("int", "real"):
                return v.t
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            return z3.RealVal(v)
        raise Unsupported(f"number expected, got {v!r}")

    # ------------------------------------------------------------ types
    def type_is(self, v, cls):
        """type(v) is cls: bool or formula."""
        v = self.resolve(v)
        cls = self.resolve(cls)
        if isinstance(v, SV) and v.kind == "obj":
            if v.tag is None:
                raise Unsupported("type of an untyped symbolic object")
            return v.tag.type_is(self, v, cls)
        c = self.class_of(v)
        return self.is_(c, cls)

    def class_of(self, v):
        v = self.resolve(v)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, FamRef):
            return v.fam.cls
        if v is None:
            return BuiltinCls(type(None))
        if isinstance(v, (bool, int, str, float, bytes, tuple)):
            return BuiltinCls(type(v))
        if isinstance(v, SV) and v.kind != "obj":
            return BuiltinCls({"int": int, "bool": bool, "real": float}[v.kind])
        if isinstance(v, (ListV, SetV, DictV)):
            k = v.kind
            if k in ("list", "set", "dict", "tuple"):
                return BuiltinCls({"list": list, "set": set, "dict": dict, "tuple": tuple}[k])
            return Opaque("class of " + k)
        if isinstance(v, (PyFunc, Model, BoundMethod)):
            return Opaque("function type")
        if isinstance(v, (ClsV, BuiltinCls)):
            return BuiltinCls(type)
        raise Unsupported(f"class of {v!r}")

    def mro(self, cls):
        if isinstance(cls, ClsV):
            out = [cls]
            for b in cls.bases:
                for c in self.mro(b):
                    if not any(c is x or (isinstance(c, BuiltinCls) and isinstance(x, BuiltinCls) and c.cls is x.cls) for x in out):
                        out.append(c)
            return out
        return [cls]

    def issub(self, c, d):
        if isinstance(d, tuple):
            return any(self.issub(c, x) for x in d)
        if isinstance(c, BuiltinCls) and isinstance(d, BuiltinCls):
            try:
                return issubclass(c.cls, d.cls)
            except TypeError:
                return False
        if isinstance(d, BuiltinCls) and d.cls is object:
            return True
        for x in self.mro(c):
            if isinstance(x, ClsV) and isinstance(d, ClsV) and x.qual == d.qual:
                return True
            if isinstance(x, BuiltinCls) and isinstance(d, BuiltinCls) and issubclass(x.cls, d.cls):
                return True
            if x is d:
                return True
            if isinstance(x, ExtCls) and isinstance(d, ExtCls) and x.name == d.name:
                return True
        return False

    def isinstance_f(self, v, cls):
        v = self.resolve(v)
        if isinstance(cls, ListV):
            cls = self.as_tuple(cls)
        if isinstance(cls, tuple):
            return self.disj([self.isinstance_f(v, c) for c in cls])
        if isinstance(v, SV) and v.kind == "obj":
            if v.tag is None:
                raise Unsupported("isinstance of an untyped symbolic object")
            return v.tag.isinstance(self, v, cls)
        if isinstance(v, Inst) and v.ext is not None and hasattr(v.ext, "isinstance"):
            return v.ext.isinstance(self, v, cls)
        if isinstance(v, (PyFunc, Model, BoundMethod)) and isinstance(cls, (BuiltinCls, ClsV)):
            return isinstance(cls, BuiltinCls) and cls.cls is object
        return self.issub(self.class_of(v), cls)

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return self.read_var(e, name)
            if name in e.locals_ and name not in e.vars and e.func is not None:
                if self.in_shared(e):
                    pass
                if name in e.locals_:
                    if e is env or True:
                        raise PyRaise(self.exc(UnboundLocalError if e is env else NameError, (name,)))
            e = e.parent
        return self.module_global(env.module, name)

    def in_shared(self, e):
        return e.shared

    def read_var(self, e, name):
        v = e.vars[name]
        if self.ctx.conc is not None and e.shared:
            v = self.ctx.conc.read_cell(self, e, name)
        elif self.reads is not None:
            self.reads.append((e.oid, name))
        if isinstance(v, Poison):
            raise Unsupported(f"use of {name}, assigned in a summarised loop ({v.why})")
        return v

    def write_var(self, e, name, v):
        if self.ctx.conc is not None and e.shared:
            self.ctx.conc.write_cell(self, e, name, v)
        else:
            e.vars[name] = v

    def find_env(self, name, env):
        """The environment in which an assignment to name in env goes."""
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or (e.locals_ and name in e.locals_):
                    return e
                e = e.parent
            raise Unsupported(f"nonlocal {name} not found")
        return env

    def assign_name(self, name, v, env):
        if name in env.globals_:
            raise Unsupported(f"module-level name {name} is assigned in a function")
        self.write_var(self.find_env(name, env), name, v)

    def module_global(self, module, name):
        if module is not None:
            key = (module.name, name)
            if key in self.globals:
                return self.globals[key]
            q = f"{module.name}.{name}"
            if q in self.overrides:
                v = self.overrides[q]
                if callable(v) and not isinstance(v, Value):
                    v = v(self)
                self.globals[key] = v
                return v
            if name in module.index:
                if (module.name, name) in state().names:
                    raise Unsupported(f"module-level name {q}, whose value changes")
                start = len(self.ctx.heap)
                v = self.eval_global(module, name)
                self.static += [(o, o.snap()) for o in self.ctx.heap[start:]]
                self.globals[key] = v
                return v
            if name == "__name__":
                return module.name
            if name == "__file__":
                return module.path
        v = self.models.builtin(self, name)
        if v is None and name != "None":
            raise PyRaise(self.exc(NameError, (name,)))
        return v

    def any_history(self, inst, known):
        """inst as any operations on it left it: the unit gives the known attributes; another one that changes after construction is out of reach."""
        for name in inst.attrs:
            if name not in known and name in state().fields:
                inst.attrs[name] = Poison("changed by operations on the object before")
        self.ctx.extra.setdefault("arbitrary", set()).add(inst.oid)

    def check_static(self):
        """The objects that loading a module makes are as loading left them."""
        for o, before in self.static:
            for x, y in zip(before, o.snap()):
                if type(x) is dict and type(y) is dict:
                    same = len(x) == len(y) and all(k in y and x[k] is y[k] for k in x)
                elif type(x) is list and type(y) is list:
                    same = len(x) == len(y) and all(a is b for a, b in zip(x, y))
                else:
                    same = x is y
                if not same:
                    raise Unsupported("a module-level object is changed")

    def eval_global(self, module, name):
        kind, x = module.index[name]
        env = self.module_env(module)
        if kind == "def":
            if isinstance(x, ast.ClassDef):
                return self.make_class(x, env, module)
            f = self.make_func(x, env, module, None)
            return self.decorate(f, x, env)
        if kind == "assign":
            return self.eval(x.value, env)
        if kind == "assign_item":
            st, k = x
            return self.as_tuple(self.eval(st.value, env))[k]
        if kind == "module":
            return self.import_module(x)
        if kind == "from":
            return self.import_from(*x)
        raise Unsupported(name)

    def module_env(self, module):
        key = ("env", module.name)
        if key not in self.globals:
            self.globals[key] = Env(self.ctx, None, module)
        return self.globals[key]

    def import_module(self, name):
        if name == "uberjob" or name.startswith("uberjob."):
            m = load_module(name)
            if m is not None:
                return ModuleV(name)
        return ModuleV(name)

    def import_from(self, base, name):
        if base == "uberjob" or base.startswith("uberjob."):
            sub = load_module(f"{base}.{name}")
            m = load_module(base)
            if m is not None and name in m.index and not (m.index[name] == ("from", (base, name))):
                return self.module_global(m, name)
            if sub is not None:
                return ModuleV(f"{base}.{name}")
            if m is not None:
                return self.module_global(m, name)
        return self.module_attr(ModuleV(base), name)

    def module_attr(self, mod, name):
        if mod.name == "uberjob" or mod.name.startswith("uberjob."):
            m = load_module(mod.name)
            if m is not None and name in m.index:
                return self.module_global(m, name)
            if load_module(f"{mod.name}.{name}") is not None:
                return ModuleV(f"{mod.name}.{name}")
            raise PyRaise(self.exc(AttributeError, (name,)))
        return self.models.module_attr(self, mod.name, name)

    def glob(self, dotted):
        """A repository global by dotted name: 'uberjob._plan.Plan'."""
        mod, name = dotted.rsplit(".", 1)
        m = load_module(mod)
        if m is None:
            raise Unsupported(f"module {mod} not found")
        if name not in m.index and f"{mod}.{name}" not in self.overrides:
            raise Unsupported(f"{dotted} not found")
        return self.module_global(m, name)

    # ------------------------------------------------------------ functions and classes
    def make_func(self, node, env, module, cls):
        f = PyFunc()
        f.node, f.module, f.env, f.cls = node, module, env, cls
        f.name = getattr(node, "name", "<lambda>")
        f.info = fn_info(node)
        f.is_gen = f.info[5]
        f.qual = f"{module.name}.{cls.name + '.' if cls else ''}{f.name}"
        if env.func is not None:
            f.qual = f"{env.func.qual}.<locals>.{f.name}"
        a = node.args
        f.defaults = [self.eval(d, env) for d in a.defaults]
        f.kwdefaults = [None if d is None else (self.eval(d, env),) for d in a.kw_defaults]
        f.decorators = []
        return f

    IGNORED_DECORATORS = ("abstractmethod", "total_ordering", "functools.total_ordering",
                          "abc.abstractmethod", "override", "final")

    def decorate(self, f, node, env):
        for d in reversed(node.decorator_list):
            text = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if text in ("contextmanager", "contextlib.contextmanager"):
                f.decorators.append("contextmanager")
            elif text in self.IGNORED_DECORATORS:
                f.decorators.append(text)
                self.ctx.x.assumed.add(f"decorator {text} is transparent")
            elif text in ("staticmethod", "classmethod", "property"):
                f.decorators.append(text)
            else:
                if f.cls is not None:
                    raise Unsupported(f"method decorator {text}")
                dv = self.eval(d, env)
                return self.call(dv, [f], {})
        return f

    def make_class(self, node, env, module):
        c = ClsV()
        c.name, c.module, c.node = node.name, module, node
        c.qual = f"{module.name}.{node.name}"
        c.fields = None
        c.bases = []
        for b in node.bases:
            text = ast.unparse(b)
            if text in ("NamedTuple", "typing.NamedTuple"):
                c.fields = [s.target.id for s in node.body if isinstance(s, ast.AnnAssign)]
                continue
            if text in ("ABC", "abc.ABC", "Protocol") or text.startswith(("Generic[", "Protocol[")):
                continue
            c.bases.append(self.eval(b, env))
        for k in node.keywords:
            if k.arg != "metaclass":
                raise Unsupported("class keyword")
        c.attrs = {}
        for d in node.decorator_list:
            text = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if text in ("dataclass", "dataclasses.dataclass"):
                c.fields = [s.target.id for s in node.body if isinstance(s, ast.AnnAssign)]
            elif text not in self.IGNORED_DECORATORS:
                raise Unsupported(f"class decorator {text}")
        cenv = Env(self.ctx, env, module)
        c.env = cenv
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.make_func(st, env, module, c)
                cenv.vars[st.name] = c.attrs[st.name] = self.decorate(f, st, cenv)
            elif isinstance(st, ast.Assign):
                v = self.eval(st.value, cenv)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        cenv.vars[t.id] = c.attrs[t.id] = v
            elif isinstance(st, ast.AnnAssign):
                if st.value is not None:
                    cenv.vars[st.target.id] = c.attrs[st.target.id] = self.eval(st.value, cenv)
            elif isinstance(st, (ast.Expr, ast.Pass)):
                pass
            else:
                raise Unsupported(f"statement in class body: {type(st).__name__}")
        return c

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, ClsV) and name in c.attrs:
                if name in state().attrs:
                    raise Unsupported(f"class attribute {name}, whose value changes")
                return c.attrs[name]
            if isinstance(c, ExtCls) and name in c.methods:
                return c.methods[name]
        return None

    def exc(self, pycls, args=()):
        return Inst(self.ctx, BuiltinCls(pycls), {"args": tuple(args), "__cause__": None, "__context__": None})

    def raise_(self, pycls, *args):
        raise PyRaise(self.exc(pycls, args))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.resolve(f)
        if isinstance(f, BoundMethod):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Model):
            return f.fn(self, list(args), dict(kwargs))
        if isinstance(f, PyFunc):
            return self.call_py(f, args, kwargs)
        if isinstance(f, (ClsV, BuiltinCls, ExtCls)):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, SV) and f.tag is not None:
            return f.tag.call(self, f, args, kwargs)
        if isinstance(f, TypeOf):
            raise Unsupported("construction through type(x)")
        if isinstance(f, Inst):
            m = self.find_method(f.cls, "__call__")
            if m is not None:
                return self.call(BoundMethod(f, m), args, kwargs)
            if f.ext is not None and hasattr(f.ext, "call"):
                return f.ext.call(self, f, args, kwargs)
        raise Unsupported(f"call of {f!r}")

    def call_py(self, f, args, kwargs):
        if (f.qual in self.call_contracts or not self.frames) and not signatures.compatible(f):
            raise Unsupported(f"the parameters of {f.qual} have changed")
        if f.qual in self.call_contracts:
            r = self.call_contracts[f.qual](self, args, kwargs)
            if r is not NotImplemented:
                return r
        if self.hook is not None:
            r = self.hook(self, f, args, kwargs)
            if r is not NotImplemented:
                return r
        env = self.bind(f, args, kwargs)
        self.executed.add(f.qual)
        if "contextmanager" in f.decorators:
            return CM(GenV(f, env))
        if f.is_gen:
            return GenV(f, env)
        return self.run_body(f, env)

    def run_body(self, f, env):
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Unsupported("recursion too deep")
        self.frames.append(f)
        try:
            self.exec_block(f.info[1], env)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
            self.frames.pop()
        return None

    def bind(self, f, args, kwargs):
        _, body, locals_, nl, gl, _ = f.info
        a = f.node.args
        env = Env(self.ctx, f.env, f.module, f, locals_, nl, gl)
        pos = [x.arg for x in a.posonlyargs + a.args]
        segs = []
        for x in args:
            if isinstance(x, Star):
                segs.extend(x.segs)
            else:
                segs.append(("one", x))
        given = {}
        rest = []
        for i, s in enumerate(segs):
            if len(given) < len(pos) and not rest:
                if s[0] == "coll":
                    if a.vararg:
                        raise Unsupported("symbolic number of positional arguments")
                    raise Unsupported("symbolic number of positional arguments")
                given[pos[i]] = s[1]
            else:
                rest.append(s)
        if rest and not a.vararg:
            if any(s[0] == "coll" for s in rest):
                raise Unsupported("symbolic number of positional arguments")
            self.raise_(TypeError, f"{f.name}() takes {len(pos)} positional arguments")
        kwonly = [x.arg for x in a.kwonlyargs]
        extra = []
        names_ok = set(x.arg for x in a.args) | set(kwonly)
        for k, v in kwargs.items():
            if k is STARKW:
                for op in v:
                    extra.append(op)
                continue
            if k in names_ok:
                if k in given:
                    self.raise_(TypeError, f"{f.name}() got multiple values for argument {k!r}")
                given[k] = v
            else:
                extra.append(("set", k, v))
        if extra and not a.kwarg:
            if any(op[0] != "set" for op in extra):
                raise Unsupported("symbolic keyword arguments")
            self.raise_(TypeError, f"{f.name}() got an unexpected keyword argument {extra[0][1]!r}")
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if p not in given:
                j = i - (len(pos) - nd)
                if j >= 0:
                    given[p] = f.defaults[j]
                else:
                    self.raise_(TypeError, f"{f.name}() missing argument {p!r}")
        for p, d in zip(kwonly, f.kwdefaults):
            if p not in given:
                if d is None:
                    self.raise_(TypeError, f"{f.name}() missing keyword argument {p!r}")
                given[p] = d[0]
        env.vars.update(given)
        if a.vararg:
            if all(s[0] == "one" for s in rest):
                env.vars[a.vararg.arg] = tuple(s[1] for s in rest)
            else:
                env.vars[a.vararg.arg] = ListV(self.ctx, rest, "tuple")
        if a.kwarg:
            env.vars[a.kwarg.arg] = DictV(self.ctx, extra)
        return env

    def instantiate(self, c, args, kwargs):
        if isinstance(c, BuiltinCls):
            return self.models.construct_builtin(self, c, args, kwargs)
        if isinstance(c, ExtCls):
            return c.make(self, c, args, kwargs)
        q = c.qual
        if q in self.call_contracts:
            r = self.call_contracts[q](self, args, kwargs)
            if r is not NotImplemented:
                return r
        inst = Inst(self.ctx, c)
        ext = next((b for b in self.mro(c) if isinstance(b, ExtCls)), None)
        if ext is not None:
            ext.make(self, ext, None, {"__inst__": inst})
        base_exc = next((b for b in self.mro(c) if isinstance(b, BuiltinCls) and issubclass(b.cls, BaseException)), None)
        if base_exc is not None:
            inst.attrs.update({"args": tuple(args) if not any(isinstance(x, Star) for x in args) else (), "__cause__": None, "__context__": None})
        init = self.find_method(c, "__init__")
        if c.fields is not None and init is None:
            vals = dict(zip(c.fields, args))
            vals.update(kwargs)
            for k in c.fields:
                if k in vals:
                    inst.attrs[k] = vals[k]
                elif k in c.attrs:
                    inst.attrs[k] = c.attrs[k]
                else:
                    self.raise_(TypeError, f"missing field {k}")
            return inst
        if init is not None:
            self.call(BoundMethod(inst, init), args, kwargs)
        return inst

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        v = self.resolve(v)
        if isinstance(v, Inst):
            if name in v.attrs:
                if self.reads is not None:
                    self.reads.append((v.oid, name))
                if self.ctx.conc is not None and v.shared:
                    return self.check_poison(self.ctx.conc.read_attr(self, v, name), name)
                return self.check_poison(v.attrs[name], name)
            if v.ext is not None:
                r = v.ext.getattr(self, v, name)
                if r is not None:
                    return r
            m = self.find_method(v.cls, name)
            if m is not None:
                if isinstance(m, PyFunc):
                    if "staticmethod" in m.decorators:
                        return m
                    if "classmethod" in m.decorators:
                        return BoundMethod(v.cls, m)
                    if "property" in m.decorators:
                        return self.call(BoundMethod(v, m), [], {})
                    return BoundMethod(v, m)
                if isinstance(m, Model):
                    return BoundMethod(v, m)
                return m
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name == "with_traceback":
                return Model("with_traceback", lambda it, a, k: v)
            if name == "__traceback__":
                tb = Inst(self.ctx, Opaque("traceback"), {})
                tb.ext = self.models.Traceback()
                v.attrs["__traceback__"] = tb
                return tb
            if v.oid in self.ctx.extra.get("arbitrary", ()):
                raise Unsupported(f"attribute {name} of an arbitrary {getattr(v.cls, 'name', v.cls)}")
            self.raise_(AttributeError, name)
        if isinstance(v, FamRef):
            return self.fam_read(v, name)
        if isinstance(v, SV):
            if name == "__class__":
                return TypeOf(v)
            if v.tag is not None:
                return v.tag.getattr(self, v, name)
            raise Unsupported(f"attribute {name} of an untyped symbolic value")
        if isinstance(v, ModuleV):
            return self.module_attr(v, name)
        if isinstance(v, ClsV):
            m = self.find_method(v, name)
            if m is not None:
                if isinstance(m, PyFunc) and "classmethod" in m.decorators:
                    return BoundMethod(v, m)
                return m
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__module__":
                return v.module.name
            self.raise_(AttributeError, name)
        if isinstance(v, TypeOf):
            return self.models.type_attr(self, v, name)
        r = self.models.get_attr(self, v, name)
        if r is None:
            raise Unsupported(f"attribute {name} of {v!r}")
        return r

    def check_poison(self, v, name):
        if isinstance(v, Poison):
            raise Unsupported(f"use of {name}, assigned in a summarised loop ({v.why})")
        return v

    def fam_read(self, v, name):
        fam = v.fam
        if name == "__class__":
            return fam.cls
        if name not in fam.attrs:
            m = self.find_method(fam.cls, name)
            if m is not None:
                return BoundMethod(v, m)
            raise Unsupported(f"attribute {name} of an arbitrary {getattr(fam.cls, 'name', fam.cls)}")
        if self.reads is not None:
            self.reads.append((fam.oid, name, tuple(v.ts)))
        if self.ctx.conc is not None and fam.shared:
            return self.ctx.conc.read_fam(self, v, name)
        cases = []
        for xs, guard, val in reversed(fam.attrs[name]):
            sub = list(zip(xs, v.ts))
            g = subst_f(guard, sub)
            if not isinstance(g, bool):
                g = z3.simplify(g)
                g = True if z3.is_true(g) else False if z3.is_false(g) else g
            if g is False:
                continue
            cases.append((g, subst(val, sub)))
            if g is True:
                break
        if len(cases) == 1:
            return self.check_poison(cases[0][1], name)
        out, prev = [], []
        for g, x in cases:
            gg = self.conj([g] + [self.neg(p) for p in prev])
            prev.append(g)
            if gg is False:
                continue
            out.append((gg if gg is not True else z3.BoolVal(True), x))
        return IteV(out)

    def fam_write(self, v, name, value):
        fam = v.fam
        if self.ctx.conc is not None and fam.shared:
            return self.ctx.conc.write_fam(self, v, name, value)
        guard = self.conj([x == t for x, t in zip(fam.xs, v.ts)])
        entry = (list(fam.xs), guard, value)
        fam.attrs[name] = fam.attrs.get(name, []) + [entry]

    def setattr(self, v, name, value):
        v = self.resolve(v)
        if isinstance(v, Inst):
            if v.ext is not None and hasattr(v.ext, "setattr"):
                if v.ext.setattr(self, v, name, value):
                    return
            if self.ctx.tracker is not None:
                self.ctx.tracker(self, v, ("attr", name), value)
            if self.ctx.conc is not None and v.shared:
                self.ctx.conc.write_attr(self, v, name, value)
            else:
                v.attrs[name] = value
            return
        if isinstance(v, FamRef):
            return self.fam_write(v, name, value)
        if isinstance(v, SV) and v.tag is not None:
            return v.tag.setattr(self, v, name, value)
        if isinstance(v, (PyFunc, Model)):
            return
        if isinstance(v, ClsV):
            v.attrs[name] = value
            return
        if self.models.set_attr(self, v, name, value):
            return
        raise Unsupported(f"assignment to attribute {name} of {v!r}")

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Nonlocal(self, st, env):
        pass

    def st_Global(self, st, env):
        pass

    def st_Return(self, st, env):
        raise Return(self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise Break()

    def st_Continue(self, st, env):
        raise Continue()

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_(AssertionError)

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t), env)
            v = self.augop(st.op, old, self.eval(st.value, env))
            self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            v = self.augop(st.op, old, self.eval(st.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            v = self.augop(st.op, old, self.eval(st.value, env))
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented assignment target")

    def augop(self, op, a, b):
        a = self.resolve(a)
        if isinstance(a, (ListV, SetV, DictV)):
            r = self.models.inplace(self, op, a, b)
            if r is not None:
                return r
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), t.elts)
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, elts):
        v = self.resolve(v)
        if isinstance(v, Inst) and isinstance(v.cls, ClsV) and v.cls.fields is not None:
            items = [v.attrs[k] for k in v.cls.fields]
        elif isinstance(v, tuple):
            items = list(v)
        elif isinstance(v, SV) and v.tag is not None and hasattr(v.tag, "unpack"):
            items = v.tag.unpack(self, v, n)
        else:
            segs = self.iter_segs(v)
            if any(s[0] == "coll" for s in segs):
                raise Unsupported("unpacking a symbolic sequence")
            items = [s[1] for s in segs]
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if stars:
            i = stars[0]
            after = n - i - 1
            if len(items) < n - 1:
                self.raise_(ValueError, "not enough values to unpack")
            mid = items[i:len(items) - after]
            return items[:i] + [ListV(self.ctx, [("one", x) for x in mid])] + items[len(items) - after:]
        if len(items) != n:
            self.raise_(ValueError, "wrong number of values to unpack")
        return items

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                e = self.find_env(t.id, env)
                e.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.models.delitem(self, self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.resolve(self.eval(t.value, env))
                if not isinstance(o, Inst):
                    raise Unsupported("del attribute")
                if t.attr not in o.attrs:
                    self.raise_(AttributeError, t.attr)
                del o.attrs[t.attr]
            else:
                raise Unsupported("del")

    def st_FunctionDef(self, st, env):
        f = self.make_func(st, env, env.module, None)
        self.assign_name(st.name, self.decorate(f, st, env), env)

    def st_ClassDef(self, st, env):
        self.assign_name(st.name, self.make_class(st, env, env.module), env)

    def st_Import(self, st, env):
        for a in st.names:
            self.assign_name(a.asname or a.name.split(".")[0], self.import_module(a.name if a.asname else a.name.split(".")[0]), env)

    def st_ImportFrom(self, st, env):
        for a in st.names:
            self.assign_name(a.asname or a.name, self.import_from(st.module, a.name), env)

    def st_Raise(self, st, env):
        if st.exc is None:
            if not self.current_exc:
                self.raise_(RuntimeError, "No active exception to reraise")
            raise PyRaise(self.current_exc[-1])
        e = self.eval_exc(st.exc, env)
        if st.cause is not None:
            c = self.resolve(self.eval(st.cause, env))
            if isinstance(c, (ClsV, BuiltinCls)):
                c = self.instantiate(c, [], {})
            if isinstance(e, Inst):
                self.setattr(e, "__cause__", c)
        raise PyRaise(e)

    def eval_exc(self, node, env):
        e = self.resolve(self.eval(node, env))
        if isinstance(e, (ClsV, BuiltinCls)):
            e = self.instantiate(e, [], {})
        if isinstance(e, SV):
            if e.tag is None:
                raise Unsupported("raise of an untyped value")
            return e
        if isinstance(e, FamRef):
            return e
        if not isinstance(e, Inst):
            self.raise_(TypeError, "exceptions must derive from BaseException")
        return e

    def exc_matches(self, exc, cls):
        """isinstance(exc, cls) for except clauses: branches."""
        cls = self.resolve(cls)
        if isinstance(cls, ListV):
            cls = self.as_tuple(cls)
        if isinstance(cls, tuple):
            for c in cls:
                if self.exc_matches(exc, c):
                    return True
            return False
        return self.ctx.branch(self.isinstance_f(exc, cls))

    def st_Try(self, st, env):
        def core():
            try:
                self.exec_block(st.body, env)
            except PyRaise as pe:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(pe.exc, self.eval(h.type, env)):
                        if h.name:
                            self.assign_name(h.name, pe.exc, env)
                        self.current_exc.append(pe.exc)
                        try:
                            self.exec_block(h.body, env)
                        except PyRaise as pe2:
                            if isinstance(pe2.exc, Inst) and pe2.exc is not pe.exc and pe2.exc.attrs.get("__context__") is None:
                                pe2.exc.attrs["__context__"] = pe.exc
                            raise
                        finally:
                            self.current_exc.pop()
                            if h.name:
                                e = self.find_env(h.name, env)
                                if self.ctx.conc is None or not e.shared:
                                    e.vars.pop(h.name, None)
                        return
                raise
            else:
                self.exec_block(st.orelse, env)

        if not st.finalbody:
            return core()
        pending = None
        try:
            core()
        except (PyRaise, Return, Break, Continue, GenExit) as e:
            pending = e
        if isinstance(pending, PyRaise):
            self.current_exc.append(pending.exc)
            try:
                self.exec_block(st.finalbody, env)
            finally:
                self.current_exc.pop()
        else:
            self.exec_block(st.finalbody, env)
        if pending is not None:
            raise pending

    def st_With(self, st, env):
        self.with_items(st.items, 0, st.body, env)

    def with_items(self, items, i, body, env):
        if i == len(items):
            self.exec_block(body, env)
            return
        item = items[i]
        cm = self.eval(item.context_expr, env)

        def inner(value):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value, env)
            self.with_items(items, i + 1, body, env)

        self.with_cm(cm, inner)

    def with_cm(self, cm, inner):
        """Run inner(value) inside the context manager."""
        cm = self.resolve(cm)
        if isinstance(cm, CM):
            gen = cm.gen
            state = {"n": 0, "signal": None}

            def handler(value):
                state["n"] += 1
                if state["n"] > 1:
                    self.raise_(RuntimeError, "generator didn't stop")
                saved = self.yield_handlers
                try:
                    inner(value)
                except CONTROL as sig:
                    state["signal"] = sig
                except GenExit as sig:
                    state["signal"] = sig
                return None

            self.run_gen(gen, handler)
            if state["n"] == 0:
                self.raise_(RuntimeError, "generator didn't yield")
            if state["signal"] is not None:
                raise state["signal"]
            return
        r = self.models.with_cm(self, cm, inner)
        if r is not NotImplemented:
            return
        enter = self.getattr(cm, "__enter__")
        exit_ = self.getattr(cm, "__exit__")
        value = self.call(enter, [], {})
        pending = None
        try:
            inner(value)
        except PyRaise as pe:
            self.current_exc.append(pe.exc)
            try:
                r = self.call(exit_, [self.models.exc_type(self, pe.exc), pe.exc, Opaque("traceback")], {})
            except PyRaise as pe2:
                if isinstance(pe2.exc, Inst) and pe2.exc is not pe.exc and pe2.exc.attrs.get("__context__") is None:
                    pe2.exc.attrs["__context__"] = pe.exc
                raise
            finally:
                self.current_exc.pop()
            if not self.truth(r):
                raise
            return
        except (Return, Break, Continue, GenExit) as sig:
            pending = sig
        self.call(exit_, [None, None, None], {})
        if pending is not None:
            raise pending

    def run_gen(self, gen, handler):
        """Run a generator body to its end, calling handler(value) at each yield."""
        if gen.started:
            return
        gen.started = True
        self.yield_handlers.append((gen.env, handler, len(self.frames)))
        try:
            return self.run_body(gen.fn, gen.env)
        finally:
            self.yield_handlers.pop()

    def ex_Yield(self, node, env):
        v = self.eval(node.value, env) if node.value is not None else None
        genv = env
        for i in range(len(self.yield_handlers) - 1, -1, -1):
            e, h, n = self.yield_handlers[i]
            if e is genv:
                rest, frames = self.yield_handlers[i:], self.frames[n:]
                del self.yield_handlers[i:]
                del self.frames[n:]
                try:
                    return h(v)
                finally:
                    self.yield_handlers.extend(rest)
                    self.frames.extend(frames)
        raise Unsupported("yield outside an inlined generator")

    def ex_YieldFrom(self, node, env):
        v = self.resolve(self.eval(node.value, env))
        genv = env
        for i in range(len(self.yield_handlers) - 1, -1, -1):
            e, h, n = self.yield_handlers[i]
            if e is genv:
                rest = self.yield_handlers[i:]
                del self.yield_handlers[i:]
                try:
                    if isinstance(v, GenV):
                        return self.run_gen(v, h)
                    for s in self.iter_segs(v):
                        if s[0] != "one":
                            raise Unsupported("yield from a symbolic collection")
                        h(s[1])
                    return None
                finally:
                    self.yield_handlers.extend(rest)
        raise Unsupported("yield from")

    # ------------------------------------------------------------ loops
    def st_While(self, st, env):
        for lc in self.loop_contracts:
            h = lc(self, st, env)
            if h is not None:
                return h()
        n = 0
        while True:
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            n += 1
            if n > 24:
                raise Unsupported("a while loop without a contract does not end within 24 iterations")
            try:
                self.exec_block(st.body, env)
            except Break:
                return
            except Continue:
                pass

    def st_For(self, st, env):
        for lc in self.loop_contracts:
            h = lc(self, st, env)
            if h is not None:
                return h()
        it = self.resolve(self.eval(st.iter, env))
        self.for_over(it, st, env)

    def for_over(self, it, st, env):
        if isinstance(it, GenV):
            broke = []

            def handler(v):
                self.assign(st.target, v, env)
                try:
                    self.exec_block(st.body, env)
                except Continue:
                    pass
                except Break:
                    broke.append(1)
                    raise GenExit()
                except Return as r:
                    broke.append(r)
                    raise GenExit()

            try:
                self.run_gen(it, handler)
            except GenExit:
                if not broke:
                    raise
                if broke[-1] != 1:
                    raise broke[-1]
                return
            self.exec_block(st.orelse, env)
            return
        if self.ctx.conc is not None:
            r = self.ctx.conc.for_loop(self, it, st, env)
            if r is not NotImplemented:
                return
        segs = self.iter_segs(it)
        from .loops import for_segs

        if self.ctx.conc is None:
            return for_segs(self, segs, st, env, getattr(it, "live", None))
        self.ctx.conc.enter_loop(self, segs, st, env)
        try:
            for_segs(self, segs, st, env)
        finally:
            self.ctx.conc.loops.pop()

    def iter_segs(self, v):
        v = self.resolve(v)
        return self.models.iter_segs(self, v)

    # ------------------------------------------------------------ expressions
    def eval(self, node, env):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__}")
        return m(node, env)

    def ex_Constant(self, node, env):
        return node.value

    def ex_Name(self, node, env):
        return self.lookup(node.id, env)

    def ex_Attribute(self, node, env):
        return self.getattr(self.eval(node.value, env), node.attr)

    def ex_NamedExpr(self, node, env):
        v = self.eval(node.value, env)
        e = env
        while e.func is None and e.parent is not None and getattr(e, "ctxglobals", None) == "comp":
            e = e.parent
        self.assign_name(node.target.id, v, e)
        return v

    def ex_Tuple(self, node, env):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            segs = self.elts_segs(node.elts, env)
            if all(s[0] == "one" for s in segs):
                return tuple(s[1] for s in segs)
            return ListV(self.ctx, segs, "tuple")
        return tuple(self.eval(e, env) for e in node.elts)

    def elts_segs(self, elts, env):
        segs = []
        for e in elts:
            if isinstance(e, ast.Starred):
                segs.extend(self.iter_segs(self.eval(e.value, env)))
            else:
                segs.append(("one", self.eval(e, env)))
        return segs

    def ex_List(self, node, env):
        return ListV(self.ctx, self.elts_segs(node.elts, env))

    def ex_Set(self, node, env):
        return SetV(self.ctx, [("add" if s[0] == "one" else "coll", s[1]) for s in self.elts_segs(node.elts, env)])

    def ex_Dict(self, node, env):
        d = DictV(self.ctx)
        for k, v in zip(node.keys, node.values):
            if k is None:
                d.ops.extend(self.models.dict_ops(self, self.resolve(self.eval(v, env))))
            else:
                kv = self.eval(k, env)
                d.ops.append(("set", kv, self.eval(v, env)))
        return d

    def ex_JoinedStr(self, node, env):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                v = self.eval(p.value, env)
                if p.conversion == 114:
                    v = self.models.repr_(self, v)
                elif p.format_spec is not None:
                    spec = self.eval(p.format_spec, env)
                    v = self.models.format_(self, v, spec)
                else:
                    v = self.models.str_(self, v)
                parts.append(v)
        return self.models.concat(self, parts)

    def ex_FormattedValue(self, node, env):
        return self.ex_JoinedStr(ast.JoinedStr([node]), env)

    def ex_Lambda(self, node, env):
        return self.make_func(node, env, env.module, None)

    def ex_IfExp(self, node, env):
        if self.truth(self.eval(node.test, env)):
            return self.eval(node.body, env)
        return self.eval(node.orelse, env)

    def ex_BoolOp(self, node, env):
        is_and = isinstance(node.op, ast.And)
        v = None
        for i, e in enumerate(node.values):
            v = self.eval(e, env)
            if i == len(node.values) - 1:
                return v
            t = self.truth(v)
            if t != is_and:
                # the value that decides
                v = self.resolve(v)
                if isinstance(v, SV) and v.kind == "bool":
                    return t
                return v
        return v

    def ex_UnaryOp(self, node, env):
        v = self.eval(node.operand, env)
        if isinstance(node.op, ast.Not):
            f = self.truth_f(v)
            return (not f) if isinstance(f, bool) else SV(z3.Not(f))
        v = self.resolve(v)
        if isinstance(node.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return SV(-self.num(v))
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert) and isinstance(v, int):
            return ~v
        raise Unsupported("unary operator")

    def ex_BinOp(self, node, env):
        a = self.eval(node.left, env)
        b = self.eval(node.right, env)
        return self.binop(node.op, a, b)

    def binop(self, op, a, b):
        a, b = self.resolve(a), self.resolve(b)
        conc = (int, float, str, bytes, tuple)
        if isinstance(a, conc) and isinstance(b, conc):
            if isinstance(op, ast.Mod) and isinstance(a, (str, bytes)) and isinstance(b, tuple) and not all(isinstance(x, conc) for x in b):
                return Opaque("formatted")
            try:
                return _PYOPS[type(op)](a, b)
            except KeyError:
                raise Unsupported("operator")
            except Exception as e:
                raise PyRaise(self.exc(type(e), e.args))
        r = self.models.binop(self, op, a, b)
        if r is not NotImplemented:
            return r
        na, nb = self.num(a), self.num(b)
        if na.sort() != nb.sort():
            na, nb = z3.ToReal(na) if na.sort() == I else na, z3.ToReal(nb) if nb.sort() == I else nb
        if isinstance(op, ast.Add):
            return SV(na + nb)
        if isinstance(op, ast.Sub):
            return SV(na - nb)
        if isinstance(op, ast.Mult):
            return SV(na * nb)
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            if self.ctx.branch(nb == 0):
                self.raise_(ZeroDivisionError)
            if isinstance(op, ast.Div):
                return SV((z3.ToReal(na) if na.sort() == I else na) / (z3.ToReal(nb) if nb.sort() == I else nb))
            if na.sort() != I or nb.sort() != I:
                raise Unsupported("integer division of reals")
            self.ctx.prove("divisor is positive in // and %", nb > 0)
            return SV(na / nb) if isinstance(op, ast.FloorDiv) else SV(na % nb)
        raise Unsupported("operator")

    def ex_Compare(self, node, env):
        left = self.eval(node.left, env)
        fs = []
        for op, c in zip(node.ops, node.comparators):
            right = self.eval(c, env)
            f = self.compare(op, left, right)
            if len(node.ops) == 1:
                return f if isinstance(f, bool) else SV(f)
            if not self.ctx.branch(f):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return self.neg(self.is_(a, b))
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(self.eq(a, b))
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.models.contains(self, self.resolve(b), a)
            return self.neg(f) if isinstance(op, ast.NotIn) else f
        a, b = self.resolve(a), self.resolve(b)
        conc = (int, float, str, bytes, tuple)
        if isinstance(a, conc) and isinstance(b, conc):
            try:
                return _PYCMP[type(op)](a, b)
            except TypeError as e:
                raise PyRaise(self.exc(TypeError, e.args))
        if a is None or b is None:
            self.raise_(TypeError, "ordering with None")
        r = self.models.order(self, op, a, b)
        if r is not NotImplemented:
            return r
        na, nb = self.num(a), self.num(b)
        if na.sort() != nb.sort():
            na, nb = z3.ToReal(na) if na.sort() == I else na, z3.ToReal(nb) if nb.sort() == I else nb
        return {ast.Lt: na < nb, ast.LtE: na <= nb, ast.Gt: na > nb, ast.GtE: na >= nb}[type(op)]

    def ex_Subscript(self, node, env):
        o = self.resolve(self.eval(node.value, env))
        if isinstance(o, (BuiltinCls, ClsV, ExtCls)) or isinstance(o, Opaque):
            return o
        return self.getitem(o, self.eval(node.slice, env))

    def ex_Slice(self, node, env):
        return SliceV(*(None if x is None else self.eval(x, env) for x in (node.lower, node.upper, node.step)))

    def getitem(self, o, k):
        o = self.resolve(o)
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        o = self.resolve(o)
        return self.models.setitem(self, o, k, v)

    def ex_Starred(self, node, env):
        raise Unsupported("starred")

    def ex_Call(self, node, env):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return self.super_(env)
        f = self.eval(node.func, env)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                segs = self.iter_segs(self.eval(a.value, env))
                if all(s[0] == "one" for s in segs):
                    args.extend(s[1] for s in segs)
                else:
                    args.append(Star(segs))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in node.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                ops = self.models.dict_ops(self, self.resolve(v))
                if all(op[0] == "set" and isinstance(op[1], str) for op in ops):
                    for op in ops:
                        kwargs[op[1]] = op[2]
                else:
                    kwargs[STARKW] = list(kwargs.get(STARKW, [])) + list(ops)
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs)

    def super_(self, env):
        e = env
        while e is not None and (e.func is None or e.func.cls is None):
            e = e.parent
        if e is None:
            raise Unsupported("super()")
        f = e.func
        selfname = (f.node.args.posonlyargs + f.node.args.args)[0].arg
        return SuperV(e.vars[selfname], f.cls)

    def ex_GeneratorExp(self, node, env):
        return self.comp(node, env, "gen")

    def ex_ListComp(self, node, env):
        return ListV(self.ctx, self.comp_segs(node, env))

    def ex_SetComp(self, node, env):
        return SetV(self.ctx, [("add" if s[0] == "one" else "coll", s[1]) for s in self.comp_segs(node, env)])

    def ex_DictComp(self, node, env):
        d = DictV(self.ctx)
        for s in self.comp_segs(node, env):
            if s[0] == "one":
                d.ops.append(("set", s[1][0], s[1][1]))
            else:
                d.ops.append(("coll", s[1]))
        return d

    def comp(self, node, env, kind):
        return GenExpV(self, node, env)

    def comp_segs(self, node, env):
        from .loops import comp_segs

        return comp_segs(self, node, env)


class Star:
    def __init__(self, segs):
        self.segs = segs


STARKW = "**"


class SliceV(Value):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class SuperV(Value):
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls


class GenExprFrame:
    """A generator expression runs in a frame of its own (other comprehensions do not, in Python 3.12)."""

    qual = name = "<genexpr>"
    node = None


GENEXPR = GenExprFrame()


class GenExpV(Value):
    """A generator expression; its first iterable is evaluated at once, the rest on use."""

    def __init__(self, it, node, env):
        self.it, self.node, self.env = it, node, env
        self.first = it.eval(node.generators[0].iter, env)
        self.used = False

    def segs(self):
        from .loops import comp_segs

        if self.used:
            return []
        self.used = True
        self.it.frames.append(GENEXPR)
        try:
            return comp_segs(self.it, self.node, self.env, self.first)
        finally:
            self.it.frames.pop()


class Tmpl(Value):
    """A container made once per element of a collection; instantiated when used."""

    __slots__ = ("obj", "sub", "cache")

    def __init__(self, obj, sub, cache):
        self.obj, self.sub, self.cache = obj, sub, cache

    def subst_(self, sub):
        return Tmpl(self.obj, list(self.sub) + list(sub), self.cache)

    def instantiate(self, it):
        key = (id(self.obj), tuple((str(a), str(b)) for a, b in self.sub))
        if key not in self.cache:
            o = self.obj
            if isinstance(o, ListV):
                new = ListV(it.ctx, [(k, deep_subst(v, self.sub)) for k, v in o.segs], o.kind)
            elif isinstance(o, SetV):
                new = SetV(it.ctx, [(op[0],) + tuple(deep_subst(v, self.sub) for v in op[1:]) for op in o.ops])
            elif isinstance(o, DictV):
                new = DictV(it.ctx, [(op[0],) + tuple(deep_subst(v, self.sub) for v in op[1:]) for op in o.ops])
            else:
                raise Unsupported("per-element object")
            self.cache[key] = new
        return self.cache[key]


def deep_subst(v, sub):
    """The substitutions were recorded one after the other."""
    for pair in sub:
        v = subst(v, [pair])
    return v


_PYOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b,
    ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b,
    ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}
_PYCMP = {ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b}
