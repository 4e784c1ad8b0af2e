"""Rely/guarantee reasoning for a pool of threads which share variables of an enclosing activation.

The main thread's function is executed up to its end; threads it starts are analysed afterwards, from a state in which every
variable that some thread writes has an arbitrary value allowed by its role. Roles are found by the initial value, not by name:
  flag     False at first, only ever set to True (by a worker only when more than max_errors failures are counted)
  counter  0 at first: the number of recorded failures
  error    None at first: the first recorded failure, set once
  counts   a dict node -> number of predecessors that have not released the node
A variable is protected by the locks held at every write to it (hypothesis, revised until stable).
"""
import z3

from .core import B, HeapObj, I, IteV, Obj, Opaque, PathEnd, Poison, PyRaise, RestartUnit, SV, Unsupported
from .interp import Break, Continue, Return
from .values import BoundMethod, BuiltinCls, ClsV, Coll, DictV, Env, ExtCls, FamRef, Inst, ListV, Model, PyFunc, SetV, subst_f


class State(HeapObj):
    """What must be restored between explored paths."""

    FIELDS = ("held", "main_true", "started_any", "local", "log", "may_run")
    __slots__ = FIELDS

    def __init__(self, ctx):
        self.init_heap(ctx)
        self.held = []          # labels of the locks the analysed thread holds
        self.main_true = False  # the main thread has set the flag
        self.started_any = False
        self.local = {}         # protected cells: values since the lock was acquired
        self.log = []
        self.may_run = False    # threads may run (one was started, or an earlier iteration may have started one)

    def apply_loop(self, it, b, a, ys, gz, T, V):
        # locks are balanced in an iteration; starting is idempotent
        if list(b[0]) != list(a[0]) or len(b[3]) != len(a[3]) or len(b[4]) != len(a[4]):
            raise Unsupported("a loop changes the locks that are held")
        self.started_any = self.started_any or a[2]
        self.may_run = self.may_run or a[5]
        if b[1] != a[1]:
            raise Unsupported("a loop sets the flag")

    def apply_one(self, it, b, a):
        self.held, self.main_true, self.started_any = list(a[0]), a[1], a[2]
        self.local, self.log = dict(a[3]), list(a[4])
        self.may_run = a[5]


class Conc:
    def __init__(self, it, unit):
        self.it, self.ctx, self.u = it, it.ctx, unit
        self.p = it.ctx.x.persist.setdefault("conc", {"wwritten": set(), "waccess": set(), "mwritten": set(), "locks": {}, "order": set(), "start_loops": set(), "shared_envs": set()})
        if "discovered" not in it.ctx.x.persist:
            it.ctx.x.persist["discovered"] = it.ctx.x.persist["discovering"] = True
        self.mode = "main"
        self.st = State(it.ctx)
        self.shared_envs = {}
        self.init = {}
        self.loops = []

    @property
    def told(self):
        """The main thread has set the flag (not known yet while variables are being discovered)."""
        return self.st.main_true or bool(self.ctx.x.persist.get("discovering"))

    # ------------------------------------------------------------ marking
    def share(self, v, seen=None):
        """Mark what the threads can reach through closures."""
        seen = seen if seen is not None else set()
        if id(v) in seen:
            return
        seen.add(id(v))
        if isinstance(v, PyFunc):
            e = v.env
            while e is not None and e.func is not None:
                self.share_env(e, seen)
                e = e.parent
        elif isinstance(v, BoundMethod):
            self.share(v.self_, seen)
            self.share(v.fn, seen)
        elif isinstance(v, (DictV, ListV, SetV)):
            if isinstance(v, DictV):
                v.shared = True
            elif isinstance(v, (ListV, SetV)):
                v.shared = True
        elif isinstance(v, Inst) and v.ext is None and isinstance(v.cls, ClsV) and v.cls.qual.startswith("uberjob._execution"):
            if not v.shared:
                v.shared = True
                for n, x in v.attrs.items():
                    self.init[self.key(v, n)] = x
            for x in list(v.attrs.values()):
                self.share(x, seen)
        elif isinstance(v, tuple):
            for x in v:
                self.share(x, seen)

    def share_env(self, e, seen):
        if not e.shared:
            e.shared = True
            self.p["shared_envs"].add(e.func.qual)
            for n, x in e.vars.items():
                self.init[self.key(e, n)] = x
        for x in list(e.vars.values()):
            self.share(x, seen)

    def enter_loop(self, it, segs, st, env):
        """In a loop that starts threads every iteration may follow one that has started a thread."""
        loop = (env.module.name if env.module else None, st.lineno, st.col_offset)
        symbolic = any(s[0] != "one" for s in segs)
        if self.mode == "main" and symbolic and loop in self.p["start_loops"] and not self.st.may_run:
            self.st.may_run = True
            e = env
            while e is not None:
                if e.func is not None and e.func.qual in self.p["shared_envs"]:
                    self.share_env(e, set())
                e = e.parent
        self.loops.append(loop if symbolic else None)

    def key(self, o, name):
        if isinstance(o, Env):
            return ("env", o.func.qual if o.func else None, name)
        return ("attr", o.cls.qual, name)

    # ------------------------------------------------------------ roles
    def role(self, key):
        v = self.init.get(key, Poison("x"))
        if v is False:
            return "flag"
        if isinstance(v, int) and not isinstance(v, bool) and v == 0:
            return "counter"
        if v is None:
            return "error"
        raise Unsupported(f"shared variable {key[-1]} has no known role")

    def mutated(self, key):
        return key in self.p["wwritten"] or key in self.p["mwritten"]

    def protectors(self, key):
        return self.p["locks"].get(key)  # None: not known yet, every lock

    def protected(self, key):
        ls = self.protectors(key)
        return bool(self.st.held) if ls is None else any(l in ls for l in self.st.held)

    # ------------------------------------------------------------ cells
    def read_cell(self, it, e, name):
        return self.read(it, e, name, e.vars)

    def read_attr(self, it, o, name):
        return self.read(it, o, name, o.attrs)

    def read(self, it, o, name, d):
        key = self.key(o, name)
        if self.mode == "main":
            if key in self.p["wwritten"] and self.st.may_run:
                return self.u.main_read(self, key, self.role(key), d[name])
            if it.reads is not None:
                it.reads.append((o.oid, name))
            return d[name]
        self.touch("waccess", key)
        if not self.mutated(key):
            return self.init.get(key, d[name])
        return self.worker_read(key, self.role(key))

    def touch(self, what, key):
        if key not in self.p[what]:
            self.p[what].add(key)
            raise RestartUnit()

    def write_cell(self, it, e, name, v):
        self.write(it, e, name, v, e.vars)

    def write_attr(self, it, o, name, v):
        self.write(it, o, name, v, o.attrs)

    def write(self, it, o, name, v, d):
        key = self.key(o, name)
        if self.mode == "main":
            if self.st.may_run:
                if key in self.p["waccess"]:
                    self.touch("mwritten", key)
                    self.u.main_write(self, key, self.role(key), v)
            d[name] = v
            return
        self.touch("waccess", key)
        self.touch("wwritten", key)
        held = frozenset(self.st.held)
        old = self.p["locks"].get(key)
        new = held if old is None else old & held
        role = self.role(key)
        if role != "flag" and new != old:
            self.p["locks"][key] = new
            raise RestartUnit()
        self.worker_write(key, role, v)

    def worker_read(self, key, role):
        ctx = self.ctx
        if role == "flag":
            if self.st.local.get(("true", key)):
                return True
            b = ctx.fresh("flag", B)
            r = ctx.branch(b)
            self.u.flag_read(self, r)
            if r:
                self.set_local(("true", key), True)
            return r
        if key in self.st.local and self.protected(key):
            return self.st.local[key]
        v = self.u.arbitrary(self, key, role)
        if self.protected(key):
            self.set_local(key, v)
        return v

    def set_local(self, k, v):
        d = dict(self.st.local)
        d[k] = v
        self.st.local = d

    def drop_local(self, k):
        d = dict(self.st.local)
        d.pop(k, None)
        self.st.local = d

    def worker_write(self, key, role, v):
        self.u.worker_write(self, key, role, v)
        if role == "flag":
            self.set_local(("true", key), True)
        elif self.protected(key):
            self.set_local(key, v)

    # ------------------------------------------------------------ families (per-element objects) are not shared
    def read_fam(self, it, v, name):
        raise Unsupported("shared families of objects")

    write_fam = read_fam

    def container_mutation(self, it, o, what, vals):
        if self.mode == "worker":
            raise Unsupported("a thread changes a shared container")
        if self.st.may_run and self.seen_by_workers(o):
            raise Unsupported("a container shared with running threads is changed")

    def seen_by_workers(self, o):
        """Do threads read a variable that holds o? (A first access by a thread restarts the unit.)"""
        holders = [k for k, v in self.init.items() if v is o]
        return not holders or any(k in self.p["waccess"] for k in holders)

    # ------------------------------------------------------------ the dict of counts
    def dict_get(self, it, o, k, default=None):
        if self.mode == "main" or ("dict", o.oid) not in self.u.count_dicts(self):
            if self.mode == "worker":
                self.note_dict_access(o)
            o.shared = False
            try:
                from .models import dict_contains_f, dict_find

                found, v = dict_find(it, o, k)
            finally:
                o.shared = True
            if not found:
                if default is not None:
                    return default[0]
                it.raise_(KeyError, k)
            return v
        return self.u.counts_get(self, o, k, default)

    def note_dict_access(self, o):
        pass

    def dict_set(self, it, o, k, v):
        if self.mode == "main":
            if self.st.may_run and self.seen_by_workers(o):
                raise Unsupported("a dict shared with running threads is changed")
            o.shared = False
            o.ops = o.ops + [("set", k, v)]
            o.shared = True
            return
        self.u.counts_set(self, o, k, v)

    # ------------------------------------------------------------ loops
    def for_loop(self, it, iterable, st, env):
        if self.mode != "worker":
            return NotImplemented
        segs = it.iter_segs(iterable)
        if all(s[0] == "one" for s in segs):
            return NotImplemented
        if len(segs) != 1:
            raise Unsupported("loop over a mixed sequence in a thread")
        return self.u.worker_loop(self, segs[0][1], st, env)

    # ------------------------------------------------------------ locks
    def acquire(self, label):
        st = self.st
        self.ctx.prove(self.u.t(["C07"], "no thread waits for a lock that it holds itself"), label not in st.held)
        for h in st.held:
            self.p["order"].add((h, label))
        st.held = st.held + [label]

    def release(self, label):
        st = self.st
        if label not in st.held:
            self.it.raise_(RuntimeError, "release unlocked lock")
        self.u.before_release(self, label)
        held = list(st.held)
        held.reverse()
        held.remove(label)
        held.reverse()
        st.held = held
        if self.mode == "worker":
            d = dict(st.local)
            for k in list(d):
                if k[0] in ("env", "attr", "counts") and not self.protected(k):
                    d.pop(k)
            st.local = d

    def order_acyclic(self):
        edges = self.p["order"]
        nodes = {x for e in edges for x in e}
        while nodes:
            free = [n for n in nodes if not any(a in nodes and b == n for a, b in edges)]
            if not free:
                return False
            nodes -= set(free)
        return True


class LockExt:
    def __init__(self, conc, label):
        self.conc, self.label = conc, label

    def getattr(self, it, inst, name):
        c = self.conc
        if name in ("__enter__", "acquire"):
            def acq(it, a, k):
                if a and it.resolve(a[0]) is not True or "timeout" in k or k.get("blocking", True) is not True:
                    raise Unsupported("lock with a timeout")
                c.acquire(self.label)
                return True
            return Model(name, acq)
        if name in ("__exit__", "release"):
            def rel(it, a, k):
                c.release(self.label)
            return Model(name, rel)
        return None

    def setattr(self, it, inst, name, value):
        raise Unsupported("attribute of a lock")

    def truth(self, it, inst):
        return True
