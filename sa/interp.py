"""Abstract interpreter over the Python syntax tree.

Forward dataflow over the algebraic domain of poly.py/values.py.  Branches whose
condition is not decided by the context facts are both analysed and the two
abstract states are joined (gated join); nothing of the repository is executed.
"""
import ast
import os
import re
import sys
from fractions import Fraction

from . import poly
from .poly import Rat, R0, R1
from .values import *
from .values import _Ref

sys.setrecursionlimit(20000)

PKG = "neural_network_lyapunov"


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        s = name
        if s.startswith(PKG + "."):
            s = s[len(PKG) + 1:]
        self.short = s
        self.globals = {}


class Repo:
    def __init__(self, root="/repo"):
        self.root = root
        self.modules = {}
        self.errors = []
        base = os.path.join(root, PKG)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("test", "tests",
                                                    "__pycache__")]
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[:-9]
                src = open(p, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    self.errors.append((p, str(e)))
                    continue
                self.modules[rel] = Module(rel, p, tree, src)

    def mod(self, short):
        return self.modules[PKG + "." + short]


class State:
    __slots__ = ("heap", "pc", "meta")

    def __init__(self):
        self.heap = {}
        self.pc = ()
        self.meta = {}

    def clone(self):
        s = State()
        s.heap = {a: p.copy() for a, p in self.heap.items()}
        s.pc = self.pc
        s.meta = {a: p.copy() for a, p in self.meta.items()}
        return s


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val


_UNSET = object()
PLAIN_BASES = {"object", "builtins.object", "abc.ABC", "enum.Enum",
               "builtins.Exception", "typing.Generic"}
LIB_NAMES = {
    "torch.nn.Module": set("""add_module apply bfloat16 buffers children
        compile cpu cuda double eval extra_repr float forward get_buffer
        get_parameter get_submodule half load_state_dict modules
        named_buffers named_children named_modules named_parameters
        parameters register_buffer register_forward_hook register_module
        register_parameter requires_grad_ set_extra_state share_memory
        state_dict to to_empty train training type xpu zero_grad append
        extend insert pop""".split()),
    "torch.optim.Optimizer": set("""add_param_group load_state_dict
        state_dict step zero_grad defaults param_groups state
        profile_hook_step""".split()),
}


for _c, _n in {"ReLU": "inplace", "LeakyReLU": "inplace negative_slope",
               "Linear": "in_features out_features weight bias "
               "reset_parameters"}.items():
    LIB_NAMES["torch.nn." + _c] = LIB_NAMES["torch.nn.Module"] | set(
        _n.split())


GRB_VAR = set("""lb ub obj vtype varname vtag x xn rc barx start varhintval
    varhintpri branchpriority partition varprestat vbasis pstart iislb iisub
    iislbforce iisubforce saobjlow saobjup salblow salbup saublow saubup
    unbdray pwlobjcvx poolignore index sameas getattr setattr nlnames
    tolist tomatrixvar scenniobj scennlb scennub scennobj item size shape
    ndim""".split())


def library_has(base, name):
    """may a library class have this attribute?"""
    if name.startswith("_") and base in LIB_NAMES:
        return True
    if base in PLAIN_BASES or base.startswith("namedtuple:"):
        return False
    if base in LIB_NAMES:
        return name in LIB_NAMES[base]
    if base == "gurobipy.Var":
        return name.startswith("_") or name.lower() in GRB_VAR
    if base.startswith("torch.nn.") and not name.startswith("_"):
        return True
    return True




KNOWN_DECOR = {"property", "staticmethod", "classmethod", "lru_cache", "cache",
               "cached_property", "abstractmethod", "abstractproperty",
               "dataclass", "contextmanager", "wraps", "overload"}


class EnumMember:
    pass


def positional(node, args, kw):
    """the arguments of a stand-in, by position where the signature of the
    function allows it"""
    names = [a.arg for a in node.args.posonlyargs + node.args.args]
    dflt = dict(zip(reversed(names), reversed(node.args.defaults)))
    args, kw = list(args), dict(kw)
    for i in range(len(args), len(names)):
        n = names[i]
        if n in kw:
            args.append(kw.pop(n))
        elif any(m in kw for m in names[i:]) and isinstance(
                dflt.get(n), ast.Constant) and not isinstance(
                    dflt[n].value, float):
            args.append(dflt[n].value)
        else:
            break
    return args, kw


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.st = State()
        self.next_addr = 1
        self.facts = []
        self.pending = []
        self.hooks = {}
        self.live, self.nograd = None, False
        self.frozen_memo, self.thaw_memo = {}, {}
        self.events = []
        self.module_frames = {}
        self.depth = 0
        self.stack = []
        self.cur_module = None
        self.stats = {"calls": 0, "stmts": 0, "functions": set(),
                      "joins": 0, "natives": set(), "unmodelled": set()}
        self.assume_asserts = True
        self.max_while = 3000
        self.budget = 6000000
        self.callers = []
        from . import natives
        self.nat = natives
        self._locals_cache = {}
        self.undecided_while = None
        self.symbolize = ()
        self.watch, self.wrote = 0, {}

    # ------------------------------------------------------------ heap
    def alloc(self, payload):
        a = self.next_addr
        self.next_addr += 1
        self.st.heap[a] = payload
        return a

    def new_list(self, items):
        return ListV(self.alloc(list(items)))

    def new_dict(self, d):
        return DictV(self.alloc(dict(d)))

    def new_set(self, items):
        return SetV(self.alloc(set(items)))

    def new_obj(self, cls, attrs=None):
        return ObjV(self.alloc(dict(attrs or {})), cls)

    def items(self, v):
        return self.st.heap[v.addr]

    def attrs(self, o):
        return self.st.heap[o.addr]

    # ------------------------------------------------------------ arrays
    def new_arr(self, shape, cells, lib="np", dtype=None):
        cells = list(cells)
        n = 1
        for d in shape:
            n *= d
        assert n == len(cells), (shape, len(cells))
        if dtype is None:
            dtype = "float"
            if cells and all(isinstance(c, (bool, Cond)) for c in cells):
                dtype = "bool"
            elif cells and all(type(c) is int for c in cells):
                dtype = "int"
        if self.nograd and self.live is not None and lib == "torch":
            cells = [self.nat.freeze(self, c) for c in cells]
        a = self.alloc(cells)
        self.st.meta[a] = {"dtype": dtype}
        return Arr(a, shape, range(n), lib)

    def cells(self, arr):
        h = self.st.heap[arr.addr]
        return [h[i] for i in arr.idx]

    def dtype(self, arr):
        return self.st.meta.get(arr.addr, {}).get("dtype", "float")

    def amodel(self, arr):
        return self.st.meta.setdefault(arr.addr, {})

    def store_cells(self, arr, vals):
        h = self.st.heap[arr.addr]
        dt = self.dtype(arr)
        m = self.st.meta.setdefault(arr.addr, {})
        m["writes"] = m.get("writes", 0) + 1
        if arr.addr < self.watch:
            self.wrote.setdefault(arr.addr, self.where())
        for i, v in zip(arr.idx, vals):
            if dt == "int" and isinstance(v, Rat):
                if v.is_const() and v.const_value().denominator == 1:
                    v = int(v.const_value())
                else:
                    self.events.append(("lossy-int-store", self.where(), v))
            if dt == "float" and isinstance(v, bool):
                v = int(v)
            h[i] = v

    # ------------------------------------------------------------ positions
    def where(self, node=None):
        for n, m, f in reversed(self.stack):
            if n is not None:
                node = node or n
                return "%s:%d (%s)" % (os.path.relpath(m.path, self.repo.root),
                                       getattr(node, "lineno", 0), f)
        return None

    # ------------------------------------------------------------ conditions
    def decide(self, c):
        """True/False/None"""
        if isinstance(c, bool):
            return c
        if not isinstance(c, Cond):
            return None
        if c.op == "gt":
            v = c_gt(c.a)
            if isinstance(v, bool):
                return v
        elif c.op == "ge":
            v = c_ge(c.a)
            if isinstance(v, bool):
                return v
        elif c.op == "eq":
            v = c_eq(c.a)
            if isinstance(v, bool):
                return v
        elif c.op == "and":
            vs = [self.decide(x) for x in c.a]
            if False in vs:
                return False
            if all(v is True for v in vs):
                return True
            return None
        elif c.op == "or":
            vs = [self.decide(x) for x in c.a]
            if True in vs:
                return True
            if all(v is False for v in vs):
                return False
            return None
        elif c.op == "not":
            v = self.decide(c.a)
            return None if v is None else not v
        elif c.op == "opq" and isinstance(c.a, Opaque) and (
                c.a.desc == "uninit" or any(
                    isinstance(x, Opaque) and x.desc == "uninit"
                    for x in c.a.args)):
            raise AbsRaise("UninitializedRead", "a decision on a cell of an "
                           "array that was never written", self.where())
        n = c_not(c)
        for f in self.all_facts():
            if f == c:
                return True
            if f == n:
                return False
        if c.op in ("gt", "ge", "eq"):
            r = c.a
            if c.op == "eq":
                if self._implied(r, True) or self._implied(-r, True):
                    return False
                if self._implied(r, False) and self._implied(-r, False):
                    return True
                return None
            strict = c.op == "gt"
            if self._implied(r, strict):
                return True
            if self._implied(-r, not strict):
                return False
        return None

    def all_facts(self):
        out = []
        for f in list(self.facts) + list(self.st.pc):
            if isinstance(f, Cond) and f.op == "and":
                out.extend(f.a)
            else:
                out.append(f)
        return out

    def _implied(self, r, strict):
        """facts |= r > 0 (strict) or r >= 0"""
        fs = []
        for f in self.all_facts():
            if isinstance(f, Cond) and f.op in ("gt", "ge"):
                fs.append((f.a, f.op == "gt"))
            elif isinstance(f, Cond) and f.op == "eq":
                fs.append((f.a, False))
                fs.append((-f.a, False))
        return self._implied_rec(r, strict, fs, 2)

    def _implied_rec(self, r, strict, fs, depth):
        s = poly.sign(r)
        if s == "+" or (not strict and s in (">=0", "0")):
            return True
        if depth == 0 or r.den != poly._PONE:
            return False
        for f, fstrict in fs:
            if f.den != poly._PONE:
                continue
            ks = set()
            for m, cf in f.num.items():
                if m == ():
                    continue
                if m in r.num:
                    k = r.num[m] / cf
                    if k > 0:
                        ks.add(k)
            for k in ks:
                rem = r - f * Rat.const(k)
                if len(rem.num) >= len(r.num) + 1:
                    continue
                if self._implied_rec(rem, strict and not fstrict, fs,
                                     depth - 1):
                    return True
        return False

    def truth(self, v, node=None):
        """Python truthiness: True/False/Cond"""
        if v is None:
            return False
        if isinstance(v, (bool, )):
            return v
        if isinstance(v, Cond):
            d = self.decide(v)
            return v if d is None else d
        if isinstance(v, (int, str, tuple, bytes, float)):
            return bool(v)
        if isinstance(v, Rat):
            c = c_not(c_eq(v))
            return c if isinstance(c, bool) else self.truth(c)
        if isinstance(v, (ListV, DictV, SetV)):
            return len(self.items(v)) > 0
        if isinstance(v, range):
            return len(v) > 0
        if isinstance(v, Arr):
            if v.size == 1:
                return self.truth(self.cells(v)[0])
            if v.size == 0:
                return False
            raise AbsRaise("ValueError", "truth value of an array",
                           self.where())
        if isinstance(v, Phi):
            c = self.decide(v.cond)
            if c is not None:
                return self.truth(v.a if c else v.b)
            a, b = self.truth(v.a), self.truth(v.b)
            return c_or([c_and([v.cond, a]), c_and([c_not(v.cond), b])])
        if isinstance(v, Opaque):
            return Cond("opq", v)
        return True

    # ------------------------------------------------------------ join
    def join_states(self, outs, vals=None):
        """Join a list of (state, value); later entries are the 'else' of
        earlier ones.  Returns (state, value)."""
        st, val = outs[-1]
        for s2, v2 in reversed(outs[:-1]):
            st, val = self._join2(s2, v2, st, val)
        return st, val

    def _join2(self, sa, va, sb, vb):
        self.stats["joins"] += 1
        i = 0
        while i < len(sa.pc) and i < len(sb.pc) and sa.pc[i] == sb.pc[i]:
            i += 1
        cond = c_and(list(sa.pc[i:]))
        condb = c_and(list(sb.pc[i:]))
        if not sa.pc[i:] or isinstance(cond, bool):
            nc = c_not(condb)
            cond = nc if not isinstance(nc, bool) else Cond(
                "opq", Opaque("join", (self.next_addr, )))
        # prefer the cheaper/equivalent complement when B's guard is atomic
        st = State()
        st.pc = sa.pc[:i]
        if len(sa.pc[i:]) > 1 or len(sb.pc[i:]) > 1:
            # keep what both sides still know
            k = c_or([c_and(list(sa.pc[i:])), c_and(list(sb.pc[i:]))])
            common = [f for f in sa.pc[i:] if f in sb.pc[i:]]
            if common:
                st.pc = st.pc + tuple(common)
        memo = {}
        keep = self.st
        self.st = st
        try:
            for a in sa.heap:
                if a not in sb.heap:
                    st.heap[a] = sa.heap[a]
            for a in sb.heap:
                if a not in sa.heap:
                    st.heap[a] = sb.heap[a]
            for m in (sa.meta, sb.meta):
                for a, d in m.items():
                    st.meta.setdefault(a, d)
            for a in list(sa.heap):
                if a in sb.heap:
                    pa, pb = sa.heap[a], sb.heap[a]
                    if pa is pb or pa == pb:
                        st.heap[a] = pa
                    else:
                        st.heap[a] = pa  # placeholder
                        st.heap[a] = self._join_payload(cond, pa, pb, sa, sb)
            v = self._join_val(cond, va, vb, sa, sb)
        finally:
            self.st = keep
        return st, v

    def _join_payload(self, c, pa, pb, sa, sb):
        if isinstance(pa, dict):
            out = {}
            for k in list(pa) + [k for k in pb if k not in pa]:
                if k in pa and k in pb:
                    out[k] = self._join_val(c, pa[k], pb[k], sa, sb)
                elif k in pa:
                    out[k] = Phi(c, pa[k], _UNSET)
                else:
                    out[k] = Phi(c, _UNSET, pb[k])
            return out
        if isinstance(pa, list):
            if len(pa) == len(pb):
                return [self._join_val(c, x, y, sa, sb)
                        for x, y in zip(pa, pb)]
            raise Undecided("join of lists of different length", None,
                            self.where())
        if isinstance(pa, set):
            if pa == pb:
                return pa
            raise Undecided("join of sets", None, self.where())
        raise Undecided("join payload %r" % (pa, ))

    def _join_val(self, c, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, Rat) and isinstance(b, Rat) and a == b:
            return a
        if type(a) == type(b) and not isinstance(a, (Rat, Cond)):
            try:
                if a == b:
                    return a
            except Exception:
                pass
        num = (int, Rat, bool, Cond)
        if isinstance(a, num) and isinstance(b, num) and not (
                isinstance(a, bool) != isinstance(b, bool) and not (
                    isinstance(a, (bool, Cond)) and isinstance(b,
                                                               (bool, Cond)))):
            return ite_scalar(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr) and a.shape == b.shape:
            ca = [sa.heap[a.addr][i] for i in a.idx]
            cb = [sb.heap[b.addr][i] for i in b.idx]
            r = self.new_arr(a.shape,
                             [self._join_val(c, x, y, sa, sb)
                              for x, y in zip(ca, cb)], a.lib)
            self.st.meta[r.addr]["dtype"] = sa.meta.get(a.addr, {}).get(
                "dtype", "float")
            return r
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            return tuple(self._join_val(c, x, y, sa, sb)
                         for x, y in zip(a, b))
        if isinstance(a, ListV) and isinstance(b, ListV):
            la, lb = sa.heap[a.addr], sb.heap[b.addr]
            if len(la) == len(lb):
                return self.new_list([self._join_val(c, x, y, sa, sb)
                                      for x, y in zip(la, lb)])
        return Phi(c, a, b)

    def assume(self, c):
        if isinstance(c, bool):
            return
        self.st.pc = self.st.pc + (c, )

    def fork(self, cond, fa, fb):
        """Evaluate fa() under cond and fb() under not cond; join values."""
        base = self.st
        outs = []
        raised = []
        for c, f in ((cond, fa), (c_not(cond), fb)):
            self.st = base.clone()
            self.assume(c)
            try:
                v = f()
                outs.append((self.st, v))
            except AbsRaise as e:
                raised.append(Out("exc", self.st, e))
        if not outs:
            self.st = raised[0].st
            raise raised[0].val
        self.pending.extend(raised)
        self.st, v = self.join_states(outs)
        return v

    # ------------------------------------------------------------ modules
    def load(self, mod):
        if mod.name in self.module_frames:
            return
        keep = self.cur_module
        frame = self.alloc({})
        self.module_frames[mod.name] = frame
        self.stack.append((None, mod, "<module>"))
        try:
            for s in mod.tree.body:
                if isinstance(s, ast.If) and self._is_main_test(s.test):
                    continue
                try:
                    outs = self.exec_stmt(s, frame, mod)
                    for o in outs:
                        if o.kind == "next":
                            self.st = o.st
                except (Undecided, AbsRaise):
                    pass
        finally:
            self.stack.pop()

    def _is_main_test(self, t):
        return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) \
            and t.left.id == "__name__"

    def module_attr(self, mod, name):
        self.load(mod)
        fr = self.st.heap.get(self.module_frames[mod.name])
        if fr is None:
            raise Undecided("module frame lost for " + mod.name)
        if name in fr:
            return fr[name]
        sub = mod.name + "." + name
        if sub in self.repo.modules:
            return ModV(sub)
        raise AbsRaise("AttributeError", "module %s has no attribute %s" %
                       (mod.name, name), self.where())

    def get(self, short, name):
        """Public: resolve repo function/class 'Class.method' in module."""
        mod = self.repo.modules.get(PKG + "." + short)
        if mod is None:
            raise Undecided("anchor module vanished: " + short)
        parts = name.split(".")
        try:
            v = self.module_attr(mod, parts[0])
        except AbsRaise:
            raise Undecided("anchor vanished: %s.%s" % (short, name))
        for p in parts[1:]:
            w = self.class_lookup(v, p)
            if w is _UNSET:
                raise Undecided("anchor vanished: %s.%s" % (short, name))
            v = w[0]
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, frame, mod):
        outs = []
        for s in stmts:
            rs = self.exec_stmt(s, frame, mod)
            nxt = [(o.st, None) for o in rs if o.kind == "next"]
            outs.extend(o for o in rs if o.kind != "next")
            if not nxt:
                return outs
            self.st = self.join_states(nxt)[0] if len(nxt) > 1 else nxt[0][0]
        outs.append(Out("next", self.st))
        return outs

    def exec_stmt(self, s, frame, mod):
        self.stats["stmts"] += 1
        self.budget -= 1
        if self.budget < 0:
            raise Undecided("analysis budget exhausted")
        top = self.stack[-1]
        self.stack[-1] = (s, top[1], top[2])
        save_pending = self.pending
        self.pending = []
        try:
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Undecided("statement %s" % type(s).__name__, s,
                                self.where())
            try:
                outs = m(s, frame, mod)
                if outs is None:
                    outs = [Out("next", self.st)]
            except AbsRaise as e:
                if e.where is None:
                    e.where = self.where()
                outs = [Out("exc", self.st, e)]
            except (poly.Blowup, ZeroDivisionError) as e:
                if isinstance(e, ZeroDivisionError):
                    outs = [Out("exc", self.st,
                                AbsRaise("ZeroDivisionError", str(e),
                                         self.where()))]
                else:
                    raise Undecided("expression too large", s, self.where())
            except Undecided as e:
                if e.where is None:
                    e.where = self.where()
                raise
            return outs + self.pending
        finally:
            self.pending = save_pending
            self.stack[-1] = top

    def s_Expr(self, s, frame, mod):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, frame, mod)

    def s_Pass(self, s, frame, mod):
        return None

    def s_Import(self, s, frame, mod):
        for a in s.names:
            v = self.import_name(a.name)
            if a.asname:
                self.st.heap[frame][a.asname] = v
            else:
                top = a.name.split(".")[0]
                self.st.heap[frame][top] = self.import_name(top)

    def import_name(self, name):
        if name in self.repo.modules:
            return ModV(name)
        if name == PKG or name.startswith(PKG + "."):
            return ModV(name)
        local = PKG + ".examples.car." + name
        if local in self.repo.modules and name in ("unicycle",
                                                   "utils_simulation"):
            return ModV(local)
        return ExtV(self.canon(name))

    def canon(self, q):
        if q == "np":
            return "numpy"
        return q

    def s_ImportFrom(self, s, frame, mod):
        base = s.module or ""
        for a in s.names:
            full = base + "." + a.name
            if full in self.repo.modules:
                v = ModV(full)
            elif base in self.repo.modules:
                v = self.module_attr(self.repo.modules[base], a.name)
            else:
                v = ExtV(self.canon(full))
            self.st.heap[frame][a.asname or a.name] = v

    def s_FunctionDef(self, s, frame, mod, owner=None):
        a = s.args
        defaults = [self.ev(d, frame, mod) for d in a.defaults]
        kwd = [None if d is None else self.ev(d, frame, mod)
               for d in a.kw_defaults]
        decor, wrap = [], []
        for d in s.decorator_list:
            decor.append(ast.unparse(d))
            if isinstance(d, ast.Name) and d.id not in KNOWN_DECOR or \
                    isinstance(d, ast.Call) and isinstance(
                        d.func, ast.Name) and d.func.id not in KNOWN_DECOR:
                try:
                    w = self.ev(d, frame, mod)
                except (AbsRaise, Undecided):
                    w = None
                if isinstance(w, FuncV) and not isinstance(
                        w.node, ast.Lambda):
                    wrap.append(w)
        f = FuncV(s, mod, frame, s.name, owner, defaults, kwd, decor)
        for w in reversed(wrap):
            f = self.call(w, [f], {})
        self.st.heap[frame][s.name] = f
        return None

    def s_ClassDef(self, s, frame, mod):
        bases = [self.ev(b, frame, mod) for b in s.bases]
        c = ClassV(s.name, mod, [b for b in bases
                                 if isinstance(b, (ClassV, ExtV))], s)
        c.is_enum = any(isinstance(b, ExtV) and b.q in ("enum.Enum",
                                                        "enum.IntEnum")
                        for b in bases) or any(
                            isinstance(b, ClassV) and b.is_enum
                            for b in bases)
        cf = self.alloc({"__parent__": frame, "__class__": c})
        self.stack.append((None, mod, s.name))
        try:
            for st in s.body:
                if isinstance(st, ast.FunctionDef):
                    self.s_FunctionDef(st, cf, mod, owner=c)
                    # methods do not see the class scope
                    f = self.st.heap[cf][st.name]
                    f.closure = frame
                else:
                    for o in self.exec_stmt(st, cf, mod):
                        if o.kind == "next":
                            self.st = o.st
        finally:
            self.stack.pop()
        c.attrs = {k: v for k, v in self.st.heap[cf].items()
                   if not k.startswith("__parent__") and k != "__class__"}
        if c.is_enum:
            for k, v in list(c.attrs.items()):
                if not isinstance(v, FuncV) and not k.startswith("_"):
                    m = self.new_obj(c, {"name": k, "value": v})
                    c.attrs[k] = m
        self.st.heap[frame][s.name] = c

    def s_Return(self, s, frame, mod):
        v = None if s.value is None else self.ev(s.value, frame, mod)
        return [Out("ret", self.st, v)]

    def s_Break(self, s, frame, mod):
        return [Out("brk", self.st)]

    def s_Continue(self, s, frame, mod):
        return [Out("cnt", self.st)]

    def s_Global(self, s, frame, mod):
        self.st.heap[frame].setdefault("__globals__", ())
        self.st.heap[frame]["__globals__"] += tuple(s.names)

    def s_Nonlocal(self, s, frame, mod):
        self.st.heap[frame].setdefault("__nonlocals__", ())
        self.st.heap[frame]["__nonlocals__"] += tuple(s.names)

    def s_Delete(self, s, frame, mod):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.heap[frame].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, frame, mod)
                k = self.ev(t.slice, frame, mod)
                if isinstance(o, DictV):
                    self.items(o).pop(self.hkey(k), None)
                elif isinstance(o, ListV) and isinstance(k, int):
                    del self.items(o)[k]
                else:
                    raise Undecided("del", s, self.where())

    def s_Assert(self, s, frame, mod):
        if isinstance(s.test, ast.Tuple):
            return None
        v = self.ev(s.test, frame, mod)
        t = self.truth(v)
        if t is True:
            return None
        if t is False:
            return [Out("exc", self.st,
                        AbsRaise("AssertionError", ast.unparse(s.test)[:80],
                                 self.where(s)))]
        if not (t.op == "opq"):
            self.assume(t)
        return None

    def s_Raise(self, s, frame, mod):
        kind, val = "Exception", None
        if s.exc is not None:
            val = self.ev(s.exc, frame, mod)
            kind = self.exc_name(val)
        return [Out("exc", self.st, AbsRaise(kind, "", self.where(s), val))]

    def exc_name(self, v):
        if isinstance(v, ObjV):
            return v.cls.name.split(".")[-1]
        if isinstance(v, (ClassV, ExtV)):
            return v.name.split(".")[-1]
        if isinstance(v, Opaque):
            return v.desc.split("(")[0].split(".")[-1]
        return "Exception"

    EXC_PARENTS = {"IndexError": "LookupError", "KeyError": "LookupError",
                   "NotImplementedError": "RuntimeError",
                   "UnboundLocalError": "NameError",
                   "ZeroDivisionError": "ArithmeticError"}

    def exc_matches(self, e, spec):
        if spec is None:
            return True
        if isinstance(spec, tuple):
            return any(self.exc_matches(e, x) for x in spec)
        n = self.exc_name(spec)
        if n in ("Exception", "BaseException"):
            return True
        k = e.kind
        if isinstance(e.value, ObjV) and isinstance(e.value.cls, ClassV):
            return any(getattr(b, "name", "").split(".")[-1] == n
                       for b in e.value.cls.mro())
        if isinstance(e.value, ClassV):
            return any(getattr(b, "name", "").split(".")[-1] == n
                       for b in e.value.mro())
        while k is not None:
            if k == n:
                return True
            k = self.EXC_PARENTS.get(k)
        return False

    def s_Try(self, s, frame, mod):
        outs = self.exec_block(s.body, frame, mod)
        res = []
        for o in outs:
            if o.kind == "exc":
                handled = False
                for h in s.handlers:
                    self.st = o.st
                    spec = None if h.type is None else self.ev(h.type, frame,
                                                               mod)
                    if self.exc_matches(o.val, spec):
                        if h.name:
                            self.st.heap[frame][h.name] = o.val.value \
                                if o.val.value is not None else Opaque("exc")
                        res.extend(self.exec_block(h.body, frame, mod))
                        handled = True
                        break
                if not handled:
                    res.append(o)
            elif o.kind == "next" and s.orelse:
                self.st = o.st
                res.extend(self.exec_block(s.orelse, frame, mod))
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                self.st = o.st
                for f in self.exec_block(s.finalbody, frame, mod):
                    if f.kind == "next":
                        o2 = Out(o.kind, f.st, o.val)
                        fin.append(o2)
                    else:
                        fin.append(f)
            res = fin
        return res

    def s_With(self, s, frame, mod):
        old = self.nograd
        for it in s.items:
            v = self.ev(it.context_expr, frame, mod)
            if isinstance(v, Opaque) and v.desc.startswith("ctx:"):
                self.nograd = v.desc == "ctx:nograd"
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, frame, mod)
        try:
            return self.exec_block(s.body, frame, mod)
        finally:
            self.nograd = old

    def s_If(self, s, frame, mod):
        v = self.ev(s.test, frame, mod)
        t = self.truth(v)
        if t is True:
            return self.exec_block(s.body, frame, mod)
        if t is False:
            return self.exec_block(s.orelse, frame, mod)
        base = self.st
        res = []
        for c, body in ((t, s.body), (c_not(t), s.orelse)):
            self.st = base.clone()
            self.assume(c)
            res.extend(self.exec_block(body, frame, mod))
        return self.merge_outs(res)

    def merge_outs(self, res):
        out = []
        for kind in ("next", "brk", "cnt"):
            g = [(o.st, None) for o in res if o.kind == kind]
            if len(g) > 1:
                out.append(Out(kind, self.join_states(g)[0]))
            elif g:
                out.append(Out(kind, g[0][0]))
        # returns stay separate (joined at the call) to keep their gates
        out.extend(o for o in res if o.kind in ("ret", "exc"))
        return out

    def s_For(self, s, frame, mod):
        it = self.ev(s.iter, frame, mod)
        items = self.iterate(it, s)
        breaks, exits = [], []
        alive = True
        for x in items:
            self.assign(s.target, x, frame, mod)
            outs = self.exec_block(s.body, frame, mod)
            nxt = [(o.st, None) for o in outs if o.kind in ("next", "cnt")]
            breaks.extend((o.st, None) for o in outs if o.kind == "brk")
            exits.extend(o for o in outs if o.kind in ("ret", "exc"))
            if not nxt:
                alive = False
                break
            self.st = self.join_states(nxt)[0] if len(nxt) > 1 else nxt[0][0]
        if alive:
            if s.orelse:
                outs = self.exec_block(s.orelse, frame, mod)
                exits.extend(o for o in outs if o.kind != "next")
                breaks.extend((o.st, None) for o in outs if o.kind == "next")
            else:
                breaks.append((self.st, None))
        if breaks:
            st = self.join_states(breaks)[0] if len(breaks) > 1 else \
                breaks[0][0]
            return exits + [Out("next", st)]
        return exits

    def s_While(self, s, frame, mod):
        breaks, exits = [], []
        n = 0
        while True:
            t = self.truth(self.ev(s.test, frame, mod))
            if t is False:
                breaks.append((self.st, None))
                break
            if t is not True:
                if self.undecided_while is None:
                    raise Undecided("loop condition undecided", s,
                                    self.where())
                lim = self.undecided_while
                if n >= lim:
                    # beyond the analysed horizon: assume exit
                    self.assume(c_not(t))
                    breaks.append((self.st, None))
                    break
                base = self.st
                ex = base.clone()
                self.st = ex
                self.assume(c_not(t))
                breaks.append((self.st, None))
                self.st = base.clone()
                self.assume(t)
            n += 1
            if n > self.max_while:
                raise Undecided("loop does not terminate in the domain", s,
                                self.where())
            outs = self.exec_block(s.body, frame, mod)
            nxt = [(o.st, None) for o in outs if o.kind in ("next", "cnt")]
            breaks.extend((o.st, None) for o in outs if o.kind == "brk")
            exits.extend(o for o in outs if o.kind in ("ret", "exc"))
            if not nxt:
                break
            self.st = self.join_states(nxt)[0] if len(nxt) > 1 else nxt[0][0]
        if breaks:
            st = self.join_states(breaks)[0] if len(breaks) > 1 else \
                breaks[0][0]
            return exits + [Out("next", st)]
        return exits

    def s_Assign(self, s, frame, mod):
        v = self.ev(s.value, frame, mod)
        if self.symbolize and self.stack[-1][2] == "__init__" and \
                isinstance(s.value, ast.Constant) and \
                type(s.value.value) in (int, float):
            # a literal model parameter stands for an arbitrary positive one
            for t in s.targets:
                if isinstance(t, ast.Attribute) and t.attr in self.symbolize:
                    v = Rat.sym("p_" + t.attr)
                    poly.set_bounds("p_" + t.attr, lo=0, lo_open=True)
        for t in s.targets:
            self.assign(t, v, frame, mod)

    def s_AnnAssign(self, s, frame, mod):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, frame, mod), frame, mod)

    def s_AugAssign(self, s, frame, mod):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, frame, mod)
            v = self.ev(s.value, frame, mod)
            if isinstance(cur, Arr):
                self.inplace(cur, op, v)
                return
            if isinstance(cur, ListV) and op == "Add":
                self.items(cur).extend(self.iterate(v))
                return
            self.setname(t.id, self.binop(op, cur, v), frame)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, frame, mod)
            cur = self.getattr(o, t.attr)
            v = self.ev(s.value, frame, mod)
            if isinstance(cur, Arr):
                self.inplace(cur, op, v)
                return
            if isinstance(cur, ListV) and op == "Add":
                self.items(cur).extend(self.iterate(v))
                return
            self.setattr(o, t.attr, self.binop(op, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame, mod)
            k = self.ev_index(t.slice, frame, mod)
            cur = self.getitem(o, k)
            v = self.ev(s.value, frame, mod)
            if isinstance(cur, ListV) and op == "Add":
                self.items(cur).extend(self.iterate(v))
                return
            self.setitem(o, k, self.binop(op, cur, v))
        else:
            raise Undecided("augassign target", s, self.where())

    def inplace(self, arr, op, v):
        r = self.binop(op, arr, v)
        if r.shape != arr.shape:
            raise AbsRaise("RuntimeError", "in-place shape mismatch",
                           self.where())
        self.store_cells(arr, self.cells(r))

    # ------------------------------------------------------------ assignment
    def setname(self, name, v, frame):
        fr = self.st.heap[frame]
        if name in fr.get("__globals__", ()):
            raise Undecided("global write", None, self.where())
        if name in fr.get("__nonlocals__", ()):
            p = fr.get("__parent__")
            while p is not None:
                if name in self.st.heap[p]:
                    self.st.heap[p][name] = v
                    return
                p = self.st.heap[p].get("__parent__")
        fr[name] = v

    def assign(self, t, v, frame, mod):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, frame)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.iterate(v, t)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, frame, mod)
                mid = items[i:len(items) - k]
                self.assign(t.elts[i].value, self.new_list(mid), frame, mod)
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x, frame, mod)
                return
            if len(items) != len(t.elts):
                raise AbsRaise("ValueError", "unpack %d values into %d" %
                               (len(items), len(t.elts)), self.where())
            for e, x in zip(t.elts, items):
                self.assign(e, x, frame, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, frame, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, frame, mod)
            k = self.ev_index(t.slice, frame, mod)
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, frame, mod)
        else:
            raise Undecided("assign target", t, self.where())

    # ------------------------------------------------------------ names
    def local_names(self, fnode):
        r = self._locals_cache.get(id(fnode))
        if r is None:
            r = set()
            stack = list(fnode.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    r.add(n.name)
                    continue
                if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    r.add(n.id)
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        r.add((a.asname or a.name).split(".")[0])
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    for x in n.names:
                        r.discard(x)
                stack.extend(ast.iter_child_nodes(n))
            self._locals_cache[id(fnode)] = r
        return r

    def lookup(self, name, frame, mod):
        f = frame
        while f is not None:
            d = self.st.heap[f]
            if name in d:
                v = d[name]
                if isinstance(v, Phi) and (v.a is _UNSET or v.b is _UNSET):
                    v = self._resolve_unset(name, v)
                return v
            fl = d.get("__locals__")
            if fl is not None and name in fl:
                raise AbsRaise("UnboundLocalError", name, self.where())
            f = d.get("__parent__")
        fr = self.st.heap.get(self.module_frames.get(mod.name, -1))
        if fr is not None and name in fr:
            return fr[name]
        b = self.nat.BUILTINS.get(name)
        if b is not None:
            return b
        raise AbsRaise("NameError", name, self.where())

    def _resolve_unset(self, name, v):
        d = self.decide(v.cond)
        if v.a is _UNSET:
            if d is True:
                raise AbsRaise("UnboundLocalError", name, self.where())
            if d is None:
                self.events.append(("maybe-unbound", self.where(), name,
                                    v.cond))
            return v.b
        if d is False:
            raise AbsRaise("UnboundLocalError", name, self.where())
        if d is None:
            self.events.append(("maybe-unbound", self.where(), name,
                                c_not(v.cond)))
        return v.a

    # ------------------------------------------------------------ iteration
    def iterate(self, v, node=None):
        if isinstance(v, (tuple, list, range)):
            return list(v)
        if isinstance(v, ListV):
            return list(self.items(v))
        if isinstance(v, SetV):
            # no order is promised: checks may ask for the other one
            return sorted(self.items(v), key=str,
                          reverse=getattr(self, "set_reverse", False))
        if isinstance(v, DictV):
            return list(self.items(v).keys())
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Arr):
            if not v.shape:
                raise AbsRaise("TypeError", "iteration over 0-d array",
                               self.where())
            return [self.nat.arr_get(self, v, (i, ))
                    for i in range(v.shape[0])]
        if isinstance(v, ObjV):
            it = self.nat.native_iter(self, v)
            if it is not None:
                return it
            m = self.find_method(v, "__iter__")
            if m is not None:
                return self.iterate(self.call(m, [], {}))
            if self.find_method(v, "__getitem__") is not None and \
                    self.find_method(v, "__len__") is not None:
                n = self.call(self.find_method(v, "__len__"), [], {})
                return [self.getitem(v, i) for i in range(n)]
        if isinstance(v, ClassV) and v.is_enum:
            return [x for x in v.attrs.values() if isinstance(x, ObjV)]
        if isinstance(v, Phi):
            d = self.decide(v.cond)
            if d is not None:
                return self.iterate(v.a if d else v.b)
            a, b = self.iterate(v.a), self.iterate(v.b)
            if len(a) == len(b):
                return [self._join_val(v.cond, x, y, self.st, self.st)
                        for x, y in zip(a, b)]
        if v is None or isinstance(v, (int, Rat, Cond)):
            raise AbsRaise("TypeError", "%r is not iterable" % (v, ),
                           self.where())
        raise Undecided("iteration over %r" % (v, ), node, self.where())

    # ------------------------------------------------------------ expressions
    def ev(self, n, frame, mod):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Undecided("expression %s" % type(n).__name__, n,
                            self.where())
        return m(n, frame, mod)

    def e_Constant(self, n, frame, mod):
        v = n.value
        if isinstance(v, float):
            return Rat.const(Fraction(repr(v))) if v == v and abs(v) != float(
                "inf") else poly.INF
        if v is Ellipsis:
            return Ellipsis
        return v

    def e_Name(self, n, frame, mod):
        return self.lookup(n.id, frame, mod)

    def e_Tuple(self, n, frame, mod):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.ev(e.value, frame, mod)))
            else:
                out.append(self.ev(e, frame, mod))
        return tuple(out)

    def e_List(self, n, frame, mod):
        return self.new_list(self.e_Tuple(n, frame, mod))

    def e_Set(self, n, frame, mod):
        return SetV(self.alloc(set(self.hkey(self.ev(e, frame, mod))
                                   for e in n.elts)))

    def e_Dict(self, n, frame, mod):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                d.update(self.items(self.ev(v, frame, mod)))
            else:
                kk = self.hkey(self.ev(k, frame, mod))
                d[kk] = self.ev(v, frame, mod)
        return self.new_dict(d)

    def hkey(self, k):
        if isinstance(k, Rat) and k.is_const() and \
                k.const_value().denominator == 1:
            return int(k.const_value())
        if isinstance(k, tuple):
            return tuple(self.hkey(x) for x in k)
        if isinstance(k, Arr) and k.size == 1 and k.shape == () and \
                self.dtype(k) == "int":
            return self.cells(k)[0]
        return k

    def e_JoinedStr(self, n, frame, mod):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += str(v.value)
            else:
                try:
                    x = self.ev(v.value, frame, mod)
                except (Undecided, AbsRaise):
                    x = "?"
                out += self.tostr(x)
        return out

    def tostr(self, x):
        if isinstance(x, (int, str, bool)) or x is None:
            return str(x)
        if isinstance(x, Rat) and x.is_const():
            return str(float(x.const_value()))
        return "<%s>" % (x, )

    def e_Starred(self, n, frame, mod):
        raise Undecided("starred", n, self.where())

    def e_Lambda(self, n, frame, mod):
        d = [self.ev(x, frame, mod) for x in n.args.defaults]
        kd = [None if x is None else self.ev(x, frame, mod)
              for x in n.args.kw_defaults]
        return FuncV(n, mod, frame, "<lambda>", None, d, kd)

    def e_IfExp(self, n, frame, mod):
        t = self.truth(self.ev(n.test, frame, mod))
        if t is True:
            return self.ev(n.body, frame, mod)
        if t is False:
            return self.ev(n.orelse, frame, mod)
        return self.fork(t, lambda: self.ev(n.body, frame, mod),
                         lambda: self.ev(n.orelse, frame, mod))

    def e_BoolOp(self, n, frame, mod):
        is_and = isinstance(n.op, ast.And)
        v = self.ev(n.values[0], frame, mod)
        return self._boolop(v, n.values[1:], is_and, frame, mod)

    def _boolop(self, v, rest, is_and, frame, mod):
        if not rest:
            return v
        t = self.truth(v)
        if is_and:
            if t is False:
                return v
            if t is True:
                return self._boolop(self.ev(rest[0], frame, mod), rest[1:],
                                    is_and, frame, mod)
        else:
            if t is True:
                return v
            if t is False:
                return self._boolop(self.ev(rest[0], frame, mod), rest[1:],
                                    is_and, frame, mod)
        # undecided: evaluate the rest under the assumption
        def rhs():
            return self._boolop(self.ev(rest[0], frame, mod), rest[1:],
                                is_and, frame, mod)
        if is_and:
            w = self.fork(t, rhs, lambda: False)
        else:
            w = self.fork(t, lambda: True, rhs)
        return w

    def e_UnaryOp(self, n, frame, mod):
        v = self.ev(n.operand, frame, mod)
        op = type(n.op).__name__
        return self.unary(op, v)

    def unary(self, op, v):
        if op == "Not":
            return c_not(self.truth(v))
        if isinstance(v, Phi):
            return self.on_phi(v, lambda x: self.unary(op, x))
        if op == "USub":
            if isinstance(v, bool):
                return -int(v)
            if isinstance(v, (int, Rat)):
                return -v
            if isinstance(v, Arr):
                return self.nat.ew1(self, lambda x: -self.num(x), v)
            if isinstance(v, Opaque):
                return Opaque("neg", (v, ))
            if isinstance(v, ObjV):
                m = self.find_method(v, "__neg__")
                if m is not None:
                    return self.call(m, [], {})
                r = self.nat.native_binop(self, "Mult", v, -1)
                if r is not NotImplemented:
                    return r
        if op == "UAdd":
            return v
        if op == "Invert":
            if isinstance(v, Arr):
                return self.nat.ew1(self, c_not, v)
            if isinstance(v, (bool, Cond)):
                return c_not(v)
        if v is None or isinstance(v, (str, ListV, DictV, tuple)):
            raise AbsRaise("TypeError", "unary %s on %r" % (op, v),
                           self.where())
        raise Undecided("unary %s on %r" % (op, v), None, self.where())

    def num(self, x):
        if isinstance(x, (int, Rat)) and not isinstance(x, bool):
            return x
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, Cond):
            return ind(x)
        if isinstance(x, Arr) and x.size == 1:
            return self.num(self.cells(x)[0])
        if isinstance(x, Opaque):
            return x
        if isinstance(x, Phi):
            if isinstance(x.a, (int, Rat)) and isinstance(x.b, (int, Rat)):
                return ite_scalar(x.cond, x.a, x.b)
        raise Undecided("not a number: %r" % (x, ), None, self.where())

    def e_BinOp(self, n, frame, mod):
        a = self.ev(n.left, frame, mod)
        b = self.ev(n.right, frame, mod)
        return self.binop(type(n.op).__name__, a, b)

    def on_phi(self, v, f):
        d = self.decide(v.cond)
        if d is not None:
            return f(v.a if d else v.b)
        return self.fork(v.cond, lambda: f(v.a), lambda: f(v.b))

    DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv",
              "MatMult": "matmul", "Pow": "pow", "Mod": "mod",
              "FloorDiv": "floordiv", "BitAnd": "and", "BitOr": "or"}

    def binop(self, op, a, b):
        if isinstance(a, Phi):
            return self.on_phi(a, lambda x: self.binop(op, x, b))
        if isinstance(b, Phi):
            return self.on_phi(b, lambda x: self.binop(op, a, x))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, DictV) or \
                    isinstance(b, DictV):
                raise AbsRaise("TypeError", "%s on %r and %r" % (op, a, b),
                               self.where())
            if isinstance(a, ObjV) or isinstance(b, ObjV):
                r = self.nat.native_binop(self, op, a, b)
                if r is not NotImplemented:
                    return r
            return self.nat.arr_binop(self, op, a, b)
        if isinstance(a, (int, Rat, Cond)) and isinstance(b,
                                                          (int, Rat, Cond)):
            return self.scalar_op(op, a, b)
        if op == "Add":
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, ListV) and isinstance(b, ListV):
                return self.new_list(self.items(a) + self.items(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if op == "Mult":
            if isinstance(a, ListV) and isinstance(b, int):
                return self.new_list(self.items(a) * b)
            if isinstance(b, ListV) and isinstance(a, int):
                return self.new_list(self.items(b) * a)
            if isinstance(a, (str, tuple)) and isinstance(b, int):
                return a * b
        if op == "Mod" and isinstance(a, str):
            return a
        if isinstance(a, SetV) and isinstance(b, SetV):
            x, y = self.items(a), self.items(b)
            r = {"Sub": x - y, "BitOr": x | y, "BitAnd": x & y}.get(op)
            if r is not None:
                return SetV(self.alloc(set(r)))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op" + op, (a, b))
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            r = self.nat.native_binop(self, op, a, b)
            if r is not NotImplemented:
                return r
            d = self.DUNDER.get(op)
            if isinstance(a, ObjV):
                m = self.find_method(a, "__%s__" % d)
                if m is not None:
                    return self.call(m, [b], {})
            if isinstance(b, ObjV):
                m = self.find_method(b, "__r%s__" % d)
                if m is not None:
                    return self.call(m, [a], {})
        plain = (int, Rat, Cond, str, ListV, DictV, tuple)
        if (a is None or isinstance(a, plain)) and (
                b is None or isinstance(b, plain)) and not (
                isinstance(a, DictV) and isinstance(b, DictV)):
            raise AbsRaise("TypeError", "%s on %r and %r" % (op, a, b),
                           self.where())
        raise Undecided("binop %s on %r, %r" % (op, a, b), None, self.where())

    def scalar_op(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op" + op, (a, b))
        if op in ("BitAnd", "BitOr"):
            if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)):
                return (c_and if op == "BitAnd" else c_or)([a, b])
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == "BitAnd" else a | b
        a, b = self.num(a), self.num(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("op" + op, (a, b))
        ii = isinstance(a, int) and isinstance(b, int)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "Div":
            if (isinstance(b, int) and b == 0) or (isinstance(b, Rat)
                                                   and b.is_zero()):
                raise AbsRaise("ZeroDivisionError", "", self.where())
            if b == poly.INF:
                return R0
            return Rat.of(a) / Rat.of(b)
        if op == "Pow":
            if ii and b >= 0:
                return a**b
            return Rat.of(a)**(b if isinstance(b, int) else b)
        if op == "FloorDiv":
            if ii:
                return a // b
            x, y = Rat.of(a), Rat.of(b)
            if x.is_const() and y.is_const():
                return Rat.const(x.const_value() // y.const_value())
            return poly.fn("floordiv", x, y)
        if op == "Mod":
            if ii:
                return a % b
            x, y = Rat.of(a), Rat.of(b)
            if x.is_const() and y.is_const():
                return Rat.const(x.const_value() % y.const_value())
            return poly.fn("mod", x, y)
        if ii and op in ("LShift", "RShift", "BitXor"):
            return {"LShift": a << b, "RShift": a >> b,
                    "BitXor": a ^ b}[op]
        raise Undecided("scalar op %s" % op, None, self.where())

    def e_Compare(self, n, frame, mod):
        left = self.ev(n.left, frame, mod)
        res = []
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(r, frame, mod)
            c = self.compare(type(op).__name__, left, right)
            res.append(c)
            if c is False:
                return False
            left = right
        if len(res) == 1:
            return res[0]
        return c_and([self.truth(c) for c in res])

    def compare(self, op, a, b):
        if op in ("Is", "IsNot"):
            r = self.identical(a, b)
            return r if op == "Is" else c_not(r)
        if op in ("In", "NotIn"):
            r = self.contains(b, a)
            return r if op == "In" else c_not(r)
        if isinstance(a, Phi):
            return self.on_phi(a, lambda x: self.compare(op, x, b))
        if isinstance(b, Phi):
            return self.on_phi(b, lambda x: self.compare(op, a, x))
        if isinstance(a, Arr) or isinstance(b, Arr):
            if a is None or b is None or isinstance(a, str) or isinstance(
                    b, str):
                return op == "NotEq"
            return self.nat.arr_compare(self, op, a, b)
        num = (int, Rat, Cond)
        if isinstance(a, num) and isinstance(b, num):
            return self.scalar_cmp(op, a, b)
        if op == "Eq" and (isinstance(a, ObjV) or isinstance(b, ObjV)):
            r = self.nat.native_compare(self, op, a, b)
            if isinstance(r, ObjV):
                return r
        if op in ("Eq", "NotEq"):
            r = self.equals(a, b)
            return r if op == "Eq" else c_not(r)
        if isinstance(a, ObjV) or isinstance(b, ObjV):
            r = self.nat.native_compare(self, op, a, b)
            if r is not NotImplemented:
                return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Cond("opq", Opaque("cmp" + op, (a, b)))
        if isinstance(a, str) and isinstance(b, str):
            return {"Lt": a < b, "Gt": a > b, "LtE": a <= b,
                    "GtE": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple):
            try:
                return {"Lt": a < b, "Gt": a > b, "LtE": a <= b,
                        "GtE": a >= b}[op]
            except TypeError:
                pass
        if a is None or b is None:
            raise AbsRaise("TypeError", "%s on %r and %r" % (op, a, b),
                           self.where())
        raise Undecided("compare %s %r %r" % (op, a, b), None, self.where())

    def scalar_cmp(self, op, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Cond("opq", Opaque("cmp" + op, (a, b)))
        if isinstance(a, (bool, Cond)) and isinstance(b, (bool, Cond)) and \
                op in ("Eq", "NotEq"):
            e = c_or([c_and([a, b]), c_and([c_not(a), c_not(b)])])
            return e if op == "Eq" else c_not(e)
        a, b = self.num(a), self.num(b)
        if self.live is not None:
            a, b = self.nat.thaw(self, a), self.nat.thaw(self, b)
        if isinstance(a, int) and isinstance(b, int):
            return {"Lt": a < b, "Gt": a > b, "LtE": a <= b, "GtE": a >= b,
                    "Eq": a == b, "NotEq": a != b}[op]
        # infinities
        x, y = Rat.of(a), Rat.of(b)
        if x == y:
            return op in ("LtE", "GtE", "Eq")
        d = y - x
        if op == "Lt":
            return self.dec(c_gt(d))
        if op == "LtE":
            return self.dec(c_ge(d))
        if op == "Gt":
            return self.dec(c_gt(-d))
        if op == "GtE":
            return self.dec(c_ge(-d))
        if op == "Eq":
            return self.dec(c_eq(d))
        return self.dec(c_not(c_eq(d)))

    def dec(self, c):
        d = self.decide(c)
        return c if d is None else d

    def identical(self, a, b):
        if isinstance(a, Phi):
            return c_or([c_and([a.cond, self.identical(a.a, b)]),
                         c_and([c_not(a.cond), self.identical(a.b, b)])])
        if isinstance(b, Phi):
            return self.identical(b, a)
        if a is None or b is None or isinstance(a, bool) or isinstance(
                b, bool):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o = a if isinstance(a, Opaque) else b
                if o.tag == "notnone":
                    return False
                return Cond("opq", Opaque("is", (a, b)))
            return a is b
        if isinstance(a, Arr) and isinstance(b, Arr):
            return a.addr == b.addr and a.idx == b.idx
        if type(a) != type(b):
            return False
        return a == b

    def equals(self, a, b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a == b:
                return True
            return Cond("opq", Opaque("eq", (a, b)))
        if isinstance(a, ListV) and isinstance(b, ListV):
            a, b = tuple(self.items(a)), tuple(self.items(b))
        if isinstance(a, DictV) and isinstance(b, DictV):
            x, y = self.items(a), self.items(b)
            if set(x) != set(y):
                return False
            return c_and([self.truth(self.compare("Eq", x[k], y[k]))
                          for k in x])
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return c_and([self.truth(self.compare("Eq", x, y))
                          for x, y in zip(a, b)])
        if isinstance(a, SetV) and isinstance(b, SetV):
            return self.items(a) == self.items(b)
        if isinstance(a, ObjV) and isinstance(b, ObjV):
            r = self.nat.native_compare(self, "Eq", a, b)
            if r is not NotImplemented:
                return r
            return a == b
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if type(a) != type(b):
            return False
        return a == b

    def contains(self, c, x):
        if isinstance(c, Phi):
            return self.on_phi(c, lambda y: self.contains(y, x))
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, DictV):
            return self.hkey(x) in self.items(c)
        if isinstance(c, SetV):
            return self.hkey(x) in self.items(c)
        if isinstance(c, (ListV, tuple, range, list)):
            return c_or([self.truth(self.compare("Eq", x, y))
                         for y in self.iterate(c)])
        if isinstance(c, Arr):
            r = self.nat.arr_compare(self, "Eq", c, x)
            return c_or([self.truth(y) for y in self.cells(r)])
        if isinstance(c, ObjV):
            m = self.find_method(c, "__contains__")
            if m is not None:
                return self.truth(self.call(m, [x], {}))
        return Cond("opq", Opaque("in", (x, c)))

    def e_ListComp(self, n, frame, mod):
        return self.new_list(self._comp(n, frame, mod, n.elt))

    def e_GeneratorExp(self, n, frame, mod):
        return self.new_list(self._comp(n, frame, mod, n.elt))

    def e_SetComp(self, n, frame, mod):
        return SetV(self.alloc(set(self.hkey(x) for x in self._comp(
            n, frame, mod, n.elt))))

    def e_DictComp(self, n, frame, mod):
        kv = self._comp(n, frame, mod, (n.key, n.value))
        return self.new_dict({self.hkey(k): v for k, v in kv})

    def _comp(self, n, frame, mod, elt):
        cf = self.alloc({"__parent__": frame})
        out = []

        def rec(i):
            if i == len(n.generators):
                if isinstance(elt, tuple):
                    out.append((self.ev(elt[0], cf, mod),
                                self.ev(elt[1], cf, mod)))
                else:
                    out.append(self.ev(elt, cf, mod))
                return
            g = n.generators[i]
            for x in self.iterate(self.ev(g.iter, cf if i else frame, mod),
                                  n):
                self.assign(g.target, x, cf, mod)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, cf, mod))
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        raise Undecided("comprehension filter undecided", c,
                                        self.where())
                if ok:
                    rec(i + 1)
        rec(0)
        return out

    def e_NamedExpr(self, n, frame, mod):
        v = self.ev(n.value, frame, mod)
        self.assign(n.target, v, frame, mod)
        return v

    def e_Slice(self, n, frame, mod):
        def f(x):
            if x is None:
                return None
            v = self.ev(x, frame, mod)
            return self.as_index(v)
        return SliceV(f(n.lower), f(n.upper), f(n.step))

    def as_index(self, v):
        if v is None or type(v) is int:
            return v
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, Rat) and v.is_const() and \
                v.const_value().denominator == 1:
            return int(v.const_value())
        if isinstance(v, Rat) and v.is_const():
            raise AbsRaise("TypeError", "index %s is not an integer" % v,
                           self.where())
        if isinstance(v, Arr) and v.size == 1:
            return self.as_index(self.cells(v)[0])
        if isinstance(v, Phi):
            d = self.decide(v.cond)
            if d is not None:
                return self.as_index(v.a if d else v.b)
        raise Undecided("symbolic index %r" % (v, ), None, self.where())

    def ev_index(self, n, frame, mod):
        if isinstance(n, ast.Tuple):
            return tuple(self.ev(e, frame, mod) for e in n.elts)
        return self.ev(n, frame, mod)

    def e_Subscript(self, n, frame, mod):
        o = self.ev(n.value, frame, mod)
        k = self.ev_index(n.slice, frame, mod)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, Phi):
            return self.on_phi(o, lambda x: self.getitem(x, k))
        if isinstance(k, Phi):
            return self.on_phi(k, lambda x: self.getitem(o, x))
        if isinstance(o, Arr):
            return self.nat.arr_get(self, o, k if isinstance(k, tuple)
                                    else (k, ))
        if isinstance(o, ListV):
            if isinstance(k, SliceV):
                return self.new_list(self.items(o)[k.py()])
            i = self.as_index(k)
            try:
                return self.items(o)[i]
            except IndexError:
                raise AbsRaise("IndexError", "", self.where())
        if isinstance(o, (tuple, str, range)):
            if isinstance(k, SliceV):
                return o[k.py()]
            try:
                return o[self.as_index(k)]
            except IndexError:
                raise AbsRaise("IndexError", "", self.where())
        if isinstance(o, DictV):
            d = self.items(o)
            kk = self.hkey(k)
            if kk not in d:
                if "__default__" in self.st.meta.get(o.addr, {}):
                    f = self.st.meta[o.addr]["__default__"]
                    d[kk] = self.call(f, [], {})
                    return d[kk]
                raise AbsRaise("KeyError", str(kk), self.where())
            v = d[kk]
            if isinstance(v, Phi) and (v.a is _UNSET or v.b is _UNSET):
                return self._resolve_unset(str(kk), v)
            return v
        if isinstance(o, ObjV):
            r = self.nat.native_getitem(self, o, k)
            if r is not NotImplemented:
                return r
            m = self.find_method(o, "__getitem__")
            if m is not None:
                return self.call(m, [k], {})
        if isinstance(o, Opaque):
            return Opaque("item", (o, k if not isinstance(k, SliceV) else
                                   ("slice", k.lo, k.up, k.step)))
        if isinstance(o, ExtV):
            return o
        if isinstance(o, ClassV) and o.is_enum and isinstance(k, str):
            return o.attrs[k]
        if o is None or isinstance(o, (int, Rat, Cond)):
            raise AbsRaise("TypeError", "%r is not subscriptable" % (o, ),
                           self.where())
        raise Undecided("getitem on %r" % (o, ), None, self.where())

    def setitem(self, o, k, v):
        if isinstance(o, Phi):
            d = self.decide(o.cond)
            if d is None:
                self.fork(o.cond, lambda: self.setitem(o.a, k, v),
                          lambda: self.setitem(o.b, k, v))
                return
            return self.setitem(o.a if d else o.b, k, v)
        if isinstance(o, Arr):
            self.nat.arr_set(self, o, k if isinstance(k, tuple) else (k, ), v)
        elif isinstance(o, ListV):
            if isinstance(k, SliceV):
                self.items(o)[k.py()] = self.iterate(v)
            else:
                try:
                    self.items(o)[self.as_index(k)] = v
                except IndexError:
                    raise AbsRaise("IndexError", "", self.where())
        elif isinstance(o, DictV):
            self.items(o)[self.hkey(k)] = v
        elif isinstance(o, ObjV):
            r = self.nat.native_setitem(self, o, k, v)
            if r is not NotImplemented:
                return
            m = self.find_method(o, "__setitem__")
            if m is not None:
                self.call(m, [k, v], {})
            else:
                raise Undecided("setitem on %r" % (o, ), None, self.where())
        elif isinstance(o, Opaque):
            pass
        elif o is None or isinstance(o, (int, Rat, Cond, str, tuple)):
            raise AbsRaise("TypeError", "item assignment on %r" % (o, ),
                           self.where())
        else:
            raise Undecided("setitem on %r" % (o, ), None, self.where())

    # ------------------------------------------------------------ attributes
    def class_lookup(self, cls, name):
        """-> (value, owner) or _UNSET"""
        if isinstance(cls, ClassV):
            for c in cls.mro():
                if isinstance(c, ClassV):
                    if name in c.attrs:
                        return c.attrs[name], c
                else:
                    r = self.nat.ext_class_attr(self, c.q, name)
                    if r is not _UNSET:
                        return r, c
            return _UNSET
        if isinstance(cls, ExtV):
            r = self.nat.ext_class_attr(self, cls.q, name)
            if r is not _UNSET:
                return r, cls
        return _UNSET

    def find_method(self, obj, name):
        r = self.class_lookup(obj.cls, name)
        if r is _UNSET:
            return None
        return self.bind(r[0], obj, name)

    def bind(self, v, obj, name):
        if isinstance(v, FuncV):
            if v.decor:
                if "staticmethod" in v.decor:
                    return v
                if "classmethod" in v.decor:
                    return BoundV(v, obj.cls if isinstance(obj, ObjV)
                                  else obj)
            return BoundV(v, obj)
        if isinstance(v, PyFn):
            return NativeM(v.fn, obj, name)
        return v

    def e_Attribute(self, n, frame, mod):
        o = self.ev(n.value, frame, mod)
        return self.getattr(o, n.attr)

    def getattr(self, o, name, default=_UNSET):
        if isinstance(o, Phi):
            return self.on_phi(o, lambda x: self.getattr(x, name, default))
        if isinstance(o, Arr):
            return self.nat.arr_attr(self, o, name)
        if isinstance(o, ObjV):
            d = self.attrs(o)
            if name in d:
                v = d[name]
                if isinstance(v, Phi) and (v.a is _UNSET or v.b is _UNSET):
                    return self._resolve_unset(name, v)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                return DictV(o.addr)
            r = self.class_lookup(o.cls, name)
            if r is not _UNSET:
                v = r[0]
                if isinstance(v, FuncV) and v.decor and (
                        "property" in v.decor or
                        "abc.abstractproperty" in v.decor or
                        any(x.endswith("cached_property") for x in v.decor)):
                    r = self.call(v, [o], {})
                    if any(x.endswith("cached_property") for x in v.decor):
                        self.attrs(o)[name] = r
                    return r
                return self.bind(v, o, name)
            r = self.nat.native_attr(self, o, name)
            if r is not NotImplemented:
                return r
            m = self.class_lookup(o.cls, "__getattr__")
            if m is not _UNSET and isinstance(m[0], FuncV):
                return self.call(m[0], [o, name], {})
            if default is not _UNSET:
                return default
            if any(library_has(b, name) for b in
                   self.nat.obj_ext_bases(o)):
                # a library class whose attributes are not all modelled
                raise Undecided("attribute %s of %s" % (name, o), None,
                                self.where())
            if not self.stack and name[:2] != "__":
                # only the checks name it: it may be called otherwise now
                raise Undecided("anchor vanished: %s of %s" % (name, o))
            raise AbsRaise("AttributeError", "%s has no attribute %s" %
                           (o, name), self.where())
        if isinstance(o, ModV):
            if o.name in self.repo.modules:
                return self.module_attr(self.repo.modules[o.name], name)
            sub = o.name + "." + name
            return ModV(sub)
        if isinstance(o, ExtV):
            return self.nat.ext_attr(self, o, name)
        if isinstance(o, ClassV):
            r = self.class_lookup(o, name)
            if r is not _UNSET:
                v = r[0]
                if isinstance(v, FuncV) and v.decor and \
                        "classmethod" in v.decor:
                    return BoundV(v, o)
                return v
            if name == "__name__":
                return o.name
            raise AbsRaise("AttributeError", "%s.%s" % (o.name, name),
                           self.where())
        if isinstance(o, SuperV):
            start = o.self_.cls if isinstance(o.self_, ObjV) else o.self_
            mro = start.mro()
            i = mro.index(o.cls) + 1 if o.cls in mro else 0
            for c in mro[i:]:
                if isinstance(c, ClassV):
                    if name in c.attrs:
                        v = c.attrs[name]
                        if isinstance(v, FuncV) and v.decor and \
                                "property" in v.decor:
                            return self.call(v, [o.self_], {})
                        return self.bind(v, o.self_, name)
                else:
                    r = self.nat.ext_class_attr(self, c.q, name)
                    if r is not _UNSET:
                        return self.bind(r, o.self_, name)
            if name == "__init__":
                return PyFn(lambda ip, a, k: None, "object.__init__")
            raise AbsRaise("AttributeError", "super has no %s" % name,
                           self.where())
        if isinstance(o, (ListV, DictV, SetV, tuple, str, int, Rat, Cond,
                          range)):
            return self.nat.builtin_attr(self, o, name)
        if isinstance(o, Opaque):
            return Opaque("%s.%s" % (o.desc, name), o.args)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.name
            if o.fa and name in o.fa:
                return o.fa[name]
        if default is not _UNSET:
            return default
        if o is None:
            raise AbsRaise("AttributeError", "None has no attribute %s" %
                           name, self.where())
        raise Undecided("attribute %s of %r" % (name, o), None, self.where())

    def setattr(self, o, name, v):
        if isinstance(o, Phi):
            d = self.decide(o.cond)
            if d is None:
                self.fork(o.cond, lambda: self.setattr(o.a, name, v),
                          lambda: self.setattr(o.b, name, v))
                return
            return self.setattr(o.a if d else o.b, name, v)
        if isinstance(o, ObjV):
            r = self.class_lookup(o.cls, "__setattr__")
            if r is not _UNSET and isinstance(r[0], FuncV):
                self.call(r[0], [o, name, v], {})
                return
            if isinstance(o.cls, ClassV):
                # property setter
                r = self.class_lookup(o.cls, name)
                if r is not _UNSET and isinstance(r[0], FuncV) and \
                        r[0].decor and any(x.endswith(".setter")
                                           for x in r[0].decor):
                    self.call(r[0], [o, v], {})
                    return
            if self.nat.native_setattr(self, o, name, v):
                return
            self.attrs(o)[name] = v
        elif isinstance(o, Arr):
            self.nat.arr_setattr(self, o, name, v)
        elif isinstance(o, ClassV):
            o.attrs[name] = v
        elif isinstance(o, FuncV):
            o.fa = dict(o.fa or {})
            o.fa[name] = v
        elif isinstance(o, (Opaque, ExtV)):
            self.events.append(("ext-setattr", self.where(), o, name, v))
        else:
            raise Undecided("setattr on %r" % (o, ), None, self.where())

    # ------------------------------------------------------------ calls
    def e_Call(self, n, frame, mod):
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            try:
                self.lookup("super", frame, mod)
            except AbsRaise:
                pass
            if n.args:
                c = self.ev(n.args[0], frame, mod)
                s = self.ev(n.args[1], frame, mod)
            else:
                f = frame
                while f is not None and "__owner__" not in self.st.heap[f]:
                    f = self.st.heap[f].get("__parent__")
                c = self.st.heap[f]["__owner__"]
                s = self.st.heap[f]["__self__"]
            return SuperV(c, s)
        if isinstance(n.func, ast.Name) and n.func.id == "locals":
            raise Undecided("locals()", n, self.where())
        f = self.ev(n.func, frame, mod)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, frame, mod)))
            else:
                args.append(self.ev(a, frame, mod))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, frame, mod)
                kw.update({x: y for x, y in self.items(d).items()})
            else:
                kw[k.arg] = self.ev(k.value, frame, mod)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        self.stats["calls"] += 1
        if isinstance(f, Phi):
            return self.on_phi(f, lambda g: self.call(g, args, kw))
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, list(args), kw)
        if isinstance(f, NativeM):
            return f.fn(self, [f.self_] + list(args), kw)
        if isinstance(f, PyFn):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, ExtV):
            return self.nat.call_ext(self, f.q, list(args), kw)
        if isinstance(f, ObjV):
            r = self.nat.native_call(self, f, args, kw)
            if r is not NotImplemented:
                return r
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
            m = self.find_method(f, "forward")
            if m is not None:
                return self.call(m, args, kw)
        if isinstance(f, Opaque):
            if "__call__" in self.hooks:
                return self.hooks["__call__"](self, f, args, kw)
            return Opaque("call:" + f.desc, tuple(f.args) + tuple(args) +
                          tuple(v for _, v in sorted(kw.items())))
        if f is None or isinstance(f, (int, Rat, Cond, str, Arr, ListV,
                                       DictV, tuple)):
            raise AbsRaise("TypeError", "%r is not callable" % (f, ),
                           self.where())
        raise Undecided("call of %r" % (f, ), None, self.where())

    def instantiate(self, cls, args, kw):
        h = self.hooks.get("new:" + cls.qualname)
        if h is not None:
            r = h(self, list(args), kw)
            if r is not NotImplemented:
                return r
        if cls.is_enum:
            for m in cls.attrs.values():
                if isinstance(m, ObjV) and self.truth(self.compare(
                        "Eq", self.attrs(m)["value"], args[0])) is True:
                    return m
            raise AbsRaise("ValueError", "enum", self.where())
        o = self.new_obj(cls)
        r = self.class_lookup(cls, "__init__")
        if r is not _UNSET:
            self.call(self.bind(r[0], o, "__init__"), args, kw)
        return o

    memoing = False

    def memoized(self, f, args, kw):
        """functools.lru_cache: numbers and strings by value, the rest by
        identity"""
        def key(v):
            if isinstance(v, (ListV, DictV, SetV)):
                raise AbsRaise("TypeError", "unhashable type", self.where())
            if isinstance(v, tuple):
                return tuple(key(x) for x in v)
            if isinstance(v, (Arr, ObjV)):
                return "@%d" % v.addr, str(getattr(v, "idx", ""))
            return str(v)
        k = str((tuple(key(a) for a in args),
                 tuple(sorted((n, key(v)) for n, v in kw.items()))))
        d = f.fa and f.fa.get("__memo__")
        if not isinstance(d, DictV) or d.addr not in self.st.heap:
            d = self.new_dict({})
            f.fa = dict(f.fa or {})
            f.fa["__memo__"] = d
        memo = self.st.heap[d.addr]
        if k not in memo:
            self.memoing = True
            try:
                r = self.call_func(f, args, kw)
            finally:
                self.memoing = False
            self.st.heap[d.addr][k] = r
            return r
        return memo[k]

    def call_func(self, f, args, kw):
        if f.node is not None and not isinstance(f.node, ast.Lambda):
            h = self.hooks.get(f.qualname)
            if h is None and f.owner is None:
                h = self.hooks.get(f.module.short + "." + f.name)
            if h is not None:
                r = h(self, *positional(f.node, args, kw))
                if r is not NotImplemented:
                    return r
            self.stats["functions"].add(f.qualname)
        if f.decor and not self.memoing and any(
                re.search(r"(^|\.)(lru_cache|cache)\b", d) for d in f.decor):
            return self.memoized(f, args, kw)
        self.memoing = False
        self.load(f.module)
        fr = {"__parent__": f.closure}
        # bind module-level closure frames lazily
        if f.closure is None:
            fr["__parent__"] = None
        try:
            self.bind_args(f, args, kw, fr)
        except AbsRaise as e:
            if not self.stack and f.name[:1] == "_" and f.name[:2] != "__":
                raise Undecided("anchor changed: " + str(e))
            raise
        if isinstance(f.node, ast.Lambda):
            frame = self.alloc(fr)
            return self.ev(f.node.body, frame, f.module)
        if f.owner is not None:
            fr["__owner__"] = f.owner
            if args:
                fr["__self__"] = args[0]
        fr["__locals__"] = self.local_names(f.node)
        gen = getattr(f.node, "_sa_gen", None)
        if gen is None:
            gen = f.node._sa_gen = any(
                isinstance(x, (ast.Yield, ast.YieldFrom))
                for x in ast.walk(f.node))
        if gen:
            raise Undecided("generator function " + f.qualname, None,
                            self.where())
        frame = self.alloc(fr)
        self.depth += 1
        if self.depth > 120:
            raise Undecided("recursion", None, self.where())
        self.stack.append((None, f.module, f.name))
        old = self.nograd
        if f.decor and any("no_grad" in d or "inference_mode" in d
                           for d in f.decor):
            self.nograd = True
        try:
            outs = self.exec_block(f.node.body, frame, f.module)
        finally:
            self.nograd = old
            self.stack.pop()
            self.depth -= 1
        rets, excs = [], []
        for o in outs:
            if o.kind == "ret":
                rets.append((o.st, o.val))
            elif o.kind == "next":
                rets.append((o.st, None))
            elif o.kind == "exc":
                excs.append(o)
        if not rets:
            self.pending.extend(excs[1:])
            self.st = excs[0].st
            raise excs[0].val
        self.pending.extend(excs)
        if len(rets) == 1:
            self.st = rets[0][0]
            return rets[0][1]
        self.st, v = self.join_states(rets)
        return v

    def bind_args(self, f, args, kw, fr):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        vals = list(args)
        for i, nme in enumerate(names):
            if i < len(vals):
                if nme in kw:
                    raise AbsRaise("TypeError", "%s() got multiple values for "
                                   "%s" % (f.name, nme), self.where())
                fr[nme] = vals[i]
            elif nme in kw:
                fr[nme] = kw.pop(nme)
            else:
                j = i - (len(names) - len(f.defaults))
                if j < 0:
                    raise AbsRaise("TypeError", "%s() missing argument %s" %
                                   (f.name, nme), self.where())
                fr[nme] = f.defaults[j]
        extra = vals[len(names):]
        if a.vararg:
            fr[a.vararg.arg] = tuple(extra)
        elif extra:
            raise AbsRaise("TypeError", "%s() takes %d positional arguments"
                           % (f.name, len(names)), self.where())
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            else:
                fr[x.arg] = d
        if a.kwarg:
            fr[a.kwarg.arg] = self.new_dict(kw)
        elif kw:
            raise AbsRaise("TypeError", "%s() got an unexpected keyword "
                           "argument %s" % (f.name, sorted(kw)[0]),
                           self.where())
