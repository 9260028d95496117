"""Symbolic interpreter for the real Python source of the repository.

The source text under REPO is parsed on every run; the interpreter executes the
AST.  Branches on symbolic conditions fork (re-execution with decision
prefixes); loops with symbolic bounds are summarised by recurrences, see
loops.py.  Anything outside the supported subset raises Unsupported.
"""
import ast
import copy
import os
from fractions import Fraction
from .terms import *
from .num import *
from .values import *
from . import smt

REPO = os.environ.get("TTI_REPO", "/repo")


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class Path:
    def __init__(self, pc, kind, value, state=None, notes=None):
        self.pc, self.kind, self.value, self.state = pc, kind, value, state
        self.notes = notes or []

    def __repr__(self):
        return "Path(%s, %r, pc=%s)" % (self.kind, self.value, self.pc)


MAX_PATHS = 400


def changed_lists(mod):
    """names of a module that are used as a list which changes"""
    r = getattr(mod, "changed", None)
    if r is None:
        r = mod.changed = set()
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("append", "extend") and isinstance(x.func.value, ast.Name):
                r.add(x.func.value.id)
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                r.add(x.value.id)
    return r


class Interp:
    for_hook = None     # a contract for loops over a symbolic number of rounds

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.pc = []
        self.prefix = []
        self.pos = 0
        self.work = None
        self.nofork = 0
        self.contracts = {}
        self.trace_calls = []     # functions symbolically executed
        self.depth = 0
        self.order_sensitive = False
        self.record = []          # recorded opaque calls
        self.used_contracts = set()
        from . import pdmodel
        self.pd = pdmodel
        self.ext = pdmodel.ext_modules(self)
        self.builtins = pdmodel.builtins(self)

    # ------------------------------------------------------------ path control
    def entails(self, c):
        return smt.entails(self.pc, c)

    def decide(self, c):
        """True/False when the path condition settles c, else None"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if self.entails(c):
            return True
        if self.entails(not_(c)):
            return False
        return None

    def fork(self, c):
        d = self.decide(c)
        if d is not None:
            return d
        if self.nofork:
            raise ForkNeeded()
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = True
            self.work.append(self.prefix[:self.pos] + [False])
            self.prefix = self.prefix[:self.pos] + [True]
        self.pos += 1
        self.pc.append(c if d else not_(c))
        return d

    def assume(self, c):
        if c is not TRUE:
            self.pc.append(c)

    def require(self, c, exc, *args):
        if not self.fork(c):
            raise RaiseEx(ExcVal(exc, args))

    def explore(self, fn, pre=()):
        """run fn on every path; fn must rebuild its state from scratch"""
        saved = (self.pc, self.prefix, self.pos, self.work)
        work = [[]]
        out = []
        try:
            while work:
                if len(out) > MAX_PATHS:
                    raise Unsupported("too many paths")
                self.pc = list(pre)
                self.prefix = work.pop()
                self.pos = 0
                self.work = work
                try:
                    v = fn()
                    out.append(Path(list(self.pc), "ok", v))
                except RaiseEx as e:
                    out.append(Path(list(self.pc), "raise", e.exc))
        finally:
            self.pc, self.prefix, self.pos, self.work = saved
        return out

    # ----------------------------------------------------------------- modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        rel = name.replace(".", "/")
        p = os.path.join(self.repo, rel + ".py")
        is_pkg = False
        if not os.path.exists(p):
            p = os.path.join(self.repo, rel, "__init__.py")
            is_pkg = True
        if not os.path.exists(p):
            raise Unsupported("module %s" % name)
        tree = ast.parse(open(p).read(), p)
        m = ModuleVal(name)
        m.path = p
        m.is_pkg = is_pkg
        m.env = Env(None, is_module=True)
        m.env.vars["__name__"] = name
        m.ns = m.env.vars
        self.modules[name] = m
        m.tree = tree
        for st in tree.body:
            self.stmt(st, m.env, m)
        return m

    def do_import(self, st, env, mod):
        if isinstance(st, ast.Import):
            for a in st.names:
                top = a.name.split(".")[0]
                if top == "tti":
                    raise Unsupported("absolute import of tti")
                m = self.extmod(a.name)
                env.vars[a.asname or top] = m if a.asname else self.extmod(top)
            return
        base = None
        if st.level:
            parts = mod.name.split(".")
            if not mod.is_pkg:
                parts = parts[:-1]
            if st.level > 1:
                parts = parts[:-(st.level - 1)]
            base = ".".join(parts + ([st.module] if st.module else []))
        elif st.module.split(".")[0] == "tti":
            base = st.module
        if base is None:
            m = self.extmod(st.module)
            for a in st.names:
                env.vars[a.asname or a.name] = self.getattr(m, a.name)
            return
        m = None
        for a in st.names:
            sub_ = base + "." + a.name
            if os.path.exists(os.path.join(self.repo, sub_.replace(".", "/") + ".py")):
                env.vars[a.asname or a.name] = self.load(sub_)
                continue
            m = self.load(base)
            if a.name == "*":
                for k, v in m.ns.items():
                    if not k.startswith("_"):
                        env.vars[k] = v
                continue
            if a.name not in m.ns:
                raise Unsupported("import %s from %s" % (a.name, base))
            env.vars[a.asname or a.name] = m.ns[a.name]

    def extmod(self, name):
        if name not in self.ext:
            raise Unsupported("external module %s" % name)
        return self.ext[name]

    # -------------------------------------------------------------- statements
    def block(self, body, env, mod):
        for st in body:
            self.stmt(st, env, mod)

    def stmt(self, st, env, mod):
        k = type(st).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unsupported("statement %s" % k)
        f(st, env, mod)

    def s_Expr(self, st, env, mod):
        if isinstance(st.value, ast.Constant):
            return
        self.ev(st.value, env, mod)

    def s_Pass(self, st, env, mod):
        pass

    def s_Import(self, st, env, mod):
        self.do_import(st, env, mod)

    s_ImportFrom = s_Import

    def s_Global(self, st, env, mod):
        raise Unsupported("global statement")

    def s_Nonlocal(self, st, env, mod):
        env.nonlocals |= set(st.names)

    def s_FunctionDef(self, st, env, mod):
        env.vars[st.name] = self.decorate(st, self.mkfun(st, env, mod), env, mod)

    def decorate(self, st, f, env, mod):
        for d in reversed(st.decorator_list):
            n = ast.unparse(d)
            if n == "staticmethod":
                f.kind = "static"
            elif n == "classmethod":
                f.kind = "class"
            elif n in ("abstractmethod", "abc.abstractmethod"):
                pass
            elif n == "property":
                f.kind = "property"
            else:
                raise Unsupported("decorator %s" % n)
        return f

    def mkfun(self, st, env, mod):
        a = st.args
        defaults = [self.ev(d, env, mod) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(st, env, mod, None, defaults, kwd)

    def s_ClassDef(self, st, env, mod):
        bases = [self.ev(b, env, mod) for b in st.bases]
        e = Env(env, is_module=True)
        for s in st.body:
            self.stmt(s, e, mod)
        c = ClassVal(st.name, bases, e.vars, mod)
        c.env = e
        for f in e.vars.values():
            if isinstance(f, Closure):
                f.cls = c
                f.env = env
        env.vars[st.name] = c

    def s_Return(self, st, env, mod):
        raise ReturnEx(self.ev(st.value, env, mod) if st.value else None)

    def s_Break(self, st, env, mod):
        raise BreakEx()

    def s_Continue(self, st, env, mod):
        raise ContinueEx()

    def s_Assign(self, st, env, mod):
        v = self.ev(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, mod), env, mod)

    def s_AugAssign(self, st, env, mod):
        t = st.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, env)
            v = self.augop(st.op, old, self.ev(st.value, env, mod))
            self.assign(t, v, env, mod)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            v = self.augop(st.op, self.getattr(o, t.attr), self.ev(st.value, env, mod))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            i = self.ev_slice(t.slice, env, mod)
            v = self.augop(st.op, self.getitem(o, i), self.ev(st.value, env, mod))
            self.setitem(o, i, v)
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, a, b):
        if isinstance(a, list) and isinstance(op, ast.Add):
            if not isinstance(b, (list, tuple)):
                raise Unsupported("list += symbolic")
            a.extend(b)
            return a
        if isinstance(a, (SSeries, SFrame, SArr)) :
            # in-place arithmetic on pandas/numpy objects rebinding a fresh value
            # is only the same when no alias observes it; keep it simple
            if isinstance(a, SArr):
                raise Unsupported("in-place array arithmetic")
        return self.binop(op, a, b)

    def s_Delete(self, st, env, mod):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                i = self.ev_slice(t.slice, env, mod)
                if isinstance(o, (dict, list)) and not isinstance(i, Sym):
                    del o[i]
                elif isinstance(o, SFrame) and isinstance(i, str):
                    o.cols[:] = [c for c in o.cols if c[0] != i]
                    o.pristine = False
                else:
                    raise Unsupported("del")
            else:
                raise Unsupported("del")

    def s_If(self, st, env, mod):
        if self.truth(self.ev(st.test, env, mod)):
            self.block(st.body, env, mod)
        else:
            self.block(st.orelse, env, mod)

    def s_Assert(self, st, env, mod):
        if not self.truth(self.ev(st.test, env, mod)):
            raise RaiseEx(ExcVal(AssertionError))

    def s_Raise(self, st, env, mod):
        if st.exc is None:
            cur = getattr(self, "cur_exc", None)
            if cur is None:
                raise Unsupported("bare raise")
            raise RaiseEx(cur)
        v = self.ev(st.exc, env, mod)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = ExcVal(v)
        elif isinstance(v, ClassVal):
            v = self.call(v, [], {})
        if not isinstance(v, (ExcVal, Instance)):
            raise Unsupported("raise of %r" % (v,))
        raise RaiseEx(v)

    def exc_matches(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_matches(exc, c) for c in cls)
        if isinstance(exc, ExcVal):
            return isinstance(cls, type) and issubclass(exc.cls, cls)
        return exc.cls.subclass_of(cls)

    def s_Try(self, st, env, mod):
        try:
            try:
                self.block(st.body, env, mod)
            except RaiseEx as e:
                for h in st.handlers:
                    cls = self.ev(h.type, env, mod) if h.type else BaseException
                    if self.exc_matches(e.exc, cls):
                        if h.name:
                            env.vars[h.name] = e.exc
                        old = getattr(self, "cur_exc", None)
                        self.cur_exc = e.exc
                        try:
                            self.block(h.body, env, mod)
                        finally:
                            self.cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env, mod)
        finally:
            # engine-level exceptions must not run program code
            import sys as _s
            et = _s.exc_info()[0]
            if et is None or issubclass(et, (RaiseEx, ReturnEx, BreakEx, ContinueEx)):
                self.block(st.finalbody, env, mod)

    def s_With(self, st, env, mod):
        for it in st.items:
            v = self.ev(it.context_expr, env, mod)
            if not isinstance(v, Opaque):
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env, mod)
        self.block(st.body, env, mod)

    def s_For(self, st, env, mod):
        from . import loops
        it = self.ev(st.iter, env, mod)
        seq = self.concrete_iter(it)
        if seq is not None and len(seq) > 3000:
            raise Unsupported("long loop")
        if seq is not None:
            for x in seq:
                self.assign(st.target, x, env, mod)
                try:
                    self.block(st.body, env, mod)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.block(st.orelse, env, mod)
            return
        loops.sym_for(self, st, it, env, mod)

    def s_While(self, st, env, mod):
        from . import loops
        loops.sym_while(self, st, env, mod)

    # -------------------------------------------------------------- assignment
    def assign(self, t, v, env, mod):
        if isinstance(v, SList) and isinstance(t, ast.Name) and t.id in changed_lists(mod):
            self.pd.to_llist(v)
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while t.id not in e.vars:
                    e = e.parent
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            self.setitem(o, self.ev_slice(t.slice, env, mod), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            seq = self.concrete_iter(v)
            if seq is None:
                raise Unsupported("unpacking of a symbolic sequence")
            seq = list(seq)
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                vals = seq[:k] + [seq[k:len(seq) - after]] + seq[len(seq) - after:]
            else:
                vals = seq
            if len(vals) != len(t.elts):
                raise RaiseEx(ExcVal(ValueError, ("unpack",)))
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env, mod)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------- expressions
    def ev(self, e, env, mod):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return f(e, env, mod)

    def e_Constant(self, e, env, mod):
        return e.value

    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.vars:
                v = e.vars[n]
                if isinstance(v, Poison):
                    raise Unsupported("poisoned %s: %s" % (n, v.why))
                return v
            e = e.parent
        if n in self.builtins:
            return self.builtins[n]
        raise RaiseEx(ExcVal(NameError, (n,)))

    def e_Name(self, e, env, mod):
        return self.name(e.id, env)

    def e_Tuple(self, e, env, mod):
        return tuple(self.elts(e.elts, env, mod))

    def e_List(self, e, env, mod):
        return self.elts(e.elts, env, mod)

    def elts(self, es, env, mod):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env, mod)
                s = self.concrete_iter(v)
                if s is None:
                    if len(es) == 1:
                        return self.builtins["list"].fn(v)
                    out.append(None)
                    raise Unsupported("starred symbolic sequence")
                out.extend(s)
            else:
                out.append(self.ev(x, env, mod))
        return out

    def e_Set(self, e, env, mod):
        v = [self.ev(x, env, mod) for x in e.elts]
        if any(isinstance(x, Sym) for x in v):
            raise Unsupported("symbolic set")
        return set(v)

    def e_Dict(self, e, env, mod):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env, mod))
            else:
                d[self.ev(k, env, mod)] = self.ev(v, env, mod)
        return d

    def e_JoinedStr(self, e, env, mod):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                x = v.value
            else:
                if v.format_spec is not None:
                    x = OpaqueStr()
                else:
                    x = self.builtins["str"].fn(self.ev(v.value, env, mod))
            if isinstance(x, Sym) or isinstance(out, Sym):
                out = OpaqueStr()
            else:
                out = out + x
        return out

    def e_Lambda(self, e, env, mod):
        a = e.args
        return Closure(e, env, mod, None, [self.ev(d, env, mod) for d in a.defaults],
                       {k.arg: self.ev(d, env, mod) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def speculate(self, e, env, mod, extra):
        """evaluate e under an extra assumption without forking; None if it
        would fork or raise"""
        n = len(self.pc)
        self.nofork += 1
        self.pc.append(extra)
        try:
            return (self.ev(e, env, mod),)
        except (ForkNeeded, RaiseEx):
            return None
        finally:
            self.nofork -= 1
            del self.pc[n:]

    def e_IfExp(self, e, env, mod):
        c = self.ev(e.test, env, mod)
        b = self.as_bool_term(c)
        if b is None:
            return self.ev(e.body if self.truth(c) else e.orelse, env, mod)
        d = self.decide(b)
        if d is not None:
            return self.ev(e.body if d else e.orelse, env, mod)
        x = self.speculate(e.body, env, mod, b)
        y = self.speculate(e.orelse, env, mod, not_(b))
        if x is not None and y is not None:
            m = self.merge2(b, x[0], y[0])
            if not isinstance(m, Poison):
                return m
        return self.ev(e.body if self.fork(b) else e.orelse, env, mod)

    def merge2(self, c, x, y):
        from .loops import merge_values
        return merge_values(c, x, y)

    def as_bool_term(self, v):
        """B term of a symbolic boolean, else None"""
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return not_(eq(v.t, I(0)))
        if isinstance(v, SNum):
            return or_(v.n.nan, not_(eq(v.n.inf, Z)), not_(eq(v.n.val, R(0))))
        return None

    def truth(self, v):
        b = self.as_bool_term(v)
        if b is not None:
            return self.fork(b)
        if isinstance(v, (SSeries, SFrame, SArr, Filt, IndexMask)):
            if isinstance(v, (SSeries, SFrame)):
                raise RaiseEx(ExcVal(ValueError, ("truth value is ambiguous",)))
            raise Unsupported("truth of array")
        if isinstance(v, (SList,)):
            return self.fork(lt(I(0), v.length))
        if isinstance(v, LList):
            return self.fork(lt(I(0), v.length))
        if hasattr(v, "empty") and isinstance(v, OpaqueStr):
            return not v.empty
        if isinstance(v, SLabel):
            return True
        if isinstance(v, (SStr, OpaqueStr)):
            raise Unsupported("truth of symbolic string")
        if isinstance(v, (Instance, Closure, Bound, Builtin, ClassVal, Opaque, ExcVal)):
            return True
        if isinstance(v, Poison):
            raise Unsupported("poison: " + v.why)
        return bool(v)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        acc = None  # accumulated symbolic term
        vals = e.values
        for k, x in enumerate(vals):
            last = k == len(vals) - 1
            if acc is None:
                v = self.ev(x, env, mod)
            else:
                r = self.speculate(x, env, mod, acc if isand else not_(acc))
                if r is None:
                    # fork on what we have so far
                    t = self.fork(acc)
                    if isand and not t:
                        return False
                    if not isand and t:
                        return True
                    acc = None
                    v = self.ev(x, env, mod)
                else:
                    v = r[0]
            if isinstance(v, SBool):
                d = self.decide(v.t) if acc is None else None
                if d is None:
                    acc = v.t if acc is None else (and_(acc, v.t) if isand else or_(acc, v.t))
                    continue
                v = d
            b = self.as_bool_term(v)
            if b is not None and not isinstance(v, SBool):
                # symbolic number used as a condition
                if acc is None:
                    t = self.fork(b)
                    if (isand and not t) or (not isand and t) or last:
                        return v
                    continue
                raise Unsupported("number in boolean operator")
            t = self.truth(v)
            if acc is None:
                if (isand and not t) or (not isand and t) or last:
                    return v
                continue
            if isinstance(v, (bool,)):
                if isand and not v:
                    return False
                if not isand and v:
                    return True
                continue
            raise Unsupported("mixed boolean operator")
        return SBool(acc) if acc is not None else isand

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            b = self.as_bool_term(v)
            if b is not None:
                return SBool(not_(b))
            return not self.truth(v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            return self.pd.unary_neg(self, v)
        return self.pd.unary_invert(self, v)

    def e_BinOp(self, e, env, mod):
        return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod))

    def binop(self, op, a, b):
        return self.pd.binop(self, type(op).__name__, a, b)

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        acc = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env, mod)
            v = self.pd.compare(self, type(op).__name__, left, right)
            left = right
            if len(e.ops) == 1:
                return v
            if isinstance(v, bool):
                if not v:
                    return False
                continue
            if not isinstance(v, SBool):
                raise Unsupported("chained comparison")
            acc = v.t if acc is None else and_(acc, v.t)
        return SBool(acc) if acc is not None else True

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Subscript(self, e, env, mod):
        return self.getitem(self.ev(e.value, env, mod), self.ev_slice(e.slice, env, mod))

    def ev_slice(self, s, env, mod):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, env, mod) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x, env, mod) for x in s.elts)
        return self.ev(s, env, mod)

    def e_Slice(self, s, env, mod):
        return self.ev_slice(s, env, mod)

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred")

    def e_ListComp(self, e, env, mod):
        return self.comp(e, env, mod)

    def e_GeneratorExp(self, e, env, mod):
        return self.comp(e, env, mod)

    def e_SetComp(self, e, env, mod):
        v = self.comp(e, env, mod)
        if not isinstance(v, list) or any(isinstance(x, Sym) for x in v):
            raise Unsupported("set comprehension")
        return set(v)

    def e_DictComp(self, e, env, mod):
        out = {}
        if len(e.generators) != 1:
            raise Unsupported("dict comprehension")
        g = e.generators[0]
        seq = self.concrete_iter(self.ev(g.iter, env, mod))
        if seq is None:
            raise Unsupported("dict comprehension over symbolic range")
        env2 = Env(env)
        for x in seq:
            self.assign(g.target, x, env2, mod)
            if all(self.truth(self.ev(c, env2, mod)) for c in g.ifs):
                out[self.ev(e.key, env2, mod)] = self.ev(e.value, env2, mod)
        return out

    def comp(self, e, env, mod):
        from . import loops
        env2 = Env(env)
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.ev(g.iter, env, mod)
            seq = self.concrete_iter(it)
            if seq is None:
                return loops.sym_comp(self, e, g, it, env2, mod)
        out = []

        def rec_(k):
            if k == len(e.generators):
                out.append(self.ev(e.elt, env2, mod))
                return
            g = e.generators[k]
            seq = self.concrete_iter(self.ev(g.iter, env2, mod))
            if seq is None:
                raise Unsupported("nested symbolic comprehension")
            for x in seq:
                self.assign(g.target, x, env2, mod)
                if all(self.truth(self.ev(c, env2, mod)) for c in g.ifs):
                    rec_(k + 1)
        rec_(0)
        return out

    def concrete_iter(self, v):
        if isinstance(v, (list, tuple, str, range, set)):
            return list(v)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, ColumnIndex):
            self.order_sensitive = True
            return list(v.labels)
        if isinstance(v, SFrame):
            return v.labels()
        if isinstance(v, SRange):
            ln = sub(v.hi, v.lo)
            if v.lo.op == "const" and v.hi.op == "const":
                return [k for k in range(int(v.lo.args[0]), int(v.hi.args[0]), v.step)]
            if ln.op == "const" and int(ln.args[0]) <= 64 and v.step == 1:
                return [self.mkint(add(v.lo, I(k))) for k in range(max(0, int(ln.args[0])))]
            return None
        if isinstance(v, Opaque):
            raise Unsupported("iteration over opaque object")
        if isinstance(v, (SSeries, SArr, SList, LList, SIndex, IndexMask)):
            ln = v.index.length if isinstance(v, SSeries) else v.length
            if ln.op == "const" and int(ln.args[0]) <= 64:
                if isinstance(v, SIndex):
                    return [SLabel(v.base, add(v.start, I(k))) for k in range(int(ln.args[0]))]
                get = self.pd.seq_access(v)[1]
                return [get(I(k)) for k in range(int(ln.args[0]))]
            return None
        if hasattr(v, "_concrete"):
            return v._concrete
        if isinstance(v, (Filt, FiltIdx)):
            return None
        if isinstance(v, (bool, int, float, Fraction, SInt, SNum, SBool, type(None))):
            raise RaiseEx(ExcVal(TypeError, ("not iterable",)))
        return None

    def mkint(self, t):
        if t.op == "const":
            return int(t.args[0])
        return SInt(t)

    # ------------------------------------------------------------------- calls
    def e_Call(self, e, env, mod):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        f = self.ev(e.func, env, mod)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.concrete_iter(self.ev(a.value, env, mod))
                if s is None:
                    raise Unsupported("star-args")
                args.extend(s)
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unsupported("**kwargs")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def make_super(self, env):
        e = env
        while e is not None:
            if "__class__" in e.vars and "__self__" in e.vars:
                return SuperVal(e.vars["__self__"], e.vars["__class__"])
            e = e.parent
        raise Unsupported("super()")

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Builtin):
            try:
                return f.fn(*args, **kw)
            except TypeError as ex:
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)
                if len(tb) <= 1:
                    raise Unsupported("call %s: %s" % (f.name, ex))
                raise
        if isinstance(f, TypeVal) and hasattr(f, "fn"):
            return self.call(Builtin(f.name, f.fn), args, kw)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, type) and issubclass(f, BaseException):
            return ExcVal(f, tuple(args))
        if isinstance(f, Opaque):
            self.record.append((f.name, args, kw))
            return self.pd.opaque_result(self, f, args, kw)
        raise Unsupported("call of %r" % (f,))

    def instantiate(self, c, args, kw):
        qn = c.module.name + "." + c.name
        if qn in self.contracts:
            self.used_contracts.add(qn)
            return self.contracts[qn](self, args, kw)
        o = Instance(c)
        init, owner = c.lookup("__init__")
        if init is not None:
            self.call_closure(init, [o] + list(args), kw)
        else:
            exc = any(isinstance(b, type) and issubclass(b, BaseException) for b in c.mro())
            if args or kw:
                if not exc:
                    raise RaiseEx(ExcVal(TypeError))
            o.attrs["args"] = tuple(args)
        return o

    def call_closure(self, f, args, kw):
        node = f.node
        qn = f.module.name + "." + ((f.cls.name + ".") if f.cls else "") + f.name
        if qn in self.contracts:
            self.used_contracts.add(qn)
            return self.contracts[qn](self, args, kw)
        if self.depth > 60:
            raise Unsupported("recursion depth")
        a = node.args
        env = Env(f.env)
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        if len(args) > len(names):
            if a.vararg is None:
                raise RaiseEx(ExcVal(TypeError, ("too many arguments",)))
            env.vars[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env.vars[a.vararg.arg] = ()
        for n, v in zip(names, args):
            vals[n] = v
        kwrest = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in vals:
                raise RaiseEx(ExcVal(TypeError, ("multiple values",)))
            if k in names or k in kwonly:
                vals[k] = v
            elif a.kwarg is not None:
                kwrest[k] = v
            else:
                raise RaiseEx(ExcVal(TypeError, ("unexpected keyword " + k,)))
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = kwrest
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n not in vals:
                j = k - (len(names) - nd)
                if j < 0:
                    raise RaiseEx(ExcVal(TypeError, ("missing argument " + n,)))
                vals[n] = f.defaults[j]
        for n in kwonly:
            if n not in vals:
                if n not in f.kwdefaults:
                    raise RaiseEx(ExcVal(TypeError, ("missing argument " + n,)))
                vals[n] = f.kwdefaults[n]
        env.vars.update(vals)
        if f.cls is not None:
            env.vars["__class__"] = f.cls
            if names:
                env.vars["__self__"] = vals[names[0]]
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env, f.module)
        if qn not in self.trace_calls:
            self.trace_calls.append(qn)
        self.depth += 1
        try:
            self.block(node.body, env, f.module)
        except ReturnEx as r:
            return r.value
        finally:
            self.depth -= 1
        return None

    # -------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Instance):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported("poisoned attribute " + name)
                return v
            if name == "__class__":
                return o.cls
            v, owner = o.cls.lookup(name)
            if owner is None:
                if name == "args":
                    return ()
                raise RaiseEx(ExcVal(AttributeError, (name,)))
            return self.bind(v, o, o.cls)
        if isinstance(o, SuperVal):
            mro = o.obj.cls.mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if isinstance(c, ClassVal):
                    if name in c.ns:
                        return self.bind(c.ns[name], o.obj, o.obj.cls)
                elif isinstance(c, type) and issubclass(c, BaseException) and name == "__init__":
                    def init(*args, **kw):
                        o.obj.attrs["args"] = tuple(args)
                    return Builtin("Exception.__init__", init)
            if name == "__init__":
                return Builtin("object.__init__", lambda *a, **k: None)
            raise RaiseEx(ExcVal(AttributeError, (name,)))
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            v, owner = o.lookup(name)
            if owner is None:
                raise RaiseEx(ExcVal(AttributeError, (name,)))
            return self.bind(v, None, o)
        if isinstance(o, ModuleVal):
            if name in o.ns:
                return o.ns[name]
            raise RaiseEx(ExcVal(AttributeError, (name,)))
        if isinstance(o, ExtModule):
            if name not in o.table:
                raise Unsupported("%s.%s" % (o.name, name))
            return o.table[name]
        return self.pd.getattr_(self, o, name)

    def bind(self, v, obj, cls):
        if isinstance(v, Closure):
            if v.kind == "static":
                return v
            if v.kind == "class":
                return Bound(v, cls)
            if v.kind == "property" and obj is not None:
                return self.call_closure(v, [obj], {})
            return Bound(v, obj) if obj is not None else v
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Instance):
            o.attrs[name] = v
            return
        self.pd.setattr_(self, o, name, v)

    def getitem(self, o, i):
        return self.pd.getitem(self, o, i)

    def setitem(self, o, i, v):
        self.pd.setitem(self, o, i, v)


class SuperVal:
    def __init__(self, obj, cls):
        self.obj, self.cls = obj, cls
