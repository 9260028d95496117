"""Run-time values of the symbolic interpreter."""
from fractions import Fraction
import copy
from .terms import *
from .num import *


class Unsupported(Exception):
    """the construct is outside the verifier's reach (never a violation)"""


class ForkNeeded(Exception):
    pass


class RaiseEx(Exception):
    """a Python-level exception raised by the interpreted program"""

    def __init__(self, exc):
        Exception.__init__(self, str(exc))
        self.exc = exc


class Immutable:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


T.__deepcopy__ = lambda self, memo: self
T.__copy__ = lambda self: self
Num.__deepcopy__ = lambda self, memo: self


class Sym(Immutable):
    pass


class SInt(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SInt(%s)" % self.t


class SBool(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SBool(%s)" % self.t


class SNum(Sym):
    none = FALSE      # condition under which the value is None

    def __init__(self, n, np=True):
        self.n, self.np = n, np

    def __repr__(self):
        return "SNum(%s)" % self.n


_strs = {}
_strs_rev = []


def str_code(s):
    if s not in _strs:
        _strs[s] = len(_strs_rev)
        _strs_rev.append(s)
    return _strs[s]


def code_str(k):
    return _strs_rev[k]


class SStr(Sym):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "SStr(%s)" % self.t


class OpaqueStr(Sym):
    pass


class SLabel(Sym):
    """label of position pos in the base date index"""

    def __init__(self, base, pos):
        self.base, self.pos = base, pos


class Poison(Sym):
    def __init__(self, why):
        self.why = why


class Opaque(Sym):
    """opaque external object (figure, axes...); calls are recorded"""

    def __init__(self, name):
        self.name = name


# --------------------------------------------------------------------- columns
CUR = [None]      # the interpreter whose path condition is in force


class Col(Immutable):
    """immutable total function  position term -> element

    kind: 'num' (elements Num), 'bool' (elements B terms), 'str' (int codes)."""

    def __init__(self, fn, kind="num"):
        self.fn, self.kind = fn, kind
        self.memo = {}

    def get(self, idx):
        # column functions may simplify under the path condition
        it = CUR[0]
        key = (idx.id,) + tuple([c.id for c in it.pc]) if it is not None else (idx.id,)
        r = self.memo.get(key)
        if r is None:
            r = self.fn(idx)
            self.memo[key] = r
        return r


def const_col(x, kind="num"):
    return Col(lambda i: x, kind)


def sel(kind, c, a, b):
    if kind == "num":
        return n_ite(c, a, b)
    return ite(c, a, b)


def nan_elem(kind):
    return {"num": NAN, "bool": FALSE, "str": I(-1)}[kind]


class Buf:
    """mutable storage cell holding an immutable column"""

    def __init__(self, col):
        self.col = col

    @property
    def kind(self):
        return self.col.kind


class SIndex(Immutable):
    """contiguous slice [start, start+length) of base dates"""

    def __init__(self, base, start, length, shuffled=False):
        self.base, self.start, self.length, self.shuffled = base, start, length, shuffled

    def same(self, o):
        return isinstance(o, SIndex) and self.base == o.base and self.start is o.start and self.length is o.length and self.shuffled == o.shuffled

    def __repr__(self):
        return "SIndex(%s,%s,+%s)" % (self.base, self.start, self.length)


class RangeIdx(Immutable):
    """default integer index of a Series built without an index"""

    def __init__(self, length):
        self.length = length
        self.base, self.start = "#range", I(0)
        self.shuffled = False

    def same(self, o):
        return isinstance(o, RangeIdx) and o.length is self.length


class SSeries:
    def __init__(self, index, buf, name=None):
        self.index, self.buf, self.name = index, buf, name

    @property
    def col(self):
        return self.buf.col


class SFrame:
    def __init__(self, index, cols, pristine=False, dtype=None):
        self.index = index
        self.cols = cols          # list of [label, Buf]
        self.pristine = pristine
        self.order_free = False
        self.is_input = False

    def find(self, name):
        return [b for l, b in self.cols if l == name and type(l) == type(name)]

    def labels(self):
        return [l for l, _ in self.cols]


class SArr:
    """1-D numpy array view: element k lives at buf position off+k"""

    def __init__(self, buf, length, off=None):
        self.buf, self.length, self.off = buf, length, off if off is not None else I(0)

    def elem(self, k):
        return self.buf.col.get(add(self.off, k))


class SArr2:
    """2-D numpy array as a list of column buffers"""

    def __init__(self, bufs, length, off=None):
        self.bufs, self.length, self.off = bufs, length, off if off is not None else I(0)


class SRow:
    """row view of a 2-D array"""

    def __init__(self, arr, pos):
        self.arr, self.pos = arr, pos


class SList(Immutable):
    """list of symbolic length: get(idx) for 0 <= idx < length"""

    def __init__(self, length, get):
        self.length, self.get = length, get


class Meta:
    """kinds of numbers ever stored in a list: shared by the copies of the list"""

    def __init__(self):
        self.kinds = set()

    def __deepcopy__(self, memo):
        return self


class LList:
    """mutable list whose tail is symbolic: concrete prefix handled by get"""

    def __init__(self, length, buf):
        self.length, self.buf, self.meta = length, buf, Meta()

    def note(self, x):
        """x was stored"""
        if isinstance(x, SNum):
            self.meta.kinds.add(bool(x.np))
        elif isinstance(x, (int, float, Fraction)):
            self.meta.kinds.add(False)

    def numpy(self):
        """are the elements numpy numbers (at least one is)?"""
        return self.meta.kinds != {False}


class SRange(Immutable):
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class Filt:
    """rows of a column selected by a boolean mask, in order"""

    def __init__(self, cols, mask, length, labels=None, name=None, is_frame=False):
        self.cols, self.mask, self.length = cols, mask, length
        self.labels, self.name, self.is_frame = labels, name, is_frame


class FiltIdx(Immutable):
    """positions (ascending) selected by a mask: numpy.where(mask)[0]"""

    def __init__(self, mask, length):
        self.mask, self.length = mask, length


class IndexMask(Immutable):
    """boolean array (numpy) over positions"""

    def __init__(self, col, length):
        self.col, self.length = col, length


class Rolling(Immutable):
    def __init__(self, obj, window, minp):
        self.obj, self.window, self.minp = obj, window, minp


class Ewm(Immutable):
    def __init__(self, obj, alpha, minp):
        self.obj, self.alpha, self.minp = obj, alpha, minp


class Indexer:
    def __init__(self, obj, kind):
        self.obj, self.kind = obj, kind


class ColumnIndex(Immutable):
    def __init__(self, labels):
        self.labels = list(labels)


# ------------------------------------------------------------- program objects
class ClassVal(Immutable):
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            elif b not in out:
                out.append(b)
        return out

    def lookup(self, name):
        for c in self.mro():
            if isinstance(c, ClassVal) and name in c.ns:
                return c.ns[name], c
        return None, None

    def subclass_of(self, o):
        for c in self.mro():
            if c is o:
                return True
            if isinstance(c, type) and isinstance(o, type) and issubclass(c, o):
                return True
        return False


class Instance:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}


class ExcVal:
    """instance of a built-in exception class"""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, args

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.args)


class Closure:
    def __init__(self, node, env, module, cls=None, defaults=None, kwdefaults=None, kind="func"):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.defaults, self.kwdefaults, self.kind = defaults or [], kwdefaults or {}, kind

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __deepcopy__(self, memo):
        if self.env is None or self.env.is_module:
            return self
        c = Closure(self.node, None, self.module, self.cls, self.defaults, self.kwdefaults, self.kind)
        memo[id(self)] = c
        c.env = copy.deepcopy(self.env, memo)
        return c


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_


class Builtin(Immutable):
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class TypeVal(Immutable):
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, TypeVal) and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "TypeVal(%s)" % self.name


class ModuleVal(Immutable):
    def __init__(self, name):
        self.name = name
        self.ns = {}


class ExtModule(Immutable):
    def __init__(self, name, table):
        self.name, self.table = name, table


class Env:
    def __init__(self, parent=None, is_module=False):
        self.vars = {}
        self.parent = parent
        self.is_module = is_module
        self.globals_ = None
        self.nonlocals = set()

    def __deepcopy__(self, memo):
        if self.is_module:
            return self
        e = Env(None)
        memo[id(self)] = e
        e.parent = copy.deepcopy(self.parent, memo)
        e.vars = copy.deepcopy(self.vars, memo)
        e.nonlocals = self.nonlocals
        return e
