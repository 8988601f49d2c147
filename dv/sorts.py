"""C++ types -> SMT sorts, and the values the symbolic executor works on."""
import re
import z3
from cppast import strip_type, template_parts

INTS = {
    "char": (8, True), "signed char": (8, True), "unsigned char": (8, False),
    "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False),
    "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True),
    "unsigned long long": (64, False), "int64_t": (64, True), "uint64_t": (64, False), "int32_t": (32, True),
    "uint32_t": (32, False), "size_t": (64, False), "std::size_t": (64, False), "__int128": (128, True),
    "unsigned __int128": (128, False), "ptrdiff_t": (64, True), "difference_type": (64, True),
    "size_type": (64, False), "absl::uint128": (128, False), "uint8_t": (8, False), "int8_t": (8, True),
    "std::ptrdiff_t": (64, True), "long int": (64, True), "unsigned long int": (64, False),
    "std::int64_t": (64, True), "std::uint64_t": (64, False), "uint16_t": (16, False), "int16_t": (16, True),
}
FLOATS = {"double", "float", "long double", "llvm::APFloat", "APFloat", "mlir::APFloat"}
SEQS = {"vector", "SmallVector", "SmallVectorImpl", "ArrayRef", "MutableArrayRef", "initializer_list", "span", "array",
        "SmallVectorTemplateCommon", "SmallVectorTemplateBase", "SetVector_"}
OPTS = {"optional", "FailureOr"}
SETS = {"set", "unordered_set", "DenseSet", "SmallSet", "SetVector", "SmallPtrSet", "DenseSetImpl"}
MAPS = {"map", "unordered_map", "DenseMap", "DenseMapBase", "SmallDenseMap"}

_dt = {}
INFO = {}   # sort name -> dict(kind=..., ...)


def mk_dt(name, ctor, fields):
    if name in _dt:
        return _dt[name]
    d = z3.Datatype(name)
    d.declare(ctor, *fields)
    s = d.create()
    _dt[name] = s
    return s


def sname(s):
    return re.sub(r"[^A-Za-z0-9_]", "_", s.name() if s.kind() != z3.Z3_BV_SORT else "BV%d" % s.size())


def Seq(elem):
    n = "Seq_" + sname(elem)
    s = mk_dt(n, "mk_" + n, [("arr_" + n, z3.ArraySort(z3.IntSort(), elem)), ("len_" + n, z3.IntSort())])
    INFO[n] = dict(kind="seq", elem=elem)
    return s


def Opt(elem):
    n = "Opt_" + sname(elem)
    s = mk_dt(n, "mk_" + n, [("has_" + n, z3.BoolSort()), ("get_" + n, elem)])
    INFO[n] = dict(kind="opt", elem=elem)
    return s


def Tup(elems):
    n = "Tup_" + "_".join(sname(e) for e in elems)
    s = mk_dt(n, "mk_" + n, [("e%d_%s" % (i, n), e) for i, e in enumerate(elems)])
    INFO[n] = dict(kind="tup", elems=list(elems))
    return s


def Rec(name, fields):
    n = "Rec_" + name
    s = mk_dt(n, "mk_" + n, [("f_%s_%s" % (f, n), e) for f, e in fields])
    INFO[n] = dict(kind="rec", fields=[f for f, _ in fields], sorts=[e for _, e in fields])
    return s


def SetS(elem):
    n = "Set_" + sname(elem)
    s = mk_dt(n, "mk_" + n, [("mem_" + n, z3.ArraySort(elem, z3.BoolSort())), ("card_" + n, z3.IntSort())])
    INFO[n] = dict(kind="set", elem=elem)
    return s


def MapS(k, v):
    n = "Map_" + sname(k) + "_" + sname(v)
    s = mk_dt(n, "mk_" + n, [("dom_" + n, z3.ArraySort(k, z3.BoolSort())), ("val_" + n, z3.ArraySort(k, v)),
                             ("mcard_" + n, z3.IntSort())])
    INFO[n] = dict(kind="map", key=k, val=v)
    return s


APINT = mk_dt("APInt", "mk_APInt", [("ap_val", z3.IntSort()), ("ap_width", z3.IntSort())])
INFO["APInt"] = dict(kind="apint")
NODE = z3.DeclareSort("Node")
INFO["Node"] = dict(kind="node")
UNIT = mk_dt("Unit", "unit", [])
INFO["Unit"] = dict(kind="unit")
# a double that may be minus infinity (used where a property turns the override on): exact reals plus one bottom element
XR = z3.Datatype("XR")
XR.declare("ninf")
XR.declare("fin", ("xval", z3.RealSort()))
XR = XR.create()
INFO["XR"] = dict(kind="xr")
_opaque = {}


def Opaque(name):
    n = "Opq_" + re.sub(r"[^A-Za-z0-9_]", "_", name)
    if n not in _opaque:
        _opaque[n] = z3.DeclareSort(n)
        INFO[n] = dict(kind="opaque", name=name)
    return _opaque[n]


def kind(v):
    s = v.sort() if isinstance(v, z3.ExprRef) else v
    return INFO.get(s.name(), {}).get("kind") if isinstance(s, z3.SortRef) else None


def acc(v, i):
    """i-th field of a datatype value, with constructor folding (also through ite)"""
    if z3.is_app(v):
        d = v.decl()
        if d.kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            return v.arg(i)
        if d.kind() == z3.Z3_OP_ITE:
            a, b = acc(v.arg(1), i), acc(v.arg(2), i)
            return a if z3.eq(a, b) else z3.If(v.arg(0), a, b)
    return v.sort().accessor(0, i)(v)


def mk(sort, *args):
    return sort.constructor(0)(*args)


# ------------------------------------------------------------- spec helpers
def ln(v):
    return acc(v, 1)


def arr(v):
    return acc(v, 0)


def at(v, i):
    return z3.Select(acc(v, 0), i)


def val(v):
    return acc(v, 0)


def width(v):
    return acc(v, 1)


def has(v):
    return acc(v, 0)


def get(v):
    return acc(v, 1)


def mem(v, x):
    return z3.Select(acc(v, 0), x)


def card(v):
    k = kind(v)
    return acc(v, 2) if k == "map" else acc(v, 1)


def mget(v, k):
    return z3.Select(acc(v, 1), k)


def fld(v, name):
    info = INFO[v.sort().name()]
    return acc(v, info["fields"].index(name))


def tup(v, i):
    return acc(v, i)


class TypeMap:
    def __init__(self, tu, bv=False, overrides=()):
        self.tu, self.bv = tu, bv
        self.overrides = list(overrides)
        self.cache = {}

    def int_info(self, t):
        t, _, _ = strip_type(t)
        if t in INTS:
            return INTS[t]
        seen = 0
        while t not in INTS and seen < 5:
            a = self.alias(t)
            if a is None:
                return None
            t, _, _ = strip_type(a)
            seen += 1
        return INTS.get(t)

    def alias(self, t):
        if t in self.tu.aliases:
            return self.tu.aliases[t]
        last = t.split("::")[-1]
        if "<" not in t and last in self.tu.aliases and self.tu.aliases[last] != t:
            return self.tu.aliases[last]
        return None

    def sort(self, t):
        key = t
        if key in self.cache:
            return self.cache[key]
        s = self._sort(t)
        self.cache[key] = s
        return s

    def _sort(self, t):
        t, _, _ = strip_type(t)
        for rx, fac in self.overrides:
            m = re.search(rx, t)
            if m:
                return fac(self, m)
        if t in ("bool", "_Bool"):
            return z3.BoolSort()
        if t in INTS:
            return z3.BitVecSort(INTS[t][0]) if self.bv else z3.IntSort()
        if t in FLOATS:
            return z3.RealSort()
        if t in ("void", "std::monostate", "std::nullopt_t"):
            return UNIT
        base, args = template_parts(t)
        b = base.split("::")[-1]
        if b == "APInt":
            return APINT
        m = re.match(r"^(.*?)\s*\[(\d+)\]$", t)
        if m:
            return Seq(self.sort(m.group(1)))
        if b == "shared_ptr" or b == "unique_ptr":
            if "ArithmeticDagNode" in t or "NodeTy" in t:
                return NODE
        if b in ("NodePtr",) or t.endswith("NodePtr"):
            return NODE
        if t.endswith("*") and "ArithmeticDagNode" in t:
            return NODE
        if b in SEQS and args:
            return Seq(self.sort(args[0]))
        if b in OPTS and args:
            return Opt(self.sort(args[0]))
        if b in ("pair", "tuple") and args:
            return Tup([self.sort(a) for a in args])
        if b in SETS and args:
            return SetS(self.sort(args[0]))
        if b in MAPS and args:
            return MapS(self.sort(args[0]), self.sort(args[1]))
        a = self.alias(t)
        if a is not None and a != t:
            return self.sort(a)
        r = self.record(t)
        if r is not None:
            return r
        return Opaque(t)

    def record(self, t):
        base, args = template_parts(t)
        rec = self.tu.records.get(t) or self.tu.records.get(base) or self.tu.records.get(base.split("::")[-1])
        if not rec or not rec["fields"]:
            return None
        return Rec(rec["name"], [(n, self.sort(ft)) for n, ft, _ in rec["fields"]])


def qall(vs, body, *pats):
    """universally quantified formula with the given triggers where they are legal"""
    try:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, (tuple, list)) else p for p in pats])
    except z3.Z3Exception:
        return z3.ForAll(vs, body)
