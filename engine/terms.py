"""Hash-consed terms: exact real expressions (Node), linear integer expressions (Lin) and boolean formulas (B)."""
from fractions import Fraction
import math

Fr = Fraction


# ----------------------------------------------------------------------------- integers
class IntVars:
    def __init__(self):
        self.names = []
        self.rng = []

    def new(self, name, lo, hi):
        self.names.append(name)
        self.rng.append((lo, hi))
        return len(self.names) - 1


IV = IntVars()


class Lin:
    """sum coef*var + c over the mathematical integers."""
    __slots__ = ("t", "c", "h")

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return o.__class__ is Lin and self.t == o.t and self.c == o.c

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        return "+".join(["%s%s" % ("" if k == 1 else "%d*" % k, IV.names[v]) for v, k in self.t] + ([str(self.c)] if self.c else []))

    def range(self):
        lo = hi = self.c
        for v, k in self.t:
            a, b = IV.rng[v]
            if k > 0:
                lo += k * a
                hi += k * b
            else:
                lo += k * b
                hi += k * a
        return lo, hi


def lin_var(v):
    return Lin(((v, 1),), 0)


def lmk(d, c):
    t = tuple(sorted((v, k) for v, k in d.items() if k))
    return Lin(t, c) if t else c


def ladd(a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a + b
        return Lin(b.t, b.c + a)
    if b.__class__ is int:
        return Lin(a.t, a.c + b)
    d = dict(a.t)
    for v, k in b.t:
        d[v] = d.get(v, 0) + k
    return lmk(d, a.c + b.c)


def lscale(a, k):
    if a.__class__ is int:
        return a * k
    if k == 0:
        return 0
    return Lin(tuple((v, c * k) for v, c in a.t), a.c * k)


def lsub(a, b):
    return ladd(a, lscale(b, -1))


def lrange(a):
    if a.__class__ is int:
        return a, a
    return a.range()


def lsubst(a, m):
    """m: var -> int|Lin"""
    if a.__class__ is int:
        return a
    hit = False
    for v, _ in a.t:
        if v in m:
            hit = True
            break
    if not hit:
        return a
    r = a.c
    for v, k in a.t:
        if v in m:
            r = ladd(r, lscale(m[v], k))
        else:
            r = ladd(r, Lin(((v, k),), 0))
    return r


def ldep(a, v):
    """coefficient of v"""
    if a.__class__ is int:
        return 0
    for w, k in a.t:
        if w == v:
            return k
    return 0


# ----------------------------------------------------------------------------- reals
class Node:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return show(self, 6)


_tab = {}
_nodes = []


def mk(op, *args):
    key = (op,) + args
    n = _tab.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = len(_nodes)
        _tab[key] = n
        _nodes.append(n)
    return n


_rat = {}


def rationalise(x):
    """exact value of a double, except that a literal which is the rounding of a small rational stands for it"""
    r = _rat.get(x)
    if r is None:
        e = Fr(x)
        if e.denominator == 1:
            r = e.numerator
        else:
            r = e
            if e.denominator > 4096:
                f = e.limit_denominator(5000)
                if f != 0 and float(f) == x:
                    r = f
            if r.denominator == 1:
                r = r.numerator
        _rat[x] = r
    return r


def const(x):
    if x.__class__ is float:
        x = rationalise(x)
    elif x.__class__ is Fr and x.denominator == 1:
        x = x.numerator
    return mk("c", x)


ZERO = mk("c", 0)
ONE = mk("c", 1)


class VarInfo:
    """kind: 0 free, 1 positive, 2 nonnegative; lo/hi: sampling range"""
    def __init__(self):
        self.kind = {}
        self.rng = {}
        self.unit = {}      # var -> partner var: v^2 = 1 - partner^2


VI = VarInfo()


def var(name, kind=0, lo=-2.0, hi=2.0):
    n = mk("v", name)
    if n not in VI.kind:
        VI.kind[n] = kind
        VI.rng[n] = (lo, hi)
    return n


def isfin(x):
    return x == x and x not in (math.inf, -math.inf)


def as_node(x):
    if x.__class__ is Node:
        return x
    if x.__class__ is float:
        return const(x)
    if x.__class__ is int or x.__class__ is Fr:
        return const(x)
    raise TypeError("not a real: %r" % (x,))


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.args[0] + b.args[0])
    if b.id < a.id:
        a, b = b, a
    return mk("+", a, b)


def neg(a):
    if a.op == "c":
        return const(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.args[0] * b.args[0])
    if a.op == "c" and a.args[0] == -1:
        return neg(b)
    if b.op == "c" and b.args[0] == -1:
        return neg(a)
    if b.id < a.id:
        a, b = b, a
    return mk("*", a, b)


def div(a, b):
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if b.op == "c":
        if b.args[0] == 0:
            return mk("f", "div0", a)          # unspecified
        return mul(a, const(Fr(1) / b.args[0]))
    if a is b:
        return ONE
    return mk("/", a, b)


def isqrt_exact(f):
    f = Fr(f)
    if f < 0:
        return None
    p, q = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if p * p == f.numerator and q * q == f.denominator:
        return Fr(p, q)
    return None


def sqrt(a):
    if a.op == "c":
        r = isqrt_exact(a.args[0])
        if r is not None:
            return const(r)
    return mk("sqrt", a)


def fn(name, *args):
    return mk("f", name, *args)


def ite(c, a, b):
    if c is True or c == 1 and c.__class__ is int:
        return a
    if c is False or c == 0 and c.__class__ is int:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "rlt" and c.args[0] is ZERO and c.args[1] is b and b.op in ("ite", "f") and sign(b) == "0+":
        return ite(c, a, ZERO)             # 0 < b fails for b >= 0 only at zero
    return mk("ite", c, a, b)


# ----------------------------------------------------------------------------- booleans
class B:
    __slots__ = ("op", "args", "id")

    def __repr__(self):
        return showb(self, 6)


_btab = {}
_bnodes = []


def bmk(op, *args):
    key = (op,) + args
    n = _btab.get(key)
    if n is None:
        n = B()
        n.op = op
        n.args = args
        n.id = len(_bnodes)
        _btab[key] = n
        _bnodes.append(n)
    return n


def isbool(x):
    return x is True or x is False


def bnot(a):
    if a.__class__ is not B:
        return not a
    if a.op == "not":
        return a.args[0]
    return bmk("not", a)


def band(a, b):
    if a.__class__ is not B:
        return b if a else False
    if b.__class__ is not B:
        return a if b else False
    if a is b:
        return a
    return bmk("and", a, b)


def bor(a, b):
    if a.__class__ is not B:
        return True if a else b
    if b.__class__ is not B:
        return True if b else a
    if a is b:
        return a
    return bmk("or", a, b)


def rlt(a, b):
    if a is b:
        return False
    if a.op == "c" and b.op == "c":
        return a.args[0] < b.args[0]
    return bmk("rlt", a, b)


def rle(a, b):
    if a is b:
        return True
    if a.op == "c" and b.op == "c":
        return a.args[0] <= b.args[0]
    return bmk("not", bmk("rlt", b, a))


def req(a, b):
    if a is b:
        return True
    if a.op == "c" and b.op == "c":
        return a.args[0] == b.args[0]
    if b.id < a.id:
        a, b = b, a
    return bmk("req", a, b)


def ile0(l):
    """l <= 0"""
    if l.__class__ is int:
        return l <= 0
    lo, hi = l.range()
    if hi <= 0:
        return True
    if lo > 0:
        return False
    g = math.gcd(*[k for _, k in l.t])
    if g > 1:
        l = Lin(tuple((v, k // g) for v, k in l.t), -((-l.c) // g))
    return bmk("ile", l)


def ieq0(l):
    if l.__class__ is int:
        return l == 0
    lo, hi = l.range()
    if lo > 0 or hi < 0:
        return False
    g = math.gcd(*[k for _, k in l.t])
    if g > 1:
        if l.c % g:
            return False
        l = Lin(tuple((v, k // g) for v, k in l.t), l.c // g)
    if l.t[0][1] < 0:
        l = lscale(l, -1)
    return bmk("ieq", l)


# ----------------------------------------------------------------------------- traversal
def children(n):
    if n.__class__ is B:
        return n.args if n.op in ("not", "and", "or", "rlt", "req") else ()
    op = n.op
    if op in ("c", "v"):
        return ()
    if op == "f":
        return n.args[1:]
    if op == "sum":
        return (n.args[2],)
    return n.args


def topo(roots):
    """post-order list of all Node/B reachable"""
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    while st:
        n, ph = st.pop()
        if ph:
            out.append(n)
            continue
        k = (n.__class__, n.id)
        if k in seen:
            continue
        seen.add(k)
        st.append((n, 1))
        for c in children(n):
            if (c.__class__ is Node or c.__class__ is B) and (c.__class__, c.id) not in seen:
                st.append((c, 0))
    return out


def rebuild(n, ch):
    """n with new children (simplifying)"""
    op = n.op
    if n.__class__ is B:
        if op == "not":
            return bnot(ch[0])
        if op == "and":
            return band(*ch)
        if op == "or":
            return bor(*ch)
        if op == "rlt":
            return rlt(*ch)
        if op == "req":
            return req(*ch)
        return n
    if op == "+":
        return add(*ch)
    if op == "neg":
        return neg(*ch)
    if op == "*":
        return mul(*ch)
    if op == "/":
        return div(*ch)
    if op == "sqrt":
        return sqrt(*ch)
    if op == "f":
        return fn(n.args[0], *ch)
    if op == "ite":
        return ite(*ch)
    if op == "sum":
        return rsum(n.args[0], n.args[1], ch[0])
    return n


def transform(roots, leaf):
    """rebuild DAG; leaf(n) returns a replacement or None"""
    memo = {}
    for n in topo([r for r in roots if r.__class__ in (Node, B)]):
        k = (n.__class__, n.id)
        r = leaf(n)
        if r is None:
            ch = children(n)
            if ch:
                new = [memo[(c.__class__, c.id)] if c.__class__ in (Node, B) else c for c in ch]
                if all(x is y for x, y in zip(new, ch)):
                    r = n
                else:
                    r = rebuild(n, new)
            else:
                r = n
        memo[k] = r
    return [memo[(r.__class__, r.id)] if r.__class__ in (Node, B) else r for r in roots]


def ivars_of(n, _m={}):
    """int variables occurring in a Node/B (array indices, integer atoms, sum trip counts)"""
    k = (n.__class__, n.id)
    r = _m.get(k)
    if r is not None:
        return r
    for x in topo([n]):
        kx = (x.__class__, x.id)
        if kx in _m:
            continue
        s = set()
        if x.__class__ is Node and x.op == "v":
            nm = x.args[0]
            if nm.__class__ is tuple:
                for a in nm[1:]:
                    if a.__class__ is Lin:
                        s.update(v for v, _ in a.t)
        elif x.__class__ is B and x.op in ("ile", "ieq"):
            s.update(v for v, _ in x.args[0].t)
        else:
            for c in children(x):
                if c.__class__ in (Node, B):
                    s |= _m[(c.__class__, c.id)]
            if x.__class__ is Node and x.op == "sum":
                s.discard(x.args[0])
                if x.args[1].__class__ is Lin:
                    s.update(v for v, _ in x.args[1].t)
        _m[kx] = frozenset(s)
    return _m[k]


LD_HOOK = [None]   # resolves a deferred load (snapshot, offset)


def subst_int(roots, m):
    """substitute integer variables in values of any kind"""
    ks = set(m)

    def leaf(n):
        if not (ivars_of(n) & ks):
            return n
        if n.__class__ is Node:
            if n.op == "v":
                nm = n.args[0]
                if nm[0] == "@ld":
                    return LD_HOOK[0](nm[1], lsubst(nm[2], m))
                new = (nm[0],) + tuple(lsubst(a, m) if a.__class__ is Lin else a for a in nm[1:])
                v = mk("v", new)
                if v not in VI.kind:
                    VI.kind[v] = VI.kind.get(n, 0)
                    VI.rng[v] = VI.rng.get(n, (-2.0, 2.0))
                    if n in VI.unit:
                        p = VI.unit[n].args[0]
                        VI.unit[v] = mk("v", (p[0],) + tuple(lsubst(a, m) if a.__class__ is Lin else a for a in p[1:]))
                        pv = VI.unit[v]
                        if pv not in VI.kind:
                            VI.kind[pv] = 0
                            VI.rng[pv] = (-1.0, 1.0)
                return v
            if n.op == "sum":
                t = n.args[1]
                return rsum(n.args[0], lsubst(t, m) if t.__class__ is Lin else t, subst_int([n.args[2]], m)[0])
        elif n.op == "ile":
            return ile0(lsubst(n.args[0], m))
        elif n.op == "ieq":
            return ieq0(lsubst(n.args[0], m))
        return None

    out = []
    for r in roots:
        if r.__class__ is Node or r.__class__ is B:
            out.append(transform([r], leaf)[0] if ivars_of(r) & ks else r)
        elif r.__class__ is Lin:
            out.append(lsubst(r, m))
        elif r.__class__ is tuple and len(r) == 2:
            out.append((r[0], lsubst(r[1], m)))
        else:
            out.append(r)
    return out


_bound = []


def bound_var(depth):
    while len(_bound) <= depth:
        _bound.append(IV.new("$%d" % len(_bound), 0, 1 << 40))
    return _bound[depth]


def sum_depth(n):
    d = 0
    for x in topo([n]):
        if x.__class__ is Node and x.op == "sum":
            d = max(d, x.args[3] + 1)
    return d


def rsum(i, trip, body):
    """sum_{0<=i<trip} body(i); bound variables canonicalised by nesting depth"""
    if trip.__class__ is int and trip <= 0:
        return ZERO
    if body is ZERO:
        return ZERO
    d = sum_depth(body)
    b = bound_var(d)
    if b != i:
        body = subst_int([body], {i: lin_var(b)})[0]
    if trip.__class__ is int and trip <= 64:
        r = ZERO
        for k in range(trip):
            r = add(r, subst_int([body], {b: k})[0])
        return r
    return mk("sum", b, trip, body, d)


def show(n, d=4):
    if n.__class__ is not Node:
        return repr(n)
    op = n.op
    if op == "c":
        return str(n.args[0]) if not (isinstance(n.args[0], Fr) and n.args[0].denominator > 10**6) else "%.17g" % float(n.args[0])
    if op == "v":
        a = n.args[0]
        return a if isinstance(a, str) else "%s[%s]" % (a[0], ",".join(str(x) for x in a[1:]))
    if d <= 0:
        return "#%d" % n.id
    if op in "+*/":
        return "(%s %s %s)" % (show(n.args[0], d - 1), op, show(n.args[1], d - 1))
    if op == "neg":
        return "-%s" % show(n.args[0], d - 1)
    if op == "sqrt":
        return "sqrt(%s)" % show(n.args[0], d - 1)
    if op == "f":
        return "%s(%s)" % (n.args[0], ",".join(show(x, d - 1) for x in n.args[1:]))
    if op == "ite":
        return "ite(%s,%s,%s)" % (showb(n.args[0], d - 1), show(n.args[1], d - 1), show(n.args[2], d - 1))
    if op == "sum":
        return "sum(%s<%s,%s)" % (IV.names[n.args[0]], n.args[1], show(n.args[2], d - 1))
    return op


def showb(n, d=4):
    if n.__class__ is not B:
        return repr(n)
    op = n.op
    if d <= 0:
        return "B#%d" % n.id
    if op == "not":
        return "!(%s)" % showb(n.args[0], d - 1)
    if op in ("and", "or"):
        return "(%s %s %s)" % (showb(n.args[0], d - 1), op, showb(n.args[1], d - 1))
    if op == "rlt":
        return "%s < %s" % (show(n.args[0], d - 1), show(n.args[1], d - 1))
    if op == "req":
        return "%s == %s" % (show(n.args[0], d - 1), show(n.args[1], d - 1))
    if op == "ile":
        return "%r <= 0" % n.args[0]
    if op == "ieq":
        return "%r == 0" % n.args[0]
    return op


# ----------------------------------------------------------------------------- cheap sign analysis
_sign = {}


def sign(n):
    """'+', '0+', '-', '0-', '0', '?'  from variable kinds only (sound, incomplete)"""
    r = _sign.get(n.id)
    if r is not None:
        return r
    for x in topo([n]):
        if x.__class__ is not Node or x.id in _sign:
            continue
        _sign[x.id] = _sign1(x)
    return _sign[n.id]


def _neg(s):
    return {"+": "-", "-": "+", "0+": "0-", "0-": "0+"}.get(s, s)


def _sign1(x):
    op = x.op
    a = x.args
    S = lambda y: _sign.get(y.id, "?")
    if op == "c":
        return "+" if a[0] > 0 else "-" if a[0] < 0 else "0"
    if op == "v":
        return {1: "+", 2: "0+"}.get(VI.kind.get(x, 0), "?")
    if op == "neg":
        return _neg(S(a[0]))
    if op == "+":
        p, q = S(a[0]), S(a[1])
        if p == "0":
            return q
        if q == "0":
            return p
        s = {p, q}
        if s <= {"+", "0+"}:
            return "+" if "+" in s else "0+"
        if s <= {"-", "0-"}:
            return "-" if "-" in s else "0-"
        return "?"
    if op in "*/":
        p, q = S(a[0]), S(a[1])
        if a[0] is a[1] and op == "*":
            return "+" if p in "+-" else "0+"
        if p == "0" or q == "0":
            return "0"
        if p == "?" or q == "?":
            return "?"
        ng = (p in ("-", "0-")) != (q in ("-", "0-"))
        z = "0" in p or (op == "*" and "0" in q)
        return ("0" if z else "") + ("-" if ng else "+")
    if op == "sqrt":
        return "+" if S(a[0]) == "+" else "0+"
    if op == "ite":
        p, q = S(a[1]), S(a[2])
        if p == q and p != "?":
            return p
        if {p, q} <= {"+", "0+", "0"}:
            return "0+"
        if {p, q} <= {"-", "0-", "0"}:
            return "0-"
        # |x| pattern
        c = a[0]
        if c.op == "rlt" and c.args[0] is ZERO and c.args[1] is a[1] and a[2] is neg(a[1]):
            return "0+"
        return "?"
    if op == "f":
        if a[0] in ("exp",):
            return "+"
        if a[0] == "hypot":
            return "0+"
        if a[0] == "pow" and S(a[1]) == "+":
            return "+"
        if a[0] == "pow" and S(a[1]) == "0+":
            return "0+"
        return "?"
    if op == "sum":
        s = S(a[2])
        return "0+" if s in ("+", "0+") else "0-" if s in ("-", "0-") else "?"
    return "?"
