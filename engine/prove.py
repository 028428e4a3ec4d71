"""Obligation discharge: polynomial normal form over Q, case splits, then z3 / cvc5."""
import time, subprocess, os, re
from fractions import Fraction as Fr
import z3
import terms as T
from terms import Node, B, Lin

STATS = {"poly": 0, "split": 0, "z3": 0, "cvc5": 0, "trivial": 0, "lia": 0, "sign": 0, "near": 0}
TIME = {"poly": 0.0, "z3": 0.0, "cvc5": 0.0, "lia": 0.0}


CUT = 4
SOLVE = True     # ask the solvers about branch conditions that the normal forms leave open


class TooBig(Exception):
    pass


LIMIT = 400000

# ----------------------------------------------------------------------------- atoms & Laurent polynomials
_atoms = {}
_ainfo = []      # (kind, payload, sign)
_anames = []


def atom(kind, key, sgn="?", payload=None):
    k = (kind, key)
    a = _atoms.get(k)
    if a is None:
        a = len(_ainfo)
        _atoms[k] = a
        _ainfo.append((kind, payload if payload is not None else key, sgn))
    return a


def pconst(c):
    return {(): c} if c else {}


def padd(a, b, k=1):
    if len(a) < len(b) and k == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    i = j = 0
    out = []
    lm, ln = len(m), len(n)
    while i < lm and j < ln:
        a, b = m[i], n[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m[i:])
    out.extend(n[j:])
    return tuple(out)


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) * len(b) > LIMIT:
        raise TooBig()
    if len(a) == 1 and () in a:
        c = a[()]
        return b if c == 1 else {m: v * c for m, v in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        return a if c == 1 else {m: v * c for m, v in a.items()}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    if len(r) > LIMIT:
        raise TooBig()
    return reduce(r)


def reducible(m):
    for a, e in m:
        k = _ainfo[a][0]
        if k == "sqrt" and (e >= 2 or e < 0):
            return (a, e, k)
        if k == "unit" and e >= 2:
            return (a, e, k)
        if k == "bool" and e >= 2:
            return (a, e, k)
    return None


def ppow(p, n):
    r = pconst(1)
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def reduce(p):
    todo = None
    for m in p:
        if reducible(m):
            todo = True
            break
    if not todo:
        return p
    out = {}
    work = list(p.items())
    while work:
        m, c = work.pop()
        r = reducible(m)
        if r is None:
            v = out.get(m, 0) + c
            if v:
                out[m] = v
            else:
                out.pop(m, None)
            continue
        a, e, kind = r
        rest = tuple(x for x in m if x[0] != a)
        if kind == "sqrt":
            rad = _ainfo[a][1]
            q, s = divmod(e, 2)
            if q < 0:
                if len(rad) != 1:
                    # cannot invert a multi-term radicand: keep as is
                    v = out.get(m, 0) + c
                    if v:
                        out[m] = v
                    else:
                        out.pop(m, None)
                    continue
                (rm, rc), = rad.items()
                f = {tuple((x, -k) for x, k in rm): Fr(1) / rc}
                q = -q
            else:
                f = rad
            if s:
                rest = mmul(rest, ((a, s),))
            for m2, c2 in ppow_noreduce(f, q).items():
                work.append((mmul(rest, m2), c * c2))
        elif kind == "bool":
            work.append((mmul(rest, ((a, 1),)), c))
        else:
            partner = _ainfo[a][1]
            if e > 2:
                rest = mmul(rest, ((a, e - 2),))
            work.append((rest, c))
            work.append((mmul(rest, ((partner, 2),)), -c))
    return out


def ppow_noreduce(p, n):
    r = {(): 1}
    for _ in range(n):
        t = {}
        for m, c in r.items():
            for k, d in p.items():
                mm = mmul(m, k)
                v = t.get(mm, 0) + c * d
                if v:
                    t[mm] = v
                else:
                    t.pop(mm, None)
        r = t
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def is_mono(p):
    return len(p) == 1


def minv(p):
    (m, c), = p.items()
    return {tuple((a, -e) for a, e in m): (Fr(1) / c)}


def mono_sign(m):
    """sign of a monomial: '+' if surely positive"""
    for a, e in m:
        s = _ainfo[a][2]
        if s == "+":
            continue
        if e % 2 == 0:
            continue   # nonneg; zero possible
        return "?"
    return "+"


# rational form: (num poly, ((denkey, exp),...)) ; denkey indexes into _dens
_dens = {}
_denp = []


def denid(p):
    k = pkey(p)
    d = _dens.get(k)
    if d is None:
        d = len(_denp)
        _dens[k] = d
        _denp.append(p)
    return d


def dmerge(a, b):
    r = dict(a)
    for k, e in b.items():
        if r.get(k, 0) < e:
            r[k] = e
    return r


def lift(num, frm, to):
    for k, e in to.items():
        d = e - frm.get(k, 0)
        for _ in range(d):
            num = pmul(num, _denp[k])
    return num


_pos_pc = set()


def rat_add(x, y, k=1):
    (n1, d1), (n2, d2) = x, y
    if d1 == d2:
        return simplify(padd(n1, n2, k), d1) if d1 else (padd(n1, n2, k), d1)
    d = dmerge(d1, d2)
    return simplify(padd(lift(n1, d1, d), lift(n2, d2, d), k), d)


def rat_mul(x, y):
    n = pmul(x[0], y[0])
    if not x[1]:
        return n, y[1]
    d = dict(x[1])
    for k, e in y[1].items():
        d[k] = d.get(k, 0) + e
    return cancel(n, d)


def cancel(n, d):
    """cheap cancellation: numerator equal to a constant multiple of a denominator factor"""
    if not n:
        return {}, {}
    for k in list(d):
        p = _denp[k]
        if len(p) == len(n):
            m0 = max(p)
            # same monomials?
            if all(m in n for m in p):
                r = Fr(n[m0]) / p[m0]
                if all(n[m] == r * p[m] for m in p):
                    d = dict(d)
                    d[k] -= 1
                    if not d[k]:
                        del d[k]
                    return pconst(r if r.denominator != 1 else r.numerator), d
    return n, d


_MP = (1 << 61) - 1
_rv = {}


def _modval(a):
    v = _rv.get(a)
    if v is None:
        v = _rv[a] = (hash(("mv", a * 7919 + 13)) * 6364136223846793005 + 1442695040888963407) % _MP or 5
    return v


def _modc(c):
    if c.__class__ is Fr:
        return c.numerator * pow(c.denominator, -1, _MP) % _MP
    return c % _MP


def _uni(p, v):
    """p as a polynomial in v modulo a prime, the other atoms at random values; None with negative powers of v"""
    out = {}
    for m, c in p.items():
        x = _modc(c)
        e = 0
        for a, k in m:
            if a == v:
                if k < 0:
                    return None
                e = k
            else:
                x = x * pow(_modval(a), k, _MP) % _MP
        out[e] = (out.get(e, 0) + x) % _MP
    return out


def divisible(n, p):
    """probabilistic test (no false negatives, false positives are caught by the exact division)"""
    v = max(p)[-1][0] if max(p) else None
    if v is None:
        return True
    a, b = _uni(n, v), _uni(p, v)
    if a is None or b is None:
        return False
    db = max((e for e, c in b.items() if c), default=None)
    if not db:
        return False
    r = [a.get(i, 0) for i in range(max(a, default=0) + 1)]
    q = [b.get(i, 0) for i in range(db + 1)]
    inv = pow(q[db], -1, _MP)
    for i in range(len(r) - 1, db - 1, -1):
        if r[i]:
            f = r[i] * inv % _MP
            for j in range(db + 1):
                r[i - db + j] = (r[i - db + j] - f * q[j]) % _MP
    return not any(r[:db])


def exact_div(n, p):
    """n / p as a polynomial, or None"""
    ats = sorted({a for m in p for a, _ in m} | {a for m in n for a, _ in m})
    ix = {a: i for i, a in enumerate(ats)}
    k = len(ats)

    def vec(m):
        r = [0] * k
        for a, e in m:
            r[ix[a]] = e
        return tuple(r)
    N = {vec(m): c for m, c in n.items()}
    P = {vec(m): c for m, c in p.items()}
    low = [min(min(m[i] for m in N), 0) for i in range(k)]
    lp = max(P)
    cp = Fr(P[lp])
    import heapq
    heap = [tuple(-e for e in m) for m in N]
    heapq.heapify(heap)
    Q = {}
    steps = 0
    while heap:
        m = tuple(-e for e in heapq.heappop(heap))
        c = N.pop(m, 0)
        if not c:
            continue
        steps += 1
        q = tuple(a - b for a, b in zip(m, lp))
        if any(x < l for x, l in zip(q, low)) or steps > 4000:
            return None
        cq = c / cp
        Q[q] = cq
        for m2, c2 in P.items():
            if m2 is lp:
                continue
            m3 = tuple(a + b for a, b in zip(q, m2))
            if m3 in N:
                v = N[m3] - cq * c2
                if v:
                    N[m3] = v
                else:
                    N[m3] = 0
            else:
                N[m3] = -cq * c2
                heapq.heappush(heap, tuple(-e for e in m3))
    out = {}
    for m, c in Q.items():
        if c:
            out[tuple((ats[i], e) for i, e in enumerate(m) if e)] = c.numerator if c.denominator == 1 else c
    return out


def simplify(n, d, limit=1500):
    """divide out denominator factors"""
    if not n:
        return {}, {}
    for k in list(d):
        p = _denp[k]
        while k in d and 2 <= len(p) <= 60 and len(p) <= len(n) <= limit and divisible(n, p):
            q = exact_div(n, p)
            if q is None:
                break
            n = q
            d = dict(d)
            d[k] -= 1
            if not d[k]:
                del d[k]
    return n, d


def content(p):
    """split p = mono * rest  with rest having no monomial factor and unit content"""
    ms = list(p)
    common = dict(ms[0])
    for m in ms[1:]:
        dm = dict(m)
        for a in list(common):
            e = min(common[a], dm.get(a, 0)) if common[a] > 0 or dm.get(a, 0) > 0 else max(common[a], dm.get(a, 0))
            e = min(common[a], dm.get(a, 0))
            common[a] = e
        for a in dm:
            if a not in common:
                common[a] = min(0, dm[a])
    for m in ms:
        dm = dict(m)
        for a in common:
            if common[a] < 0:
                common[a] = min(common[a], dm.get(a, 0))
    cm = tuple(sorted((a, e) for a, e in common.items() if e))
    lead = max(ms)
    c = p[lead]
    inv = tuple((a, -e) for a, e in cm)
    rest = {mmul(m, inv): (Fr(v) / c) for m, v in p.items()}
    rest = {m: (v.numerator if v.denominator == 1 else v) for m, v in rest.items()}
    return {cm: c}, rest


def div_mono(num, m):
    """num / m ; 1/sqrt(S)^e with a multi-term S becomes sqrt(S)^(e mod 2) / S^ceil(e/2)"""
    (mm, c), = m.items()
    d = dict(num[1])
    n = num[0]
    keep = []
    for a, e in mm:
        kd, pl, _ = _ainfo[a]
        if kd == "sqrt" and e > 0 and len(pl) != 1:
            q = (e + 1) // 2
            cm, rest = content(pl)
            if e % 2:
                n = pmul(n, {((a, 1),): 1})
            n, d = div_mono((n, d), {k: v for k, v in ppow_noreduce(cm, q).items()})
            d = dict(d)
            k = denid(rest)
            d[k] = d.get(k, 0) + q
        else:
            keep.append((a, e))
    n = reduce(pmul(n, minv({tuple(keep): c})))
    return (n, d) if not d else cancel(n, d)


def rat_div(x, y):
    n2, d2 = y
    if not n2:
        raise ZeroDivisionError
    # 1/(n2/d2) = d2/n2
    num = x
    for k, e in d2.items():
        for _ in range(e):
            num = (pmul(num[0], _denp[k]), num[1])
    if is_mono(n2):
        return div_mono(num, n2)
    m, rest = content(n2)
    nn, d = div_mono(num, m)
    d = dict(d)
    k = denid(rest)
    d[k] = d.get(k, 0) + 1
    return cancel(nn, d)


_rat = {}


def var_atom(n):
    nm = n.args[0]
    if n in T.VI.unit:
        p = T.VI.unit[n]
        pa = atom("v", p.args[0], "?")
        return atom("unit", nm, "?", pa)
    return atom("v", nm, T.sign(n))


def sqrt_rat(r, node):
    n, d = simplify(*r) if r[1] else r
    if d:
        return ({((atom("opq", ("sqrt", pkey(n), tuple(sorted(d.items()))), T.sign(node), node), 1),): 1}, {})
    if not n:
        return {}, {}
    # extract square content
    m, rest = content(n)
    (mm, c), = m.items()
    cf = Fr(c)
    outm = {}
    inm = {}
    for a, e in mm:
        s = _ainfo[a][2]
        if s == "+":
            outm[a] = e // 2
            if e % 2:
                inm[a] = 1
        else:
            inm[a] = e
    sgn_ok = True
    sc = T.isqrt_exact(abs(cf))
    if sc is not None and cf > 0:
        oc, ic = sc, Fr(1)
    elif sc is not None:
        oc, ic = sc, Fr(-1)
    else:
        oc, ic = Fr(1), cf
    out = {tuple(sorted((a, e) for a, e in outm.items() if e)): oc}
    # remaining positive atoms: separate sqrt atoms when rest is trivial or positive
    res = out
    if len(rest) == 1 and () in rest and all(_ainfo[a][2] == "+" for a in inm) and ic > 0:
        for a in inm:
            res = pmul(res, {((atom("sqrt", pkey({((a, 1),): 1}), "+", {((a, 1),): 1}), 1),): 1})
        if ic != 1:
            p = pconst(ic if ic.denominator != 1 else ic.numerator)
            res = pmul(res, {((atom("sqrt", pkey(p), "+", p), 1),): 1})
        return res, {}
    rad = pmul({tuple(sorted(inm.items())): ic if ic.denominator != 1 else ic.numerator}, rest)
    if len(rad) == 1 and () in rad:
        s = T.isqrt_exact(rad[()])
        if s is not None:
            return pmul(res, pconst(s)), {}
    # perfect square of a single positive thing is left to z3
    sg = "+" if T.sign(node) == "+" else "0+"
    return pmul(res, {((atom("sqrt", pkey(rad), sg, rad), 1),): 1}), {}


def rkey(r):
    return (pkey(r[0]), tuple(sorted(r[1].items())))


def bkey(b):
    """canonical key of a boolean atom"""
    if b.op == "rlt":
        r = rat(T.sub(b.args[0], b.args[1]))
        return ("rlt", rkey(r))
    if b.op == "req":
        r = rat(T.sub(b.args[0], b.args[1]))
        n = r[0]
        if not n:
            return ("req", ())
        c = n[max(n)]
        return ("req", pkey({m: Fr(v) / c for m, v in n.items()}), tuple(sorted(r[1].items())))
    return ("b", b.id)


def abs_form(x):
    """ite(0 < p, a, b) with a - b = c p  is  (a + b)/2 + c/2 |p|;  |p| is keyed by p up to sign and scale"""
    c, a, b = x.args
    if c.op != "rlt":
        return None
    try:
        p, pd = rat(T.sub(c.args[1], c.args[0]))
        ra, rb = rat(a), rat(b)
        d, dd = rat_add(ra, rb, -1)
        if not p:
            return rb
        if not d:
            return ra
        if len(p) != len(d) or pd != dd:
            return None
        m = max(p)
        k = Fr(d.get(m, 0)) / p[m]
        if k == 0 or any(d.get(t) != k * v for t, v in p.items()):
            return None
        lead = abs(Fr(p[m]))
        sg = 1 if p[m] > 0 else -1
        key = (pkey({t: Fr(v) * sg / lead for t, v in p.items()}), tuple(sorted(pd.items())))
        at = {((atom("ite", ("abs",) + key, "0+", x), 1),): lead * k / 2}
        s, sd = rat_add(ra, rb)
        return rat_add(({t: Fr(v) / 2 for t, v in s.items()}, sd), (at, {}))
    except TooBig:
        return None


def rat(n):
    r = _rat.get(n.id)
    if r is not None:
        return r
    for x in T.topo([n]):
        if x.__class__ is Node and x.id not in _rat:
            _rat[x.id] = _rat1(x)
    return _rat[n.id]


def _rat1(x):
    op, a = x.op, x.args
    if op == "c":
        return pconst(a[0]), {}
    if op == "v":
        return {((var_atom(x), 1),): 1}, {}
    if op == "+":
        return rat_add(_rat[a[0].id], _rat[a[1].id])
    if op == "neg":
        n, d = _rat[a[0].id]
        return {m: -c for m, c in n.items()}, d
    if op == "*":
        return rat_mul(_rat[a[0].id], _rat[a[1].id])
    if op == "/":
        try:
            return rat_div(_rat[a[0].id], _rat[a[1].id])
        except ZeroDivisionError:
            return {((atom("opq", ("div0", x.id), "?", x), 1),): 1}, {}
    if op == "sqrt":
        return sqrt_rat(_rat[a[0].id], x)
    if op == "ite":
        r = abs_form(x)
        if r is not None:
            return r
        return {((atom("ite", x.id, T.sign(x), x), 1),): 1}, {}
    if op == "f":
        key = (a[0],) + tuple(rkey(_rat[y.id]) for y in a[1:])
        if a[0] == "sin":
            # sin^2 = 1 - cos^2
            ca = atom("f", ("cos",) + key[1:], "?", ("cos", a[1]))
            return {((atom("unit", key, "?", ca), 1),): 1}, {}
        return {((atom("f", key, T.sign(x), (a[0],) + a[1:]), 1),): 1}, {}
    if op == "sum":
        b, trip, body, _ = a
        n, d = _rat[body.id]
        if d:
            return {((atom("opqs", ("sum", b, trip, rkey((n, d))), T.sign(x), x), 1),): 1}, {}
        out = {}
        for m, c in n.items():
            dep = tuple(t for t in m if b in atom_ivars(t[0]))
            ind = tuple(t for t in m if b not in atom_ivars(t[0]))
            if not dep:
                sa = {(): trip} if trip.__class__ is int else {((atom("v", ("#int", trip), "0+"), 1),): 1}
            else:
                sa = {((atom("sum", (b, trip, dep), "?", x), 1),): 1}
            for m2, c2 in sa.items():
                k = mmul(ind, m2)
                v = out.get(k, 0) + c * c2
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        return out, {}
    raise NotImplementedError(op)


_aiv = {}


def atom_ivars(a):
    r = _aiv.get(a)
    if r is None:
        kind, payload, _ = _ainfo[a]
        s = set()
        if kind == "v":
            if payload.__class__ is tuple:
                for y in payload[1:]:
                    if y.__class__ is Lin:
                        s.update(v for v, _ in y.t)
        elif kind == "unit":
            s |= atom_ivars(payload)
        elif kind == "sqrt":
            for m in payload:
                for b, _ in m:
                    s |= atom_ivars(b)
        elif kind == "f":
            for y in payload[1:]:
                s |= T.ivars_of(y)
        elif payload.__class__ in (Node, B):
            s |= T.ivars_of(payload)
        r = frozenset(s)
        _aiv[a] = r
    return r


def is_zero(n):
    t = time.time()
    try:
        r = rat(n)[0]
        return not r
    finally:
        TIME["poly"] += time.time() - t


# ----------------------------------------------------------------------------- z3
class Z:
    """translation of terms to z3; one instance per obligation context"""
    def __init__(self):
        self.m = {}
        self.bm = {}
        self.iv = {}
        self.side = []
        self.vars = {}
        self.fs = {}
        self.has_sum = False

    def aliases(self):
        """array elements with equal indices, and applications to equal arguments, are equal"""
        by = {}
        for _, (n, r) in self.vars.items():
            k = n.args[0]
            if k.__class__ is tuple and k[0] != "#int":
                by.setdefault((k[0], len(k)), []).append((k[1:], r))
        for k, l in by.items():
            if len(l) > 40:
                continue
            for i in range(len(l)):
                for j in range(i):
                    e = []
                    for x, y in zip(l[i][0], l[j][0]):
                        if x == y:
                            continue
                        d = T.lsub(x, y)
                        if d.__class__ is int:
                            e = None
                            break
                        e.append(self.lin(d) == 0)
                    if e:
                        self.side.append(z3.Implies(z3.And(e), l[i][1] == l[j][1]))
        for k, l in self.fs.items():
            for i in range(min(len(l), 12)):
                for j in range(i):
                    self.side.append(z3.Implies(z3.And([self.m[x.id] == self.m[y.id] for x, y in zip(l[i].args[1:], l[j].args[1:])]), self.m[l[i].id] == self.m[l[j].id]))

    def ivar(self, v):
        r = self.iv.get(v)
        if r is None:
            r = z3.Int("i%d_%s" % (v, T.IV.names[v]))
            self.iv[v] = r
            lo, hi = T.IV.rng[v]
            self.side += [r >= lo, r <= hi]
        return r

    def lin(self, l):
        if l.__class__ is int:
            return z3.IntVal(l)
        e = z3.IntVal(l.c) if l.c else None
        for v, k in l.t:
            t = self.ivar(v)
            if k != 1:
                t = k * t
            e = t if e is None else e + t
        return e

    def real(self, n):
        r = self.m.get(n.id)
        if r is not None:
            return r
        for x in T.topo([n]):
            if x.__class__ is Node:
                if x.id not in self.m:
                    self.m[x.id] = self._real(x)
            elif x.id not in self.bm:
                self.bm[x.id] = self._bool(x)
        return self.m[n.id]

    def bool(self, b):
        if b.__class__ is not B:
            return z3.BoolVal(bool(b))
        r = self.bm.get(b.id)
        if r is not None:
            return r
        for x in T.topo([b]):
            if x.__class__ is Node:
                if x.id not in self.m:
                    self.m[x.id] = self._real(x)
            elif x.id not in self.bm:
                self.bm[x.id] = self._bool(x)
        return self.bm[b.id]

    def _bool(self, b):
        op, a = b.op, b.args
        if op == "not":
            return z3.Not(self.bool(a[0]))
        if op == "and":
            return z3.And(self.bool(a[0]), self.bool(a[1]))
        if op == "or":
            return z3.Or(self.bool(a[0]), self.bool(a[1]))
        if op == "rlt":
            return self.m[a[0].id] < self.m[a[1].id]
        if op == "req":
            return self.m[a[0].id] == self.m[a[1].id]
        if op == "ile":
            return self.lin(a[0]) <= 0
        if op == "ieq":
            return self.lin(a[0]) == 0
        if op == "bv":
            return z3.Bool("b%d" % b.id)
        raise NotImplementedError(op)

    def _real(self, x):
        op, a = x.op, x.args
        if op == "c":
            return z3.RealVal(a[0]) if a[0].__class__ is int else z3.Q(a[0].numerator, a[0].denominator)
        if op == "v":
            r = z3.Real("x%d" % x.id)
            self.vars[x.id] = (x, r)
            k = T.VI.kind.get(x, 0)
            if k == 1:
                self.side.append(r > 0)
            elif k == 2:
                self.side.append(r >= 0)
            if x in T.VI.unit:
                p = self.real(T.VI.unit[x])
                self.side.append(r * r + p * p == 1)
                self.side += [r <= 1, r >= -1, p <= 1, p >= -1]
            if x.args[0].__class__ is tuple and x.args[0][0] == "#int":
                self.side.append(r == z3.ToReal(self.lin(x.args[0][1])))
            return r
        if op == "+":
            return self.m[a[0].id] + self.m[a[1].id]
        if op == "neg":
            return -self.m[a[0].id]
        if op == "*":
            return self.m[a[0].id] * self.m[a[1].id]
        if op == "/":
            q = z3.Real("q%d" % x.id)
            d = self.m[a[1].id]
            self.side += [q * d == self.m[a[0].id], d != 0]
            return q
        if op == "sqrt":
            s = z3.Real("s%d" % x.id)
            self.side += [s >= 0, s * s == self.m[a[0].id]]
            if T.sign(a[0]) == "+":
                self.side.append(s > 0)
            return s
        if op == "ite":
            return z3.If(self.bool(a[0]), self.m[a[1].id], self.m[a[2].id])
        if op == "f":
            key = "f_" + str(x.id)
            r = z3.Real(key)
            self.fs.setdefault(a[0], []).append(x)
            nm = a[0]
            if nm == "hypot":
                p, q = self.m[a[1].id], self.m[a[2].id]
                self.side += [r >= 0, r * r == p * p + q * q]
            elif nm == "tanh":
                p = self.m[a[1].id]
                self.side += [r < 1, r > -1, z3.Implies(p >= 0, r >= 0), z3.Implies(p <= 0, r <= 0)]
            elif nm in ("sin", "cos"):
                self.side += [r <= 1, r >= -1]
                o = T.mk("f", "cos" if nm == "sin" else "sin", a[1])
                if o.id in self.m:
                    self.side.append(r * r + self.m[o.id] * self.m[o.id] == 1)
            elif nm == "exp":
                self.side.append(r > 0)
            elif nm == "pow":
                if T.sign(a[1]) == "+":
                    self.side.append(r > 0)
                elif T.sign(a[1]) == "0+":
                    self.side.append(r >= 0)
            return r
        if op == "sum":
            r = z3.Real("sum%d" % x.id)
            self.has_sum = True
            s = T.sign(x)
            if s == "0+":
                self.side.append(r >= 0)
            return r
        raise NotImplementedError(op)


def z3_check(facts, neg, timeout=10000):
    """is facts & neg unsat?  returns ('unsat'|'sat'|'unknown', model-dict or None)"""
    t = time.time()
    z = Z()
    s = z3.Solver()
    s.set("timeout", timeout)
    es = [z.bool(f) for f in facts] + [z.bool(n) for n in neg]
    for e in es:
        s.add(e)
    z.aliases()
    for e in z.side:
        s.add(e)
    r = s.check()
    TIME["z3"] += time.time() - t
    if r == z3.unsat:
        return "unsat", None, s
    if r == z3.sat:
        if z.has_sum:      # reductions are uninterpreted for the solver: not a counterexample
            return "unknown", None, s
        return "sat", extract_model(z, s.model()), s
    return "unknown", None, s


def extract_model(z, m):
    ints = {}
    for v, e in z.iv.items():
        try:
            ints[v] = m.eval(e, True).as_long()
        except Exception:
            pass
    reals = {}
    for _, (node, e) in z.vars.items():
        val = m.eval(e, True)
        try:
            if z3.is_rational_value(val):
                f = float(val.as_fraction())
            else:
                f = float(val.approx(20).as_fraction())
        except Exception:
            continue
        nm = node.args[0]
        if nm.__class__ is tuple:
            try:
                k = nm[0] + "".join("[%d]" % (a if a.__class__ is int else a.c + sum(c * ints[v] for v, c in a.t)) for a in nm[1:])
            except KeyError:
                continue
        else:
            k = nm
        reals[k] = f
    for v, x in ints.items():
        reals[T.IV.names[v]] = x
    return reals


def cvc5_check(s, timeout=10):
    t = time.time()
    try:
        txt = "(set-logic ALL)\n" + s.to_smt2()
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % (timeout * 1000), "--nl-cov"], input=txt, capture_output=True, text=True, timeout=timeout + 5)
        out = p.stdout.strip().split("\n")[0] if p.stdout.strip() else "unknown"
    except Exception:
        out = "unknown"
    TIME["cvc5"] += time.time() - t
    return out


_lia_cache = {}


def relevant(facts, neg):
    """int-only facts"""
    return [f for f in facts if f.__class__ is B and int_only(f)]


_io = {}


def int_only(b):
    r = _io.get(b.id)
    if r is None:
        if b.op in ("ile", "ieq"):
            r = True
        elif b.op in ("not", "and", "or"):
            r = all(int_only(c) for c in b.args if c.__class__ is B)
        else:
            r = False
        _io[b.id] = r
    return r


def lia_unsat(facts, neg):
    """are the integer facts inconsistent with neg?"""
    if neg.__class__ is not B:
        if not neg:
            return True
        return False
    key = (tuple(f.id for f in facts if f.__class__ is B and int_only(f)), neg.id)
    r = _lia_cache.get(key)
    if r is None:
        t = time.time()
        z = Z()
        s = z3.Solver()
        s.set("timeout", 5000)
        es = [z.bool(f) for f in facts if f.__class__ is B and int_only(f)] + [z.bool(neg)]
        for e in es + z.side:
            s.add(e)
        r = s.check() == z3.unsat
        TIME["lia"] += time.time() - t
        _lia_cache[key] = r
    return r


# ----------------------------------------------------------------------------- proving
_entail = {}


def flat(facts):
    out = []
    for f in facts:
        if f.__class__ is not B:
            continue
        if f.op == "and":
            out += flat(f.args)
        else:
            out.append(f)
    return out


def quick(b, facts_keys):
    """is b decided syntactically by the facts? True/False/None"""
    if b.__class__ is not B:
        return bool(b)
    if b.op == "not":
        r = quick(b.args[0], facts_keys)
        return None if r is None else not r
    if b.op == "and":
        p, q = quick(b.args[0], facts_keys), quick(b.args[1], facts_keys)
        if p is False or q is False:
            return False
        return True if p and q else None
    if b.op == "or":
        p, q = quick(b.args[0], facts_keys), quick(b.args[1], facts_keys)
        if p or q:
            return True
        return False if p is False and q is False else None
    r = facts_keys.get(b.id)
    if r is not None:
        return r
    if b.op == "rlt":
        s = T.sign(T.sub(b.args[1], b.args[0]))
        if s == "+":
            return True
        if s in ("0", "-", "0-"):
            return False
    if b.op == "req":
        s = T.sign(T.sub(b.args[1], b.args[0]))
        if s in ("+", "-"):
            return False
    return None


def fact_keys(facts):
    d = {}
    for f in flat(facts):
        if f.op == "not":
            d[f.args[0].id] = False
        else:
            d[f.id] = True
    return d


def decide(b, facts, timeout=2000):
    """True/False if facts entail b / not b, else None"""
    if b.__class__ is not B:
        return bool(b)
    if b.op == "not" and b.args[0].op in ("rlt", "req"):
        r = decide(b.args[0], facts, timeout)
        return None if r is None else not r
    fk = fact_keys(facts)
    r = quick(b, fk)
    if r is not None:
        return r
    if int_only(b):
        if lia_unsat(facts, T.bnot(b)):
            return True
        if lia_unsat(facts, b):
            return False
        return None
    key = (tuple(f.id for f in facts if f.__class__ is B), b.id, timeout > 0)
    if key in _entail:
        return _entail[key]
    r = None
    # polynomial comparison with known facts
    try:
        nb = poly_bool(b)
        if nb is not None:
            r = nb
        else:
            k = bkey2(b)
            for f in flat(facts):
                g, pol = (f.args[0], False) if f.op == "not" else (f, True)
                if g.op in ("rlt", "req"):
                    kk = bkey2(g)
                    if kk == k:
                        r = pol
                        break
            if r is None:
                r = implied(b, facts)
            if r is None:
                r = interval(b, facts)
            if r is None:
                r = by_signs(b, facts)
    except TooBig:
        pass
    if r is None and timeout and SOLVE:
        if z3_check(facts, [b], timeout)[0] == "unsat":
            r = False
        elif z3_check(facts, [T.bnot(b)], timeout)[0] == "unsat":
            r = True
    _entail[key] = r
    return r


_sg = {}


def pnorm(p):
    """p up to a positive factor: (key, sign)"""
    m = max(p)
    c = Fr(p[m])
    return pkey({k: Fr(v) / abs(c) * (1 if c > 0 else -1) for k, v in p.items()}), 1 if c > 0 else -1


def signed_part(b, pos):
    """lhs - rhs of a comparison without the factors that are known to be positive"""
    n, d = rat(T.sub(b.args[0], b.args[1]))
    if not n or len(n) > 400:
        return None
    mono, rest = content(n)
    (m, c), = mono.items()
    keep = tuple((a, e) for a, e in m if not (_ainfo[a][2] == "+" or e % 2 == 0 and e < 0))
    left = []
    for k, e in d.items():
        r = pnorm(_denp[k])
        if r[0] not in pos or r[1] < 0:
            left.append((k, e))
    key, s = pnorm(rest)
    return (key, keep, tuple(sorted(left))), s * (1 if c > 0 else -1)


def by_signs(b, facts):
    """decide p < 0 or p = 0 where the facts restrict the sign of p, up to factors the facts know to be positive"""
    if b.op not in ("rlt", "req"):
        return None
    fk = tuple(f.id for f in facts if f.__class__ is B)
    t = _sg.get(fk)
    try:
        if t is None:
            fl = [(f.args[0], False) if f.op == "not" else (f, True) for f in flat(facts) if f.__class__ is B]
            fl = [(g, p) for g, p in fl if g.op in ("rlt", "req") and not int_only(g)]
            pos = set()
            for g, p in fl:
                if g.op == "rlt" and p:
                    n, d = rat(T.sub(g.args[1], g.args[0]))
                    if n and not d and len(n) <= 400:
                        k, s = pnorm(n)
                        if s > 0:
                            pos.add(k)
            tab = {}
            for g, p in fl:
                r = signed_part(g, pos)
                if r is None:
                    continue
                ok = {-r[1]} if g.op == "rlt" else {0}
                if not p:
                    ok = {-1, 0, 1} - ok
                tab[r[0]] = tab.get(r[0], {-1, 0, 1}) & ok
            t = _sg[fk] = (pos, tab)
        r = signed_part(b, t[0])
    except (TooBig, AttributeError, KeyError):
        return None
    if r is None or r[0] not in t[1]:
        return None
    have, want = t[1][r[0]], {-r[1]} if b.op == "rlt" else {0}
    return True if have <= want else False if not have & want else None


_cd = {}


def cmp_diff(b):
    """normal form of y - x for x < y, and its leading non-constant monomial"""
    r = _cd.get(b.id)
    if r is None:
        n, d = rat(T.sub(b.args[1], b.args[0]))
        lead = min((m for m in n if m or d), default=None)
        r = _cd[b.id] = (n, d, lead)
    return r


_imp = {}


def implied1(a, f):
    """does the fact f (a comparison or its negation) decide a through  y-x of a = c*(y-x of f) + k ?"""
    g, pos = (f.args[0], False) if f.op == "not" else (f, True)
    if g.op != "rlt":
        return None
    key = (a.id, f.id)
    if key in _imp:
        return _imp[key]
    r = None
    try:
        n, d, lead = cmp_diff(a)
        n2, d2, lead2 = cmp_diff(g)
        if lead is not None and d == d2 and lead in n2 and (d or len(n) - (() in n) == len(n2) - (() in n2)):
            c = n[lead] / n2[lead] if n2[lead].__class__ is Fr or n[lead].__class__ is Fr else Fr(n[lead], n2[lead])
            rest = padd(n, n2, -c)
            if not rest:
                k = 0
            elif not d and len(rest) == 1 and () in rest:
                k = rest[()]
            else:
                k = None
                if d:
                    q = rat_div((rest, d), (pconst(1), {}))
                    if not q[1] and len(q[0]) == 1 and () in q[0]:
                        k = q[0][()]
            if k is not None:
                if pos and c > 0:
                    r = True if k >= 0 else None
                elif pos:
                    r = False if k <= 0 else None
                elif c > 0:
                    r = False if k <= 0 else None
                else:
                    r = True if k > 0 else None
    except (TooBig, TypeError):
        pass
    _imp[key] = r
    return r


def implied(a, facts):
    if a.op != "rlt":
        return None
    for f in flat(facts):
        r = implied1(a, f)
        if r is not None:
            return r
    return None


def tie_equations(facts):
    """polynomials that vanish under the facts: two opposite non-strict comparisons, equalities"""
    fl = flat(facts)
    nonpos = [cmp_diff(f.args[0])[:2] for f in fl if f.op == "not" and f.args[0].op == "rlt"]
    zs = [rat(T.sub(f.args[0], f.args[1]))[0] for f in fl if f.op == "req"]
    out = []
    done = set()
    for _ in range(3):
        red = [(tie_reduce(n, out) if out else n, d) for n, d in nonpos]
        for i, (n, d) in enumerate(red):
            for j in range(i + 1, len(red)):
                n2, d2 = red[j]
                if d != d2 or not n or len(n) != len(n2) or (i, j) in done or set(n) == {()}:
                    continue
                lead = min(m for m in n if m)
                if lead in n2:
                    c = Fr(n[lead]) / Fr(n2[lead])
                    if c < 0 and not padd(n, n2, -c):
                        zs.append(n)
                        done.add((i, j))
        if not zs:
            break
        for z in zs:
            if any(len(m) == 1 and m[0][1] == 1 and not any(a == m[0][0] for m2 in z if m2 is not m for a, _ in m2) for m in z):
                tie_rule(z, out)
                continue
            neg = {}
            for m in z:
                for a, k in m:
                    if k < 0:
                        neg[a] = max(neg.get(a, 0), -k)
            if neg:
                mm = tuple(sorted(neg.items()))
                z = {mmul(m, mm): c for m, c in z.items()}
            tie_rule(z, out)
            for u in {a for m in z for a, k in m if _ainfo[a][0] == "unit"}:
                z2 = reduce(pmul(z, {((u, 1),): 1}))
                if z2:
                    tie_rule(z2, out)
        zs = []
    for i, (m, z) in enumerate(list(out)):
        for m2, z2 in list(out)[i + 1:]:
            if len(m) + len(m2) > 4 or not set(a for a, _ in m) & set(a for a, _ in m2) or len(out) > 12:
                continue
            d, d2 = dict(m), dict(m2)
            l = {a: max(d.get(a, 0), d2.get(a, 0)) for a in set(d) | set(d2)}
            c1 = tuple(sorted((a, k - d.get(a, 0)) for a, k in l.items() if k - d.get(a, 0)))
            c2 = tuple(sorted((a, k - d2.get(a, 0)) for a, k in l.items() if k - d2.get(a, 0)))
            sp = tie_reduce(reduce(padd(pmul(z, {c1: 1}), pmul(z2, {c2: 1}), -1)), out)
            if sp and len(sp) <= 8:
                tie_rule(sp, out)
    return out


def tie_rule(z, out):
    """orient z = 0 as a rewriting rule: a monomial that divides no other one"""
    best = None
    for m, c in z.items():
        if not m or any(k < 0 for _, k in m):
            continue
        if any(m2 is not m and divides(m, m2) for m2 in z):
            continue
        single = len(m) == 1 and m[0][1] == 1 and not any(a == m[0][0] for m2 in z if m2 is not m for a, _ in m2)
        key = (0 if single else 1, -sum(k for _, k in m), m)
        if best is None or key < best[0]:
            best = (key, m, c)
    if best is not None:
        _, m, c = best
        out.append((m, {k: Fr(v) / Fr(c) for k, v in z.items()}))


def divides(m, n):
    d = dict(n)
    return all(d.get(a, 0) >= k for a, k in m)


def tie_reduce(p, ties):
    for _ in range(12):
        changed = False
        for m, z in ties:
            lin = {}
            for m2, c2 in p.items():
                if divides(m, m2):
                    d = dict(m2)
                    for a, k in m:
                        d[a] -= k
                    lin[tuple(sorted((a, k) for a, k in d.items() if k))] = c2
            if lin:
                changed = True
                p = reduce(padd(p, pmul(lin, z), -1))
                if len(p) > 2000:
                    return p
        if not changed:
            break
    return p


def vanish_on_ties(b, facts):
    """x = y by substituting an equation that two opposite non-strict facts give, or facts contradictory under it"""
    ties = tie_equations(facts)
    if not ties:
        return False
    if not tie_reduce(rat(T.sub(b.args[0], b.args[1]))[0], ties):
        return True
    ds = []
    for f in flat(facts):
        g, pos = (f.args[0], False) if f.op == "not" else (f, True)
        if g.op == "rlt":
            n, d, lead = cmp_diff(g)
            if lead is not None:
                n = tie_reduce(n, ties)
                ds.append((n if pos else {m: -c for m, c in n.items()}, d, pos))
    for i, (n, d, s) in enumerate(ds):
        for n2, d2, s2 in ds[i + 1:]:
            if d == d2:
                r = padd(n, n2)
                if d and r:
                    q = rat_div((r, d), (pconst(1), {}))
                    if q[1]:
                        continue
                    r = q[0]
                if not r and (s or s2) or r and set(r) == {()} and r[()] < 0:
                    return True
    return False


_bk = {}


_fb = {}


def fact_bound(f):
    """a fact of the form  atom < c, c <= atom ...: (atom, lower?, c)"""
    r = _fb.get(f.id)
    if r is None:
        r = False
        g, pos = (f.args[0], False) if f.op == "not" else (f, True)
        if g.op == "rlt":
            try:
                n, d, lead = cmp_diff(g)
                if not d and 1 <= len(n) - (() in n) <= 1:
                    m = next(m for m in n if m)
                    if len(m) == 1 and m[0][1] == 1:
                        # n > 0 if pos else n <= 0
                        r = (m[0][0], (n[m] > 0) == pos, Fr(-n.get((), 0)) / n[m])
            except TooBig:
                pass
        _fb[f.id] = r
    return r


def imul(x, y):
    """product of intervals, None = unbounded"""
    c = []
    for p in x:
        for q in y:
            if p is None or q is None:
                if p is None and q is None:
                    return (None, None) if not (x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0) else (x[0] * y[0], None)
                o = q if p is None else p
                if o == 0:
                    c.append(0)
                    continue
                if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0:
                    return (x[0] * y[0], None)
                return (None, None)
            c.append(p * q)
    return (min(c), max(c))


def iatom(a, bounds):
    s = _ainfo[a][2]
    lo, hi = bounds.get(a, (None, None))
    if s in ("+", "0+") and (lo is None or lo < 0):
        lo = Fr(0)
    if s in ("-", "0-") and (hi is None or hi > 0):
        hi = Fr(0)
    return lo, hi


def ipoly(n, bounds):
    lo = hi = Fr(0)
    for m, c in n.items():
        iv = (Fr(c), Fr(c))
        for a, e in m:
            x = iatom(a, bounds)
            if e < 0:
                if x[0] is None or x[0] < 0:
                    return None, None
                x = (0 if x[1] is None else 1 / x[1] if x[1] else 0, 1 / x[0] if x[0] else None)
                e = -e
            if e % 2 == 0 and not (x[0] is not None and x[0] >= 0):
                if x[0] is None or x[1] is None:
                    x = (Fr(0), None)
                else:
                    k = max(abs(x[0]), abs(x[1]))
                    x = (Fr(0), k * k)
                e //= 2
            for _ in range(e):
                iv = imul(iv, x)
        lo = None if lo is None or iv[0] is None else lo + iv[0]
        hi = None if hi is None or iv[1] is None else hi + iv[1]
        if lo is None and hi is None:
            break
    return lo, hi


def interval(b, facts):
    """decide x < y from the bounds the facts put on single inputs"""
    if b.op not in ("rlt", "req"):
        return None
    n, d, lead = cmp_diff(b)
    if len(n) > 200:
        return None
    bounds = {}
    for f in flat(facts):
        r = fact_bound(f)
        if r:
            a, low, c = r
            lo, hi = bounds.get(a, (None, None))
            if low:
                lo = c if lo is None or c > lo else lo
            else:
                hi = c if hi is None or c < hi else hi
            bounds[a] = (lo, hi)
    if not bounds:
        return None
    lo, hi = ipoly(n, bounds)
    if b.op == "req":
        return False if lo is not None and lo > 0 or hi is not None and hi < 0 else None
    for k, e in d.items():
        if e % 2:
            l2, h2 = ipoly(_denp[k], bounds)
            if l2 is None or l2 < 0:
                return None
    if lo is not None and lo > 0:
        return True
    if hi is not None and hi <= 0:
        return False
    return None


def bkey2(b):
    r = _bk.get(b.id)
    if r is None:
        r = bkey(b)
        _bk[b.id] = r
    return r


def nonneg(n, facts):
    """cheap: is n >= 0 by its factors and the facts"""
    if T.sign(n) in ("+", "0+", "0"):
        return True
    if decide(T.rlt(n, T.ZERO), facts, 0) is False:
        return True
    if n.op == "*":
        if n.args[0] is n.args[1]:
            return True
        return nonneg(n.args[0], facts) and nonneg(n.args[1], facts)
    if n.op == "+":
        return nonneg(n.args[0], facts) and nonneg(n.args[1], facts)
    if n.op == "/":
        return nonneg(n.args[0], facts) and nonneg(n.args[1], facts)
    return False


def poly_bool(b):
    if b.op == "rlt":
        n, d = rat(T.sub(b.args[0], b.args[1]))
        if not n:
            return False
        if not d and len(n) == 1 and () in n:
            return n[()] < 0
    elif b.op == "req":
        n, d = rat(T.sub(b.args[0], b.args[1]))
        if not n:
            return True
        if not d and len(n) == 1 and () in n:
            return False
    return None


def ite_conds(n):
    """conditions of reachable ite nodes, inner first"""
    out = []
    seen = set()
    for x in T.topo([n]):
        if x.__class__ is Node and x.op == "ite":
            c = x.args[0]
            if c.id not in seen:
                seen.add(c.id)
                out.append(c)
    return out


def atoms_of(b, out):
    if b.op in ("not", "and", "or"):
        for c in b.args:
            if c.__class__ is B:
                atoms_of(c, out)
    else:
        out.append(b)


def assume_in(roots, b, val):
    """replace boolean b by val in terms"""
    return T.transform(roots, lambda n: val if n is b else None)


class Result:
    def __init__(self, ok, how="", model=None, detail=""):
        self.ok = ok          # True / False (refuted) / None (unknown)
        self.how = how
        self.model = model
        self.detail = detail


def prove(b, facts, depth=0, budget=None, timeout=10000):
    """prove facts |- b"""
    if budget is None:
        budget = {"splits": 512, "t": time.time() + 240}
    if b.__class__ is not B:
        return Result(True, "trivial") if b else refute_path(facts)
    if b.op == "and":
        r = prove(b.args[0], facts, depth, budget, timeout)
        if r.ok is not True:
            return r
        r2 = prove(b.args[1], facts, depth, budget, timeout)
        return r2 if r2.ok is not True or r.how == "trivial" else r
    q = quick(b, fact_keys(facts))
    if q is True:
        return Result(True, "sign")
    if int_only(b):
        if lia_unsat(facts, T.bnot(b)):
            return Result(True, "lia")
        st, m, _ = z3_check(facts, [T.bnot(b)], timeout)
        return Result(True, "z3") if st == "unsat" else Result(False if st == "sat" else None, "z3", m)
    # 1. normal form
    core, pol = (b.args[0], False) if b.op == "not" else (b, True)
    try:
        if core.op == "req" and pol:
            t0 = time.time()
            z = is_zero(T.sub(core.args[0], core.args[1]))
            if z:
                return Result(True, "poly")
        elif core.op in ("rlt", "req"):
            pb = poly_bool(core)
            if pb is not None and pb == pol:
                return Result(True, "poly")
            if core.op == "rlt":
                s = poly_sign(T.sub(core.args[1], core.args[0]))
                if pol and s == "+":
                    return Result(True, "sign")
                if not pol and s in ("0-", "-", "0"):
                    return Result(True, "sign")
            k = bkey2(core)
            for f in flat(facts):
                g, p2 = (f.args[0], False) if f.op == "not" else (f, True)
                if g.op == core.op and p2 == pol and bkey2(g) == k:
                    return Result(True, "sign")
    except TooBig:
        pass
    if time.time() > budget["t"]:
        return Result(None, "budget")
    if depth == 0 and core.op == "req":
        nb = clear_sqrt(b, facts)
        if nb is not b:
            if nb.__class__ is not B:
                return Result(True, "poly") if nb else refute_path(facts)
            b = nb
            core, pol = (b.args[0], False) if b.op == "not" else (b, True)
            try:
                if pol and is_zero(T.sub(core.args[0], core.args[1])):
                    return Result(True, "poly")
            except TooBig:
                pass
        if pol and any(n.__class__ is Node and n.op == "sqrt" for n in T.topo([b])):
            how = prove_cut(b, facts, CUT)
            if how:
                return Result(True, how)
    # 2. case split
    conds = ite_conds(b)
    if conds and depth == 0 and core.op == "req" and pol:
        if len(conds) > 4 and cut_poly(b, facts, budget):
            return Result(True, "split")
        try:
            if split_poly(b, facts, [4000, time.time() + 20]):
                return Result(True, "split")
        except TooBig:
            pass
        if len(conds) > CUT and prove_cut(b, facts, 64):
            return Result(True, "split")
    if conds:
        ats = []
        atoms_of(conds[0], ats)
        a = ats[0]
        # inside sums we cannot split on conditions over the bound variable
        bv = [v for v in T.ivars_of(a) if T.IV.names[v].startswith("$")]
        if not bv:
            budget["splits"] -= 1
            if budget["splits"] < 0:
                return Result(None, "splits")
            d = decide(a, facts, 1000)
            how = "split"
            for val in ((True, False) if d is None else (d,)):
                nb = assume_in([b], a, val)[0]
                f2 = facts if d is not None else facts + [a if val else T.bnot(a)]
                f2 = [assume_in([f], a, val)[0] if f is not a and not (f.op == "not" and f.args[0] is a) else f for f in f2 if f.__class__ is B]
                f2 = [f for f in f2 if f.__class__ is B or f is False]
                if any(f is False for f in f2):
                    continue
                r = prove(nb, f2, depth + 1, budget, timeout)
                if r.ok is not True:
                    return r
            return Result(True, how)
    if b.op == "or":
        # try each disjunct under the negation of the other
        r = prove(b.args[0], facts + [T.bnot(b.args[1])], depth + 1, budget, timeout)
        return r
    if b.op == "not" and core.op in ("and",):
        x, y = core.args
        return prove(T.bnot(x), facts + [y] if y.__class__ is B else facts, depth + 1, budget, timeout)
    if b.op == "not" and core.op == "or":
        return prove(T.band(T.bnot(core.args[0]), T.bnot(core.args[1])), facts, depth, budget, timeout)
    # 3. solvers, on normal forms where possible
    goal = T.bnot(b)
    st, m, s = z3_check(facts, [goal], timeout)
    if st == "unsat":
        return Result(True, "z3")
    if st == "sat":
        return Result(False, "z3", m)
    c = cvc5_check(s, max(2, timeout // 1000))
    if c == "unsat":
        return Result(True, "cvc5")
    return Result(False if c == "sat" else None, "z3+cvc5")


def clear_sqrt(b, facts):
    """sqrt(x / y) = sqrt(x y) / y where the facts say y > 0"""
    pos = None

    def leaf(n):
        nonlocal pos
        if n.__class__ is Node and n.op == "sqrt" and n.args[0].op == "/" and T.sign(n.args[0].args[1]) != "+":
            x, y = n.args[0].args
            if pos is None:
                pos = set()
                for f in flat(facts):
                    if f.__class__ is B and f.op == "rlt":
                        try:
                            pos.add(bkey2(f))
                        except TooBig:
                            pass
            try:
                if bkey2(T.rlt(T.ZERO, y)) in pos:
                    return T.div(T.sqrt(T.mul(x, y)), y)
            except (TooBig, AttributeError):
                pass
        return None
    return T.transform([b], leaf)[0]


def cut_sums(b, facts):
    """a generalisation: innermost sums of plain products become arbitrary values, consistently in goal and facts"""
    plain, fresh = {}, {}
    roots = [b] + [f for f in facts if f.__class__ is B]
    for n in T.topo(roots):
        if n.__class__ is Node:
            plain[n.id] = n.op in ("v", "c") or n.op in ("*", "neg") and all(plain.get(c.id) for c in n.args)

    def leaf(n):
        if n.__class__ is Node and n.op == "+" and all(plain.get(c.id) for c in n.args):
            k = rkey(rat(n))
            if k not in fresh:
                fresh[k] = T.var("cut sum %d" % n.id)
            return fresh[k]
        return None
    r = T.transform(roots, leaf)
    return r[0], [f for f in r[1:] if f.__class__ is B]


def prove_cut(b, facts, most):
    """prove the generalisations of cut_sums, with at most that many case distinctions"""
    c, cf = cut_sums(b, facts)
    for _ in range(2):
        if c is True:
            return "poly"
        if c.__class__ is not B:
            return None
        c2 = clear_sqrt(c, cf)
        try:
            if c2 is True or c2.__class__ is B and c2.op == "req" and is_zero(T.sub(c2.args[0], c2.args[1])):
                return "poly"
            if c2.__class__ is B and 0 < len(ite_conds(c2)) <= most and split_poly(c2, cf, [200, time.time() + 5]):
                return "split"
        except TooBig:
            pass
        c, cf = cut_sums(c, cf)
    return None


def split_poly(b, facts, budget):
    """case distinctions with polynomial identities in every case, feasible or not; no solver"""
    if b.__class__ is not B:
        return b is True
    core, pol = (b.args[0], False) if b.op == "not" else (b, True)
    if core.op != "req" or not pol:
        return False
    if is_zero(T.sub(core.args[0], core.args[1])):
        return True
    conds = ite_conds(b)
    if not conds:
        return vanish_on_ties(core, facts) or z3_check(facts, [], 1000)[0] == "unsat"
    ats = []
    atoms_of(conds[0], ats)
    a = ats[0]
    if [v for v in T.ivars_of(a) if T.IV.names[v].startswith("$")]:
        return False
    q = quick(a, fact_keys(facts))
    if q is None:
        q = poly_bool(a)
    if q is None:
        q = implied(a, facts)
    if q is None:
        q = by_signs(a, facts)
    for val in ((True, False) if q is None else (q,)):
        budget[0] -= 1
        if budget[0] < 0 or time.time() > budget[1]:
            return False
        nb = assume_in([b], a, val)[0]
        f2 = facts if q is not None else facts + [clear_ratio(a if val else T.bnot(a), facts)]
        f2 = [assume_in([f], a, val)[0] if f is not a and not (f.op == "not" and f.args[0] is a) else f for f in f2 if f.__class__ is B]
        if any(f is False for f in f2):
            continue
        if not split_poly(nb, [f for f in f2 if f.__class__ is B], budget):
            return False
    return True


def clear_ratio(b, facts):
    """x/y < c multiplied out where the sign of y follows from the facts"""
    core, pol = (b.args[0], False) if b.op == "not" else (b, True)
    if core.op != "rlt":
        return b
    for i in (0, 1):
        x, c = core.args[i], core.args[1 - i]
        if x.op == "/":
            n, d = x.args
            s = decide(T.rlt(T.ZERO, d), facts, 300)
            if s is None or (s is False and decide(T.req(T.ZERO, d), facts, 300) is not False):
                return b
            l, r = n, T.mul(c, d)
            if (i == 1) != (not s):
                l, r = r, l
            k = T.rlt(l, r)
            if k.__class__ is B:
                return k if pol else T.bnot(k)
    return b


def cut_poly(b, facts, budget):
    """prove a generalisation: terms that hold at most t case distinctions become arbitrary values, for falling t"""
    bits, size = {}, {}
    for n in T.topo([b]):
        m = 0
        for c in T.children(n):
            if c.__class__ in (Node, B):
                m |= bits[(c.__class__, c.id)]
        if n.__class__ is Node and n.op == "ite":
            m |= 1 << n.id
        bits[(n.__class__, n.id)] = m
    cnt = {k: bin(m).count("1") for k, m in bits.items()}
    top = cnt[(B, b.id)]
    ts = sorted({cnt[(Node, n.id)] for n in T.topo([b]) if n.__class__ is Node and n.op != "c" and 0 < cnt[(Node, n.id)] < top}, reverse=True)
    for t in ts:
        if time.time() > budget["t"]:
            return False
        g = generalise(b, lambda n: n.__class__ is Node and 0 < cnt[(Node, n.id)] <= t)
        try:
            if g.__class__ is not B:
                if g is True:
                    return True
                continue
            if split_poly(g, [], [1000, time.time() + 3]):
                return True
        except TooBig:
            pass
    return False


def generalise(b, pick):
    """maximal picked subterms replaced by fresh values"""
    memo, fresh = {}, {}

    def go(n):
        k = (n.__class__, n.id)
        r = memo.get(k)
        if r is None:
            if pick(n):
                r = T.var("$g%d" % len(memo))
            else:
                ch = T.children(n)
                new = [go(c) if c.__class__ in (Node, B) else c for c in ch]
                r = n if not ch or all(x is y for x, y in zip(new, ch)) else T.rebuild(n, new)
            memo[k] = r
        return r
    return go(b)


def refute_path(facts):
    """goal is false: provable only if the facts are contradictory"""
    st, m, s = z3_check(facts, [], 10000)
    if st == "unsat":
        return Result(True, "z3")
    if st == "sat":
        return Result(False, "z3", m)
    if cvc5_check(s, 10) == "unsat":
        return Result(True, "cvc5")
    return Result(None, "z3")


def poly_sign(n):
    """sign from normal form: all terms of one sign"""
    p, d = rat(n)
    if not p:
        return "0"
    for k, e in d.items():
        if e % 2:
            dp = _denp[k]
            if not all(c > 0 and mono_nonneg(m) for m, c in dp.items()):
                return "?"
    pos = all(c > 0 and mono_nonneg(m) for m, c in p.items())
    if pos:
        return "+" if any(mono_sign(m) == "+" and all(_ainfo[a][2] == "+" for a, _ in m) for m in p) else "0+"
    ng = all(c < 0 and mono_nonneg(m) for m, c in p.items())
    if ng:
        return "-" if any(all(_ainfo[a][2] == "+" for a, _ in m) for m in p) else "0-"
    return "?"


def mono_nonneg(m):
    for a, e in m:
        if e % 2 and _ainfo[a][2] not in ("+", "0+"):
            return False
    return True


def near(a, b, tol, facts=(), budget=None):
    """coefficient-wise closeness of two rational normal forms, in every case of the conditions they hold"""
    d = rat(T.sub(a, b))
    if not d[0]:
        return True
    conds = ite_conds(T.req(a, b)) if facts else []
    if not conds:
        sa = rat(a)
        scale = max([1] + [abs(c) for c in sa[0].values()])
        return all(abs(c) <= Fr(tol) * scale for c in d[0].values())
    if budget is None:
        budget = [64, time.time() + 20]
    ats = []
    atoms_of(conds[0], ats)
    at = ats[0]
    q = quick(at, fact_keys(facts))
    if q is None:
        q = poly_bool(at)
    if q is None:
        q = decide(at, list(facts), 1000)
    for val in ((True, False) if q is None else (q,)):
        budget[0] -= 1
        if budget[0] < 0 or time.time() > budget[1]:
            return False
        x, y = assume_in([a, b], at, val)
        if not near(x, y, tol, facts if q is not None else list(facts) + [at if val else T.bnot(at)], budget):
            return False
    return True
