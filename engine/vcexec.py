"""Symbolic executor / VC generator over the JSON dump of an LLVM module.

Concrete values are Python ints / floats; symbolic ones are terms.Lin (integers), terms.Node (reals),
terms.B (conditions).  Pointers are (Obj, offset).  Loops whose trip count is symbolic are handled by a loop rule
(generic iteration + frame and non-interference obligations), all others are executed."""
import os, math, struct, sys
from fractions import Fraction as Fr
import terms as T
import prove as P
from terms import Node, Lin, B

sys.setrecursionlimit(20000)



class Parts:
    """several members moved by one integer load and store"""
    __slots__ = ("cells",)

    def __init__(self, cells):
        self.cells = cells

class Unsupported(Exception):
    pass


class CppThrow(Exception):
    def __init__(self, what):
        self.what = what


class PathAbort(Exception):
    """path infeasible / assumption false"""


class PathDone(Exception):
    """abnormal end of the path that has already been reported"""


class ProbeHit(Exception):
    def __init__(self, cond, blk, t, f):
        self.cond, self.blk, self.t, self.f = cond, blk, t, f


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Poison:
    def __repr__(self):
        return "poison"


POISON = Poison()      # left by a loop, value not determined: reading it is unsupported


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, n):
        self.name = n

    def __eq__(self, o):
        return o.__class__ is FnPtr and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class SBit:
    """an integer of which only the sign bit is known"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Obj:
    __slots__ = ("id", "name", "size", "cells", "layers", "zero", "alive", "kind", "ro")

    def __init__(self, id, name, size, kind):
        self.id = id
        self.name = name
        self.size = size
        self.cells = {}
        self.layers = None
        self.zero = False
        self.alive = True
        self.kind = kind
        self.ro = False

    def __repr__(self):
        return "<%s#%d>" % (self.name, self.id)

    def __lt__(self, o):
        return self.id < o.id


class Layer:
    __slots__ = ("kind", "a", "serial")

    def __init__(self, kind, a, serial):
        self.kind = kind
        self.a = a
        self.serial = serial


class Explorer:
    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.forks = 0

    def next(self):
        while self.prefix and self.prefix[-1] is False:
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1] = False
        self.pos = 0
        return True


MASK = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128, 96, 24, 48, 40, 56)}
SIZES = {"d": 8, "p": 8, "f": 4, "x": 16, "i1": 1, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16}


def width(t):
    return int(t[1:])


def tsize(t):
    if isinstance(t, str):
        if t in SIZES:
            return SIZES[t]
        return (width(t) + 7) // 8
    return max([o + tsize(x) for o, x in t[1:]] or [0])


def sgn(c, w):
    return c - (1 << w) if c >> (w - 1) else c


# ----------------------------------------------------------------------------------------------------- code generation
class Function:
    pass


def v_isint(v, ty):
    return ty != 'p' and v.__class__ is not tuple


DEBUG = os.environ.get('VC_DEBUG')


class Machine:
    def __init__(self, mod, opts=None):
        self.mod = mod
        self.fn = {}
        self.opts = opts or {}
        P.SOLVE = not self.opts.get("nosolve")
        P.CUT = 64 if self.opts.get("cut") else 4
        self.ext_used = set()
        self.called = set()
        self.oblig_cache = {}
        self.results = []           # (name, Result, where)
        self.failures = []
        self.inputs = {}
        self.notes = set()
        self.npaths = 0
        self.ncover = 0
        self.symloops = 0
        self.tfact = {}
        self.fuel0 = self.opts.get("fuel", 60_000_000)
        self.intrin = {}
        import models
        models.install(self)
        self.reset()

    # ------------------------------------------------------------------ state
    def reset(self):
        self.nobj = 0
        self.serial = 0
        self.globals = {}
        self.pc = []
        self.journal = None
        self.rlog = None
        self.wset = None
        self.loop_obj_mark = 0
        self.loop_serial = 0
        self.frames = []
        self.probe = None
        self.symbolic = False
        self.names = {}
        self.nundef = 0
        self.kmodes = {}
        self.static = {}

    def new_obj(self, name, size, kind):
        o = Obj(self.nobj, name, size, kind)
        self.nobj += 1
        return o

    def glob(self, name):
        o = self.globals.get(name)
        if o is None:
            g = self.mod["globals"].get(name)
            if g is None:
                raise Unsupported("global " + name)
            o = self.new_obj("@" + name, g["size"], "global")
            self.globals[name] = o
            o.zero = True
            if g["ext"]:
                o.size = max(o.size, 4096)
                self.ext_used.add("data:" + name)
            for off, t, c in g["init"]:
                o.cells[off] = (tsize(t), self.cval(c))
            o.ro = bool(g["const"])
        return o

    def cval(self, c):
        k = c[0]
        if k == "i":
            return c[1]
        if k == "f":
            return struct.unpack(">d", bytes.fromhex(c[1]))[0]
        if k == "u":
            return self.undef_of(c[1])
        if k == "fn":
            return FnPtr(c[1])
        if k == "g":
            return (self.glob(c[1]), c[2])
        if k == "+":
            return self.padd(self.cval(c[1]), c[2])
        if k == "z":
            return self.zero_of(c[1])
        if k == "a":
            return tuple(self.cval(x) for x in c[1:])
        if k == "ce":
            a, b = self.cval(c[2]), self.cval(c[3])
            return self.isub(a, b, 64) if c[1] == "sub" else self.iadd(a, b, 64)
        raise Unsupported("constant %r" % (c,))

    def undef_of(self, t):
        if isinstance(t, list):
            return tuple(self.undef_of(x) for _, x in t[1:])
        return UNDEF

    def zero_of(self, t):
        if isinstance(t, list):
            return tuple(self.zero_of(x) for _, x in t[1:])
        return 0.0 if t in ("d", "f", "x") else 0

    # ------------------------------------------------------------------ compile
    def get(self, name):
        f = self.fn.get(name)
        if f is None:
            d = self.mod["functions"].get(name)
            if d is None:
                return None
            f = self.compile(name, d)
            self.fn[name] = f
        return f

    def compile(self, name, d):
        F = Function()
        F.name = name
        F.nargs = d["nargs"]
        F.nregs = d["nregs"]
        F.byval = d["byval"]
        F.ret = d["ret"]
        consts = []
        # constants that involve globals must be resolved per path: use M.cval at run time through a per-path cache
        src = []
        env = {"M": self, "UNDEF": UNDEF, "Node": Node, "Lin": Lin, "math": math}

        def opnd(v):
            if isinstance(v, int):
                return "R[%d]" % v
            k = v[0]
            if k == "i":
                return str(v[1])
            if k == "f":
                x = struct.unpack(">d", bytes.fromhex(v[1]))[0]
                if x == x and abs(x) != math.inf:
                    return repr(x) if x >= 0 and not (x == 0 and math.copysign(1, x) < 0) else "(%r)" % x
                n = "K%d" % len(env)
                env[n] = x
                return n
            if k == "fn":
                n = "K%d" % len(env)
                env[n] = FnPtr(v[1])
                return n
            if k == "u" and isinstance(v[1], str):
                return "UNDEF"
            n = "K%d" % len(env)
            env[n] = v
            return "M.cval(%s)" % n

        phis = {}
        succs = {}
        F.condbr = {}
        for bi, blk in enumerate(d["blocks"]):
            L = ["def b%d(R):" % bi]
            ap = L.append
            ok = False
            for ins in blk:
                op, dst, ty = ins[0], ins[1], ins[2]
                D = "R[%d]" % dst
                a = ins[3:]
                if op == "phi":
                    for pb, v in a:
                        phis.setdefault((pb, bi), []).append((dst, opnd(v)))
                    continue
                if op in ("fadd", "fsub", "fmul"):
                    x, y = opnd(a[0]), opnd(a[1])
                    s = {"fadd": "+", "fsub": "-", "fmul": "*"}[op]
                    ap("x=%s;y=%s" % (x, y))
                    ap("%s=x%sy if x.__class__ is float and y.__class__ is float else M.%s(x,y)" % (D, s, op))
                elif op == "fdiv":
                    ap("%s=M.fdiv(%s,%s)" % (D, opnd(a[0]), opnd(a[1])))
                elif op == "fneg":
                    ap("x=%s" % opnd(a[0]))
                    ap("%s=-x if x.__class__ is float else M.fneg(x)" % D)
                elif op == "frem":
                    ap("%s=M.frem(%s,%s)" % (D, opnd(a[0]), opnd(a[1])))
                elif op in ("add", "sub", "mul"):
                    w = width(ty)
                    s = {"add": "+", "sub": "-", "mul": "*"}[op]
                    ap("x=%s;y=%s" % (opnd(a[0]), opnd(a[1])))
                    ap("%s=(x%sy)&%d if x.__class__ is int and y.__class__ is int else M.i%s(x,y,%d)" % (D, s, MASK[w], op, w))
                elif op in ("and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                    ap("%s=M.i_%s(%s,%s,%d)" % (D, op, opnd(a[0]), opnd(a[1]), width(ty)))
                elif op == "icmp":
                    pred, ct = a[0], a[1]
                    x, y = opnd(a[2]), opnd(a[3])
                    w = 64 if ct == "p" else width(ct)
                    ap("x=%s;y=%s" % (x, y))
                    if pred in ("eq", "ne", "ult", "ule", "ugt", "uge"):
                        s = {"eq": "==", "ne": "!=", "ult": "<", "ule": "<=", "ugt": ">", "uge": ">="}[pred]
                        ap("%s=(1 if x%sy else 0) if x.__class__ is int and y.__class__ is int else M.icmp('%s',x,y,%d)" % (D, s, pred, w))
                    else:
                        s = {"slt": "<", "sle": "<=", "sgt": ">", "sge": ">="}[pred]
                        h = 1 << (w - 1)
                        ap("%s=(1 if (x^%d)%s(y^%d) else 0) if x.__class__ is int and y.__class__ is int else M.icmp('%s',x,y,%d)" % (D, h, s, h, pred, w))
                elif op == "fcmp":
                    ap("%s=M.fcmp('%s',%s,%s)" % (D, a[0], opnd(a[2]), opnd(a[3])))
                elif op == "select":
                    ap("c=%s" % opnd(a[0]))
                    ap("%s=(%s if c else %s) if c.__class__ is int else M.select(c,%s,%s,%r)" % (D, opnd(a[1]), opnd(a[2]), opnd(a[1]), opnd(a[2]), ty if isinstance(ty, str) else "agg"))
                elif op == "alloca":
                    n = a[1]
                    if n == ["i", 1, 32] or n == ["i", 1, 64]:
                        ap("%s=(M.new_obj('alloca',%d,'stack'),0)" % (D, a[0]))
                    else:
                        ap("%s=(M.new_obj('alloca',M.imul(%s,%d,64),'stack'),0)" % (D, opnd(n), a[0]))
                elif op == "load":
                    if isinstance(ty, str):
                        ap("%s=M.load(%s,%d,%r)" % (D, opnd(a[0]), tsize(ty), ty))
                    else:
                        nm = "K%d" % len(env)
                        env[nm] = ty
                        ap("%s=M.loadagg(%s,%s)" % (D, opnd(a[0]), nm))
                elif op == "store":
                    st = a[0]
                    if isinstance(st, str):
                        ap("M.store(%s,%s,%d)" % (opnd(a[2]), opnd(a[1]), tsize(st)))
                    else:
                        nm = "K%d" % len(env)
                        env[nm] = st
                        ap("M.storeagg(%s,%s,%s)" % (opnd(a[2]), opnd(a[1]), nm))
                elif op == "getelementptr":
                    if a[0] == "badgep":
                        ap("raise M.unsup('gep')")
                        continue
                    base, co, vo = a[0], a[1], a[2]
                    ap("p=%s" % opnd(base))
                    if not vo:
                        ap("%s=(p[0],p[1]+%d) if p.__class__ is tuple and p[1].__class__ is int else M.padd(p,%d)" % (D, co, co))
                    else:
                        ap("o=%d" % co)
                        for v, sc, w in vo:
                            ap("i=%s" % opnd(v))
                            ap("o=o+((i^%d)-%d)*%d if i.__class__ is int and o.__class__ is int else M.goff(o,i,%d,%d)" % (1 << (w - 1), 1 << (w - 1), sc, sc, w))
                        ap("%s=(p[0],p[1]+o) if p.__class__ is tuple and p[1].__class__ is int and o.__class__ is int else M.padd(p,o)" % D)
                elif op in ("zext", "sext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast"):
                    st = a[0]
                    if op in ("fpext", "ptrtoint", "inttoptr"):
                        ap("%s=%s" % (D, opnd(a[1])))
                    elif op == "zext":
                        ap("x=%s" % opnd(a[1]))
                        ap("%s=x if x.__class__ is int else M.zext(x,%d,%d)" % (D, width(st), width(ty)))
                    else:
                        ap("%s=M.cast('%s',%s,%r,%r)" % (D, op, opnd(a[1]), st if isinstance(st, str) else "agg", ty if isinstance(ty, str) else "agg"))
                elif op == "freeze":
                    ap("%s=%s" % (D, opnd(a[0])))
                elif op == "extractvalue":
                    e = opnd(a[0])
                    ap("x=%s" % e)
                    for i in a[1]:
                        ap("x=x[%d]" % i)
                    ap("%s=x" % D)
                elif op == "insertvalue":
                    ap("%s=M.insertvalue(%s,%s,%r)" % (D, opnd(a[0]), opnd(a[1]), a[2]))
                elif op == "extractelement":
                    ap("%s=(%s)[%s]" % (D, opnd(a[0]), opnd(a[1])))
                elif op == "insertelement":
                    ap("%s=M.insertvalue(%s,%s,[%s])" % (D, opnd(a[0]), opnd(a[1]), opnd(a[2])))
                elif op == "shufflevector":
                    ap("x=tuple(%s)+tuple(%s);%s=tuple(x[i] if i>=0 else UNDEF for i in %r)" % (opnd(a[0]), opnd(a[1]), D, a[2]))
                elif op in ("call", "invoke"):
                    callee = a[0]
                    args = "[" + ",".join(opnd(x) for x in a[1]) + "]"
                    if not isinstance(callee, int) and callee[0] == "fn":
                        nm = callee[1]
                        c = "M.call(%r,%s)" % (nm, args)
                    elif not isinstance(callee, int) and callee[0] == "??":
                        c = "M.asm()"
                    else:
                        c = "M.calli(%s,%s)" % (opnd(callee), args)
                    if dst >= 0:
                        ap("%s=%s" % (D, c))
                    else:
                        ap(c)
                    if op == "invoke":
                        ap("return %d" % a[2])
                        succs.setdefault(bi, []).append(a[2])
                        ok = True
                elif op == "br":
                    if len(a) == 1:
                        ap("return %d" % a[0])
                        succs.setdefault(bi, []).append(a[0])
                    else:
                        ap("c=%s" % opnd(a[0]))
                        ap("return (%d if c else %d) if c.__class__ is int and not M.hook else M.branch(c,%d,%d,%d)" % (a[1], a[2], a[1], a[2], bi))
                        succs.setdefault(bi, []).extend([a[1], a[2]])
                    ok = True
                elif op == "switch":
                    cs = a[2]
                    nm = "K%d" % len(env)
                    env[nm] = [(c[1], b) for c, b in cs]
                    ap("return M.switch(%s,%s,%d,%d)" % (opnd(a[0]), nm, a[1], bi))
                    succs.setdefault(bi, []).extend([a[1]] + [b for _, b in cs])
                    ok = True
                elif op == "ret":
                    if a:
                        ap("R[%d]=%s" % (F.nregs, opnd(a[0])))
                    ap("return -1")
                    ok = True
                elif op == "unreachable":
                    ap("M.unreachable()")
                    ap("return -1")
                    ok = True
                elif op == "landingpad":
                    ap("M.landing()")
                elif op in ("resume",):
                    ap("raise M.unsup('resume')")
                    ok = True
                elif op in ("fence",):
                    pass
                elif op == "atomicrmw" or op == "cmpxchg":
                    ap("raise M.unsup('%s')" % op)
                else:
                    ap("raise M.unsup('%s')" % op)
            if len(L) == 1:
                ap("pass")
            src.append("\n  ".join(L))
        exec(compile("\n".join(src), "<%s>" % name[:60], "exec"), env)
        F.blocks = [env["b%d" % i] for i in range(len(d["blocks"]))]
        # edges
        F.edges = {}
        esrc = []
        for (pb, sb), mv in phis.items():
            en = "e_%d_%d" % (pb, sb)
            if len(mv) == 1:
                esrc.append("def %s(R):\n  R[%d]=%s" % (en, mv[0][0], mv[0][1]))
            else:
                esrc.append("def %s(R):\n  %s=%s" % (en, ",".join("R[%d]" % m[0] for m in mv), ",".join(m[1] for m in mv)))
        exec(compile("\n".join(esrc), "<%s edges>" % name[:60], "exec"), env)
        for (pb, sb) in phis:
            F.edges[(pb, sb)] = env["e_%d_%d" % (pb, sb)]
        F.phi_regs = {}
        F.phi_ty = {}
        for bi, blk in enumerate(d["blocks"]):
            ps = [(i[1], i[2]) for i in blk if i[0] == "phi"]
            if ps:
                F.phi_regs[bi] = ps
        F.succs = succs
        F.joins = {}
        F.returns = {bi: any(i[0] == "ret" for i in blk) for bi, blk in enumerate(d["blocks"])}
        self.loops(F, len(d["blocks"]))
        return F

    def loops(self, F, n):
        """natural loops: header -> set of blocks"""
        F.loops = {}
        if n == 0:
            return
        # dominators (iterative, small CFGs)
        preds = {i: [] for i in range(n)}
        for b, ss in F.succs.items():
            for s in ss:
                preds[s].append(b)
        reach = {0}
        st = [0]
        order = []
        while st:
            b = st.pop()
            order.append(b)
            for s in F.succs.get(b, []):
                if s not in reach:
                    reach.add(s)
                    st.append(s)
        dom = {b: set(reach) for b in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [p for p in preds[b] if p in reach]
                nd = set.intersection(*[dom[p] for p in ps]) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        for b in reach:
            for s in F.succs.get(b, []):
                if s in dom[b]:      # back edge b -> s
                    body = F.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in preds[x] if p in reach)

    # ------------------------------------------------------------------ running
    def unsup(self, w):
        return Unsupported(w)

    def asm(self):
        raise Unsupported("inline asm")

    def landing(self):
        raise Unsupported("landing pad reached")

    def unreachable(self):
        raise PathDone("unreachable")

    def call(self, name, args):
        m = self.intrin.get(name)
        if m is not None:
            return m(args)
        f = self.fn.get(name) or self.get(name)
        if f is None:
            return self.external(name, args)
        return self.run(f, args)

    def calli(self, fp, args):
        if fp.__class__ is FnPtr:
            return self.call(fp.name, args)
        if fp.__class__ is tuple and fp[0].name.startswith("@"):
            return self.call(fp[0].name[1:], args)
        self.violation("call through an invalid function pointer", "memory")

    def external(self, name, args):
        m = self.models_external(name, args)
        return m

    def run(self, F, args):
        R = [None] * (F.nregs + 1)
        for i in range(F.nargs):
            v = args[i]
            bv = F.byval[i]
            if bv:
                o = self.new_obj("byval", bv, "stack")
                self.memcpy((o, 0), v, bv)
                v = (o, 0)
            R[i] = v
        self.fuel_calls += 1
        return self.run_from(F, R, 0)

    def run_from(self, F, R, cur, stop=None, stop_blk=-1):
        """run until return; if `stop` is a set of blocks (a loop), stop when the header is reached again or the loop is left;
        returns ('back'|'exit', pred, blk)"""
        blocks, edges, loops = F.blocks, F.edges, F.loops
        while True:
            nxt = blocks[cur](R)
            if nxt < 0:
                if nxt == -2:
                    r = self.merge_branch(F, R, cur)
                    if r is not None:        # joined: phi values already assigned
                        if stop is not None:
                            if r == stop_blk:
                                return ("back", cur, r)
                            if r not in stop:
                                return ("exit", cur, r)
                        cur = r
                        continue
                    c, t, f = self.pending
                    nxt = t if self.decide(c) else f
                elif stop is not None:
                    return ("ret", cur, -1)
                else:
                    return R[F.nregs]
            e = edges.get((cur, nxt))
            if stop is not None:
                if nxt == stop_blk:
                    if e:
                        e(R)
                    return ("back", cur, nxt)
                if nxt not in stop:
                    return ("exit", cur, nxt)
            if e:
                e(R)
            while nxt in loops:
                if cur in loops[nxt]:
                    self.fuel -= 1
                    if self.fuel < 0:
                        raise Unsupported("fuel exhausted (loop)")
                    break
                if not self.symbolic:
                    break
                r = self.loop_entry(F, R, nxt)
                if r is None:
                    break
                cur, nxt = r     # (exit pred block, exit block), state already updated
                e = edges.get((cur, nxt))
                if stop is not None:
                    if nxt == stop_blk:      # the loop left straight into the enclosing header
                        if e:
                            e(R)
                        return ("back", cur, nxt)
                    if nxt not in stop:
                        raise Unsupported("loop exit leaves outer loop")
                if e:
                    e(R)
            cur = nxt

    # ------------------------------------------------------------------ loop rule
    def loop_entry(self, F, R, H):
        """decide whether the loop at H has a symbolic trip count; if so apply the loop rule and return the exit edge"""
        body = F.loops[H]
        phis = F.phi_regs.get(H, [])
        hit, pvs, symv = self.probe_loop(F, R, H, body, phis, 0)
        if hit is None:
            hit, pvs, symv = self.probe_loop(F, R, H, body, phis, -(1 << 40))
        if hit is None:
            return None
        c = hit.cond
        if not P.int_only(c):
            return None
        vs = set(T.ivars_of(c))
        if not (vs - pvs) and not (vs & symv):
            return None          # concrete bound: just run
        return self.loop_rule(F, R, H, hit)

    def probe_loop(self, F, R, H, body, phis, low):
        # --- probe
        R2 = list(R)
        pv = []
        symv = set()
        for reg, ty in phis:
            v = R2[reg]
            if isinstance(ty, str) and (ty == "p" or ty[0] == "i") and not isinstance(v, B):
                pvn = self.probe_var(len(pv), low if v_isint(R2[reg], ty) else -(1 << 40))
                if v.__class__ is int and ty != "p" or v.__class__ is Lin:
                    R2[reg] = T.lin_var(pvn)
                    pv.append(pvn)
                    if v.__class__ is Lin:
                        symv.add(pvn)
                elif v.__class__ is tuple:
                    R2[reg] = (v[0], T.lin_var(pvn))
                    pv.append(pvn)
        pvs = set(pv)
        sj, sp, sr = self.journal, self.probe, self.rlog
        self.journal = []
        self.rlog = None
        self.probe = body
        spc = len(self.pc)
        sobl = self.noblig
        self.noblig = True
        hit = None
        try:
            self.run_from(F, R2, H, stop=body, stop_blk=H)
        except ProbeHit as h:
            hit = h
        except (Unsupported, PathAbort, PathDone, CppThrow) as e:
            hit = None
            if DEBUG:
                print("probe", F.name[:60], H, repr(e)[:200])
        finally:
            self.undo(self.journal, 0)
            self.journal, self.probe, self.rlog = sj, sp, sr
            del self.pc[spc:]
            self.noblig = sobl
        return hit, pvs, symv

    def probe_var(self, k, low):
        key = (k, low)
        if key not in _probes:
            _probes[key] = T.IV.new("probe%d" % k, low, 1 << 31 if low == 0 else 1 << 40)
        return _probes[key]

    def undo(self, j, mark):
        while len(j) > mark:
            e = j.pop()
            k = e[0]
            if k == 0:
                _, o, off, old = e
                if old is None:
                    o.cells.pop(off, None)
                else:
                    o.cells[off] = old
            elif k == 1:
                _, o, cells, layers, zero = e
                o.cells, o.layers, o.zero = cells, layers, zero
            elif k == 2:
                e[1].alive = True

    def loop_rule(self, F, R, H, hit):
        self.symloops += 1
        body = F.loops[H]
        phis = F.phi_regs.get(H, [])
        init = {r: R[r] for r, _ in phis}
        exitb = hit.blk
        stay = hit.t if hit.t in body else hit.f
        leave = hit.f if stay == hit.t else hit.t
        if leave in body or stay not in body:
            raise Unsupported("loop test does not leave the loop")
        depth = self.loopdepth
        iv = self.iter_var(depth)
        self.loopdepth += 1
        outer_state = (self.journal, self.rlog, self.wset, self.loop_obj_mark, self.loop_serial, self.explorer)
        self.wstack.append(self.wset or {})
        try:
            return self._loop_rule(F, R, H, hit, body, phis, init, exitb, stay, leave, iv, outer_state)
        finally:
            self.loopdepth -= 1
            self.wstack.pop()
            self.journal, self.rlog, self.wset, self.loop_obj_mark, self.loop_serial, self.explorer = outer_state

    def iter_var(self, d):
        while len(_iters) <= d:
            _iters.append(T.IV.new("it%d" % len(_iters), 0, 1 << 40))
            _itset.add(_iters[-1])
        return _iters[d]

    def _loop_rule(self, F, R, H, hit, body, phis, init, exitb, stay, leave, iv, outer_state):
        I = T.lin_var(iv)
        # guesses: phi -> ('lin', step) | ('real', var) ; unknown first
        guess = {}
        acc = {}          # (obj, off) -> fresh real var : memory accumulators
        iacc = {}         # (obj, off) -> (old, step, size) : integers and pointers in memory advancing by a constant step
        rounds = 0
        regs0 = list(R)
        mark_obj = self.nobj
        while True:
            rounds += 1
            if rounds > 6:
                raise Unsupported("loop rule does not stabilise")
            paths = []
            trip = None
            ex = Explorer()
            changed = False
            conflict = None
            while True:
                ex.pos = 0
                self.explorer = ex
                # set up the generic iteration
                self.journal = []
                self.rlog = []
                self.wset = {}
                self.loop_obj_mark = mark_obj
                self.loop_serial = self.serial
                pcm = len(self.pc)
                nobj_save = self.nobj
                R2 = list(regs0)
                for r, ty in phis:
                    v = init[r]
                    g = guess.get(r)
                    if g is None or g[0] == "inv":
                        R2[r] = v
                    elif g[0] == "lin":
                        R2[r] = (v[0], T.ladd(v[1], T.lscale(I, g[1]))) if v.__class__ is tuple else self.iadd(v, T.lscale(I, g[1]), width(ty))
                    elif g[0] == "real":
                        R2[r] = g[1]
                for (o, off), (vr, old) in acc.items():
                    self.journal.append((0, o, off, o.cells.get(off)))
                    o.cells[off] = (8, vr)
                for (o, off), (old, st, sz) in iacc.items():
                    self.journal.append((0, o, off, o.cells.get(off)))
                    o.cells[off] = (sz, self.advance(old, T.lscale(I, st), sz))
                out = None
                sp = self.probe
                try:
                    # header up to the exit test, with the test captured
                    self.probe = (exitb,)
                    sob = self.noblig
                    self.noblig = True
                    Rh = list(R2)
                    jm = len(self.journal)
                    cond = None
                    try:
                        self.run_from(F, Rh, H, stop=body, stop_blk=H)
                    except ProbeHit as h:
                        cond = h.cond if (h.t == stay) else T.bnot(h.cond)
                    self.noblig = sob
                    self.probe = sp
                    self.undo_keep(jm)
                    self.rlog = []
                    if rounds == 1 and cond.__class__ is not B:
                        cond = True
                    if cond is None:
                        raise Unsupported("loop test decided for a generic iteration")
                    lins = [g for g in guess.values() if g[0] == "lin"]
                    if rounds == 1:
                        self.pc.append(cond) if cond.__class__ is B else None
                    else:
                        t = self.trip_of(cond, iv)
                        if trip is None:
                            trip = t
                        self.pc.append(T.ile0(T.ladd(T.lsub(I, t), 1)) if T.ile0(T.ladd(T.lsub(I, t), 1)).__class__ is B else None) if False else None
                        f = T.ile0(T.ladd(T.lsub(I, t), 1))
                        if f.__class__ is B:
                            self.pc.append(f)
                        elif f is False:
                            raise PathAbort()
                    self.forced = (exitb, stay)
                    sfuel = self.fuel
                    out = self.run_from(F, R2, H, stop=body, stop_blk=H)
                    self.forced = None
                    if out[0] == "back":
                        paths.append((self.pc[pcm + 1:], {r: R2[r] for r, _ in phis}, self.collect_writes(mark_obj), self.rlog, self.collect_layers(mark_obj)))
                    else:
                        raise Unsupported("loop left from the middle of its body")
                except PathAbort:
                    pass
                finally:
                    self.forced = None
                    self.probe = sp
                    self.noblig = sob
                    self.undo(self.journal, 0)
                    del self.pc[pcm:]
                if not ex.next():
                    break
                if len(paths) > 64:
                    raise Unsupported("too many paths in a loop body")
            self.explorer = outer_state[5]
            # --- derive guesses
            guess0 = dict(guess)
            for r, ty in phis:
                for pc_, back, wr, rl, ly in paths:
                    v0, v1 = init[r], back[r]
                    g = guess0.get(r)
                    if isinstance(ty, str) and ty in ("d",):
                        if g is None:
                            if not self.same(v0, v1) and r not in guess:
                                guess[r] = ("real", T.var("phi$%d$%d" % (iv, r)))
                                changed = True
                    elif g is None or g[0] == "inv":
                        if self.same(v0, v1):
                            continue
                        if v0.__class__ is tuple and v1.__class__ is tuple and v0[0] is v1[0]:
                            st = T.lsub(v1[1], v0[1])
                        elif v0.__class__ in (int, Lin) and v1.__class__ in (int, Lin) and ty != "p":
                            w = width(ty)
                            st = T.lsub(sgn(v1, w) if v1.__class__ is int else v1, sgn(v0, w) if v0.__class__ is int else v0)
                        else:
                            raise Unsupported("loop-carried value")
                        if st.__class__ is not int:
                            if iv in [x for x, _ in st.t]:
                                raise Unsupported("non-linear induction")
                            raise Unsupported("symbolic stride")
                        if guess.get(r, ("lin", st)) != ("lin", st):
                            raise Unsupported("paths of the loop body disagree on a loop variable")
                        if g is not None or st == 0:
                            raise Unsupported("non-inductive loop variable")
                        guess[r] = ("lin", st)
                        changed = True
                    elif g[0] == "lin":
                        w = 64 if ty == "p" else width(ty)
                        cur = (v0[0], T.ladd(v0[1], T.lscale(T.ladd(I, 1), g[1]))) if v0.__class__ is tuple else self.iadd(v0, T.lscale(T.ladd(I, 1), g[1]), w)
                        if not self.same(cur, v1):
                            raise Unsupported("loop variable is not linear in the iteration")
            # memory accumulators: location read (old value) and written, both independent of the iteration
            for (o, off), (old, st, sz) in iacc.items():
                for pc_, back, wr, rl, ly in paths:
                    if (o, off) not in wr or not self.same(self.advance(old, T.lscale(T.ladd(I, 1), st), sz), wr[(o, off)][1]):
                        raise Unsupported("integer in memory does not advance linearly")
            for pc_, back, wr, rl, ly in (() if rounds == 1 and changed else paths):
                for (o, off, size, *_r) in rl:
                    if (o, off) in iacc:
                        continue
                    if (o, off) in wr and T.ldep(off, iv) == 0 and (o, off) not in acc:
                        val = wr[(o, off)][1]
                        cell = o.cells.get(off)
                        if cell is not None and size == cell[0] == wr[(o, off)][0] and cell[1].__class__ in (int, Lin, tuple) and val.__class__ in (int, Lin, tuple):
                            old = cell[1]
                            if self.same(old, val):
                                continue
                            st = self.step_of(old, val, size)
                            if st.__class__ is not int:
                                raise Unsupported("integer in memory with a symbolic step")
                            iacc[(o, off)] = (old, st, size)
                            changed = True
                            continue
                        old = self.peek(o, off)
                        if self.same(old, val):
                            continue
                        if val.__class__ in (Node, float) and size == 8:
                            acc[(o, off)] = (T.var("acc$%d$%d$%s" % (iv, o.id, off)), old)
                            changed = True
                        else:
                            raise Unsupported("integer accumulator in memory")
            if not changed and rounds > 1:
                break
            if rounds == 1:
                continue
        if trip is None:
            raise Unsupported("no trip count")
        if not paths:
            # body never completes: only zero iterations possible
            raise Unsupported("loop body has no complete path")
        self.journal, self.rlog, self.wset, self.loop_obj_mark, self.loop_serial, self.explorer = outer_state
        # trip count sign
        tpos = T.ile0(T.lsub(1, trip))         # trip >= 1
        d = P.decide(tpos, self.pc)
        if d is None:
            if P.lia_unsat(self.pc, T.ile0(T.ladd(trip, 1))):
                nonneg = True
            else:
                nonneg = False
            tp = self.decide(tpos)
        else:
            tp = d
        if tp:
            self.check_interference(paths, iv, trip)
            self.apply_effects(paths, iv, trip, acc, iacc)
        # --- final phi values
        for r, ty in phis:
            v0 = init[r]
            g = guess.get(r)
            if not tp or g is None or g[0] == "inv":
                R[r] = v0
            elif g[0] == "lin":
                R[r] = (v0[0], T.ladd(v0[1], T.lscale(trip, g[1]))) if v0.__class__ is tuple else self.iadd(v0, T.lscale(trip, g[1]), width(ty))
            else:
                val = self.merge([(p[0], p[1][r]) for p in paths])
                R[r] = self.reduction(v0, g[1], val, iv, trip)
        # header once more with the test false
        self.forced = (exitb, leave)
        try:
            out = self.run_from(F, R, H, stop=body, stop_blk=H)
        finally:
            self.forced = None
        if out[0] != "exit":
            raise Unsupported("loop exit")
        return out[1], out[2]

    def undo_keep(self, mark):
        self.undo(self.journal, mark)

    def same(self, a, b):
        if a is b:
            return True
        if a.__class__ is float and b.__class__ is float:
            return a == b or (a != a and b != b)
        if a.__class__ is tuple and b.__class__ is tuple:
            return a[0] is b[0] and a[1] == b[1] if len(a) == 2 and isinstance(a[0], Obj) else a == b
        if a.__class__ in (float, Node) and b.__class__ in (float, Node):
            return T.as_node(a) is T.as_node(b)
        return a == b if a.__class__ is b.__class__ else False

    def trip_of(self, cond, iv):
        """number of iterations from the (linear) stay condition"""
        neg_ = False
        if cond.__class__ is not B:
            raise Unsupported("loop test")
        if cond.op == "not":
            neg_ = True
            cond = cond.args[0]
        if cond.op == "ile":
            l = cond.args[0]
            if neg_:            # stay: l > 0  <=>  -l + 1 <= 0
                l = T.ladd(T.lscale(l, -1), 1)
            k = T.ldep(l, iv)
            if k <= 0:
                raise Unsupported("loop test direction")
            c = T.lsub(l, T.lscale(T.lin_var(iv), k))       # k*i + c <= 0  -> i <= -c/k
            if k != 1:
                raise Unsupported("loop test stride")
            return T.ladd(T.lscale(c, -1), 1)
        if cond.op == "ieq" and neg_:
            l = cond.args[0]
            k = T.ldep(l, iv)
            c = T.lsub(l, T.lscale(T.lin_var(iv), k))
            if k == 0:
                raise Unsupported("loop test does not depend on the iteration")
            m = T.lscale(c, -1 if k > 0 else 1)
            k = abs(k)
            if k == 1:
                t = m
            else:
                if m.__class__ is int:
                    if m % k:
                        raise Unsupported("loop never meets its bound")
                    t = m // k
                else:
                    if m.c % k or any(q % k for _, q in m.t):
                        raise Unsupported("loop bound divisibility")
                    t = T.lmk({v: q // k for v, q in m.t}, m.c // k)
            # != loops need a nonnegative distance
            if not P.lia_unsat([f for f in self.pc if f.__class__ is B and iv not in T.ivars_of(f)], T.ile0(T.ladd(t, 1))):
                raise Unsupported("loop distance may be negative")
            return t
        raise Unsupported("loop test form")

    def collect_writes(self, mark_obj):
        w = {}
        for e in self.journal:
            if e[0] == 0:
                o, off = e[1], e[2]
                if o.id < mark_obj and o.alive:
                    c = o.cells.get(off)
                    if c is not None and (o.id, off) in self.wset:
                        w[(o, off)] = c
            elif e[0] == 2 and e[1].id < mark_obj:
                raise Unsupported("loop frees an object")
        return w

    def collect_layers(self, mark_obj):
        ly = []
        seen = set()
        for e in self.journal:
            if e[0] == 1 and e[1].id < mark_obj and e[1].id not in seen:
                o = e[1]
                seen.add(o.id)
                for l in o.layers or []:
                    if l.serial >= self.loop_serial:
                        if l.kind == "cells":
                            continue
                        ly.append((o, l))
        return ly

    def peek(self, o, off):
        s = self.rlog
        self.rlog = None
        try:
            return self.load((o, off), 8, "d")
        finally:
            self.rlog = s

    def merge(self, alts):
        """alts: [(path conditions, value)]"""
        if len(alts) == 1:
            return alts[0][1]
        v0 = alts[0][1]
        if all(self.same(v0, v) for _, v in alts[1:]):
            return v0
        r = alts[-1][1]
        for pc, v in reversed(alts[:-1]):
            c = True
            for f in pc:
                c = T.band(c, f)
            if v.__class__ in (float, Node) and r.__class__ in (float, Node):
                if v.__class__ is float and not T.isfin(v) or r.__class__ is float and not T.isfin(r):
                    raise Unsupported("special value in a merged loop effect")
                r = T.ite(c, T.as_node(v), T.as_node(r))
            elif (v.__class__ is int or v.__class__ is B) and (r.__class__ is int or r.__class__ is B):
                vb = v if v.__class__ is B else (bool(v) if v in (0, 1) else None)
                rb = r if r.__class__ is B else (bool(r) if r in (0, 1) else None)
                if vb is None or rb is None:
                    raise Unsupported("integer merge")
                r = T.bor(T.band(c, vb), T.band(T.bnot(c), rb))
            else:
                raise Unsupported("merge of loop effects")
        return r

    def reduction(self, v0, ph, val, iv, trip):
        val = T.as_node(val)
        # val = ph + t(i)
        t = None
        if ph in set(x for x in T.topo([val]) if x.__class__ is Node):
            t = self.peel(val, ph)
            if t is None:
                raise Unsupported("loop-carried real is not a sum")
            return T.add(T.as_node(v0), T.rsum(iv, trip, t))
        # overwritten each iteration: value of the last one
        return T.subst_int([val], {iv: T.ladd(trip, -1)})[0]

    def peel(self, val, ph):
        """val - ph if val is ph plus something free of ph"""
        if val is ph:
            return T.ZERO
        if val.op == "+":
            a, b = val.args
            ia = ph in set(T.topo([a]))
            ib = ph in set(T.topo([b]))
            if ia and ib:
                return None
            if ia:
                r = self.peel(a, ph)
                return None if r is None else T.add(r, b)
            r = self.peel(b, ph)
            return None if r is None else T.add(r, a)
        if val.op == "ite":
            c, a, b = val.args
            if ph in set(T.topo([c])):
                return None
            x, y = self.peel(a, ph), self.peel(b, ph)
            if x is None or y is None:
                return None
            return T.ite(c, x, y)
        return None

    def disjoint(self, off1, s1, off2, s2, facts):
        """byte ranges never overlap under facts"""
        d = T.lsub(off1, off2)
        if d.__class__ is int:
            return d >= s2 or d <= -s1
        lo, hi = d.range()
        if lo >= s2 or hi <= -s1:
            return True
        g = 0
        for _, k in d.t:
            g = math.gcd(g, abs(k))
        r = d.c % g
        if r >= s2 and g - r >= s1:
            return True
        # overlap: -s1 < d < s2
        neg = T.band(T.ile0(T.ladd(d, 1 - s2)), T.ile0(T.ladd(T.lscale(d, -1), 1 - s1)))
        return P.lia_unsat(facts, neg)

    def check_interference(self, paths, iv, trip):
        J = self.iter_var(40 + self.loopdepth)
        Jl = T.lin_var(J)
        I = T.lin_var(iv)
        base = list(self.pc)
        rng = []
        for x in (I, Jl):
            f = T.ile0(T.ladd(T.lsub(x, trip), 1))
            if f.__class__ is B:
                rng.append(f)
        ne = T.bnot(T.ieq0(T.lsub(I, Jl)))
        facts0 = base + rng + [ne]
        writes = []
        reads = []
        for pc, back, wr, rl, ly in paths:
            for (o, off), (size, v) in wr.items():
                writes.append((o, off, size, ()))
            for o, l in ly:
                if l.kind == "comp":
                    v2, t2, b2, s2, val2 = l.a
                    writes.append((o, b2, s2, self.fact_rng(v2, t2)))
                else:
                    raise Unsupported("layer %s inside a loop" % l.kind)
            for r in rl:
                reads.append((r[0], r[1], r[2], tuple(r[3]) if len(r) > 3 else ()))
        wset = {}
        for o, off, size, fx in writes:
            wset.setdefault(o.id, {})[(off, size)] = fx
        seen = set()
        for o, off, size, fx in reads:
            for (woff, wsize), wfx in wset.get(o.id, {}).items():
                if T.ldep(woff, iv) == 0 and woff == off:
                    continue       # accumulator, handled by the reduction rule
                k = (o.id, off, size, woff, wsize)
                if k in seen:
                    continue
                seen.add(k)
                a = T.lsubst(off, {iv: Jl})
                if not self.disjoint(a, size, woff, wsize, facts0 + list(fx) + list(wfx)):
                    raise Unsupported("loop iterations interfere (read)")
        for oid, ws in wset.items():
            items = list(ws.items())
            for i1, ((o1, s1), f1) in enumerate(items):
                for (o2, s2), f2 in items[i1:]:
                    d1, d2 = T.ldep(o1, iv), T.ldep(o2, iv)
                    if o1 == o2 and d1 == 0:
                        continue
                    a = T.lsubst(o1, {iv: Jl})
                    if not self.disjoint(a, s1, o2, s2, facts0 + list(f1) + list(f2)):
                        raise Unsupported("loop iterations interfere (write)")

    def fact_rng(self, v, t):
        f = T.ile0(T.ladd(T.lsub(T.lin_var(v), t), 1))
        return (f,) if f.__class__ is B else ()

    def advance(self, v, d, size):
        return (v[0], T.ladd(v[1], d)) if v.__class__ is tuple else self.iadd(v, d, 8 * size)

    def step_of(self, a, b, size):
        if a.__class__ is tuple and b.__class__ is tuple:
            if a[0] is not b[0]:
                raise Unsupported("pointer in memory changes object")
            return T.lsub(b[1], a[1])
        if a.__class__ is tuple or b.__class__ is tuple:
            raise Unsupported("integer accumulator in memory")
        w = 8 * size
        return T.lsub(sgn(b, w) if b.__class__ is int else b, sgn(a, w) if a.__class__ is int else a)

    def apply_effects(self, paths, iv, trip, acc, iacc={}):
        # reads of inner iterations are reads of the outer one
        if self.rlog is not None:
            rng = list(self.fact_rng(iv, trip))
            for p in paths:
                for r in p[3]:
                    if r[0].id < self.loop_obj_mark:
                        self.rlog.append((r[0], r[1], r[2], list(r[3] if len(r) > 3 else []) + rng))
        locs = []
        for p in paths:
            for k in p[2]:
                if k not in locs:
                    locs.append(k)
        last = T.ladd(trip, -1)
        newl = []
        for (o, off) in locs:
            if (o, off) in iacc:
                old, st, size = iacc[(o, off)]
                newl.append((o, off, size, self.advance(old, T.lscale(trip, st), size)))
                continue
            alts = []
            size = None
            for pc, back, wr, rl, ly in paths:
                if (o, off) in wr:
                    size, v = wr[(o, off)]
                    alts.append((pc, v))
                else:
                    alts.append((pc, None))
            if any(v is None for _, v in alts):
                s = self.rlog
                self.rlog = None
                old = self.load_generic((o, off), size, iv, trip)
                self.rlog = s
                if T.ldep(off, iv) == 0 and (o, off) not in acc:
                    newl.append((o, off, size, POISON))
                    continue
                alts = [(pc, old if v is None else v) for pc, v in alts]
                if (o, off) in acc:
                    alts = [(pc, acc[(o, off)][0] if v is old else v) for pc, v in alts]
            try:
                val = self.merge(alts)
            except Unsupported:
                if T.ldep(off, iv) != 0 or (o, off) in acc:
                    raise
                val = POISON
            newl.append((o, off, size, val))
        for o, off, size, val in newl:
            if T.ldep(off, iv) == 0:
                if (o, off) in iacc:
                    nv = val
                elif (o, off) in acc:
                    vr, old = acc[(o, off)]
                    nv = self.reduction(old, vr, val, iv, trip)
                else:
                    nv = val if val is POISON else T.subst_int([val], {iv: last})[0]
                self.store((o, off), nv, size)
            else:
                self.add_layer(o, "comp", (iv, trip, off, size, val))
        seen = set()
        for p in paths:
            for o, l in p[4]:
                v2, t2, b2, s2, val2 = l.a
                if T.ldep(b2, iv) != 0:
                    raise Unsupported("two-dimensional symbolic effect")
                if len(paths) > 1:
                    raise Unsupported("conditional inner loop effect")
                t2 = T.lsubst(t2, {iv: last})
                self.add_layer(o, "comp", (v2, t2, b2, s2, T.subst_int([val2], {iv: last})[0]))

    def add_layer(self, o, kind, a):
        if self.journal is not None:
            self.journal.append((1, o, o.cells, o.layers, o.zero))
        ls = list(o.layers or [])
        if o.zero:
            ls.append(Layer("zero", None, 0))
            o.zero = False
        if o.cells:
            ls.append(Layer("cells", o.cells, self.serial))
            self.serial += 1
        if kind == "comp":
            # iteration variables are reused: rename to a private one
            iv, trip, off, size, val = a
            nv = self.layer_var(self.nlayer)
            self.nlayer += 1
            m = {iv: T.lin_var(nv)}
            a = (nv, trip, T.lsubst(off, m), size, T.subst_int([val], m)[0])
        ls.append(Layer(kind, a, self.serial))
        self.serial += 1
        o.layers = ls
        o.cells = {}

    nlayer = 0

    def layer_var(self, k):
        while len(_layers) <= k:
            _layers.append(T.IV.new("j%d" % len(_layers), 0, 1 << 40))
            _itset.add(_layers[-1])
        return _layers[k]

    def load_generic(self, p, size, iv, trip):
        n = len(self.pc)
        self.pc += list(self.fact_rng(iv, trip))
        try:
            return self.load(p, size, "d" if size == 8 else "i%d" % (8 * size))
        finally:
            del self.pc[n:]

    # ------------------------------------------------------------------ decisions
    def unroll(self, b):
        """the same linear form compared with many constants on one path"""
        c = b.args[0] if b.op == "not" else b
        if c.op not in ("ile", "ieq") or c.args[0].__class__ is not Lin:
            return False
        k = (c.op, c.args[0].t)
        n = 0
        for f in self.pc:
            if f.__class__ is B:
                g = f.args[0] if f.op == "not" else f
                if g.op == k[0] and g.args[0].__class__ is Lin and g.args[0].t == k[1]:
                    n += 1
        return n > 12

    def decide(self, b, why=None):
        if b.__class__ is not B:
            return bool(b)
        r = P.decide(b, self.pc, 1500)
        if r is not None:
            return r
        if self.probe is not None:
            raise Unsupported("fork in a loop test")
        if self.nofork:
            raise Unsupported("undecided")
        ex = self.explorer
        if ex.pos < len(ex.prefix):
            v = ex.prefix[ex.pos]
        else:
            v = True
            ex.prefix.append(True)
            ex.forks += 1
            if len(ex.prefix) > 400:
                raise Unsupported("too many decisions on a path")
            if P.int_only(b) and self.unroll(b):
                raise Unsupported("unrolling a loop of symbolic length")
        ex.pos += 1
        self.pc.append(b if v else T.bnot(b))
        return v

    def branch(self, c, t, f, blk):
        if c is UNDEF:
            self.violation("branch on an uninitialised value", "memory")
        if c.__class__ is bool or c.__class__ is int:
            if self.forced is not None and self.forced[0] == blk:
                self.forced = None
            elif self.probe.__class__ is tuple and blk == self.probe[0]:
                raise ProbeHit(bool(c), blk, t, f)
            return t if c else f
        fc = self.forced
        if fc is not None and fc[0] == blk:
            self.forced = None
            return fc[1]
        if self.probe is not None:
            if self.probe.__class__ is tuple:
                if blk == self.probe[0]:
                    raise ProbeHit(c, blk, t, f)
                r = P.decide(c, self.pc)
                if r is not None:
                    return t if r else f
                raise Unsupported("fork in a loop test")
            r = P.decide(c, self.pc)
            if r is not None and not (set(T.ivars_of(c)) & set(_probes.values())):
                return t if r else f
            raise ProbeHit(c, blk, t, f)
        if self.merging and c.__class__ is B and not P.int_only(c):
            r = P.decide(c, self.pc, self.opts.get('mergetime', 150))
            if r is not None:
                return t if r else f
            self.pending = (c, t, f)
            return -2
        return t if self.decide(c) else f

    # ------------------------------------------------------------------ joining the two arms of a branch
    merging = False

    def join_of(self, F, b):
        """(join block, region) of a two-way branch: the nearest block every completing path from b passes, inside the same loops"""
        k = F.joins.get(b)
        if k is None:
            k = F.joins[b] = self._join_of(F, b) or ()
        return k

    def _join_of(self, F, b):
        inner = None
        for h, body in F.loops.items():
            if b in body and (inner is None or len(body) < len(F.loops[inner])):
                inner = h
        body = F.loops[inner] if inner is not None else None

        def reach(s, without):
            seen, st = set(), [s]
            while st:
                x = st.pop()
                if x in seen or x == without:
                    continue
                seen.add(x)
                if x == inner:
                    continue
                st.extend(F.succs.get(x, []))
            return seen
        t, f = F.succs[b]
        ra = reach(t, None)
        rb = reach(f, None)
        done = lambda x: not F.succs.get(x) and F.returns.get(x)      # leaves by return
        best = None
        for j in ra & rb:
            if j in F.loops or (body is not None and j not in body):
                continue
            r1, r2 = reach(t, j), reach(f, j)
            r = r1 | r2
            if b in r or inner in r or any(done(x) for x in r) or (body is not None and not r <= body):
                continue
            if best is None or len(r) < len(best[1]):
                best = (j, r)
        return best

    def merge_branch(self, F, R, b):
        c, t, f = self.pending
        key = (F.name, b)
        if self.merge_fail.get(key, 0) > 3:
            return None
        k = self.join_of(F, b)
        if not k:
            self.merge_fail[key] = 99
            return None
        J, region = k
        arms = []
        mark = self.nobj
        sj, sf, pcm = self.journal, self.nofork, len(self.pc)
        nfail, nres = len(self.failures), len(self.results)
        stop = region | {J}
        try:
            for s, cond in ((t, c), (f, T.bnot(c))):
                self.journal = []
                self.nofork = True
                Ra = list(R)
                self.pc.append(cond)
                try:
                    e = F.edges.get((b, s))
                    if e:
                        e(Ra)
                    if s != J:
                        out = self.run_from(F, Ra, s, stop=region, stop_blk=J)
                        if out[0] != "back":
                            raise Unsupported("arm leaves its region")
                    w = {}
                    for en in self.journal:
                        o = en[1]
                        if o.id >= mark:
                            continue
                        if en[0] != 0:
                            raise Unsupported("merge of memory layers")
                        w[(o, en[2])] = o.cells.get(en[2])
                    arms.append((Ra, w))
                finally:
                    self.undo(self.journal, 0)
                    del self.pc[pcm:]
                    self.journal, self.nofork = sj, sf
            (Ra, wa), (Rb, wb) = arms
            R2 = {}
            for r, ty in F.phi_regs.get(J, []):
                R2[r] = self.join(c, Ra[r], Rb[r])
            W = []
            for key2 in list(wa) + [x for x in wb if x not in wa]:
                o, off = key2
                base = o.cells.get(off)
                va, vb = wa.get(key2, base), wb.get(key2, base)
                if va is vb:
                    continue
                if va is None or vb is None:
                    q = va or vb
                    if q[0] != 8 or q[1].__class__ not in (float, Node):
                        raise Unsupported("merge with untouched memory")
                    if o.layers is None and not o.zero:
                        raise Unsupported("merge with uninitialised memory")
                    x = (8, self.load((o, off), 8, "d"))
                    va, vb = va or x, vb or x
                if va[0] != vb[0]:
                    raise Unsupported("merge of different sizes")
                W.append((o, off, va[0], self.join(c, va[1], vb[1])))
        except (Unsupported, PathAbort, PathDone, CppThrow) as e:
            if DEBUG:
                print("merge", F.name[:60], b, repr(e)[:200])
            del self.failures[nfail:], self.results[nres:]
            self.merge_fail[key] = self.merge_fail.get(key, 0) + 1
            return None
        for i in range(len(R)):
            if R[i] is not Ra[i] and Ra[i] is not None:
                R[i] = Ra[i]
        for r, v in R2.items():
            R[r] = v
        for o, off, sz, v in W:
            self.store((o, off), v, sz)
        self.count_auto("merged")
        return J

    def join(self, c, a, b):
        if self.same(a, b):
            return a
        if a.__class__ in (float, Node) and b.__class__ in (float, Node):
            x, y = self.rn(a), self.rn(b)
            if x is None or y is None:
                raise Unsupported("merge of special values")
            return T.ite(c, x, y)
        if a.__class__ in (bool, int, B) and b.__class__ in (bool, int, B):
            x, y = self.tob(a), self.tob(b)
            if x.__class__ in (bool, B) and y.__class__ in (bool, B) and all(not (q.__class__ is int and q not in (0, 1)) for q in (a, b)):
                return self.b1(T.bor(T.band(c, x), T.band(T.bnot(c), y)))
        raise Unsupported("merge of integers or pointers")

    hook = False
    _forced = _probe = None

    @property
    def forced(self):
        return self._forced

    @forced.setter
    def forced(self, v):
        self._forced = v
        self.hook = v is not None or self._probe.__class__ is tuple

    @property
    def probe(self):
        return self._probe

    @probe.setter
    def probe(self, v):
        self._probe = v
        self.hook = self._forced is not None or v.__class__ is tuple

    loopdepth = 0
    noblig = False
    explorer = None
    fuel = 10**9
    fuel_calls = 0

    def switch(self, v, cases, dflt, blk):
        if v.__class__ is int:
            for c, b in cases:
                if c == v:
                    return b
            return dflt
        if v is UNDEF:
            self.violation("switch on an uninitialised value", "memory")
        for c, b in cases:
            if self.decide(T.ieq0(T.lsub(v, c))):
                return b
        return dflt

    # ------------------------------------------------------------------ integers
    def ilin(self, x, w):
        """signed mathematical value"""
        if x.__class__ is int:
            return sgn(x, w)
        if x.__class__ is Lin:
            return x
        if x.__class__ is B:
            return 1 if self.decide(x) else 0
        if x is UNDEF:
            self.violation("arithmetic on an uninitialised integer", "memory")
        if x.__class__ is bool:
            return int(x)
        if x.__class__ is float:
            return sgn(struct.unpack(">Q", struct.pack(">d", x))[0], 64)
        raise Unsupported("integer operand %r" % (x,))

    def inorm(self, l, w):
        return l & MASK[w] if l.__class__ is int else l

    def iadd(self, a, b, w):
        if a.__class__ is tuple:
            return self.padd(a, self.ilin(b, w))
        if b.__class__ is tuple:
            return self.padd(b, self.ilin(a, w))
        return self.inorm(T.ladd(self.ilin(a, w), self.ilin(b, w)), w)

    def isub(self, a, b, w):
        if a.__class__ is tuple and b.__class__ is tuple:
            if a[0] is b[0]:
                return self.inorm(T.lsub(a[1], b[1]), 64)
            raise Unsupported("difference of unrelated pointers")
        if a.__class__ is tuple:
            return self.padd(a, T.lscale(self.ilin(b, w), -1))
        return self.inorm(T.lsub(self.ilin(a, w), self.ilin(b, w)), w)

    def imul(self, a, b, w):
        a, b = self.ilin(a, w), self.ilin(b, w)
        if a.__class__ is int:
            return self.inorm(T.lscale(b, a), w)
        if b.__class__ is int:
            return self.inorm(T.lscale(a, b), w)
        return self.opaque_int(("mul", min(a, b, key=repr), max(a, b, key=repr)), *self.prod_rng(a, b))

    def prod_rng(self, a, b):
        x = [p * q for p in T.lrange(a) for q in T.lrange(b)]
        return min(x), max(x)

    def opaque_int(self, key, lo, hi, facts=None):
        v = _opq.get(key)
        if v is None:
            v = T.IV.new("%s%d" % (key[0], len(_opq)), lo, hi)
            _opq[key] = v
        l = T.lin_var(v)
        if facts:
            for f in facts(l):
                if f.__class__ is B and f not in self.pc:
                    self.pc.append(f)
        return l

    def ibits(self, op, a, b, w):
        raise Unsupported("int op %s" % op)

    def i_and(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return a & b
        if w == 1:
            return self.b1(T.band(self.tob(a), self.tob(b)))
        if b.__class__ is tuple:
            a, b = b, a
        if a.__class__ is tuple and b.__class__ is int:
            if a[1].__class__ is int:
                if b < 64:
                    return a[1] & b
                lowz = MASK[64] ^ b
                if lowz < 64:
                    return (a[0], a[1] & ~lowz)
            elif b < 16 and a[1].c % (b + 1) == 0 and all(k % (b + 1) == 0 for _, k in a[1].t):
                return 0
            raise Unsupported("pointer and")
        if a.__class__ is int:
            a, b = b, a
        if a.__class__ is Lin and b.__class__ is int:
            if b & (b + 1) == 0:       # low mask
                lo, hi = a.range()
                if lo >= 0 and hi <= b:
                    return a
                m = b + 1
                if (lo >= 0 or P.lia_unsat(self.pc, T.ile0(T.ladd(a, 1)))) and P.lia_unsat(self.pc, T.ile0(T.lsub(m, a))):
                    return a
                if all(k % m == 0 for _, k in a.t):
                    return a.c % m
                q = self.i_udiv(a, m, w)
                return T.lsub(a, T.lscale(q, m))
            c = (~b) & MASK[w]
            if c & (c + 1) == 0:       # clear low bits
                lowp = self.i_and(a, c, w)
                return T.lsub(a, lowp)
            lowbit = b & -b
            top = b + lowbit
            if top & (top - 1) == 0 and lowbit > 1:   # contiguous mask
                x = self.i_and(a, top - 1, w)
                if x.__class__ is int:
                    return x & b
                return T.lsub(x, self.i_and(x, lowbit - 1, w))
        if a is UNDEF or b is UNDEF:
            self.violation("bit operation on an uninitialised integer", "memory")
        return self.ibits("and", a, b, w)

    def tob(self, x):
        if x.__class__ is int:
            return bool(x)
        if x is UNDEF:
            self.violation("branch on an uninitialised value", "memory")
        return x

    def b1(self, b):
        return b if b.__class__ is B else int(b)

    def i_or(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return a | b
        if w == 1:
            return self.b1(T.bor(self.tob(a), self.tob(b)))
        if a.__class__ is int:
            a, b = b, a
        if b.__class__ is int:
            if b == 0:
                return a
            if a.__class__ is Lin:
                # disjoint or used for addition
                low = b.bit_length()
                m = 1 << low
                if all(k % m == 0 for _, k in a.t) and a.c % m == 0:
                    return T.ladd(a, b)
            if a.__class__ is tuple and a[1].__class__ is int and a[1] & b == 0 and b < 16:
                return (a[0], a[1] + b)
        return self.ibits("or", a, b, w)

    def i_xor(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return a ^ b
        if w == 1:
            a, b = self.tob(a), self.tob(b)
            if b.__class__ is not B:
                return self.b1(T.bnot(a) if b else a)
            if a.__class__ is not B:
                return self.b1(T.bnot(b) if a else b)
            return self.b1(T.bor(T.band(a, T.bnot(b)), T.band(T.bnot(a), b)))
        if b.__class__ is int and b == MASK[w] and a.__class__ is Lin:
            return T.ladd(T.lscale(a, -1), -1)
        if w == 64 and all(x.__class__ in (Node, float, SBit) for x in (a, b)):
            x, y = self.sbit(a), self.sbit(b)
            return SBit(T.bor(T.band(x, T.bnot(y)), T.band(T.bnot(x), y)))
        return self.ibits("xor", a, b, w)

    def sbit(self, x):
        """sign bit of a real seen as an integer (zero counts as positive)"""
        if x.__class__ is SBit:
            return x.b
        if x.__class__ is float:
            return math.copysign(1.0, x) < 0
        self.notes.add("sign bit of a zero taken as positive")
        return T.rlt(x, T.ZERO)

    def i_shl(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return (a << b) & MASK[w]
        if b.__class__ is int:
            return self.imul(a, 1 << b, w)
        return self.ibits("shl", a, b, w)

    def i_lshr(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return a >> b
        if b.__class__ is int:
            return self.i_udiv(a, 1 << b, w)
        return self.ibits("lshr", a, b, w)

    def i_ashr(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            return (sgn(a, w) >> b) & MASK[w]
        if b.__class__ is int:
            return self.floordiv(self.ilin(a, w), 1 << b)
        return self.ibits("ashr", a, b, w)

    def floordiv(self, a, k):
        if all(c % k == 0 for _, c in a.t):
            return T.lmk({v: c // k for v, c in a.t}, a.c // k)
        lo, hi = a.range()
        r = self.opaque_int(("div", a, k), lo // k, hi // k,
                            lambda q: [T.ile0(T.lsub(T.lscale(q, k), a)), T.ile0(T.ladd(T.lsub(a, T.lscale(q, k)), 1 - k))])
        return r

    def i_udiv(self, a, b, w):
        if b.__class__ is int and b == 0:
            self.violation("integer division by zero", "arith")
        if a.__class__ is int and b.__class__ is int:
            return a // b
        if b.__class__ is int:
            a = self.ilin(a, w)
            self.need_nonneg(a)
            return self.floordiv(a, b)
        bl = self.ilin(b, w)
        if P.decide(T.ile0(T.lsub(1, bl)), self.pc) is not True:
            if self.decide(T.ieq0(bl)):
                self.violation("integer division by zero", "arith")
        if a.__class__ is int:
            lo, hi = T.lrange(bl)
            lo = max(lo, 1)
            return self.opaque_int(("udiv", a, bl), a // max(hi, 1), a // lo)
        return self.opaque_int(("udiv", a, bl), 0, max(0, T.lrange(a)[1]))

    def i_sdiv(self, a, b, w):
        if b.__class__ is int and b == 0:
            self.violation("integer division by zero", "arith")
        if a.__class__ is int and b.__class__ is int:
            x, y = sgn(a, w), sgn(b, w)
            q = abs(x) // abs(y)
            return (q if (x < 0) == (y < 0) else -q) & MASK[w]
        al = self.ilin(a, w)
        lo, hi = T.lrange(al)
        if lo >= 0 or P.lia_unsat(self.pc, T.ile0(T.ladd(al, 1))):
            bl = self.ilin(b, w)
            if bl.__class__ is int and bl > 0:
                return self.floordiv(al, bl) if al.__class__ is Lin else al // bl
            if bl.__class__ is Lin and T.lrange(bl)[0] >= 0:
                return self.i_udiv(a, b, w)
        return self.ibits("sdiv", a, b, w)

    def i_urem(self, a, b, w):
        if b.__class__ is int and b == 0:
            self.violation("integer division by zero", "arith")
        if a.__class__ is int and b.__class__ is int:
            return a % b
        if b.__class__ is int:
            q = self.i_udiv(a, b, w)
            return self.inorm(T.lsub(self.ilin(a, w), T.lscale(self.ilin(q, w), b)), w)
        return self.ibits("urem", a, b, w)

    def i_srem(self, a, b, w):
        if a.__class__ is int and b.__class__ is int:
            x, y = sgn(a, w), sgn(b, w)
            r = abs(x) % abs(y)
            return (r if x >= 0 else -r) & MASK[w]
        al = self.ilin(a, w)
        if T.lrange(al)[0] >= 0 and b.__class__ is int:
            return self.i_urem(a, b, w)
        return self.ibits("srem", a, b, w)

    def need_nonneg(self, l):
        if l.__class__ is int:
            return
        lo, _ = l.range()
        if lo >= 0:
            return
        if not P.lia_unsat(self.pc, T.ile0(T.ladd(l, 1))):
            raise Unsupported("possibly negative unsigned value %r" % l)

    def icmp(self, pred, a, b, w):
        if a is UNDEF or b is UNDEF:
            self.violation("comparison of an uninitialised value", "memory")
        ca, cb = a.__class__, b.__class__
        if ca is tuple or cb is tuple or ca is FnPtr or cb is FnPtr:
            if ca is tuple and cb is tuple and a[0] is b[0]:
                d = T.lsub(a[1], b[1])
                w = 64
                if pred in ("eq", "ne"):
                    r = T.ieq0(d)
                    return self.b1(r if pred == "eq" else T.bnot(r))
                p = pred[1:]
                return self.b1(self.cmp0(p, d))
            if pred in ("eq", "ne"):
                e = (a == b) if not (ca is tuple and cb is tuple) else False
                return int(e if pred == "eq" else not e)
            if ca is tuple and cb is tuple:
                x, y = a[0].id, b[0].id
                return int({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pred[1:]])
            raise Unsupported("pointer comparison")
        if w == 1:
            x, y = self.tob(a), self.tob(b)
            if pred in ("eq", "ne"):
                if y.__class__ is not B:
                    r = x if y else T.bnot(x)
                elif x.__class__ is not B:
                    r = y if x else T.bnot(y)
                else:
                    r = T.bor(T.band(x, y), T.band(T.bnot(x), T.bnot(y)))
                return self.b1(r if pred == "eq" else T.bnot(r))
        if ca is B or cb is B:
            a = a if ca is not B else int(self.decide(a))
            b = b if cb is not B else int(self.decide(b))
            return self.icmp(pred, a, b, w) if a.__class__ is Lin or b.__class__ is Lin else self.icmpc(pred, a, b, w)
        if ca is bool or cb is bool:
            return self.icmpc(pred, int(a), int(b), w)
        if ca in (SBit, Node) and cb is int and ((pred in ("slt", "sge") and b == 0) or (pred in ("sgt", "sle") and b == MASK[w])):
            r = self.sbit(a)
            r = r if pred in ("slt", "sle") else T.bnot(r)
            return self.b1(r) if r.__class__ is B else int(r)
        if ca is float or cb is float or ca is Node or cb is Node or ca is SBit or cb is SBit:
            raise Unsupported("integer view of a real")
        if pred in ("eq", "ne"):
            if ca is int and a >> (w - 1) or cb is int and b >> (w - 1):
                # compare as signed; an unsigned view with a negative constant cannot equal a nonnegative value
                pass
            r = T.ieq0(T.lsub(self.ilin(a, w), self.ilin(b, w)))
            return self.b1(r if pred == "eq" else T.bnot(r))
        if pred[0] == "s":
            d = T.lsub(self.ilin(a, w), self.ilin(b, w))
        else:
            for x in (a, b):
                if x.__class__ is Lin:
                    self.need_nonneg(x)
            d = T.lsub(a, b)
        return self.b1(self.cmp0(pred[1:], d))

    def icmpc(self, pred, a, b, w):
        if pred[0] == "s":
            a, b = sgn(a, w), sgn(b, w)
        p = pred if pred in ("eq", "ne") else pred[1:]
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p])

    def cmp0(self, p, d):
        if p == "lt":
            return T.ile0(T.ladd(d, 1))
        if p == "le":
            return T.ile0(d)
        if p == "gt":
            return T.bnot(T.ile0(d))
        return T.bnot(T.ile0(T.ladd(d, 1)))

    def zext(self, x, w, w2):
        if x.__class__ is Lin:
            lo, hi = x.range()
            if lo < 0 and not P.lia_unsat(self.pc, T.ile0(T.ladd(x, 1))):
                raise Unsupported("zext of possibly negative %r" % x)
            return x
        if x.__class__ is B:
            if w2 <= 8:
                return x           # stored bool
            return 1 if self.decide(x) else 0
        if x.__class__ is bool:
            return int(x)
        return x

    def cast(self, op, x, st, dt):
        c = x.__class__
        if c is Parts:
            if op == "trunc" and x.cells[0][1] * 8 == width(dt):
                return x.cells[0][2]
            raise Unsupported("%s of members copied together" % op)
        if x is UNDEF:
            return x if op in ("trunc", "sext", "bitcast") else self.undef_real()
        if op == "trunc":
            w = width(dt)
            if c is int:
                return x & MASK[w]
            if c is Lin:
                if w == 1:
                    return self.b1(T.bnot(T.ieq0(self.i_and(x, 1, width(st)))))
                lo, hi = x.range()
                if lo >= -(1 << (w - 1)) and hi < (1 << w):
                    return x
                raise Unsupported("truncation of %r" % x)
            if c is B:
                return x
            if c is tuple:
                raise Unsupported("pointer truncation")
            return x
        if op == "sext":
            w, w2 = width(st), width(dt)
            if c is int:
                return sgn(x, w) & MASK[w2]
            if c is Lin:
                lo, hi = x.range()
                if hi < (1 << (w - 1)) or P.lia_unsat(self.pc, T.bnot(T.ile0(T.ladd(x, 1 - (1 << (w - 1)))))):
                    return x
                raise Unsupported("sext range")
            if c is B:
                return MASK[w2] if self.decide(x) else 0
            return x
        if op in ("sitofp", "uitofp"):
            w = width(st)
            if c is int:
                return float(sgn(x, w) if op == "sitofp" else x)
            if c is B:
                return T.ite(x, T.ONE, T.ZERO)
            if c is Lin:
                if op == "uitofp":
                    self.need_nonneg(x)
                return self.int_real(x)
        if op in ("fptosi", "fptoui"):
            if c is float:
                return int(x) & MASK[width(dt)]
            if c is Node and x.op == "v" and x.args[0].__class__ is tuple and x.args[0][0] == "#int":
                return x.args[0][1]
            raise Unsupported("conversion of a symbolic real to an integer")
        if op == "fptrunc":
            if c is float:
                return struct.unpack("f", struct.pack("f", x))[0]
            self.notes.add("float (32-bit) truncation treated as exact")
            return x
        if op == "bitcast":
            if st == "d" and dt == "i64" and c is float:
                return struct.unpack(">Q", struct.pack(">d", x))[0]
            if st == "i64" and dt == "d" and c is int:
                return struct.unpack(">d", struct.pack(">Q", x))[0]
            return x
        raise Unsupported("cast %s %s %s" % (op, st, dt))

    def int_real(self, l):
        if l.__class__ is int:
            return float(l)
        n = T.mk("v", ("#int", l))
        if n not in T.VI.kind:
            lo, hi = l.range()
            T.VI.kind[n] = 1 if lo > 0 else 2 if lo >= 0 else 0
            T.VI.rng[n] = (lo, hi)
        return n

    # ------------------------------------------------------------------ reals
    def undef_real(self):
        self.nundef += 1
        self.notes.add("uninitialised real read")
        return T.var("undef#%d" % self.nundef)

    def rn(self, x):
        """to Node; None for inf/nan"""
        c = x.__class__
        if c is Node:
            return x
        if c is float:
            if x != x or x in (math.inf, -math.inf):
                return None
            return T.const(x)
        if x is UNDEF:
            return self.undef_real()
        if c is int:
            return T.const(struct.unpack(">d", struct.pack(">Q", x))[0])
        raise Unsupported("real operand %r" % (x,))

    def fadd(self, x, y):
        a, b = self.rn(x), self.rn(y)
        if a is None or b is None:
            if a is None and b is None:
                return x + y
            return x if a is None else y
        return T.add(a, b)

    def fsub(self, x, y):
        a, b = self.rn(x), self.rn(y)
        if a is None or b is None:
            if a is None and b is None:
                return x - y
            return x if a is None else -y
        return T.sub(a, b)

    def fneg(self, x):
        return T.neg(self.rn(x))

    def rsign(self, n):
        s = T.sign(n)
        if s in ("+", "-", "0"):
            return {"+": 1, "-": -1, "0": 0}[s]
        if self.decide(T.req(n, T.ZERO)):
            return 0
        return 1 if self.decide(T.rlt(T.ZERO, n)) else -1

    def fmul(self, x, y):
        a, b = self.rn(x), self.rn(y)
        if a is None or b is None:
            if a is None and b is None:
                return x * y
            sp, n = (x, b) if a is None else (y, a)
            if sp != sp:
                return sp
            return sp * float(self.rsign(n))
        return T.mul(a, b)

    def fdiv(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            if y == 0.0:
                if x == 0.0 or x != x:
                    return math.nan
                return math.copysign(math.inf, x) * math.copysign(1.0, y)
            return x / y
        a, b = self.rn(x), self.rn(y)
        if a is None or b is None:
            if a is None and b is None:
                return math.nan
            if a is None:
                if x != x:
                    return x
                s = self.rsign(b)
                return x * (s if s else 1)
            if y != y:
                return y
            return 0.0
        if b.op == "c":
            if b.args[0] == 0:
                s = self.rsign(a)
                return math.nan if s == 0 else s * math.inf
            return T.div(a, b)
        s = T.sign(b)
        if s in ("+", "-"):
            return T.div(a, b)
        z = T.req(b, T.ZERO)
        d = P.decide(z, self.pc, 200 if self.opts.get('divzero') else 3000)
        if d is None and self.noblig:
            d = False
        if d is None and self.opts.get("divzero"):
            self.notes.add("assumed: no divisor (water depth) is exactly zero")
            return T.div(a, b)
        if d is None:
            d = self.decide(z)
        if not d:
            return T.div(a, b)
        self.notes.add("a path divides by zero (IEEE result, zero taken as +0)")
        s = self.rsign(a)
        return math.nan if s == 0 else s * math.inf

    def frem(self, x, y):
        if x.__class__ is float and y.__class__ is float:
            return math.fmod(x, y)
        raise Unsupported("frem")

    def fcmp(self, pred, x, y):
        if x.__class__ is float and y.__class__ is float:
            un = x != x or y != y
            if pred == "ord":
                return int(not un)
            if pred == "uno":
                return int(un)
            if un:
                return int(pred[0] == "u")
            p = pred[1:]
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[p])
        a, b = self.rn(x), self.rn(y)
        if a is None or b is None:
            sp = x if a is None else y
            un = sp != sp
            if a is None and b is None:
                return self.fcmp(pred, float(x), float(y))
            if pred == "ord":
                return int(not un)
            if pred == "uno":
                return int(un)
            if un:
                return int(pred[0] == "u")
            p = pred[1:]
            if a is None:
                return self.fcmp(pred, x, 0.0)
            return self.fcmp(pred, 0.0, y)
        if pred == "ord":
            return 1
        if pred == "uno":
            return 0
        p = pred[1:]
        if p == "eq":
            r = T.req(a, b)
        elif p == "ne":
            r = T.bnot(T.req(a, b))
        elif p == "lt":
            r = T.rlt(a, b)
        elif p == "le":
            r = T.rle(a, b)
        elif p == "gt":
            r = T.rlt(b, a)
        else:
            r = T.rle(b, a)
        return r if r.__class__ is B else int(r)

    def select(self, c, a, b, ty):
        if c is UNDEF:
            self.violation("select on an uninitialised value", "memory")
        if c.__class__ is bool:
            return a if c else b
        if self.same(a, b):
            return a
        if ty == "d" or ty == "f":
            x, y = self.rn(a), self.rn(b)
            if x is not None and y is not None:
                d = P.quick(c, P.fact_keys(self.pc))
                if d is not None:
                    return a if d else b
                return T.ite(c, x, y)
        if ty == "i1":
            x, y = self.tob(a), self.tob(b)
            return self.b1(T.bor(T.band(c, x), T.band(T.bnot(c), y)))
        if ty[0] == "i" and P.int_only(c) and a.__class__ in (int, Lin) and b.__class__ in (int, Lin):
            d = P.decide(c, self.pc)
            if d is not None:
                return a if d else b
            if self.probe is not None:
                raise Unsupported("fork in a loop test")
        return a if self.decide(c) else b

    def insertvalue(self, agg, v, idx):
        if agg is UNDEF:
            raise Unsupported("insertvalue into undef")
        l = list(agg)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insertvalue(l[idx[0]], v, idx[1:])
        return tuple(l)

    # ------------------------------------------------------------------ memory
    def padd(self, p, o):
        if o.__class__ is int and o == 0:
            return p
        if p.__class__ is tuple:
            return (p[0], T.ladd(p[1], o))
        if p.__class__ is int:
            if o.__class__ is int:
                return (p + o) & MASK[64]
            if p == 0:
                return o
        if p is UNDEF:
            return UNDEF
        raise Unsupported("pointer arithmetic on %r" % (p,))

    def goff(self, o, i, sc, w):
        if i is UNDEF:
            self.violation("address computed from an uninitialised index", "memory")
        return T.ladd(o, T.lscale(self.ilin(i, w), sc))

    def badptr(self, p, what):
        if p.__class__ is int:
            self.violation("%s through a null pointer" % what, "memory")
        if p is UNDEF:
            self.violation("%s through an uninitialised pointer" % what, "memory")
        raise Unsupported("%s through %r" % (what, p))

    def bounds(self, o, off, size, what):
        if not o.alive:
            self.violation("%s of freed or dead object %s" % (what, o.name), "memory")
        if off.__class__ is int and o.size.__class__ is int:
            if 0 <= off and off + size <= o.size:
                return
            self.violation("%s out of bounds: offset %s in %s of size %s" % (what, off, o.name, o.size), "memory")
        k = (off, o.size, size)
        lo = T.ile0(T.lscale(off, -1))
        hi = T.ile0(T.lsub(T.ladd(off, size), o.size))
        for c in (lo, hi):
            if c.__class__ is B:
                if P.lia_unsat(self.pc, T.bnot(c)):
                    self.count_auto("bounds")
                    continue
                if self.noblig:
                    raise Unsupported("bounds in a probe")
                # is it definitely reachable?
                self.violation("%s possibly out of bounds: offset %r in %s of size %r" % (what, off, o.name, o.size), "memory", soft=T.bnot(c))
            elif c is False:
                self.violation("%s out of bounds: offset %r in %s of size %r" % (what, off, o.name, o.size), "memory")

    def load(self, p, size, ty):
        if p.__class__ is not tuple:
            self.badptr(p, "load")
        o, off = p
        c = o.cells.get(off)
        if c is not None and c[0] == size and o.alive:
            v = c[1]
            if self.rlog is not None and o.id < self.loop_obj_mark and (o.id, off) not in self.wset:
                self.rlog.append((o, off, size))
            if v.__class__ is int:
                if ty == "d":
                    v = struct.unpack(">d", struct.pack(">Q", v))[0]
            elif v is UNDEF:
                if ty == "d":
                    v = self.undef_real()
                    self.setcell(o, off, (8, v))
            elif v is POISON:
                raise Unsupported("read of a value left by a loop")
            return v
        self.bounds(o, off, size, "load")
        v = self.slow_load(o, off, size, ty)
        if v is POISON:
            raise Unsupported("read of a value left by a loop")
        if v is UNDEF and ty == "d":
            v = self.undef_real()
            if not o.layers and off.__class__ is int:
                self.setcell(o, off, (8, v))
        if v.__class__ is int and ty == "d":
            v = struct.unpack(">d", struct.pack(">Q", v))[0]
        if v.__class__ is float and ty[0] == "i" and False:
            v = struct.unpack(">Q", struct.pack(">d", v))[0]
        return v

    def setcell(self, o, off, c):
        if self.journal is not None:
            self.journal.append((0, o, off, o.cells.get(off)))
        o.cells[off] = c

    def slow_load(self, o, off, size, ty):
        if o.layers is None and off.__class__ is int:
            v = self.assemble(o.cells, off, size, o.zero, ty)
            if self.rlog is not None and o.id < self.loop_obj_mark and (o.id, off) not in self.wset:
                self.rlog.append((o, off, size))
            return v
        if ty == "d" and self.loopdepth and off.__class__ is Lin and any(v in _itset for v, _ in off.t):
            rl = None if self.rlog is None else len(self.rlog)
            try:
                sf, self.nofork = self.nofork, True
                try:
                    return self.lay_load(o.cells, o.layers or [], o.zero, off, size, ty, o)
                finally:
                    self.nofork = sf
            except Unsupported as e:
                r = self.defer(o, off) if str(e) != "undecided" else None
                if r is None:
                    if rl is not None:
                        del self.rlog[rl:]
                    return self.lay_load(o.cells, o.layers or [], o.zero, off, size, ty, o)
                if rl is not None:
                    del self.rlog[rl:]
                    self.rlog.append((o, off, size))
                return r
        return self.lay_load(o.cells, o.layers or [], o.zero, off, size, ty, o)

    def defer(self, o, off):
        """a load whose row is not known yet (flat copies): a named value of the object's current contents"""
        if o.id >= self.loop_obj_mark:
            return None
        for ws in self.wstack + [self.wset or {}]:
            if any(k[0] == o.id for k in ws):
                return None
        if any(l.serial >= self.loop_serial for l in o.layers or []) or any(k.__class__ is Lin and any(v in _itset for v, _ in k.t) for k in o.cells):
            return None
        key = (o.id, tuple(l.serial for l in o.layers or []), o.zero, tuple(o.cells.items()))
        k = _snaps.get(key)
        if k is None:
            k = _snaps[key] = len(_snapl)
            _snapl.append((dict(o.cells), list(o.layers or []), o.zero))
        return self.ldvar(k, off)

    def ldvar(self, k, off):
        n = T.mk("v", ("@ld", k, off))
        if n not in T.VI.kind:
            T.VI.kind[n] = 0
            T.VI.rng[n] = (-2.0, 2.0)
        return n

    def resolve_ld(self, k, off):
        cells, layers, zero = _snapl[k]
        sf = self.nofork
        if off.__class__ is Lin and any(v in _itset for v, _ in off.t):
            self.nofork = True
        try:
            v = self.lay_load(cells, layers, zero, off, 8, "d", None)
        except Unsupported:
            if off.__class__ is int:
                raise
            return self.ldvar(k, off)
        finally:
            self.nofork = sf
        if v is UNDEF or v is POISON:
            raise Unsupported("copy of an uninitialised value")
        return T.as_node(v)

    def parts(self, cells, off, size, zero, ty):
        """an integer load that covers several whole cells (members copied together, with padding): the cells themselves"""
        if ty[0] != "i":
            return None
        out, at = [], off
        while at < off + size:
            c = cells.get(at)
            if c is None:
                if any(s in cells and s + cells[s][0] > at for s in range(at - 15, at)):
                    return None
                out.append((at - off, 1, 0 if zero else UNDEF))
                at += 1
            elif at + c[0] > off + size:
                return None
            else:
                out.append((at - off, c[0], c[1]))
                at += c[0]
        return Parts(tuple(out)) if any(v is not UNDEF for _, _, v in out) else None

    def assemble(self, cells, off, size, zero, ty):
        """value from overlapping cells of other sizes (concrete bytes) or fill"""
        bs = [None] * size
        found = False
        for s in range(off - 15, off + size):
            c = cells.get(s)
            if c is None or s + c[0] <= off:
                continue
            found = True
            if s == off and c[0] == size:
                return c[1]
            b = self.tobytes(c[1], c[0])
            if b is None:
                if c[1] is UNDEF:
                    continue
                if s == off and c[0] > size and ty[0] == "i" and c[1].__class__ is Lin:
                    return self.cast("trunc", c[1], "i%d" % (8 * c[0]), "i%d" % (8 * size))
                v = self.parts(cells, off, size, zero, ty)
                if v is not None:
                    return v
                raise Unsupported("partial read of a symbolic value (%d bytes at %d of cell %d+%d)" % (size, off, s, c[0]))
            for k in range(c[0]):
                if 0 <= s + k - off < size:
                    bs[s + k - off] = b[k]
        if not found:
            if zero:
                return 0.0 if ty in ("d", "f") else 0
            return UNDEF
        for k in range(size):
            if bs[k] is None:
                if zero:
                    bs[k] = 0
                else:
                    v = self.parts(cells, off, size, zero, ty)
                    return UNDEF if v is None else v
        n = int.from_bytes(bytes(bs), "little")
        if ty == "d":
            return struct.unpack("<d", bytes(bs))[0]
        if ty == "f":
            return struct.unpack("<f", bytes(bs))[0]
        return n

    def tobytes(self, v, size):
        c = v.__class__
        if c is int:
            return v.to_bytes(size, "little")
        if c is float:
            return struct.pack("<d", v) if size == 8 else struct.pack("<f", v) if size == 4 else None
        if c is bool:
            return int(v).to_bytes(size, "little")
        return None

    def in_range(self, off, size, lo, hi):
        """does [off,off+size) lie in [lo,hi)?  decided or forked; partial overlap unsupported"""
        a = T.ile0(T.lsub(lo, off))
        b = T.ile0(T.lsub(T.ladd(off, size), hi))
        c = T.band(a, b)
        return self.decide(c)

    def lay_load(self, cells, layers, zero, off, size, ty, o=None):
        stack = [("cells", cells, None)] + [(l.kind, l.a, l) for l in reversed(layers)]
        log = self.rlog is not None and o is not None and o.id < self.loop_obj_mark
        for kind, a, l in stack:
            own = False
            if kind == "cells":
                c = a.get(off)
                if c is not None and c[0] == size:
                    own = (l is None and o is not None and self.wset is not None and (o.id, off) in self.wset) or (l is not None and l.serial >= self.loop_serial)
                    if log and not own:
                        self.rlog.append((o, off, size))
                    return c[1]
                if off.__class__ is int:
                    # concrete: any overlapping concrete cells?
                    hitc = False
                    for s in range(off - 15, off + size):
                        cc = a.get(s)
                        if cc is not None and s + cc[0] > off:
                            hitc = True
                    if hitc:
                        v = self.assemble(a, off, size, False, ty)
                        if log:
                            self.rlog.append((o, off, size))
                        return v
                for k, cc in list(a.items()):
                    if k.__class__ is int and off.__class__ is int:
                        continue
                    if self.disjoint(k, cc[0], off, size, self.pc):
                        continue
                    if self.decide(T.ieq0(T.lsub(off, k))):
                        if cc[0] != size:
                            raise Unsupported("size mismatch through a symbolic offset")
                        if log:
                            self.rlog.append((o, off, size))
                        return cc[1]
                    if not self.disjoint(k, cc[0], off, size, self.pc):
                        raise Unsupported("partial overlap through a symbolic offset")
            elif kind == "comp":
                v2, trip, base, s2, val = a
                k = T.ldep(base, v2)
                b0 = T.lsub(base, T.lscale(T.lin_var(v2), k))
                d = T.lsub(off, b0)
                ks = abs(k)
                if d.__class__ is int:
                    g = ks
                    r = d % ks
                    lin = []
                else:
                    lin = d.t
                    r = d.c % ks
                if all(q % ks == 0 for _, q in lin):
                    if r != 0:
                        if s2 <= r <= ks - size:
                            continue
                        raise Unsupported("misaligned read of a loop effect")
                    q = T.lmk({v: c // k for v, c in lin}, (d if d.__class__ is int else d.c) // k)
                    inr = T.band(T.ile0(T.lscale(q, -1)), T.ile0(T.ladd(T.lsub(q, trip), 1)))
                    if inr is False:
                        continue
                    if self.decide(inr):
                        if size != s2:
                            raise Unsupported("size mismatch in a loop effect")
                        v = T.subst_int([val], {v2: q})[0]
                        if log and not (l.serial >= self.loop_serial):
                            self.rlog.append((o, off, size))
                        return v
                    continue
                if self.disjoint(base, s2, off, size, self.pc + list(self.fact_rng(v2, trip))):
                    continue
                raise Unsupported("read of a loop effect at an unrelated offset")
            elif kind == "zero":
                if log:
                    self.rlog.append((o, off, size))
                return 0.0 if ty in ("d", "f") else 0
            elif kind == "fill":
                lo, hi, byte = a
                if self.in_range(off, size, lo, hi):
                    if log and l.serial < self.loop_serial:
                        self.rlog.append((o, off, size))
                    if byte == 0:
                        return 0.0 if ty in ("d", "f") else 0
                    return int.from_bytes(bytes([byte] * size), "little")
            elif kind == "sym":
                lo, hi, name, mkv = a
                if self.in_range(off, size, lo, hi):
                    d = T.lsub(off, lo)
                    if d.__class__ is int:
                        if d % 8 or size != 8:
                            raise Unsupported("misaligned read of a symbolic array")
                        idx = d // 8
                    else:
                        if d.c % 8 or any(q % 8 for _, q in d.t):
                            raise Unsupported("misaligned read of a symbolic array")
                        idx = T.lmk({v: q // 8 for v, q in d.t}, d.c // 8)
                    if log and l.serial < self.loop_serial:
                        self.rlog.append((o, off, size))
                    return mkv(idx)
            elif kind == "copy":
                lo, ln, so, slo, scells, slayers, szero = a
                hi = T.ladd(lo, ln)
                if self.disjoint_range(off, size, lo, hi):
                    continue
                if self.in_range(off, size, lo, hi):
                    if log and l.serial < self.loop_serial:
                        self.rlog.append((o, off, size))
                    return self.lay_load(scells, slayers, szero, T.ladd(slo, T.lsub(off, lo)), size, ty, None)
        if zero:
            return 0.0 if ty in ("d", "f") else 0
        if log:
            self.rlog.append((o, off, size))
        if ty == "d":
            # uninitialised symbolic location
            return self.undef_real()
        return UNDEF

    def disjoint_range(self, off, size, lo, hi):
        a = T.ile0(T.lsub(T.ladd(off, size), lo))
        b = T.ile0(T.lsub(hi, off))
        r = T.bor(a, b)
        if r.__class__ is not B:
            return r
        return P.decide(r, self.pc) is True

    def store(self, p, v, size):
        if p.__class__ is not tuple:
            self.badptr(p, "store")
        if v.__class__ is Parts:
            for rel, n, x in v.cells:
                self.store(self.padd(p, rel), x, n)
            return
        o, off = p
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size or not o.alive or o.ro:
            if o.ro:
                self.violation("store to constant %s" % o.name, "memory")
            self.bounds(o, off, size, "store")
            self.clear_overlap(o, off, size)
            cells = o.cells
            c = cells.get(off)
        elif o.layers is not None and len(cells) > 1:
            # another symbolic cell of the same dictionary may alias: keep program order
            self.clear_overlap(o, off, size)
            cells = o.cells
            c = cells.get(off)
        if self.journal is not None:
            self.journal.append((0, o, off, c))
            if self.wset is not None:
                self.wset[(o.id, off)] = True
        cells[off] = (size, v)

    def clear_overlap(self, o, off, size):
        if off.__class__ is Lin or o.layers is not None:
            if o.layers is None:
                if self.journal is not None:
                    self.journal.append((1, o, o.cells, o.layers, o.zero))
                o.layers = []
            for k, cc in o.cells.items():
                if k == off and cc[0] == size:
                    continue
                if not self.disjoint(k, cc[0], off, size, self.pc):
                    if self.journal is not None:
                        self.journal.append((1, o, o.cells, o.layers, o.zero))
                    ls = list(o.layers)
                    if o.zero:
                        ls.append(Layer("zero", None, 0))
                        o.zero = False
                    ls.append(Layer("cells", o.cells, self.serial))
                    self.serial += 1
                    o.layers = ls
                    o.cells = {}
                    if self.rlog is not None and o.id < self.loop_obj_mark:
                        raise Unsupported("aliasing symbolic stores in a loop body")
                    return
            return
        cells = o.cells
        for s in range(off - 15, off + size):
            c = cells.get(s)
            if c is None or s + c[0] <= off:
                continue
            if s == off and c[0] == size:
                continue
            # split the old cell into bytes where possible
            if self.journal is not None:
                self.journal.append((0, o, s, c))
            del cells[s]
            if s >= off and s + c[0] <= off + size:
                continue
            b = self.tobytes(c[1], c[0])
            for k in range(c[0]):
                if not (off <= s + k < off + size):
                    if self.journal is not None:
                        self.journal.append((0, o, s + k, None))
                    cells[s + k] = (1, b[k] if b is not None else UNDEF)

    def loadagg(self, p, ty):
        return tuple(self.load(self.padd(p, off), tsize(t), t) if isinstance(t, str) else self.loadagg(self.padd(p, off), t) for off, t in ty[1:])

    def storeagg(self, p, v, ty):
        for (off, t), x in zip(ty[1:], v):
            if isinstance(t, str):
                self.store(self.padd(p, off), x, tsize(t))
            else:
                self.storeagg(self.padd(p, off), x, t)

    def memcpy(self, d, s, n):
        if n.__class__ is int and n == 0:
            return
        if d.__class__ is not tuple or s.__class__ is not tuple:
            if n.__class__ is Lin:
                if self.decide(T.ile0(n)):
                    return
            self.badptr(d if d.__class__ is not tuple else s, "memcpy")
        do, doff = d
        so, soff = s
        if n.__class__ is int and doff.__class__ is int and soff.__class__ is int and so.layers is None and do.layers is None:
            self.bounds(do, doff, n, "memcpy")
            self.bounds(so, soff, n, "memcpy")
            if n <= 4 * len(so.cells) + 64:
                items = []
                k = 0
                while k < n:
                    c = so.cells.get(soff + k)
                    if c is not None and k + c[0] <= n:
                        items.append((k, c))
                        k += c[0]
                    else:
                        k += 1
            else:
                items = sorted((k - soff, c) for k, c in so.cells.items() if k.__class__ is int and k >= soff and k + c[0] <= soff + n)
            # straddling source cells
            edge = self.straddle(so, soff) or self.straddle(so, soff + n)
            if edge:
                bs = [self.load((so, soff + k), 1, "i8") for k in range(n)]
                items = [(k, (1, b)) for k, b in enumerate(bs)]
            have = set()
            if self.rlog is not None and so.id < self.loop_obj_mark:
                for k, c in items:
                    if (so.id, soff + k) not in self.wset:
                        self.rlog.append((so, soff + k, c[0]))
            gaps = n - sum(c[0] for _, c in items)
            if gaps:
                covered = bytearray(n)
                for k, c in items:
                    for q in range(c[0]):
                        covered[k + q] = 1
                q = 0
                while q < n:
                    if not covered[q]:
                        w = 8 if q % 8 == 0 and q + 8 <= n and not any(covered[q:q + 8]) else 1
                        if so.zero:
                            items.append((q, (w, 0)))
                        else:
                            items.append((q, (w, UNDEF)))
                        q += w
                    else:
                        q += 1
            for k, c in items:
                self.store((do, doff + k), c[1], c[0])
            return
        self.bounds(do, doff, n, "memcpy")
        self.bounds(so, soff, n, "memcpy")
        if self.rlog is not None and so.id < self.loop_obj_mark:
            raise Unsupported("bulk copy inside a symbolic loop")
        a = (doff, n, so, soff, dict(so.cells), list(so.layers or []), so.zero)
        self.add_layer(do, "copy", a)

    def straddle(self, o, off):
        for s in range(off - 15, off):
            c = o.cells.get(s)
            if c is not None and s + c[0] > off:
                return True
        return False

    def memset(self, d, byte, n):
        if n.__class__ is int and n == 0:
            return
        if d.__class__ is not tuple:
            if n.__class__ is Lin and self.decide(T.ile0(n)):
                return
            self.badptr(d, "memset")
        o, off = d
        self.bounds(o, off, n, "memset")
        if byte.__class__ is not int:
            raise Unsupported("memset with a symbolic byte")
        if n.__class__ is int and off.__class__ is int and o.layers is None:
            if n > 64 and byte == 0 and off == 0 and n == o.size and self.journal is None:
                o.cells = {}
                o.zero = True
                return
            for k in range(0, n - n % 8, 8):
                self.store((o, off + k), int.from_bytes(bytes([byte] * 8), "little"), 8)
            for k in range(n - n % 8, n):
                self.store((o, off + k), byte, 1)
            return
        self.add_layer(o, "fill", (off, T.ladd(off, n), byte))

    # ------------------------------------------------------------------ obligations
    def count_auto(self, k):
        self.auto[k] = self.auto.get(k, 0) + 1

    def violation(self, msg, kind, soft=None):
        """an implicit safety obligation failed on this path"""
        if self.noblig or self.probe is not None:
            raise Unsupported("violation in a probe: " + msg)
        facts = [f for f in self.pc if f.__class__ is B] + ([soft] if soft.__class__ is B else [])
        st, model, _ = P.z3_check(facts, [], 10000)
        if st == "unsat":
            raise PathAbort()
        where = "safety:" + msg.split(":")[0]
        self.failures.append({"name": where, "detail": msg, "status": "refuted" if st == "sat" else "undecided", "model": model, "pc": [repr(f) for f in facts[-8:]]})
        raise PathDone(msg)

    def obligation(self, name, b, near=None):
        if self.loopdepth:
            raise Unsupported("contract clause inside a symbolic loop")
        pc = [f for f in self.pc if f.__class__ is B]
        key = (name, b.id if b.__class__ is B else b, tuple(f.id for f in pc), near)
        r = self.oblig_cache.get(key)
        if r is not None:
            return r
        r = None
        if near is not None:
            a, e, tol = near
            try:
                if P.near(a, e, tol) or P.near(a, e, tol, pc):
                    r = P.Result(True, "poly" if P.is_zero(T.sub(a, e)) else "near")
            except P.TooBig:
                pass
        if r is None:
            try:
                r = P.prove(b, pc, timeout=self.opts.get("timeout", 10000))
            except P.TooBig:
                r = P.Result(None, "too big")
        self.oblig_cache[key] = r
        if r.ok is True:
            self.results.append((name, r.how))
        else:
            self.failures.append({"name": name, "detail": "cannot prove %s" % T.showb(b, 5)[:1500], "status": "refuted" if r.ok is False else "undecided", "model": r.model, "pc": [T.showb(f, 4)[:300] for f in pc[-12:]]})
        return r

    # ------------------------------------------------------------------ top level
    def run_contract(self, name, max_paths=4000):
        self.auto = {}
        ex = Explorer()
        self.npaths = 0
        self.ncomplete = 0
        self.throws = []
        self.merge_fail = {}
        self.merging = bool(self.opts.get("merge"))
        import time
        t0 = time.time()
        limit = self.opts.get("time", 700)
        while True:
            self.reset()
            self.declared = {}
            self.explorer = ex
            ex.pos = 0
            self.fuel = self.fuel0
            self.forced = None
            self.loopdepth = 0
            self.wstack = []
            self.nofork = False
            T.LD_HOOK[0] = self.resolve_ld
            self.noblig = False
            self.nlayer = 0
            self.cover = []
            try:
                for c in self.mod["ctors"]:
                    self.call(c, [])
                self.call(name, [])
                self.ncomplete += 1
            except PathAbort:
                pass
            except PathDone as e:
                pass
            except CppThrow as e:
                self.throws.append(e.what)
                pc = [f for f in self.pc if f.__class__ is B]
                st, model, _ = P.z3_check(pc, [], 10000)
                if st != "unsat":
                    self.failures.append({"name": "no-exception", "detail": "exception %s escapes" % e.what, "status": "refuted" if st == "sat" else "undecided", "model": model, "pc": [T.showb(f, 4)[:300] for f in pc[-12:]]})
            self.npaths += 1
            if not ex.next():
                break
            if self.npaths > max_paths:
                raise Unsupported("too many paths")
            if time.time() - t0 > limit:
                raise Unsupported("contract time limit")


_probes = {}
_iters = []
_itset = set()
_snaps = {}
_snapl = []
_layers = []
_opq = {}
