"""Models of external functions (libm, libc, C++ runtime) and of the contract API (vc_*)."""
import math, struct
from fractions import Fraction as Fr
import terms as T
import prove as P
from terms import Node, Lin, B
import vcexec as X


def cstr(M, p):
    s = bytearray()
    o, off = p
    while True:
        v = M.load((o, off), 1, "i8")
        if v == 0:
            return s.decode("latin1")
        s.append(v)
        off += 1
        if len(s) > 400:
            raise X.Unsupported("string")


def install(M):
    I = M.intrin

    def fn1(name, f, sym):
        def g(a):
            x = a[0]
            if x.__class__ is float:
                try:
                    return f(x)
                except (ValueError, OverflowError):
                    return math.nan
            n = M.rn(x)
            if n is None:
                return f(x)
            return sym(n)
        for nm in name.split():
            I[nm] = g

    def msqrt(n):
        s = T.sign(n)
        if s in ("+", "0+", "0"):
            return T.sqrt(n)
        if M.noblig:
            return T.sqrt(n)
        if P.nonneg(n, M.pc):
            return T.sqrt(n)
        neg = T.rlt(n, T.ZERO)
        d = P.decide(neg, M.pc, 200 if M.opts.get('sqrtneg') else 3000)
        if d is None and M.opts.get('sqrtneg'):
            M.notes.add('assumed: no square root of a negative number (depth of the trace)')
            return T.sqrt(n)
        if d is None:
            d = M.decide(neg)
        if d:
            return math.nan
        return T.sqrt(n)

    def mabs(n):
        s = T.sign(n)
        if s in ("+", "0+", "0"):
            return n
        if s in ("-", "0-"):
            return T.neg(n)
        d = P.decide(T.rlt(T.ZERO, n), M.pc, 0)
        if d is not None:
            return n if d else T.neg(n)
        return T.ite(T.rlt(T.ZERO, n), n, T.neg(n))

    fn1("sqrt llvm.sqrt.f64", math.sqrt, msqrt)
    fn1("fabs llvm.fabs.f64", abs, mabs)
    fn1("sin llvm.sin.f64", math.sin, lambda n: T.fn("sin", n))
    fn1("cos llvm.cos.f64", math.cos, lambda n: T.fn("cos", n))
    fn1("tan", math.tan, lambda n: T.div(T.fn("sin", n), T.fn("cos", n)))
    fn1("tanh", math.tanh, lambda n: T.fn("tanh", n))
    fn1("exp llvm.exp.f64", math.exp, lambda n: T.fn("exp", n))
    fn1("log llvm.log.f64", math.log, lambda n: T.fn("log", n))
    fn1("atan", math.atan, lambda n: T.fn("atan", n))
    fn1("acos", math.acos, lambda n: T.fn("acos", n))
    fn1("asin", math.asin, lambda n: T.fn("asin", n))
    fn1("cosh", math.cosh, lambda n: T.fn("cosh", n))
    fn1("floor llvm.floor.f64", lambda x: float(math.floor(x)), lambda n: T.fn("floor", n))
    fn1("ceil llvm.ceil.f64", lambda x: float(math.ceil(x)), lambda n: T.fn("ceil", n))
    fn1("tgamma", math.gamma, lambda n: T.fn("tgamma", n))
    fn1("llvm.trunc.f64 trunc", lambda x: float(math.trunc(x)), lambda n: T.fn("trunc", n))
    fn1("llvm.round.f64 round", lambda x: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1), lambda n: T.fn("round", n))

    def hyp(a):
        x, y = a
        if x.__class__ is float and y.__class__ is float:
            return math.hypot(x, y)
        p, q = M.rn(x), M.rn(y)
        if p is None or q is None:
            return math.inf
        return T.sqrt(T.add(T.mul(p, p), T.mul(q, q)))
    I["hypot"] = hyp

    def mpow(a):
        x, y = a
        if x.__class__ is float and y.__class__ is float:
            try:
                return math.pow(x, y)
            except (ValueError, OverflowError):
                return math.nan
        p, q = M.rn(x), M.rn(y)
        if p is None or q is None:
            raise X.Unsupported("pow of a special value")
        if q.op == "c":
            e = Fr(q.args[0])
            if e.denominator == 1 and abs(e) <= 16:
                return ipow(p, int(e))
            if e == Fr(1, 2):
                return msqrt(p)
            f = e.numerator // e.denominator
            if 1 <= f <= 8:
                return T.mul(ipow(p, f), T.fn("pow", p, T.const(e - f)))
        return T.fn("pow", p, q)

    def ipow(p, n):
        if n < 0:
            r = ipow(p, -n)
            return M.fdiv(T.ONE, r)
        r = T.ONE
        for _ in range(n):
            r = T.mul(r, p)
        return r
    I["pow"] = mpow
    I["llvm.pow.f64"] = mpow

    def powi(a):
        x, n = a
        if n.__class__ is not int:
            raise X.Unsupported("powi")
        n = X.sgn(n, 32)
        if x.__class__ is float:
            return x ** n
        return ipow(M.rn(x), n)
    I["llvm.powi.f64.i32"] = powi

    def mod2(name, f):
        def g(a):
            if a[0].__class__ is float and a[1].__class__ is float:
                return f(*a)
            p, q = M.rn(a[0]), M.rn(a[1])
            if name in ("fmax", "fmin"):
                if p is None or q is None:
                    sp, o = (a[0], a[1]) if p is None else (a[1], a[0])
                    if sp != sp:
                        return o
                    return sp if (sp > 0) == (name == "fmax") else o
                c = T.rlt(p, q)
                return T.ite(c, q, p) if name == "fmax" else T.ite(c, p, q)
            return T.fn(name, p, q)
        return g
    I["fmax"] = I["llvm.maxnum.f64"] = mod2("fmax", max)
    I["fmin"] = I["llvm.minnum.f64"] = mod2("fmin", min)
    I["atan2"] = mod2("atan2", math.atan2)
    I["fmod"] = mod2("fmod", math.fmod)
    I["llvm.fmuladd.f64"] = lambda a: M.fadd(M.fmul(a[0], a[1]), a[2]) if any(x.__class__ is not float for x in a) else a[0] * a[1] + a[2]
    I["llvm.copysign.f64"] = lambda a: copysign(a)

    def copysign(a):
        if a[0].__class__ is float and a[1].__class__ is float:
            return math.copysign(*a)
        x, y = M.rn(a[0]), M.rn(a[1])
        ax = mabs(x)
        return T.ite(T.rlt(y, T.ZERO), T.neg(ax), ax)

    # ---- integer intrinsics
    for w in (8, 16, 32, 64):
        def mm(w=w):
            def mk(signed, mx):
                def g(a):
                    x, y = a
                    if x.__class__ is int and y.__class__ is int:
                        k = (lambda v: X.sgn(v, w)) if signed else (lambda v: v)
                        return (max if mx else min)(x, y, key=k)
                    c = M.icmp("sgt" if signed else "ugt", x, y, w)
                    if c.__class__ is B:
                        c = M.decide(c)
                    return (x if c else y) if mx else (y if c else x)
                return g
            I["llvm.smax.i%d" % w] = mk(True, True)
            I["llvm.smin.i%d" % w] = mk(True, False)
            I["llvm.umax.i%d" % w] = mk(False, True)
            I["llvm.umin.i%d" % w] = mk(False, False)

            def iabs(a):
                x = a[0]
                if x.__class__ is int:
                    return abs(X.sgn(x, w)) & X.MASK[w]
                c = M.icmp("slt", x, 0, w)
                if c.__class__ is B:
                    c = M.decide(c)
                return T.lscale(x, -1) if c else x
            I["llvm.abs.i%d" % w] = iabs

            def ovf(op, signed):
                def g(a):
                    x, y = a
                    if x.__class__ is int and y.__class__ is int:
                        if signed:
                            x, y = X.sgn(x, w), X.sgn(y, w)
                        r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                        return (r & X.MASK[w], int(not lo <= r <= hi))
                    r = {"add": M.iadd, "sub": M.isub, "mul": M.imul}[op](x, y, w)
                    lo, hi = T.lrange(r) if r.__class__ in (int, Lin) else (0, 0)
                    L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
                    if L <= lo and hi <= H:
                        return (r, 0)
                    bad = T.bor(T.ile0(T.ladd(T.lsub(r, L), 1)), T.ile0(T.ladd(T.lsub(H, r), 1)))
                    if P.lia_unsat(M.pc, bad):
                        return (r, 0)
                    raise X.Unsupported("overflow check")
                return g
            for op in ("add", "sub", "mul"):
                I["llvm.u%s.with.overflow.i%d" % (op, w)] = ovf(op, False)
                I["llvm.s%s.with.overflow.i%d" % (op, w)] = ovf(op, True)

            def usub(a):
                if a[0].__class__ is int and a[1].__class__ is int:
                    return max(0, a[0] - a[1])
                raise X.Unsupported("usub.sat")
            I["llvm.usub.sat.i%d" % w] = usub
            I["llvm.ctpop.i%d" % w] = lambda a: bin(a[0]).count("1")

            def clz(a):
                return w - a[0].bit_length()
            I["llvm.ctlz.i%d" % w] = clz
            I["llvm.cttz.i%d" % w] = lambda a: (a[0] & -a[0]).bit_length() - 1 if a[0] else w

            def fsh(a):
                s = a[2] % w
                return ((a[0] << s) | (a[1] >> (w - s))) & X.MASK[w] if s else a[0]
            I["llvm.fshl.i%d" % w] = fsh

            def fshr(a):
                s = a[2] % w
                return ((a[1] >> s) | (a[0] << (w - s))) & X.MASK[w] if s else a[1]
            I["llvm.fshr.i%d" % w] = fshr
            I["llvm.bswap.i%d" % w] = lambda a: int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
            I["llvm.expect.i%d" % w] = lambda a: a[0]
        mm()
    I["llvm.expect.i1"] = lambda a: a[0]
    I["llvm.is.constant.i64"] = I["llvm.is.constant.i32"] = I["llvm.is.constant.i1"] = I["llvm.is.constant.i8"] = lambda a: 0
    I["llvm.assume"] = lambda a: None
    I["llvm.invariant.start.p0"] = lambda a: 0
    I["llvm.invariant.end.p0"] = lambda a: None
    I["llvm.stacksave.p0"] = I["llvm.stacksave"] = lambda a: 0
    I["llvm.stackrestore.p0"] = I["llvm.stackrestore"] = lambda a: None
    I["llvm.prefetch.p0"] = lambda a: None
    I["llvm.trap"] = lambda a: M.violation("trap reached", "memory")
    I["llvm.eh.typeid.for"] = I["llvm.eh.typeid.for.p0"] = lambda a: 1

    def is_fpclass(a):
        x, m = a
        if x.__class__ is Node:
            fin = 0b1111111100 & ~0b1000000100 & 0x3ff
            if m & 3 == m:            # only NaN classes
                return 0
            if m & ~3 == 0x204:       # only infinities (and NaN)
                return 0
            if m == 0x1f8:
                return 1
            raise X.Unsupported("is.fpclass %x" % m)
        cls = 0
        if x != x:
            cls = 3
        elif x == math.inf:
            cls = 0x200
        elif x == -math.inf:
            cls = 4
        elif x == 0:
            cls = 0x40 if math.copysign(1, x) > 0 else 0x20
        else:
            cls = 0x100 if x > 0 else 8
        return int(bool(cls & m))
    I["llvm.is.fpclass.f64"] = is_fpclass

    # ---- memory
    def memcpy(a):
        M.memcpy(a[0], a[1], a[2])
        return a[0]
    for nm in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "memcpy", "memmove"):
        I[nm] = memcpy

    def memset(a):
        M.memset(a[0], a[1] & 255 if a[1].__class__ is int else a[1], a[2])
        return a[0]
    I["llvm.memset.p0.i64"] = I["memset"] = memset

    def memcmp(a):
        p, q, n = a
        if n.__class__ is not int:
            raise X.Unsupported("memcmp")
        for k in range(n):
            x, y = M.load(M.padd(p, k), 1, "i8"), M.load(M.padd(q, k), 1, "i8")
            if x != y:
                return (1 if x > y else -1) & 0xffffffff
        return 0
    I["memcmp"] = I["bcmp"] = memcmp

    def strlen(a):
        n = 0
        while M.load(M.padd(a[0], n), 1, "i8") != 0:
            n += 1
        return n
    I["strlen"] = strlen

    def memchr(a):
        for k in range(a[2]):
            if M.load(M.padd(a[0], k), 1, "i8") == a[1] & 255:
                return M.padd(a[0], k)
        return 0
    I["memchr"] = memchr

    def alloc(a):
        n = a[0]
        if n.__class__ is X.Undef:
            M.violation("allocation of an uninitialised size", "memory")
        if n.__class__ is int and n > (1 << 34):
            M.violation("allocation of %d bytes" % n, "memory")
        return (M.new_obj("heap", n, "heap"), 0)
    for nm in ("malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "__cxa_allocate_exception"):
        I[nm] = alloc
    I["_ZnwmRKSt9nothrow_t"] = alloc
    I["aligned_alloc"] = lambda a: alloc([a[1]])

    def calloc(a):
        p = alloc([M.imul(a[0], a[1], 64)])
        p[0].zero = True
        return p
    I["calloc"] = calloc

    def free(a):
        p = a[0]
        if p.__class__ is tuple:
            if p[0].kind == "heap" and p[1] == 0:
                if not p[0].alive:
                    M.violation("double free", "memory")
                if M.journal is not None:
                    M.journal.append((2, p[0]))
                p[0].alive = False
            else:
                M.violation("free of a non-heap pointer", "memory")
        elif p.__class__ is not int:
            M.violation("free of an uninitialised pointer", "memory")
    for nm in ("free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
        I[nm] = free

    def realloc(a):
        p, n = a
        q = alloc([n])
        if p.__class__ is tuple:
            old = p[0].size
            m = n
            if old.__class__ is int and n.__class__ is int:
                m = min(old, n)
            elif old != n:
                raise X.Unsupported("realloc with symbolic sizes")
            M.memcpy(q, p, m)
            free([p])
        return q
    I["realloc"] = realloc

    # ---- C++ runtime
    I["__cxa_atexit"] = lambda a: 0
    I["__cxa_free_exception"] = lambda a: None

    def guard_acq(a):
        v = M.load(a[0], 1, "i8")
        return 0 if v == 1 else 1
    I["__cxa_guard_acquire"] = guard_acq
    I["__cxa_guard_release"] = lambda a: M.store(a[0], 1, 1)

    def throw(a):
        nm = a[1][0].name if a[1].__class__ is tuple else "?"
        raise X.CppThrow(nm)
    I["__cxa_throw"] = throw
    for nm in ("_ZSt20__throw_length_errorPKc", "_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz", "_ZSt19__throw_logic_errorPKc", "_ZSt25__throw_bad_function_callv", "_ZSt16__throw_bad_castv", "_ZSt24__throw_invalid_argumentPKc", "_ZSt20__throw_system_errori"):
        def th(a, nm=nm):
            raise X.CppThrow(nm)
        I[nm] = th
    for nm in ("_ZSt9terminatev", "abort", "__clang_call_terminate", "exit", "__assert_fail", "_exit"):
        def ab(a, nm=nm):
            if nm == "exit":
                raise X.CppThrow("exit")
            M.violation("%s reached" % nm, "abort")
        I[nm] = ab
    I["__gxx_personality_v0"] = lambda a: 0
    for nm in ("_ZNSt13runtime_errorC1EPKc", "_ZNSt11logic_errorC1EPKc", "_ZNSt12out_of_rangeC1EPKc", "_ZNSt16invalid_argumentC1EPKc",
               "_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
               "_ZNSt9bad_allocD1Ev", "_ZNSt9exceptionD2Ev"):
        I[nm] = lambda a: None

    # red-black trees (std::map / std::set): libstdc++ keeps these out of line.  Node layout: color, parent, left, right
    def ld(p, k):
        return M.load(M.padd(p, k), 8, "p")

    def stp(p, k, v):
        M.store(M.padd(p, k), v, 8)

    def eqp(a, b):
        return M.same(a, b)

    def rb_inc(a):
        x = a[0]
        r = ld(x, 24)
        if r != 0:
            x = r
            while ld(x, 16) != 0:
                x = ld(x, 16)
            return x
        y = ld(x, 8)
        while eqp(x, ld(y, 24)):
            x = y
            y = ld(y, 8)
        if not eqp(ld(x, 24), y):
            x = y
        return x

    def rb_dec(a):
        x = a[0]
        if M.load(x, 4, "i32") == 0 and eqp(ld(ld(x, 8), 8), x):
            return ld(x, 24)
        l = ld(x, 16)
        if l != 0:
            y = l
            while ld(y, 24) != 0:
                y = ld(y, 24)
            return y
        y = ld(x, 8)
        while eqp(x, ld(y, 16)):
            x = y
            y = ld(y, 8)
        return y

    def rb_insert(a):
        # unbalanced insertion: same in-order sequence, balance is irrelevant to behaviour
        left, x, p, head = a
        if left.__class__ is not int:
            left = int(M.decide(left))
        M.store(x, 1, 4)
        stp(x, 8, p)
        stp(x, 16, 0)
        stp(x, 24, 0)
        if left & 1:
            stp(p, 16, x)
            if eqp(p, head):
                stp(head, 8, x)
                stp(head, 24, x)
            elif eqp(p, ld(head, 16)):
                stp(head, 16, x)
        else:
            stp(p, 24, x)
            if eqp(p, ld(head, 24)):
                stp(head, 24, x)

    def rb_erase(a):
        z, head = a
        # collect in-order, rebuild without z (keeps node addresses)
        def inorder(n):
            if n == 0:
                return []
            return inorder(ld(n, 16)) + [n] + inorder(ld(n, 24))
        nodes = [n for n in inorder(ld(head, 8)) if not eqp(n, z)]

        def build(ns, par):
            if not ns:
                return 0
            m = len(ns) // 2
            n = ns[m]
            stp(n, 8, par)
            stp(n, 16, build(ns[:m], n))
            stp(n, 24, build(ns[m + 1:], n))
            return n
        root = build(nodes, head)
        stp(head, 8, root)
        stp(head, 16, nodes[0] if nodes else head)
        stp(head, 24, nodes[-1] if nodes else head)
        return z
    I["_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base"] = rb_inc
    I["_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base"] = rb_inc
    I["_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base"] = rb_dec
    I["_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base"] = rb_dec
    I["_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"] = rb_insert
    I["_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"] = rb_erase

    # list hooks
    def lhook(a):
        n, pos = a
        prev = M.load(M.padd(pos, 8), 8, "p")
        M.store(n, pos, 8)
        M.store(M.padd(n, 8), prev, 8)
        M.store(prev, n, 8)
        M.store(M.padd(pos, 8), n, 8)
    I["_ZNSt8__detail15_List_node_base7_M_hookEPS0_"] = lhook

    def lunhook(a):
        n = a[0]
        nx, pv = M.load(n, 8, "p"), M.load(M.padd(n, 8), 8, "p")
        M.store(pv, nx, 8)
        M.store(M.padd(nx, 8), pv, 8)
    I["_ZNSt8__detail15_List_node_base9_M_unhookEv"] = lunhook

    # unordered containers: any monotone prime-ish policy preserves behaviour; use odd growth
    def next_bkt(a):
        n = a[1]
        b = 13
        while b < n:
            b = b * 2 + 3
        M.store(M.padd(a[0], 8), b, 8)
        return b
    I["_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm"] = next_bkt

    def need_rehash(a):
        pol, nb, ne, ni = a
        if ne + ni > nb:
            return (1, next_bkt([pol, max(nb * 2 + 1, ne + ni)]))
        return (0, 0)
    I["_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm"] = need_rehash

    def hash_bytes(a):
        p, n, seed = a
        h = 1469598103934665603 ^ seed
        for k in range(n):
            h = ((h ^ M.load(M.padd(p, k), 1, "i8")) * 1099511628211) & X.MASK[64]
        return h
    I["_ZSt11_Hash_bytesPKvmm"] = hash_bytes

    # ------------------------------------------------------------------ contract API
    def name_of(p):
        s = cstr(M, p)
        return s

    def declare(nm, info):
        M.inputs.setdefault(nm, info)

    def new_name(p):
        """inputs declared again under the same name on a path are different inputs"""
        s = name_of(p)
        k = M.declared[s] = M.declared.get(s, 0) + 1
        return s if k == 1 else "%s#%d" % (s, k)

    def vc_real(a):
        nm = new_name(a[0])
        kind = a[1]
        lo, hi = a[2], a[3]
        declare(nm, ("real", kind, lo, hi))
        v = T.var(nm, kind, lo, hi)
        return v
    I["vc_real"] = vc_real

    def vc_unit(a):
        nm = new_name(a[0])
        declare(nm, ("unit",))
        x, y = T.var((nm, 0), 0, -1, 1), T.var((nm, 1), 0, -1, 1)
        T.VI.unit[x] = y
        M.store(a[1], x, 8)
        M.store(a[2], y, 8)
    I["vc_unit"] = vc_unit

    def vc_size(a):
        nm = name_of(a[0])
        lo, hi, blo, bhi = [X.sgn(x, 64) for x in a[1:5]]
        declare(nm, ("size", lo, hi))
        if M.opts.get("bounded") is not None:
            b = M.opts["bounded"]
            return max(blo, min(b, bhi))
        key = ("size", nm)
        v = M.names.get(key)
        if v is None:
            v = _sizes.get((nm, lo, hi))
            if v is None:
                v = T.IV.new(nm, lo, hi)
                _sizes[(nm, lo, hi)] = v
            M.names[key] = v
        M.symbolic = True
        return T.lin_var(v)
    I["vc_size"] = vc_size

    def vc_index(a):
        """arbitrary 0 <= k < n"""
        nm = name_of(a[0])
        n = a[1]
        declare(nm, ("index",))
        if n.__class__ is int:
            if n == 0:
                raise X.PathAbort()
            # all values, by forking
            for k in range(n - 1):
                b = T.bmk("bv", "idx:%s:%d" % (nm, k))
                if M.decide(b):
                    M.names["idxval:" + nm] = k
                    return k
            return n - 1
        top = max(0, T.lrange(n)[1] - 1)
        v = _sizes.get((nm, "idx", top))
        if v is None:
            v = T.IV.new(nm, 0, top)
            _sizes[(nm, "idx", top)] = v
        k = T.lin_var(v)
        f = T.ile0(T.ladd(T.lsub(k, n), 1))
        if f is False:
            raise X.PathAbort()
        if f.__class__ is B:
            if P.lia_unsat(M.pc, f):
                raise X.PathAbort()
            M.pc.append(f)
        M.symbolic = True
        return k
    I["vc_index"] = vc_index

    def vc_choose(a):
        """enumerated concrete choice lo..hi (forks)"""
        nm = name_of(a[0])
        lo, hi = X.sgn(a[1], 64), X.sgn(a[2], 64)
        declare(nm, ("choose", lo, hi))
        key = ("choose", nm)
        for k in range(lo, hi):
            if M.decide(T.bmk("bv", "ch:%s:%d" % (nm, k))):
                return k & X.MASK[64]
        return hi & X.MASK[64]
    I["vc_choose"] = vc_choose

    def mkvar(nm, kind, lo, hi, rows, krow):
        def g(idx):
            k = kind
            if krow is not None:
                r = idx if idx.__class__ is int else None
                if r is not None:
                    r = r % rows
                elif all(c % rows == 0 for _, c in idx.t):
                    r = idx.c % rows
                if r is None:
                    raise X.Unsupported("row of a symbolic element")
                k, l, h = krow[r]
            else:
                l, h = lo, hi
            if k == 3:  # the constant l
                return T.const(l)
            n = T.mk("v", (nm, idx))
            if n not in T.VI.kind:
                T.VI.kind[n] = k
                T.VI.rng[n] = (l, h)
            return n
        return g

    def vc_fill(a):
        p, n, nmp, kind, lo, hi = a
        nm = new_name(nmp)
        declare(nm, ("array", kind, lo, hi))
        fill(p, n, nm, mkvar(nm, kind, lo, hi, 1, None))
    I["vc_fill"] = vc_fill

    def fill(p, n, nm, mk):
        if p.__class__ is int:
            return
        if n.__class__ is int and p[1].__class__ is int and p[0].layers is None:
            for k in range(n):
                M.store((p[0], p[1] + 8 * k), mk(k), 8)
            return
        M.bounds(p[0], p[1], T.lscale(n, 8), "vc_fill")
        M.add_layer(p[0], "sym", (p[1], T.ladd(p[1], T.lscale(n, 8)), nm, mk))

    def vc_fill_rows(a):
        p, rows, cols, nmp, kinds, los, his = a
        nm = new_name(nmp)
        krow = []
        for r in range(rows):
            krow.append((M.load(M.padd(kinds, 4 * r), 4, "i32"), M.load(M.padd(los, 8 * r), 8, "d"), M.load(M.padd(his, 8 * r), 8, "d")))
        declare(nm, ("rows", rows, krow))
        fill(p, M.imul(rows, cols, 64), nm, mkvar(nm, 0, 0, 0, rows, krow))
    I["vc_fill_rows"] = vc_fill_rows

    def vc_fill_wet(a):
        """3-row state: row 0 = depth[j] - bath[j'] with j' = j or cols-1-j, rows 1,2 free"""
        q, auxp, cols, nqp, nap, nhp, rev, lo, hi = a
        nq, na, nh = new_name(nqp), name_of(nap), new_name(nhp)
        declare(nq, ("rows", 3, [(0, -2.0, 2.0)] * 3))
        declare(nh, ("array", 1, lo, hi))
        mh = mkvar(nh, 1, lo, hi, 1, None)

        def mk(idx):
            if idx.__class__ is int:
                r, j = idx % 3, idx // 3
            elif all(c % 3 == 0 for _, c in idx.t):
                r, j = idx.c % 3, T.lmk({v: c // 3 for v, c in idx.t}, idx.c // 3)
            else:
                raise X.Unsupported("row of a symbolic element")
            if r == 0:
                jb = j if not rev else T.ladd(T.lsub(cols, j), -1)
                b = T.mk("v", (na, T.lscale(jb, 3)))
                if b not in T.VI.kind:
                    T.VI.kind[b] = 0
                    T.VI.rng[b] = (1.2, 4.0)
                return T.sub(mh(j), b)
            x = T.mk("v", (nq, idx))
            if x not in T.VI.kind:
                T.VI.kind[x] = 0
                T.VI.rng[x] = (-2.0, 2.0)
            return x
        fill(q, M.imul(3, cols, 64), nq, mk)
    I["vc_fill_wet"] = vc_fill_wet

    def vc_fill_unit(a):
        p, n, nmp = a
        nm = new_name(nmp)
        declare(nm, ("units",))

        def mk(idx):
            r = idx if idx.__class__ is int else (idx.c if all(c % 2 == 0 for _, c in idx.t) else None)
            if r is None:
                raise X.Unsupported("row of a unit vector")
            x = T.mk("v", (nm, idx))
            if x not in T.VI.kind:
                T.VI.kind[x] = 0
                T.VI.rng[x] = (-1.0, 1.0)
            if r % 2 == 0:
                y = T.mk("v", (nm, T.ladd(idx, 1)))
                if y not in T.VI.kind:
                    T.VI.kind[y] = 0
                    T.VI.rng[y] = (-1.0, 1.0)
                T.VI.unit[x] = y
            else:
                y = T.mk("v", (nm, T.ladd(idx, -1)))
                if y not in T.VI.kind:
                    T.VI.kind[y] = 0
                    T.VI.rng[y] = (-1.0, 1.0)
                T.VI.unit[y] = x
            return x
        fill(p, M.imul(2, n, 64), nm, mk)
    I["vc_fill_unit"] = vc_fill_unit

    def tocond(x):
        if x is X.UNDEF:
            M.violation("contract clause depends on an uninitialised value", "memory")
        if x.__class__ is int:
            return bool(x & 1)
        return x

    def vc_assume(a):
        c = tocond(a[0])
        if c.__class__ is not B:
            if not c:
                raise X.PathAbort()
            return
        d = P.decide(c, M.pc, 2000)
        if d is False:
            raise X.PathAbort()
        if d is None:
            M.pc.append(c)
    I["vc_assume"] = vc_assume

    def vc_ensure(a):
        M.obligation(name_of(a[0]), tocond(a[1]))
    I["vc_ensure"] = vc_ensure

    def vc_eq(a):
        nm = name_of(a[0])
        x, y, tol = a[1], a[2], a[3]
        if x.__class__ is float and y.__class__ is float:
            ok = x == y or abs(x - y) <= max(tol, 1e-13) * max(1.0, abs(x), abs(y))
            if x != x and y != y:
                ok = True
            M.obligation(nm, ok)
            if not ok:
                M.failures[-1]["detail"] = "%r != %r" % (x, y)
            return
        p, q = M.rn(x), M.rn(y)
        if p is None or q is None:
            M.obligation(nm, False)
            return
        M.obligation(nm, T.req(p, q), near=(p, q, tol) if tol > 0 else None)
    I["vc_eq"] = vc_eq

    def vc_le(a):
        nm = name_of(a[0])
        x, y = a[1], a[2]
        if x.__class__ is float and y.__class__ is float:
            ok = x <= y + 1e-12 * max(1.0, abs(x), abs(y))
            M.obligation(nm, ok)
            if not ok:
                M.failures[-1]["detail"] = "%r > %r" % (x, y)
            return
        p, q = M.rn(x), M.rn(y)
        if p is None or q is None:
            M.obligation(nm, bool(M.fcmp("ole", x, y)))
            return
        M.obligation(nm, T.rle(p, q))
    I["vc_le"] = vc_le

    def vc_try(a):
        """1 if the callback throws"""
        try:
            M.calli(a[0], [a[1]])
            return 0
        except X.CppThrow:
            return 1
    I["vc_try"] = vc_try

    def vc_split(a):
        c = tocond(a[0])
        return int(M.decide(c)) if c.__class__ is B else int(c)
    I["vc_split"] = vc_split

    def vc_cover(a):
        M.covered.add(name_of(a[0]))
    M.covered = set()
    I["vc_cover"] = vc_cover

    def vc_eq_int(a):
        nm = name_of(a[0])
        x, y = a[1], a[2]
        if x is X.UNDEF or y is X.UNDEF:
            M.violation("contract clause depends on an uninitialised value", "memory")
        if x.__class__ is int and y.__class__ is int:
            M.obligation(nm, x == y)
            if x != y:
                M.failures[-1]["detail"] = "%r != %r" % (x, y)
            return
        M.obligation(nm, T.ieq0(T.lsub(M.ilin(x, 64), M.ilin(y, 64))))
    I["vc_eq_int"] = vc_eq_int

    def vc_eq_ptr(a):
        M.obligation(name_of(a[0]), M.same(a[1], a[2]))
    I["vc_eq_ptr"] = vc_eq_ptr

    def vc_int(a):
        nm = new_name(a[0])
        lo, hi = X.sgn(a[1], 64), X.sgn(a[2], 64)
        declare(nm, ("int", lo, hi))
        v = _sizes.get((nm, lo, hi))
        if v is None:
            v = T.IV.new(nm, lo, hi)
            _sizes[(nm, lo, hi)] = v
        M.symbolic = True
        return T.lin_var(v)
    I["vc_int"] = vc_int

    def vc_d(a):
        """derivative of expression a[0] with respect to the input variable value a[1]"""
        e, x = M.rn(a[0]), M.rn(a[1])
        if x.op != "v":
            raise X.Unsupported("derivative with respect to a non-variable")
        return derivative(e, x)
    I["vc_d"] = vc_d

    def derivative(e, x):
        memo = {}
        for n in T.topo([e]):
            if n.__class__ is not Node:
                continue
            op, ar = n.op, n.args
            D = lambda y: memo[y.id]
            if n is x:
                r = T.ONE
            elif op in ("c", "v"):
                r = T.ZERO
            elif op == "+":
                r = T.add(D(ar[0]), D(ar[1]))
            elif op == "neg":
                r = T.neg(D(ar[0]))
            elif op == "*":
                r = T.add(T.mul(D(ar[0]), ar[1]), T.mul(ar[0], D(ar[1])))
            elif op == "/":
                da, db = D(ar[0]), D(ar[1])
                r = T.div(da, ar[1]) if db is T.ZERO else T.sub(T.div(da, ar[1]), T.div(T.mul(ar[0], db), T.mul(ar[1], ar[1])))
            elif op == "sqrt":
                d = D(ar[0])
                r = T.ZERO if d is T.ZERO else T.div(d, T.mul(T.const(2), n))
            elif op == "ite":
                r = T.ite(ar[0], D(ar[1]), D(ar[2]))
            elif op == "f":
                d = [D(y) for y in ar[1:]]
                if all(y is T.ZERO for y in d):
                    r = T.ZERO
                elif ar[0] == "sin":
                    r = T.mul(T.fn("cos", ar[1]), d[0])
                elif ar[0] == "cos":
                    r = T.neg(T.mul(T.fn("sin", ar[1]), d[0]))
                elif ar[0] == "exp":
                    r = T.mul(n, d[0])
                elif ar[0] == "pow" and d[1] is T.ZERO:
                    r = T.mul(T.mul(ar[2], T.div(n, ar[1])), d[0])
                else:
                    raise X.Unsupported("derivative of %s" % ar[0])
            else:
                raise X.Unsupported("derivative of %s" % op)
            memo[n.id] = r
        return memo[e.id]

    def vc_tri_integral(a):
        """exact integral of polynomial expression over the reference triangle, or segment, in input variables"""
        e, x, y = M.rn(a[0]), M.rn(a[1]), M.rn(a[2])
        num, den = P.rat(e)
        if den:
            q = exact_div(num, den)
            if q is None:
                raise X.Unsupported("integrand is not polynomial")
            num = q
        ax, ay = P.var_atom(x), P.var_atom(y)
        tot = T.ZERO
        for m, c in num.items():
            i = j = 0
            rest = T.const(Fr(c))
            for at, ex in m:
                if at == ax:
                    i = ex
                elif at == ay:
                    j = ex
                else:
                    raise X.Unsupported("integrand has other symbols")
            if i < 0 or j < 0:
                raise X.Unsupported("integrand is not polynomial")
            tot = T.add(tot, T.const(Fr(c) * tri_moment(i, j)))
        return tot
    I["vc_tri_integral"] = vc_tri_integral

    def vc_seg_integral(a):
        num, den = P.rat(M.rn(a[0]))
        if den:
            num = exact_div(num, den)
            if num is None:
                raise X.Unsupported("integrand is not polynomial")
        ax = P.var_atom(M.rn(a[1]))
        tot = {}
        for m, c in num.items():
            i, rest = 0, []
            for at, ex in m:
                if at == ax:
                    i = ex
                else:
                    raise X.Unsupported("integrand has other symbols")
            if i < 0:
                raise X.Unsupported("integrand is not polynomial")
            tot[0] = tot.get(0, 0) + Fr(c) * seg(i)
        return T.const(tot.get(0, Fr(0)))
    I["vc_seg_integral"] = vc_seg_integral
    I["vc_seg_moment"] = lambda a: T.const(seg(a[0]))

    def exact_div(num, den):
        for k, ex in den.items():
            for _ in range(ex):
                num = poly_div(num, P._denp[k])
                if num is None:
                    return None
        return num

    def poly_div(n, d):
        n = dict(n)
        ld_m = max(d, key=lambda m: mkey(m))
        q = {}
        inv = tuple((a, -e) for a, e in ld_m)
        steps = 0
        while n:
            steps += 1
            if steps > 5000:
                return None
            lm = max(n, key=lambda m: mkey(m))
            t = P.mmul(lm, inv)
            c = Fr(n[lm]) / d[ld_m]
            if any(e < 0 for _, e in t):
                return None
            q[t] = q.get(t, 0) + c
            for m, v in d.items():
                k = P.mmul(t, m)
                w = n.get(k, 0) - c * v
                if w:
                    n[k] = w
                else:
                    n.pop(k, None)
        return q

    def mkey(m):
        d = dict(m)
        ks = sorted(d)
        return tuple(sorted(((a, e) for a, e in m), reverse=True))

    def seg(i):
        return Fr(2, i + 1) if i % 2 == 0 else Fr(0)

    memo_t = {}

    def tri_moment(i, j):
        """int over {x>=-1,y>=-1,x+y<=0} x^i y^j"""
        r = memo_t.get((i, j))
        if r is None:
            # inner: int_{-1}^{-y} x^i dx = ((-y)^(i+1) - (-1)^(i+1))/(i+1)
            s1 = (-1) ** (i + 1)
            # int_{-1}^{1} y^j * ((-1)^(i+1) y^(i+1) - (-1)^(i+1)) / (i+1)
            r = s1 * (seg(i + 1 + j) - seg(j)) / (i + 1)
            memo_t[(i, j)] = r
        return r
    I["vc_tri_moment"] = lambda a: T.const(tri_moment(a[0], a[1]))
    I["vc_poly_exact"] = lambda a: None
    I["vc_symbolic"] = lambda a: 1

    # ------------------------------------------------------------------ everything else
    for nm in ("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE"):
        def insert(a, nm=nm):
            M.ext_used.add("ignored:_ZStls")
            return a[0]
        I[nm] = insert
    IGN = ("_ZNSo", "_ZStls", "_ZNSt8ios_base", "_ZNSt6locale", "_ZSt4endl", "_ZSt16__ostream_insert", "_ZNSt9basic_ios", "_ZNSt14basic_ofstream", "_ZNSt13basic_filebuf", "_ZNSt15basic_streambuf", "_ZNSolsE", "_ZNSo9_M_insert", "puts", "printf", "_ZSt17__throw")

    def external(name, args):
        for p in IGN:
            if name.startswith(p):
                M.ext_used.add("ignored:" + p)
                return args[0] if args else 0
        raise X.Unsupported("external function " + name)
    M.models_external = external


_sizes = {}
