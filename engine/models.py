"""Assumed contracts: verification intrinsics (vf_*), libc, LLVM intrinsics, std::string.  Every one used is reported."""
import re
import z3
from sym import *
from sym import _ctr

STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>::'


def cstr(e, st, p):
    out = bytearray(); i = 0
    while True:
        b = e.load(st, Ptr(p.o, add64(p.off, i)), 1, check=False)
        if not isc(b): raise Unsupported('symbolic c string')
        if b == 0: return out.decode('latin1')
        out.append(b); i += 1


def install(e):
    M = e.models

    def model(*names):
        def d(f):
            for n in names: M[n] = f
            return f
        return d

    def rx(pat):
        def d(f):
            e.rxmodels.append((re.compile(pat), f))
            return f
        return d

    # ------------------------------------------------------------ verification intrinsics
    @model('vf_u')
    def vf_u(e, st, a, ins):
        bits = a[0]; nm = cstr(e, st, a[1])
        v = fresh(bits if bits > 1 else 1, nm)
        if not e.pure: st.nd.append((nm, 'int', v, None))
        return bv(v, 64) if bits == 1 else (simp(z3.ZeroExt(64 - bits, v)) if bits < 64 else v)

    @model('vf_assume')
    def vf_assume(e, st, a, ins):
        e.assume(st, a[0])
        if st.dead: return ('__end',)
        if not isc(a[0]) and e.chk(st.pc) == z3.unsat:
            st.dead = True
            return ('__end',)

    @model('vf_assert_')
    def vf_assert_(e, st, a, ins):
        e.oblige(st, a[0], 'spec: ' + cstr(e, st, a[1]), e.where(st), 'assert')
        if st.dead: return ('__end',)

    @model('vf_cover_')
    def vf_cover_(e, st, a, ins):
        nm = cstr(e, st, a[0])
        if e.stats['covers'].get(nm) is True or not e.checking or e.pure: return
        e.stats['covers'][nm] = e.chk(st.pc) == z3.sat or e.stats['covers'].get(nm, False)

    @model('vf_alloc')
    def vf_alloc(e, st, a, ins):
        n = a[0]; nm = cstr(e, st, a[1])
        if not isc(n): e.assume(st, z3.ULE(n, 1 << 40))
        o = e.newobj(st, nm, 'heap', n)
        if not e.pure: st.nd.append((nm, 'buf', st.mem[o].node, n))
        return Ptr(o, 0)

    @model('vf_havoc_')
    def vf_havoc_(e, st, a, ins):
        p, n = a[0], a[1]; nm = cstr(e, st, a[2])
        o = e.newobj(st, nm, 'heap', n)
        if not e.pure: st.nd.append((nm, 'buf', st.mem[o].node, n))
        e.memcpy(st, p, Ptr(o, 0), n)

    @model('vf_raw')      # uninitialised storage without recording
    def vf_raw(e, st, a, ins):
        return Ptr(e.newobj(st, 'raw', 'heap', a[0]), 0)

    @model('vf_split_')
    def vf_split_(e, st, a, ins):
        p, n, k = a
        ent = (p.o, p.off, n, tuple(range(k)))
        if ent not in e.splits: e.splits.append(ent)

    @model('vf_unroll_outer_')
    def vf_unroll_outer_(e, st, a, ins):
        e.opts['unroll_outer'] = a[0]
        return None

    @model('vf_unroll_')
    def vf_unroll_(e, st, a, ins):
        e.opts['unroll'] = a[0]

    @model('vf_merge_')
    def vf_merge_(e, st, a, ins):
        e.merging = bool(a[0])

    @model('vf_const_')
    def vf_const_(e, st, a, ins):
        e.hintc.append(a[0])

    @model('vf_invariant_')
    def vf_invariant_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if (fn, 0) not in e.invfns: e.invfns.append((fn, 0))

    @model('vf_invariant_forall_')
    def vf_invariant_forall_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if (fn, 1) not in e.invfns: e.invfns.append((fn, 1))

    @model('vf_invariant_at_')
    def vf_invariant_at_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if (fn, 2) not in e.invfns: e.invfns.append((fn, 2))

    @model('vf_invariant_at2_')
    def vf_invariant_at2_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if (fn, 3) not in e.invfns: e.invfns.append((fn, 3))

    @model('vf_invariant_at2n_')
    def vf_invariant_at2n_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if (fn, 4) not in e.invfns: e.invfns.append((fn, 4))

    @model('vf_invariant_atm_')
    def vf_invariant_atm_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if (fn, 5) not in e.invfns: e.invfns.append((fn, 5))

    @model('vf_lean_')
    def vf_lean_(e, st, a, ins):
        e.lean = bool(a[0])

    @model('vf_closed_')
    def vf_closed_(e, st, a, ins):
        e.closed.append(cstr(e, st, a[0]))

    @model('vf_recursive_')
    def vf_recursive_(e, st, a, ins):
        e.recursive.append(cstr(e, st, a[0]))

    @model('vf_region_')
    def vf_region_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if fn not in e.regionpreds: e.regionpreds.append(fn)

    @model('vf_region_if_')
    def vf_region_if_(e, st, a, ins):
        fn = e.objs[a[0].o].name
        if fn not in e.regionifs: e.regionifs.append(fn)

    @model('vf_assume_forall_')
    def vf_assume_forall_(e, st, a, ins):
        import loops
        fn = e.objs[a[0].o].name
        c = loops.forall_cand(e, 'assume ' + fn, lambda s, st, j, s0: s.pure_eval(st, fn, [j], 1))
        loops.assume_group(e, st, st, 'assume', [c])

    @model('vf_specfn_')
    def vf_specfn_(e, st, a, ins):
        nm = cstr(e, st, a[0]); ax = e.objs[a[1].o].name if a[1].o else None
        tmpl = a[2]
        if nm not in e.specfns:
            e.specfns[nm] = dict(uf=None, ax=ax, tmpl=tmpl)

    def specapp(st, nm, args):
        d = e.specfns[nm]
        if d['uf'] is None:
            d['uf'] = z3.Function('F_' + nm, *([z3.BitVecSort(64)] * (len(args) + 1)))
        args = [bv(x, 64) for x in args]
        r = d['uf'](*args)
        key = ('app', nm) + tuple(x.get_id() for x in args)
        if key not in st.inst:
            st.inst.add(key); st.memo[('keep', key)] = args
            if d['ax'] and st.memo.get('axdepth', 0) < 1:
                st.memo['axdepth'] = st.memo.get('axdepth', 0) + 1
                try:
                    x = e.pure_eval(st, d['ax'], [simp(q) for q in args], 1)
                finally: st.memo['axdepth'] -= 1
                e.assume(st, x)
                if not isc(x): e.trigger(st, x)
        if st.fax and len(args) == 1: e.instantiate(st, d['uf'].name(), args[0])
        return r
    e.specapp = specapp

    @model('vf_app1')
    def vf_app1(e, st, a, ins): return specapp(st, cstr(e, st, a[0]), [a[1]])

    @model('vf_app2')
    def vf_app2(e, st, a, ins): return specapp(st, cstr(e, st, a[0]), [a[1], a[2]])

    e.hintc = []

    def hints_consts(st): return [('hint%d' % i, v) for i, v in enumerate(e.hintc)]
    e.hints_consts = hints_consts

    def ghost_havoc(st, o, gh): raise Unsupported('ghost container modified in loop')
    e.ghost_havoc = ghost_havoc

    @model('vf_isnative')
    def vf_isnative(e, st, a, ins): return 0

    @model('vf_proving')
    def vf_proving(e, st, a, ins): return 1

    @model('vf_same_object')
    def vf_same_object(e, st, a, ins): return int(a[0].o == a[1].o)

    @model('vf_fork')
    def vf_fork(e, st, a, ins):
        n = a[0]
        out = []
        for i in range(n):
            c = st.copy() if i < n - 1 else st
            c.nd.append(('fork', 'int', i, None))
            out.append((c, i))
        return out

    @model('vf_concretize')
    def vf_concretize(e, st, a, ins):
        """split on every feasible value below the bound (complete case split)"""
        v, bound = a
        if isc(v): return v
        out = []
        vals = []
        n = st
        ex = []
        while True:
            if e.chk(st.pc, z3.And([z3.BoolVal(True)] + ex)) != z3.sat: break
            x = e.lastmodel.eval(v, model_completion=True).as_long()
            vals.append(x); ex.append(v != x)
            if len(vals) > bound: raise Unsupported('case split too wide')
        for i, x in enumerate(vals):
            c = st.copy() if i < len(vals) - 1 else st
            c.pc.append(v == x)
            out.append((c, x))
        if not out:
            st.dead = True
            return ('__end',)
        return out

    # ------------------------------------------------------------ termination
    @model('__assert_fail')
    def assert_fail(e, st, a, ins):
        e.oblige(st, 0, 'code assertion (%s)' % cstr(e, st, a[0])[:80], e.where(st), 'assert')
        st.dead = True
        return ('__end',)

    @model('abort', '_ZSt9terminatev', '__cxa_pure_virtual', 'exit', '_exit', 'llvm.trap')
    def abort(e, st, a, ins):
        e.oblige(st, 0, 'abort() reached', e.where(st), 'assert')
        st.dead = True
        return ('__end',)

    @model('__clang_call_terminate', '__cxa_rethrow', '__cxa_call_unexpected')
    def term(e, st, a, ins):
        st.dead = True
        return ('__end',)

    @model('__cxa_allocate_exception')
    def alloc_exc(e, st, a, ins): return Ptr(e.newobj(st, 'exc', 'heap', a[0]), 0)

    @model('__cxa_throw')
    def throw(e, st, a, ins):
        # an exception leaves the code under verification: the catch hook of the spec decides whether that is allowed
        if 'vf_on_throw' in e.m.funcs and e.m.funcs['vf_on_throw'].defined and not e.pure:
            st.exc = True
            fr = st.fr[0]
            # unwind to the specification frame that allows throwing
            st.fr = [st.fr[0]]
            e.call_function(st, e.m.funcs['vf_on_throw'], [])
            st.fr = [st.fr[-1]]
            return None
        e.oblige(st, 0, 'exception thrown', e.where(st), 'assert')
        st.dead = True
        return ('__end',)

    @rx(r'^std::__throw_')
    def std_throw(e, st, a, ins):
        return throw(e, st, a, ins)

    # ------------------------------------------------------------ memory
    @model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
    def new(e, st, a, ins):
        n = a[0]
        if not isc(n): e.assume(st, z3.ULE(n, 1 << 40))
        return Ptr(e.newobj(st, 'new', 'heap', n), 0)

    @model('calloc')
    def calloc(e, st, a, ins):
        n = e.binop(st, 'mul', ('i', 64), a[0], a[1])
        if not isc(n): e.assume(st, z3.ULE(n, 1 << 40))
        return Ptr(e.newobj(st, 'calloc', 'heap', n, ZERO), 0)

    @model('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm')
    def delete(e, st, a, ins):
        p = a[0]
        if p.o == 0: return
        x = st.obj(p.o, True)
        if not x.live:
            e.oblige(st, 0, 'memory: double free', e.where(st), 'mem'); return
        e.oblige(st, (p.off == 0) if isc(p.off) else p.off == 0, 'memory: free of interior pointer', e.where(st), 'mem')
        x.live = False

    @model('realloc')
    def realloc(e, st, a, ins):
        p, n = a
        if not isc(n): e.assume(st, z3.ULE(n, 1 << 40))
        o = e.newobj(st, 'realloc', 'heap', n)
        if p.o != 0:
            old = st.mem[p.o]
            if isc(n) and isc(old.size): m = min(n, old.size)
            else: m = simp(z3.If(z3.ULT(bv(n, 64), bv(old.size, 64)), bv(n, 64), bv(old.size, 64)))
            e.memcpy(st, Ptr(o, 0), p, m, check=False)
            st.obj(p.o, True).live = False
        return Ptr(o, 0)

    def memcpy(e, st, a, ins):
        e.memcpy(st, a[0], a[1], a[2])
        if st.dead: return ('__end',)
        return a[0]
    for n in ('memcpy', 'memmove'): M[n] = memcpy

    @rx(r'^llvm\.(memcpy|memmove)\.')
    def llmemcpy(e, st, a, ins):
        e.memcpy(st, a[0], a[1], a[2])
        if st.dead: return ('__end',)

    @rx(r'^llvm\.memset\.')
    def llmemset(e, st, a, ins):
        e.memset(st, a[0], a[1], a[2])
        if st.dead: return ('__end',)

    @model('memset')
    def memset(e, st, a, ins):
        v = a[1]
        e.memset(st, a[0], v & 255 if isc(v) else simp(z3.Extract(7, 0, v)), a[2])
        if st.dead: return ('__end',)
        return a[0]

    def byte(e, st, p, i): return e.load(st, Ptr(p.o, add64(p.off, i)), 1, check=False)

    @model('memcmp')
    def memcmp(e, st, a, ins):
        p, q, n = a
        if not isc(n) or n > 0:
            e.bounds(st, p, n, 'memcmp read')
            if not st.dead: e.bounds(st, q, n, 'memcmp read')
        if st.dead: return ('__end',)
        if isc(n) and n <= 64:
            r = z3.BitVecVal(0, 32)
            for i in range(n - 1, -1, -1):
                x = bv(byte(e, st, p, i), 8); y = bv(byte(e, st, q, i), 8)
                r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(0xffffffff, 32), z3.BitVecVal(1, 32)))
            return simp(r)
        # symbolic length: fork on equal / first difference at w
        e.flush(st, p.o); e.flush(st, q.o)
        n = bv(n, 64)
        ne = st.copy()
        # equal
        eqax(e, st, p, q, n)
        w = fresh(64, 'diff')
        e.assume(ne, z3.ULT(w, n))
        xa = bv(byte(e, ne, p, w), 8); xb = bv(byte(e, ne, q, w), 8)
        e.assume(ne, xa != xb)
        r = fresh(32, 'memcmp')
        e.assume(ne, (r < 0) == z3.ULT(xa, xb)); e.assume(ne, r != 0)
        return [(st, 0), (ne, r)]

    def eqax(e, st, p, q, n):
        """forall j<n: p[j]==q[j], instantiated at the indices that are read later"""
        import loops
        def body(s, st, j, s0): return z3.Implies(z3.ULT(j, n), bv(byte(s, st, p, j), 8) == bv(byte(s, st, q, j), 8))
        loops.assume_group(e, st, st, 'assume', [loops.forall_cand(e, 'memcmp equal', body)])
    e.eqax = eqax

    @model('strlen')
    def strlen(e, st, a, ins):
        p = a[0]
        # concrete prefix
        i = 0
        try:
            while i < 4096:
                sz = st.mem[p.o].size
                if isc(sz) and isc(p.off) and p.off + i >= sz: break
                b = byte(e, st, p, i)
                if not isc(b):
                    if i < 64 and e.must(st, b != 0): i += 1; continue
                    if i < 64 and e.must(st, b == 0): return i
                    break
                if b == 0: return i
                i += 1
        except Unsupported: pass
        n = fresh(64, 'strlen')
        sz = bv(st.mem[p.o].size, 64) - bv(p.off, 64)
        e.assume(st, z3.ULT(n, 1 << 40))
        e.flush(st, p.o)
        e.assume(st, bv(byte(e, st, p, n), 8) == 0)
        if e.checking and not e.pure:
            e.oblige(st, z3.ULT(n, sz), 'memory: strlen within %s' % e.objs[p.o].name, e.where(st), 'mem')
        # bytes before n are non-zero: instantiated at 0 and on demand by the spec
        e.assume(st, z3.Implies(z3.UGT(n, 0), bv(byte(e, st, p, 0), 8) != 0))
        return n

    @model('snprintf')
    def snprintf(e, st, a, ins):
        dst, n, fmt = a[0], a[1], cstr(e, st, a[2])
        import re as _re
        if not isc(n): raise Unsupported('snprintf size')
        out = []; k = 3
        for m in _re.finditer(r'%02x|[^%]', fmt):
            if m.group(0) != '%02x': out.append(ord(m.group(0))); continue
            v = bv(a[k], 32); k += 1
            if not e.must(st, z3.ULT(v, 256)): raise Unsupported('snprintf %02x range')
            for h in (z3.Extract(7, 4, v), z3.Extract(3, 0, v)):
                h = z3.ZeroExt(4, h)
                out.append(simp(z3.If(z3.ULT(h, 10), h + 48, h + 87)))
        if ''.join(_re.findall(r'%02x|[^%]', fmt)) != fmt or len(out) + 1 > n: raise Unsupported('snprintf format ' + fmt)
        e.bounds(st, dst, len(out) + 1, 'snprintf write')
        if st.dead: return ('__end',)
        for i, c in enumerate(out + [0]): e.store(st, Ptr(dst.o, add64(dst.off, i)), 1, c, check=False)
        return len(out)

    # ------------------------------------------------------------ llvm intrinsics
    @rx(r'^llvm\.(expect)\.')
    def expect(e, st, a, ins): return a[0]

    @rx(r'^llvm\.(lifetime|assume|dbg|experimental|prefetch|invariant|var\.annotation|va_)')
    def nop(e, st, a, ins): return None

    @rx(r'^llvm\.launder|^llvm\.strip')
    def ident(e, st, a, ins): return a[0]

    @rx(r'^llvm\.is\.constant')
    def isconst(e, st, a, ins): return 0

    @rx(r'^llvm\.objectsize')
    def objsize(e, st, a, ins): return M64

    @rx(r'^llvm\.bswap\.i(\d+)')
    def bswap(e, st, a, ins):
        w = ins.ty[1]; v = bv(a[0], w)
        return simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)]))

    @rx(r'^llvm\.(umin|umax|smin|smax)\.')
    def minmax(e, st, a, ins):
        w = ins.ty[1]; nm = ins.a[0][1].split('.')[1]
        x, y = bv(a[0], w), bv(a[1], w)
        c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[nm]
        return simp(z3.If(c, x, y))

    @rx(r'^llvm\.abs\.')
    def absv(e, st, a, ins):
        w = ins.ty[1]; x = bv(a[0], w)
        return simp(z3.If(x < 0, -x, x))

    @rx(r'^llvm\.(ctlz|cttz|ctpop)\.')
    def bits(e, st, a, ins):
        w = ins.ty[1]; x = bv(a[0], w); nm = ins.a[0][1].split('.')[1]
        if nm == 'ctpop':
            r = z3.BitVecVal(0, w)
            for i in range(w): r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return simp(r)
        r = z3.BitVecVal(w, w)
        for i in range(w):
            b = i if nm == 'ctlz' else w - 1 - i
            r = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(w - 1 - b if nm == 'ctlz' else b, w), r)
        return simp(r)

    @rx(r'^llvm\.(usub|uadd)\.sat')
    def sat(e, st, a, ins):
        w = ins.ty[1]; x, y = bv(a[0], w), bv(a[1], w)
        if 'usub' in ins.a[0][1]: return simp(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
        return simp(z3.If(z3.ULT(x + y, x), z3.BitVecVal((1 << w) - 1, w), x + y))

    @rx(r'^llvm\.(uadd|umul|usub|sadd|smul|ssub)\.with\.overflow')
    def ovf(e, st, a, ins):
        nm = ins.a[0][1].split('.')[1]
        w = int(ins.a[0][1].split('.i')[-1]); x, y = bv(a[0], w), bv(a[1], w)
        ext = z3.ZeroExt if nm[0] == 'u' else z3.SignExt
        X, Y = ext(w, x), ext(w, y)
        if 'add' in nm: r, R = x + y, X + Y
        elif 'sub' in nm: r, R = x - y, X - Y
        else: r, R = x * y, X * Y
        return (simp(r), simp(R != ext(w, r)))

    @rx(r'^llvm\.fabs\.')
    def fabs(e, st, a, ins):
        w = 32 if ins.ty[0] == 'float' else 64
        return simp(bv(a[0], w) & ((1 << (w - 1)) - 1))

    @rx(r'^llvm\.fmuladd\.')
    def fma(e, st, a, ins):
        t = ins.ty
        return e.binop(st, 'fadd', t, e.binop(st, 'fmul', t, a[0], a[1]), a[2])

    def llround(w):
        def f(e, st, a, ins):
            F = z3.Float32() if w == 32 else z3.Float64()
            x = z3.fpBVToFP(bv(a[0], w), F)
            # C: round half away from zero; result unspecified when not representable (x86-64 glibc: LLONG_MIN)
            lim = z3.FPVal(9223372036854775808.0, F)
            inr = z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpLT(x, lim), z3.fpGEQ(x, z3.fpNeg(lim)))
            r = z3.fpRoundToIntegral(z3.RNA(), x)
            u = fresh(64, 'llround_unspec')
            return simp(z3.If(inr, z3.fpToSBV(z3.RTZ(), r, z3.BitVecSort(64)), u))
        return f
    M['llroundf'] = llround(32); M['llround'] = llround(64)
    M['lroundf'] = llround(32); M['lround'] = llround(64)

    def fround(w):
        def f(e, st, a, ins):
            F = z3.Float32() if w == 32 else z3.Float64()
            return simp(z3.fpToIEEEBV(z3.fpRoundToIntegral(z3.RNA(), z3.fpBVToFP(bv(a[0], w), F))))
        return f
    M['roundf'] = fround(32); M['round'] = fround(64)

    @rx(r'^llvm\.round\.')
    def llround_(e, st, a, ins): return fround(32 if ins.ty[0] == 'float' else 64)(e, st, a, ins)

    @model('__cxa_guard_acquire')
    def guard_acq(e, st, a, ins):
        g = e.load(st, a[0], 1, check=False)
        if isc(g): return int(g == 0)
        return simp(z3.If(g == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    @model('__cxa_guard_release')
    def guard_rel(e, st, a, ins): e.store(st, a[0], 1, 1, check=False)

    @model('__cxa_atexit', '__cxa_thread_atexit', '__cxa_guard_abort', 'fputs', 'fflush', 'usleep', 'sched_yield', '__cxa_free_exception')
    def zero(e, st, a, ins): return 0

    # ------------------------------------------------------------ std::string
    def sget(e, st, p):
        """-> (content Ptr, length)"""
        d = e.load(st, p, 8, True)
        n = e.load(st, Ptr(p.o, add64(p.off, 8)), 8)
        return d, n

    def snew(e, st, p, n=0, node=None):
        o = e.newobj(st, 'str', 'heap', add64(n, 1), node if node is not None else ZERO)
        e.store(st, p, 8, Ptr(o, 0)); e.store(st, Ptr(p.o, add64(p.off, 8)), 8, n)
        return o

    def slen(e, st, p, n):
        d, _ = sget(e, st, p)
        e.store(st, Ptr(p.o, add64(p.off, 8)), 8, n)
        x = st.obj(d.o, True)
        x.size = add64(n, 1)
        e.store(st, Ptr(d.o, n), 1, 0, check=False)

    def limit(e, st, n):
        """std::length_error / bad_alloc are not modelled"""
        if not isc(n): e.assume(st, z3.ULE(n, 1 << 40))

    def sappend(e, st, p, src, n):
        d, l = sget(e, st, p)
        nl = add64(l, n)
        limit(e, st, nl)
        if isc(n) and n == 0: return
        if src.o == d.o:
            # self-append: fine with chain copies (source snapshot is taken before)
            pass
        st.obj(d.o, True).size = add64(nl, 1)
        e.bounds(st, src, n, 'read')
        if st.dead: return
        e.memcpy(st, Ptr(d.o, l), src, n, check=False)
        slen(e, st, p, nl)

    def sfill(e, st, p, n, c):
        d, l = sget(e, st, p)
        nl = add64(l, n)
        limit(e, st, nl)
        st.obj(d.o, True).size = add64(nl, 1)
        e.memset(st, Ptr(d.o, l), c, n, check=False)
        slen(e, st, p, nl)

    def sassign(e, st, p, src, n):
        # snapshot semantic: copy source, then replace
        if not (isc(n) and n == 0):
            e.bounds(st, src, n, 'read')
            if st.dead: return
        limit(e, st, n)
        d, _ = sget(e, st, p)
        if isc(n) and n == 0:
            slen(e, st, p, 0); return
        e.flush(st, src.o)
        node = st.mem[src.o].node; off = src.off
        x = st.obj(d.o, True)
        x.size = add64(n, 1)
        e.flush(st, d.o)
        x = st.obj(d.o, True)
        if e.writes is not None: e.writes.add((d.o, None, 0, False))
        x.node = Node('copy', ZERO, 0, n, node, off)
        slen(e, st, p, n)

    def zlen(e, st, p): return strlen(e, st, [p], None)

    def S(pat):
        return rx('^' + STR + pat + '$')

    @S(r'basic_string\(\)|basic_string\(std::allocator<char> const&\)')
    def s_ctor(e, st, a, ins): snew(e, st, a[0])

    @S(r'basic_string\(char const\*, unsigned long, std::allocator<char> const&\)')
    def s_ctorpn(e, st, a, ins): snew(e, st, a[0]); sappend(e, st, a[0], a[1], a[2])

    @S(r'basic_string(<std::allocator<char> >)?\(char const\*, std::allocator<char> const&\)')
    def s_ctorz(e, st, a, ins): snew(e, st, a[0]); sappend(e, st, a[0], a[1], zlen(e, st, a[1]))

    @S(r'basic_string(<std::allocator<char> >)?\(unsigned long, char, std::allocator<char> const&\)')
    def s_ctornc(e, st, a, ins): snew(e, st, a[0]); sfill(e, st, a[0], a[1], a[2])

    @S(r'basic_string\(std::__cxx11::basic_string<.*> const&\)')
    def s_copy(e, st, a, ins):
        d, n = sget(e, st, a[1]); snew(e, st, a[0]); sappend(e, st, a[0], d, n)

    @S(r'basic_string\(std::__cxx11::basic_string<.*>&&\)')
    def s_move(e, st, a, ins):
        d, n = sget(e, st, a[1])
        e.store(st, a[0], 8, d); e.store(st, Ptr(a[0].o, add64(a[0].off, 8)), 8, n)
        snew(e, st, a[1])

    @S(r'basic_string<(char\*|char const\*|__gnu_cxx::__normal_iterator<.*>), void>\((char\*|char const\*|__gnu_cxx::.*), (.*), std::allocator<char> const&\)')
    def s_ctorit(e, st, a, ins):
        snew(e, st, a[0]); sappend(e, st, a[0], a[1], sub64(a[2].off, a[1].off))

    @S(r'~basic_string\(\)')
    def s_dtor(e, st, a, ins):
        d = e.load(st, a[0], 8, True)
        if isinstance(d, Ptr) and d.o: st.obj(d.o, True).live = False

    @S(r'append\(char const\*, unsigned long\)')
    def s_append(e, st, a, ins): sappend(e, st, a[0], a[1], a[2]); return a[0]

    @S(r'append\(unsigned long, char\)')
    def s_appendn(e, st, a, ins): sfill(e, st, a[0], a[1], a[2]); return a[0]

    @S(r'(append|operator\+=)\(char const\*\)')
    def s_appendz(e, st, a, ins): sappend(e, st, a[0], a[1], zlen(e, st, a[1])); return a[0]

    @S(r'(append|operator\+=)\(std::__cxx11::basic_string<.*> const&\)')
    def s_appends(e, st, a, ins):
        d, n = sget(e, st, a[1]); sappend(e, st, a[0], d, n); return a[0]

    @S(r'append\(std::__cxx11::basic_string<.*> const&, unsigned long, unsigned long\)')
    def s_appendsub(e, st, a, ins):
        d, n = sget(e, st, a[1])
        c = z3.If(z3.ULT(bv(a[3], 64), bv(n, 64) - bv(a[2], 64)), bv(a[3], 64), bv(n, 64) - bv(a[2], 64))
        sappend(e, st, a[0], Ptr(d.o, add64(d.off, a[2])), simp(c)); return a[0]

    @S(r'(push_back|operator\+=)\(char\)')
    def s_push(e, st, a, ins):
        sfill(e, st, a[0], 1, a[1]); return a[0]

    @S(r'append<.*>\(.*, .*\)')
    def s_appendit(e, st, a, ins): sappend(e, st, a[0], a[1], sub64(a[2].off, a[1].off)); return a[0]

    @S(r'assign\(char const\*, unsigned long\)')
    def s_assign(e, st, a, ins): sassign(e, st, a[0], a[1], a[2]); return a[0]

    @S(r'(assign|operator=)\(char const\*\)')
    def s_assignz(e, st, a, ins): sassign(e, st, a[0], a[1], zlen(e, st, a[1])); return a[0]

    @S(r'(assign|operator=)\(std::__cxx11::basic_string<.*> const&\)')
    def s_assigns(e, st, a, ins):
        d, n = sget(e, st, a[1])
        if a[0].o == a[1].o and isc(a[0].off) and a[0].off == a[1].off: return a[0]
        sassign(e, st, a[0], d, n); return a[0]

    @S(r'(assign|operator=)\(std::__cxx11::basic_string<.*>&&\)')
    def s_assignm(e, st, a, ins):
        d, n = sget(e, st, a[1]); sassign(e, st, a[0], d, n); slen(e, st, a[1], 0); return a[0]

    @S(r'assign\(unsigned long, char\)')
    def s_assignn(e, st, a, ins): slen(e, st, a[0], 0); sfill(e, st, a[0], a[1], a[2]); return a[0]

    @S(r'clear\(\)')
    def s_clear(e, st, a, ins): slen(e, st, a[0], 0)

    @S(r'(size|length)\(\) const')
    def s_size(e, st, a, ins): return sget(e, st, a[0])[1]

    @S(r'empty\(\) const')
    def s_empty(e, st, a, ins):
        n = sget(e, st, a[0])[1]
        return int(n == 0) if isc(n) else simp(n == 0)

    @S(r'(data|c_str|_M_data)\(\)( const)?')
    def s_data(e, st, a, ins): return sget(e, st, a[0])[0]

    @S(r'(c?begin)\(\)( const)?')
    def s_begin(e, st, a, ins): return sget(e, st, a[0])[0]

    @S(r'(c?end)\(\)( const)?')
    def s_end(e, st, a, ins):
        d, n = sget(e, st, a[0]); return Ptr(d.o, add64(d.off, n))

    @S(r'(operator\[\]|at)\(unsigned long\)( const)?')
    def s_at(e, st, a, ins):
        d, n = sget(e, st, a[0])
        e.oblige(st, (a[1] <= n) if isc(a[1]) and isc(n) else z3.ULE(bv(a[1], 64), bv(n, 64)), 'memory: string index', e.where(st), 'mem')
        if st.dead: return ('__end',)
        return Ptr(d.o, add64(d.off, a[1]))

    @S(r'back\(\)( const)?')
    def s_back(e, st, a, ins):
        d, n = sget(e, st, a[0])
        e.oblige(st, int(n > 0) if isc(n) else z3.UGT(n, 0), 'memory: back() of empty string', e.where(st), 'mem')
        if st.dead: return ('__end',)
        return Ptr(d.o, add64(d.off, sub64(n, 1)))

    @S(r'front\(\)( const)?')
    def s_front(e, st, a, ins):
        return sget(e, st, a[0])[0]

    @S(r'pop_back\(\)')
    def s_pop(e, st, a, ins):
        d, n = sget(e, st, a[0])
        e.oblige(st, int(n > 0) if isc(n) else z3.UGT(n, 0), 'memory: pop_back() of empty string', e.where(st), 'mem')
        if st.dead: return ('__end',)
        slen(e, st, a[0], sub64(n, 1))

    @S(r'resize\(unsigned long\)|resize\(unsigned long, char\)')
    def s_resize(e, st, a, ins):
        d, l = sget(e, st, a[0]); n = a[1]; c = a[2] if len(a) > 2 else 0
        limit(e, st, n)
        if isc(n) and isc(l):
            if n > l: sfill(e, st, a[0], n - l, c)
            else: slen(e, st, a[0], n)
            return
        g = simp(z3.UGT(bv(n, 64), bv(l, 64)))
        if not (isc(g) and g == 0):
            x = st.obj(d.o, True); x.size = simp(z3.If(tob(g), bv(n, 64) + 1, bv(l, 64) + 1))
            e.memset(st, Ptr(d.o, l), c, simp(z3.If(tob(g), bv(n, 64) - bv(l, 64), z3.BitVecVal(0, 64))), check=False)
        slen(e, st, a[0], n)

    @S(r'erase\(unsigned long, unsigned long\)')
    def s_erase(e, st, a, ins):
        d, l = sget(e, st, a[0]); pos, n = a[1], a[2]
        e.oblige(st, int(pos <= l) if isc(pos) and isc(l) else z3.ULE(bv(pos, 64), bv(l, 64)), 'memory: string erase position', e.where(st), 'mem')
        if st.dead: return ('__end',)
        rest = sub64(l, pos)
        k = simp(z3.If(z3.ULT(bv(n, 64), bv(rest, 64)), bv(n, 64), bv(rest, 64)))
        tail = sub64(rest, k)
        e.memcpy(st, Ptr(d.o, pos), Ptr(d.o, add64(pos, k)), tail, check=False)
        slen(e, st, a[0], sub64(l, k))
        return a[0]

    @S(r'insert\(unsigned long, char const\*, unsigned long\)')
    def s_insert(e, st, a, ins):
        d, l = sget(e, st, a[0]); pos, src, n = a[1], a[2], a[3]
        e.oblige(st, int(pos <= l) if isc(pos) and isc(l) else z3.ULE(bv(pos, 64), bv(l, 64)), 'memory: string insert position', e.where(st), 'mem')
        if st.dead: return ('__end',)
        nl = add64(l, n); limit(e, st, nl)
        st.obj(d.o, True).size = add64(nl, 1)
        e.memcpy(st, Ptr(d.o, add64(pos, n)), Ptr(d.o, pos), sub64(l, pos), check=False)
        e.bounds(st, src, n, 'read')
        e.memcpy(st, Ptr(d.o, pos), src, n, check=False)
        slen(e, st, a[0], nl)
        return a[0]

    @S(r'substr\(unsigned long, unsigned long\) const')
    def s_substr(e, st, a, ins):
        # sret
        d, l = sget(e, st, a[1]); pos, n = a[2], a[3]
        e.oblige(st, int(pos <= l) if isc(pos) and isc(l) else z3.ULE(bv(pos, 64), bv(l, 64)), 'memory: substr position', e.where(st), 'mem')
        if st.dead: return ('__end',)
        rest = sub64(l, pos)
        k = simp(z3.If(z3.ULT(bv(n, 64), bv(rest, 64)), bv(n, 64), bv(rest, 64)))
        snew(e, st, a[0]); sappend(e, st, a[0], Ptr(d.o, add64(d.off, pos)), k)

    @S(r'(reserve|shrink_to_fit)\(.*\)')
    def s_reserve(e, st, a, ins): return None

    @S(r'capacity\(\) const')
    def s_cap(e, st, a, ins):
        n = sget(e, st, a[0])[1]
        c = fresh(64, 'cap'); e.assume(st, z3.UGE(c, bv(n, 64))); e.assume(st, z3.ULE(c, 1 << 41))
        return c

    @S(r'max_size\(\) const')
    def s_max(e, st, a, ins): return (1 << 62)

    @S(r'swap\(std::__cxx11::basic_string<.*>&\)')
    def s_swap(e, st, a, ins):
        d, n = sget(e, st, a[0]); d2, n2 = sget(e, st, a[1])
        for p, x, y in ((a[0], d2, n2), (a[1], d, n)):
            e.store(st, p, 8, x); e.store(st, Ptr(p.o, add64(p.off, 8)), 8, y)

    @model('vf_string_any')
    def vf_string_any(e, st, a, ins):
        """an existing std::string gets arbitrary content; arg: string*, name"""
        nm = cstr(e, st, a[1])
        n = fresh(64, nm + '_len')
        limit(e, st, n)
        node = base_node(nm)
        if not e.pure:
            st.nd.append((nm, 'int', n, None)); st.nd.append((nm, 'buf', node, n))
        o = e.newobj(st, nm, 'heap', add64(n, 1), node)
        e.store(st, a[0], 8, Ptr(o, 0)); e.store(st, Ptr(a[0].o, add64(a[0].off, 8)), 8, n)
        e.assume(st, node.uf(n) == 0)

    @rx(r'^std::allocator<.*>::(~?allocator)\(.*\)$|^std::__new_allocator<.*>::(~?__new_allocator)\(.*\)$')
    def alloc_ctor(e, st, a, ins): return None

    @rx(r'^std::ios_base::Init::')
    def iosinit(e, st, a, ins): return None
