"""Deductive verification engine over LLVM IR: path-wise weakest-precondition style symbolic execution.
   Calls use contracts or bodies, loops are cut by inductive invariants (candidate set pruned by Houdini; the
   kept ones are discharged as init/preservation obligations), every obligation goes to an SMT solver."""
import sys, re, time, itertools, os, subprocess, tempfile
import z3
from ir import Module, demangle

sys.setrecursionlimit(20000)
M64 = (1 << 64) - 1
BVS = {}
SHM = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None


class Unsupported(Exception): pass
class Budget(Exception): pass


def bv(v, n):
    if isinstance(v, int): return z3.BitVecVal(v, n)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def isc(v): return isinstance(v, int)


def simp(e):
    if type(e) is int or type(e) is bool: return int(e)
    e = z3.simplify(e, bv_le2extract=False)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e


def tob(v):
    """to z3 Bool"""
    if isinstance(v, int): return z3.BoolVal(bool(v))
    if z3.is_bool(v): return v
    return v != 0


def boolint(v):
    """the condition, if v is 1 when it holds and 0 otherwise"""
    if isc(v): return z3.BoolVal(bool(v)) if v in (0, 1) else None
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        c, x, y = v.children()
        if z3.is_bv_value(x) and z3.is_bv_value(y):
            x, y = x.as_long(), y.as_long()
            if (x, y) == (1, 0): return c
            if (x, y) == (0, 1): return z3.Not(c)


def add64(a, b):
    if isc(a) and isc(b): return (a + b) & M64
    if isc(a) and a == 0: return b
    if isc(b) and b == 0: return a
    return simp(bv(a, 64) + bv(b, 64))


def sub64(a, b):
    if isc(a) and isc(b): return (a - b) & M64
    if isc(b) and b == 0: return a
    return simp(bv(a, 64) - bv(b, 64))


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off): s.o = o; s.off = off

    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.off)


NULL = Ptr(0, 0)

_ctr = itertools.count()


def fresh(n, name='v'):
    k = next(_ctr)
    if n == 1: return z3.Bool('%s!%d' % (name, k))
    return z3.BitVec('%s!%d' % (name, k), n)


class Node:
    """immutable byte content chain"""
    __slots__ = ('k', 'prev', 'a', 'b', 'c', 'd', 'ax', 'id', 'uf')

    def __init__(s, k, prev=None, a=None, b=None, c=None, d=None):
        s.k = k; s.prev = prev; s.a = a; s.b = b; s.c = c; s.d = d; s.ax = None; s.id = next(_ctr); s.uf = None


BASES = {}


def base_node(name='mem'):
    n = Node('base')
    n.uf = z3.Function('%s!%d' % (name, n.id), z3.BitVecSort(64), z3.BitVecSort(8))
    n.ax = []
    BASES['%s!%d' % (name, n.id)] = n
    return n


def const_node(data):
    return Node('const', a=data)


ZERO = Node('zero')


class Obj:
    __slots__ = ('id', 'name', 'kind', 'ro', 'align')

    def __init__(s, id, name, kind, ro=False, align=16):
        s.id = id; s.name = name; s.kind = kind; s.ro = ro; s.align = align


class OS:
    """object state"""
    __slots__ = ('cells', 'node', 'size', 'live', 'gh')

    def __init__(s, cells, node, size, live=True, gh=None):
        s.cells = cells; s.node = node; s.size = size; s.live = live; s.gh = gh

    def copy(s): return OS(dict(s.cells), s.node, s.size, s.live, s.gh)


class Frame:
    __slots__ = ('f', 'blk', 'prev', 'ip', 'env', 'res', 'inv', 'allocas')

    def __init__(s, f, blk, env, res=None, inv=None):
        s.f = f; s.blk = blk; s.prev = None; s.ip = 0; s.env = env; s.res = res; s.inv = inv; s.allocas = []

    def copy(s):
        n = Frame(s.f, s.blk, dict(s.env), s.res, s.inv)
        n.prev = s.prev; n.ip = s.ip; n.allocas = list(s.allocas)
        return n


class State:
    __slots__ = ('fr', 'mem', 'own', 'pc', 'nd', 'inst', 'retval', 'dead', 'tag', 'fnapp', 'addrs', 'memo', 'exc', 'fax')

    def __init__(s):
        s.fr = []; s.mem = {}; s.own = set(); s.pc = []; s.nd = []; s.inst = set(); s.retval = None; s.dead = False
        s.tag = None; s.fnapp = {}; s.addrs = {}; s.memo = {}; s.exc = False; s.fax = {}

    def copy(s):
        n = State()
        n.fr = [f.copy() for f in s.fr]; n.mem = dict(s.mem); n.own = set(); s.own = set()
        n.pc = list(s.pc); n.nd = list(s.nd); n.inst = set(s.inst); n.retval = s.retval; n.tag = s.tag
        n.fnapp = {k: dict(v) for k, v in s.fnapp.items()}; n.addrs = dict(s.addrs); n.memo = dict(s.memo); n.exc = s.exc; n.fax = dict(s.fax)
        return n

    def obj(s, o, w=False):
        x = s.mem[o]
        if w and o not in s.own:
            x = x.copy(); s.mem[o] = x; s.own.add(o)
        return x


class Loop:
    def __init__(s, depth, hdr, blocks): s.depth = depth; s.hdr = hdr; s.blocks = blocks


class Slot:
    """a scalar at a cut point"""
    __slots__ = ('kind', 'key', 'w', 'mod', 'val', 'init', 'name')

    def __init__(s, kind, key, w, mod, name): s.kind = kind; s.key = key; s.w = w; s.mod = mod; s.name = name


class Engine:
    def __init__(s, mod, opts=None):
        s.m = mod
        s.objs = {0: Obj(0, 'null', 'null')}
        s.gobj = {}
        s.fobj = {}
        s.solver = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        s.instdepth = 0
        s.opts = dict(timeout=4000, maxpaths=20000, unroll=0, unroll_outer=0, bmc=0, deadline=None, ob_timeout=30000)
        if opts: s.opts.update(opts)
        s.solver.set('timeout', s.opts['timeout'])
        s.stack = []     # asserted constraints
        s.bases = BASES
        s.checking = True
        s.stats = dict(obligations=0, discharged=0, queries=0, solver_s=0.0, inv_kept=0, inv_cands=0, loops=0, paths=0, covers={}, unknown=0)
        s.obl = {}       # key -> [count, ok]
        s.failures = []
        s.writes = None
        s.reads = None
        s.trace_fn = set()
        s.contract_used = set()
        s.model_used = set()
        s.lean = False   # few generic candidates for loop invariants
        s.recursive = []  # the contract only replaces recursive calls
        s.closed = []    # functions with these prefixes must have a contract
        s.invfns = []    # (fname, forall?)
        s.splits = []    # list of (oid, off, size)
        s.specfns = {}   # name -> dict(uf, axiom fn names, arity)
        s.callstack_skip = set()
        from models import install
        s.models = {}
        s.rxmodels = []
        install(s)
        s._hcache = {}
        s.merging = False
        s.mcache = {}
        s.loopdepth = 0
        s.pure = 0
        s.wcache = {}
        s.regionpreds = []
        s.regionifs = []
        s.rdobjs = set()
        s.backend = {}
        s.pending = []
        s.hints = s.opts.get('hints') or {}
        s.learnt = {}
        s.used_hint = False

    # ------------------------------------------------------------------ solver
    def sync(s, pc):
        st = s.stack
        i = 0
        n = min(len(st), len(pc))
        while i < n and st[i] is pc[i]: i += 1
        if len(st) > i:
            s.solver.pop(len(st) - i); del st[i:]
        for c in pc[i:]:
            s.solver.push(); s.solver.add(c); st.append(c)

    def chk(s, pc, extra=None, timeout=None):
        if s.opts['deadline'] and time.time() > s.opts['deadline']: raise Budget('deadline')
        s.sync(pc)
        s.stats['queries'] += 1
        t = time.time()
        if timeout: s.solver.set('timeout', timeout)
        if extra is not None:
            s.solver.push(); s.solver.add(extra)
            r = s.solver.check()
            mdl = s.solver.model() if r == z3.sat else None
            s.solver.pop()
        else:
            r = s.solver.check()
            mdl = s.solver.model() if r == z3.sat else None
        if timeout: s.solver.set('timeout', s.opts['timeout'])
        s.stats['solver_s'] += time.time() - t
        s.lastmodel = mdl
        return r

    def feasible(s, st, c):
        if isc(c): return bool(c)
        if s.pure: return True
        return s.chk(st.pc, c, timeout=s.opts.get('feas', 2000)) != z3.unsat

    def must(s, st, c):
        if isc(c): return bool(c)
        return s.chk(st.pc, z3.Not(c)) == z3.unsat

    def assume(s, st, c):
        if isc(c):
            if not c: st.dead = True
            return
        c = simp(tob(c))
        if isc(c):
            if not c: st.dead = True
            return
        st.pc.append(c)

    def concretize(s, st, v, why=''):
        """value must be uniquely determined"""
        if isc(v): return v
        if s.chk(st.pc) != z3.sat: raise Unsupported('concretize infeasible ' + why)
        x = s.lastmodel.eval(v, model_completion=True).as_long()
        if s.chk(st.pc, v != x) == z3.unsat: return x
        raise Unsupported('symbolic value not unique: ' + why)

    # ------------------------------------------------------------------ obligations
    def oblige(s, st, c, what, where, kind='assert'):
        """c must hold on st. Returns after assuming c."""
        if s.pure:
            s.assume(st, c); return
        if not s.checking:
            s.assume(st, c); return
        s.stats['obligations'] += 1
        key = '%s@%s' % (what, where)
        e = s.obl.setdefault(key, [0, 0, kind])
        e[0] += 1
        if isc(c):
            if c:
                s.stats['discharged'] += 1; e[1] += 1; return
            r = s.chk(st.pc)
            if r == z3.unsat:
                s.stats['discharged'] += 1; e[1] += 1; st.dead = True; return
            s.fail(st, what, where, kind, r, s.lastmodel)
            st.dead = True; return
        neg = z3.Not(tob(c))
        r = s.chk(st.pc, neg, timeout=250)
        mdl = s.lastmodel
        if r == z3.unknown:
            n = st.copy()
            s.drain(max(1, s.opts.get('par', 1)) - 1)
            s.pending.append(dict(h=s.launch(list(st.pc) + [neg]), st=n, o=e, what=what, where=where, kind=kind, neg=neg, loc=s.where(st)))
            s.assume(st, c)
            return
        s.backend['z3-incremental'] = s.backend.get('z3-incremental', 0) + 1
        if r == z3.unsat:
            s.stats['discharged'] += 1; e[1] += 1
        else:
            s.fail(st, what, where, kind, r, mdl, neg)
        s.assume(st, c)

    def hard(s, pc, extra, timeout=None, evals=None):
        """incremental z3 with a small budget, then a portfolio. s.lastvals: truth values of evals if sat"""
        s.lastvals = None
        r = s.chk(pc, extra, timeout=250)
        if r == z3.sat and evals is not None:
            m = s.lastmodel
            s.lastvals = [z3.is_true(m.eval(e, model_completion=True)) for e in evals]
            s.backend['z3-incremental'] = s.backend.get('z3-incremental', 0) + 1
        elif r == z3.unknown: r = s.second(list(pc) + [extra], timeout, evals)
        else: s.backend['z3-incremental'] = s.backend.get('z3-incremental', 0) + 1
        return r

    def second(s, cs, timeout=None, evals=None):
        """portfolio on a fresh query: z3 | cvc5 (bit-vectors as integers) | cvc5"""
        h = s.launch(cs, timeout, evals)
        while True:
            r = s.poll(h)
            if r is not None: break
            time.sleep(0.004)
        s.lastmodel = None; s.lastvals = h.get('vals')
        return r

    def launch(s, cs, timeout=None, evals=None):
        s.stats['queries'] += 1
        tmo = timeout or s.opts['ob_timeout']
        sol = z3.Solver()
        for c in cs: sol.add(c)
        if evals:
            for i, e in enumerate(evals): sol.add(z3.Bool('kc!%d' % i) == e)
        txt = '(set-option :produce-models true)\n(set-logic ALL)\n' + sol.to_smt2()
        if evals: txt += '(get-value (' + ' '.join('kc!%d' % i for i in range(len(evals))) + '))\n'
        f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False, dir=SHM)
        f.write(txt); f.close()
        procs = []
        for nm, cmd in (('cvc5-int', ['cvc5', '--solve-bv-as-int=sum', '--tlimit=%d' % tmo]), ('z3', ['z3-new', '-T:%d' % (tmo // 1000 + 1)]), ('cvc5', ['cvc5', '--tlimit=%d' % tmo])):
            procs.append((nm, subprocess.Popen(cmd + [f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        return dict(procs=procs, live=list(procs), t=time.time(), end=time.time() + tmo / 1000 + 1, file=f.name, evals=evals, vals=None)

    def poll(s, h):
        """None while undecided"""
        r = None
        for q in list(h['live']):
            nm, p = q
            if p.poll() is None: continue
            h['live'].remove(q)
            o = p.stdout.read()
            if o.startswith('unsat'): r = z3.unsat
            elif o.startswith('sat'):
                r = z3.sat
                if h['evals']:
                    v = dict(re.findall(r'\(\|?(kc![0-9]+)\|? (true|false)\)', o))
                    h['vals'] = [v.get('kc!%d' % i) == 'true' for i in range(len(h['evals']))]
            if r is not None:
                s.backend[nm] = s.backend.get(nm, 0) + 1; break
        if r is None and (not h['live'] or time.time() > h['end']):
            r = z3.unknown; s.stats['unknown'] += 1
        if r is not None:
            for nm, p in h['procs']:
                if p.poll() is None: p.kill()
                p.stdout.close(); p.wait()
            os.unlink(h['file'])
            s.stats['solver_s'] += time.time() - h['t']
        return r

    def drain(s, limit=0):
        """collect asynchronous obligations until at most limit are outstanding"""
        while len(s.pending) > limit:
            for e in list(s.pending):
                r = s.poll(e['h'])
                if r is None: continue
                s.pending.remove(e)
                if r == z3.unsat:
                    s.stats['discharged'] += 1; e['o'][1] += 1
                else:
                    s.fail(e['st'], e['what'], e['where'], e['kind'], r, None, e['neg'], e['loc'])
            if len(s.pending) > limit:
                if s.opts['deadline'] and time.time() > s.opts['deadline']: raise Budget('deadline')
                time.sleep(0.004)

    def abandon(s):
        for e in s.pending:
            for nm, p in e['h']['procs']:
                if p.poll() is None: p.kill()
                p.stdout.close(); p.wait()
            try: os.unlink(e['h']['file'])
            except OSError: pass
        s.pending = []

    def fail(s, st, what, where, kind, r, mdl, neg=None, loc=None):
        vals = None
        if r == z3.sat:
            # look for a small model
            try:
                sizes = [v for (nm, k, v, x) in st.nd if k == 'int' and not isc(v) and z3.is_bv(v) and v.size() >= 16]
                lens = [x for (nm, k, v, x) in st.nd if k == 'buf' and not isc(x)]
                for bound in (4, 12, 40, 300, 5000):
                    ex = [z3.ULE(x, bound) for x in sizes + lens]
                    if neg is not None: ex.append(neg)
                    if s.chk(st.pc, z3.And(ex) if ex else z3.BoolVal(True), timeout=4000) == z3.sat:
                        mdl = s.lastmodel; break
            except Budget: raise
            except Exception: pass
            if mdl is not None: vals = s.extract(st, mdl)
        s.failures.append(dict(what=what, where=where, kind=kind, result=str(r), values=vals,
                               inloop=s.loopdepth > 0, tag=st.tag,
                               stack=[f.f.name for f in st.fr][-4:], loc=loc or s.where(st)))
        if s.opts.get('first_fail') or len(s.failures) > 40: raise Budget('failures')

    def extract(s, st, mdl):
        out = []
        for (nm, k, v, x) in st.nd:
            if k == 'int':
                if isc(v): out.append([nm, v])
                else:
                    e = mdl.eval(bv(v, 64) if z3.is_bool(v) else v, model_completion=True)
                    out.append([nm, e.as_long()])
            elif k == 'buf':
                n = x if isc(x) else mdl.eval(x, model_completion=True).as_long()
                if n > 70000: return None
                bs = []
                for i in range(n):
                    e = mdl.eval(v.uf(z3.BitVecVal(i, 64)), model_completion=True)
                    bs.append(e.as_long())
                out.append([nm, bytes(bs).hex()])
        return out

    def where(s, st):
        for f in reversed(st.fr):
            try:
                ins = f.f.blocks[f.blk][max(0, f.ip - 1)]
                l = s.m.loc(ins.line)
                if l.startswith(('src/', 'include/', 'specs/', '_gen')) or '/lib' in l and 'libstored' in l: return l
            except Exception: pass
        try:
            f = st.fr[-1]
            return s.m.loc(f.f.blocks[f.blk][max(0, f.ip - 1)].line)
        except Exception: return '?'

    # ------------------------------------------------------------------ memory
    def newobj(s, st, name, kind, size, node=None, ro=False, align=16):
        i = len(s.objs)
        s.objs[i] = Obj(i, name, kind, ro, align)
        st.mem[i] = OS({}, node if node is not None else base_node(name), size)
        st.own.add(i)
        return i

    def addr(s, st, o):
        if o == 0: return 0
        a = st.addrs.get(o)
        if a is None:
            a = s.wcache.get(('addr', o))
            if a is None:
                a = z3.BitVec('addr!%d' % o, 64); s.wcache[('addr', o)] = a
            al = s.objs[o].align
            st.pc.append(z3.And(z3.UGE(a, 65536), z3.ULE(a, 1 << 46), (a & (al - 1)) == 0))
            # objects that exist at the same time do not overlap, not even with their one-past-the-end address within another
            x = st.mem.get(o)
            if x is not None and x.live:
                for q, b in st.addrs.items():
                    y = st.mem.get(q)
                    if q == o or y is None or not y.live: continue
                    st.pc.append(z3.Or(z3.UGE(a, b + bv(y.size, 64)), z3.UGE(b, a + bv(x.size, 64))))
            st.addrs[o] = a
        return a

    def sel(s, st, node, idx):
        """one byte -> int | BV8"""
        conds = []
        while True:
            k = node.k
            if k == 'write':
                d = sub64(idx, node.a)
                n = node.b
                if isc(d):
                    if d < n:
                        r = s.bytex(node.c, n, d); break
                    node = node.prev; continue
                c = simp(z3.ULT(d, n))
                if isc(c) and not c: node = node.prev; continue
                if n == 1: v = bv(node.c, 8)
                else:
                    v = bv(s.bytex(node.c, n, n - 1), 8)
                    for j in range(n - 2, -1, -1):
                        v = z3.If(d == j, bv(s.bytex(node.c, n, j), 8), v)
                if isc(c) and c: r = v; break
                conds.append((c, v)); node = node.prev; continue
            if k == 'copy':
                # a dst off, b len, c src node, d src off
                d = sub64(idx, node.a)
                c = simp(z3.ULT(bv(d, 64), bv(node.b, 64)))
                if isc(c):
                    if c: r = s.sel(st, node.c, add64(node.d, d)); break
                    node = node.prev; continue
                v = s.sel(st, node.c, add64(node.d, d))
                conds.append((c, bv(v, 8))); node = node.prev; continue
            if k == 'fill':
                d = sub64(idx, node.a)
                c = simp(z3.ULT(bv(d, 64), bv(node.b, 64)))
                if isc(c):
                    if c: r = node.c; break
                    node = node.prev; continue
                conds.append((c, bv(node.c, 8))); node = node.prev; continue
            if k == 'base':
                ib = bv(idx, 64)
                r = node.uf(ib)
                if st.fax: s.instantiate(st, node.uf.name(), ib)
                break
            if k == 'const':
                data = node.a
                if isc(idx):
                    r = data[idx] if idx < len(data) else 0; break
                arr = s.wcache.get(('arr', node.id))
                # table lookup as nested ite over distinct values
                r = s.table(data, idx); break
            if k == 'zero':
                r = 0; break
            raise Unsupported('node ' + k)
        for c, v in reversed(conds):
            r = z3.If(c, v, bv(r, 8))
        return r

    def instantiate(s, st, sym, ib):
        d = s.instdepth
        if d >= 5: return       # chains of instances (fewer facts: sound)
        s.instdepth = d + 1
        try:
            for ax in st.fax.get(sym, ()):
                key = (id(ax), ib.get_id())
                if key in st.inst: continue
                st.inst.add(key)
                st.memo[('keep', key)] = (ax, ib)
                e = ax(ib)
                if e is not None and not isc(e):
                    s.assume(st, e); s.trigger(st, e)
        finally: s.instdepth = d

    def trigger(s, st, e):
        """instantiate the quantified facts of st whose trigger symbol is applied in e"""
        if not st.fax or isc(e): return
        wl = [e]; seen = set()
        while wl:
            x = wl.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in st.fax: s.instantiate(st, nm, x.arg(0))
            wl.extend(x.children())

    def table(s, data, idx):
        n = len(data)
        if n > 4096: raise Unsupported('big table')
        # binary decision over index bits
        nb = max(1, (n - 1).bit_length())
        key = ('tab', data, idx.get_id())
        if key in s.wcache: return s.wcache[key][0]
        bits = [z3.Extract(i, i, idx) == 1 for i in range(nb)]

        def rec(lo, b):
            if b < 0: return bv(data[lo] if lo < n else 0, 8)
            l = rec(lo, b - 1)
            if lo + (1 << b) >= n: return l
            h = rec(lo + (1 << b), b - 1)
            if l.eq(h): return l
            return z3.If(bits[b], h, l)
        r = rec(0, nb - 1)
        s.wcache[key] = (r, idx)
        return r

    def bytex(s, v, n, j):
        if isc(v): return (v >> (8 * j)) & 255
        if n == 1: return v
        return simp(z3.Extract(8 * j + 7, 8 * j, v))

    def catbytes(s, bs):
        if all(isc(b) for b in bs):
            r = 0
            for i, b in enumerate(bs): r |= b << (8 * i)
            return r
        if len(bs) == 1: return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def bounds(s, st, p, n, what):
        if p.o == 0:
            s.oblige(st, 0, 'memory: null dereference', s.where(st), 'mem'); return
        o = st.mem.get(p.o)
        if o is None:
            if p.o in s.objs and s.objs[p.o].kind == 'func': raise Unsupported('access func')
            raise Unsupported('object gone')
        if not o.live:
            s.oblige(st, 0, 'memory: use after free (%s)' % s.objs[p.o].name, s.where(st), 'mem'); return
        sz = o.size
        if isc(n) and n == 0: return
        if isc(p.off) and isc(sz) and isc(n):
            if p.off + n <= sz: return
            c = 0
        else:
            c = simp(z3.And(z3.ULE(bv(p.off, 64), bv(sz, 64)), z3.ULE(bv(n, 64), bv(sz, 64) - bv(p.off, 64))))
        s.oblige(st, c, 'memory: %s within %s' % (what, s.objs[p.o].name), s.where(st), 'mem')

    def flush(s, st, o, lo=None, hi=None):
        """move integer cells into the byte chain"""
        x = st.mem[o]
        if not x.cells: return
        x = st.obj(o, True)
        for off in sorted(x.cells):
            sz, v = x.cells[off]
            if lo is not None and (off + sz <= lo or off >= hi): continue
            if isinstance(v, Ptr) or isinstance(v, tuple):
                if lo is not None: del x.cells[off]      # partially overwritten pointer
                continue
            x.node = Node('write', x.node, off, sz, v)
            del x.cells[off]

    def load(s, st, p, n, isptr=False, check=True):
        if check:
            s.bounds(st, p, n, 'read')
            if st.dead: return fresh(8 * n, 'dead') if not isptr else NULL
        if s.reads is not None and isc(p.off): s.reads.add((p.o, p.off, n))
        x = st.mem[p.o]
        off = p.off
        if not isc(off): s.rdobjs.add(p.o)
        if isc(off):
            c = x.cells.get(off)
            if c is not None and c[0] == n:
                v = c[1]
                if isptr and not isinstance(v, Ptr): return s.topt(st, v)
                return v
            if x.cells:
                ov = [(a, c) for a, c in x.cells.items() if a < off + n and off < a + c[0]]
                if ov:
                    bs = []
                    for i in range(n):
                        for a, c in ov:
                            if a <= off + i < a + c[0]:
                                if isinstance(c[1], Ptr):
                                    if n == 8 or True: raise Unsupported('partial pointer read')
                                bs.append(s.bytex(c[1], c[0], off + i - a)); break
                        else: bs.append(s.sel(st, x.node, off + i))
                    v = s.catbytes(bs)
                    return s.topt(st, v) if isptr else v
        else:
            # only flush cells possibly overlapping
            if any(not isinstance(c[1], Ptr) for c in x.cells.values()):
                s.flush(st, p.o)
            x = st.mem[p.o]
        if isptr and x.node.k == 'base' and not (x.node.ax) and x.gh is None and s.objs[p.o].kind in ('heap', 'stack', 'sym') and False:
            pass
        v = s.loadn(st, x.node, off, n)
        if isptr: return s.topt(st, v)
        if isc(off) and n in (1, 2, 4, 8) and not isc(v):
            pass
        return v

    def loadn(s, st, node, off, n):
        # word-level shortcut
        nd = node
        while nd.k == 'write':
            d = sub64(off, nd.a)
            if isc(d):
                if d == 0 and nd.b == n: return nd.c
                if d == 0 and nd.b > n:
                    return s.catbytes([s.bytex(nd.c, nd.b, i) for i in range(n)])
                if d >= nd.b and d <= M64 - n + 1 - 0 and (d < (1 << 63) or (1 << 64) - d >= n):
                    nd = nd.prev; continue
            elif n > 1 and nd.b == n:
                # same-size accesses: ask whether must-equal or must-disjoint
                if s.must(st, d == 0): return nd.c
                if s.must(st, z3.And(z3.UGE(d, n), z3.ULE(d, (1 << 64) - n))):
                    nd = nd.prev; continue
            break
        if n == 1: return s.sel(st, nd, off)
        return s.catbytes([s.sel(st, nd, add64(off, i)) for i in range(n)])

    def topt(s, st, v):
        """integer -> pointer"""
        if isinstance(v, Ptr): return v
        if isc(v):
            return Ptr(0, v)
        # find a base address term
        found = []
        seen = set()
        wl = [v]
        while wl:
            e = wl.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id())
            if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name().startswith('addr!'):
                found.append(int(e.decl().name()[5:]))
            wl.extend(e.children())
        if len(set(found)) == 1:
            o = found[0]
            return Ptr(o, sub64(v, s.addr(st, o)))
        return Ptr(0, v)  # an integer: may be compared, but not dereferenced

    def store(s, st, p, n, v, check=True):
        if check:
            s.bounds(st, p, n, 'write')
            if st.dead: return
        if s.objs[p.o].ro:
            s.oblige(st, 0, 'memory: write to constant %s' % s.objs[p.o].name, s.where(st), 'mem'); return
        if s.writes is not None: s.writes.add((p.o, p.off if isc(p.off) else None, n, isinstance(v, Ptr)))
        x = st.obj(p.o, True)
        if isc(p.off):
            off = p.off
            c = x.cells.get(off)
            if not (c is not None and c[0] == n):
                if x.cells:
                    if any(a < off + n and off < a + c[0] for a, c in x.cells.items()):
                        s.flush(st, p.o, off, off + n)
            x.cells[off] = (n, v)
        else:
            if isinstance(v, Ptr): v = s.p2i(st, v)
            s.flush(st, p.o)
            x.node = Node('write', x.node, p.off, n, v)

    def p2i(s, st, v):
        if not isinstance(v, Ptr): return v
        if v.o == 0: return v.off
        return add64(s.addr(st, v.o), v.off)

    def memcpy(s, st, d, sp, n, check=True):
        if isc(n) and n == 0: return
        if not isc(n):
            n = simp(n)
        if not isc(n) and check:
            # null/zero-length special case: allow n==0 with any pointer
            if d.o == 0 or sp.o == 0:
                s.oblige(st, n == 0, 'memory: null memcpy', s.where(st), 'mem'); return
        if check:
            s.bounds(st, d, n, 'write'); s.bounds(st, sp, n, 'read')
            if st.dead: return
        if s.objs[d.o].ro:
            s.oblige(st, 0, 'memory: write to constant', s.where(st), 'mem'); return
        if isc(n) and n <= 64 and isc(d.off) and isc(sp.off):
            # cell-wise copy
            src = st.mem[sp.o]
            items = []
            i = 0
            while i < n:
                c = src.cells.get(sp.off + i)
                if c is not None and i + c[0] <= n:
                    items.append((i, c[0], c[1])); i += c[0]; continue
                # find the widest chunk free of cells
                if any(a <= sp.off + i < a + cc[0] for a, cc in src.cells.items()):
                    items.append((i, 1, s.load(st, Ptr(sp.o, sp.off + i), 1, check=False))); i += 1; continue
                w = 1
                items.append((i, 1, s.load(st, Ptr(sp.o, sp.off + i), 1, check=False))); i += 1
            # coalesce single bytes into 8/4/2 words
            out = []
            k = 0
            while k < len(items):
                done = False
                for w in (8, 4, 2):
                    if k + w <= len(items) and all(items[k + q][1] == 1 and items[k + q][0] == items[k][0] + q for q in range(w)) \
                            and (d.off + items[k][0]) % w == 0:
                        out.append((items[k][0], w, s.catbytes([items[k + q][2] for q in range(w)]))); k += w; done = True; break
                if not done:
                    out.append(items[k]); k += 1
            for off, w, v in out: s.store(st, Ptr(d.o, d.off + off), w, v, check=False)
            return
        s.flush(st, sp.o)
        srcnode = st.mem[sp.o].node
        x = st.obj(d.o, True)
        if isc(d.off) and isc(n): s.flush(st, d.o, d.off, d.off + n)
        else: s.flush(st, d.o)
        x = st.obj(d.o, True)
        if s.writes is not None: s.writes.add((d.o, None, 0, False))
        x.node = Node('copy', x.node, d.off, n, srcnode, sp.off)

    def memset(s, st, d, v, n, check=True):
        if isc(n) and n == 0: return
        if check:
            s.bounds(st, d, n, 'write')
            if st.dead: return
        if isc(n) and n <= 64 and isc(d.off):
            i = 0
            while i < n:
                w = 1
                for q in (8, 4, 2):
                    if i + q <= n and (d.off + i) % q == 0: w = q; break
                s.store(st, Ptr(d.o, d.off + i), w, s.catbytes([v] * w), check=False); i += w
            return
        if isc(d.off) and isc(n): s.flush(st, d.o, d.off, d.off + n)
        else: s.flush(st, d.o)
        x = st.obj(d.o, True)
        if isc(d.off) and isc(n):
            for a in [a for a, c in x.cells.items() if a < d.off + n and d.off < a + c[0]]: del x.cells[a]
        if s.writes is not None: s.writes.add((d.o, None, 0, False))
        x.node = Node('fill', x.node, d.off, n, v)

    # ------------------------------------------------------------------ globals / constants
    def glob(s, st, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.funcs: return s.fptr(name)
        o = s.gobj.get(name)
        if o is None:
            o = len(s.objs)
            t, init, const = s.m.gdef(name)
            s.objs[o] = Obj(o, '@' + name, 'global', ro=const)
            s.gobj[name] = o
        if o not in st.mem:
            t, init, const = s.m.gdef(name)
            try: sz = s.m.size(t)
            except Exception: sz = 8
            x = OS({}, ZERO, sz)
            st.mem[o] = x; st.own.add(o)
            if init is None:
                x.node = base_node(name)
            else:
                data = s.flatconst(t, init)
                if data is not None: x.node = const_node(data) if any(data) else ZERO
                else: s.initc(st, o, 0, t, init)
        return Ptr(o, 0)

    def fptr(s, name):
        o = s.fobj.get(name)
        if o is None:
            o = len(s.objs); s.objs[o] = Obj(o, name, 'func'); s.fobj[name] = o
        return Ptr(o, 0)

    def flatconst(s, t, v):
        """all-integer constant -> bytes, else None"""
        t = s.m.rtype(t)
        sz = s.m.size(t)
        k = v[0]
        if k == 'c': return v[1].to_bytes(sz, 'little') if t[0] == 'i' else None
        if k in ('zero', 'undef'): return bytes(sz)
        if k == 'null': return None if t[0] != 'ptr' else bytes(8)
        if k == 'bytes': return v[1].ljust(sz, b'\0')
        if k == 'f': return s.fconst(t, v[1]).to_bytes(sz, 'little')
        if k == 'agg':
            out = bytearray(sz)
            offs = s.m.layout(t)[2] if t[0] == 'struct' else None
            es = s.m.size(t[2]) if t[0] in ('array', 'vec') else 0
            for i, (et, ev) in enumerate(v[1]):
                b = s.flatconst(et, ev)
                if b is None: return None
                o = offs[i] if offs is not None else i * es
                out[o:o + len(b)] = b
            return bytes(out)
        return None

    def initc(s, st, o, off, t, v):
        t = s.m.rtype(t)
        k = v[0]
        x = st.mem[o]
        if k == 'agg':
            offs = s.m.layout(t)[2] if t[0] == 'struct' else None
            es = s.m.size(t[2]) if t[0] in ('array', 'vec') else 0
            for i, (et, ev) in enumerate(v[1]):
                s.initc(st, o, off + (offs[i] if offs is not None else i * es), et, ev)
            return
        if k in ('zero', 'undef'): return
        if k == 'bytes':
            for i, b in enumerate(v[1]): x.cells[off + i] = (1, b)
            return
        val = s.const(st, t, v)
        x.cells[off] = (s.m.size(t), val)

    def fconst(s, t, txt):
        import struct
        if txt.startswith('0x'):
            if t[0] == 'double': return int(txt, 16)
            if t[0] == 'float':
                d = struct.unpack('<d', int(txt, 16).to_bytes(8, 'little'))[0]
                return int.from_bytes(struct.pack('<f', d), 'little')
            raise Unsupported('fp80 const')
        if t[0] == 'double': return int.from_bytes(struct.pack('<d', float(txt)), 'little')
        return int.from_bytes(struct.pack('<f', float(txt)), 'little')

    def const(s, st, t, v):
        k = v[0]
        if k == 'c':
            if t[0] == 'ptr': return Ptr(0, v[1])
            return v[1]
        if k == 'null': return NULL
        if k == 'g': return s.glob(st, v[1])
        if k == 'undef':
            t = s.m.rtype(t)
            if t[0] == 'i': return fresh(t[1], 'undef')
            if t[0] == 'ptr': return NULL
            if t[0] in ('struct', 'array'):
                n = len(t[1]) if t[0] == 'struct' else t[1]
                return tuple(s.const(st, t[1][i] if t[0] == 'struct' else t[2], v) for i in range(n))
            if t[0] in ('float', 'double'): return fresh(32 if t[0] == 'float' else 64, 'undef')
            return 0
        if k == 'zero':
            t = s.m.rtype(t)
            if t[0] == 'i' or t[0] in ('float', 'double'): return 0
            if t[0] == 'ptr': return NULL
            n = len(t[1]) if t[0] == 'struct' else t[1]
            return tuple(s.const(st, t[1][i] if t[0] == 'struct' else t[2], v) for i in range(n))
        if k == 'f': return s.fconst(t, v[1])
        if k == 'agg':
            return tuple(s.const(st, et, ev) for et, ev in v[1])
        if k == 'gep':
            base = s.const(st, v[2][0][0], v[2][0][1])
            return s.gep(st, v[1], base, [(ot, s.const(st, ot, ov)) for ot, ov in v[2][1:]])
        if k == 'cast':
            x = s.const(st, v[2], v[3])
            if v[1] == 'ptrtoint': return s.p2i(st, x)
            if v[1] == 'inttoptr': return s.topt(st, x)
            if v[1] == 'bitcast': return x
            return s.cast(st, v[1], v[2], v[4], x)
        if k == 'bin':
            return s.binop(st, v[1], v[2], s.const(st, v[2], v[3]), s.const(st, v[2], v[4]))
        raise Unsupported('const ' + k)

    def val(s, st, t, v):
        if v[0] == 'l': return st.fr[-1].env[v[1]]
        return s.const(st, t, v)

    # ------------------------------------------------------------------ ops
    def gep(s, st, t, p, idx):
        if not isinstance(p, Ptr): p = s.topt(st, p)
        off = p.off
        first = True
        for it, iv in idx:
            if not first:
                t = s.m.rtype(t)
                if t[0] == 'struct':
                    off = add64(off, s.m.layout(t)[2][iv]); t = t[1][iv]; continue
                t = t[2]
            first = False
            sz = s.m.size(t)
            if isinstance(iv, Ptr): iv = s.p2i(st, iv)
            if isc(iv):
                w = it[1]
                if iv >> (w - 1): iv -= 1 << w
                off = add64(off, (iv * sz) & M64)
            else:
                e = iv
                if e.size() < 64: e = z3.SignExt(64 - e.size(), e)
                off = add64(off, simp(e * sz) if sz != 1 else e)
        return Ptr(p.o, off)

    def sx(s, v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def binop(s, st, op, t, a, b):
        w = t[1] if t[0] == 'i' else (32 if t[0] == 'float' else 64)
        if op[0] == 'f':
            F = z3.Float32() if w == 32 else z3.Float64()
            x = z3.fpBVToFP(bv(a, w), F); y = z3.fpBVToFP(bv(b, w), F)
            rm = z3.RNE()
            r = {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y),
                 'fdiv': lambda: z3.fpDiv(rm, x, y)}[op]()
            return simp(z3.fpToIEEEBV(r))
        if isinstance(a, Ptr): a = s.p2i(st, a)
        if isinstance(b, Ptr): b = s.p2i(st, b)
        m = (1 << w) - 1
        if w == 1:
            if isc(a) and isc(b):
                return {'and': a & b, 'or': a | b, 'xor': a ^ b, 'add': a ^ b, 'sub': a ^ b, 'mul': a & b}[op]
            x, y = tob(a), tob(b)
            if op == 'and': return simp(z3.And(x, y))
            if op == 'or': return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'): return simp(z3.Xor(x, y))
            raise Unsupported('i1 ' + op)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            nz = (b != 0) if isc(b) else (b != 0)
            if isc(b):
                if b == 0: s.oblige(st, 0, 'arith: division by zero', s.where(st), 'mem'); return 0
            else: s.oblige(st, b != 0, 'arith: division by zero', s.where(st), 'mem')
        if isc(a) and isc(b):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (s.sx(a, w) >> min(b, w - 1)) & m
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = s.sx(a, w), s.sx(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (sa - q * sb) & m
        if op in ('and', 'or', 'xor'):
            # booleans that were promoted to int
            p, q = boolint(a), boolint(b)
            if p is not None and q is not None:
                r = simp({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](p, q))
                return int(r) if isc(r) else z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        x, y = bv(a, w), bv(b, w)
        if op in ('udiv', 'urem') and not (isc(b) and b & (b - 1) == 0) and not st.dead:
            # small quotients without a divider
            if s.must(st, z3.ULT(x, y)): return a if op == 'urem' else 0
            if s.must(st, z3.Or(z3.ULT(x, y), z3.ULT(x - y, y))):
                lt = z3.ULT(x, y)
                return simp(z3.If(lt, x, x - y) if op == 'urem' else z3.If(lt, z3.BitVecVal(0, w), z3.BitVecVal(1, w)))
        if op == 'add': r = x + y
        elif op == 'sub': r = x - y
        elif op == 'mul': r = x * y
        elif op == 'and': r = x & y
        elif op == 'or': r = x | y
        elif op == 'xor': r = x ^ y
        elif op == 'shl': r = x << y
        elif op == 'lshr': r = z3.LShR(x, y)
        elif op == 'ashr': r = x >> y
        elif op == 'udiv': r = z3.UDiv(x, y)
        elif op == 'urem': r = z3.URem(x, y)
        elif op == 'sdiv':
            r = x / y
        elif op == 'srem': r = z3.SRem(x, y)
        else: raise Unsupported(op)
        return simp(r)

    def icmp(s, st, pr, t, a, b):
        if t[0] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr): a = s.topt(st, a)
            if not isinstance(b, Ptr): b = s.topt(st, b)
            if a.o == b.o:
                a, b, w = a.off, b.off, 64
            elif pr in ('eq', 'ne'):
                return 0 if pr == 'eq' else 1
            else:
                a, b, w = s.p2i(st, a), s.p2i(st, b), 64
        else: w = t[1]
        if isc(a) and isc(b):
            if pr[0] == 's': a, b = s.sx(a, w), s.sx(b, w)
            return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pr[-2:]])
        if w == 1:
            x, y = tob(a), tob(b)
            if pr == 'eq': return simp(x == y)
            if pr == 'ne': return simp(z3.Xor(x, y))
            x, y = bv(a, 8), bv(b, 8)
        else: x, y = bv(a, w), bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'slt': lambda: x < y, 'sle': lambda: x <= y}[pr]()
        return simp(r)

    def fcmp(s, pr, t, a, b):
        w = 32 if t[0] == 'float' else 64
        F = z3.Float32() if w == 32 else z3.Float64()
        x = z3.fpBVToFP(bv(a, w), F); y = z3.fpBVToFP(bv(b, w), F)
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if pr == 'ord': return simp(z3.Not(un))
        if pr == 'uno': return simp(un)
        if pr == 'true': return 1
        if pr == 'false': return 0
        c = {'eq': z3.fpEQ(x, y), 'ne': z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y)}[pr[1:]]
        return simp(z3.And(z3.Not(un), c) if pr[0] == 'o' else z3.Or(un, c))

    def cast(s, st, op, t, t2, v):
        if op == 'ptrtoint':
            v = s.p2i(st, v); w = 64; w2 = t2[1]
            if w2 == 64: return v
            op = 'trunc'; t = ('i', 64)
        if op == 'inttoptr': return s.topt(st, v)
        if op == 'bitcast': return v
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            wid = {'float': 32, 'double': 64}
            if op in ('uitofp', 'sitofp'):
                F = z3.Float32() if t2[0] == 'float' else z3.Float64()
                x = bv(v, t[1])
                r = z3.fpToFP(z3.RNE(), x, F) if op == 'sitofp' else z3.fpToFPUnsigned(z3.RNE(), x, F)
                return simp(z3.fpToIEEEBV(r))
            if t[0] not in wid: raise Unsupported('fp80')
            x = z3.fpBVToFP(bv(v, wid[t[0]]), z3.Float32() if t[0] == 'float' else z3.Float64())
            if op in ('fptoui', 'fptosi') and s.checking and not s.pure:
                F = x.sort(); W = t2[1]
                lo = -1.0 if op == 'fptoui' else -2.0 ** (W - 1)
                hi = 2.0 ** (W if op == 'fptoui' else W - 1)
                okk = z3.And(z3.Not(z3.fpIsNaN(x)), z3.fpLT(x, z3.FPVal(hi, F)), z3.fpGT(x, z3.FPVal(lo, F)) if op == 'fptoui' else z3.Or(z3.fpGEQ(x, z3.FPVal(lo, F)), z3.fpGT(x, z3.FPVal(lo - 1.0, F))))
                s.oblige(st, simp(okk), 'float to integer conversion in range', s.where(st), 'arith')
                if st.dead: return 0
            if op == 'fptoui': return simp(z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(t2[1])))
            if op == 'fptosi': return simp(z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(t2[1])))
            if t2[0] not in wid: raise Unsupported('fp80')
            return simp(z3.fpToIEEEBV(z3.fpToFP(z3.RNE(), x, z3.Float32() if t2[0] == 'float' else z3.Float64())))
        w, w2 = t[1], t2[1]
        if isinstance(v, Ptr): v = s.p2i(st, v)
        if isc(v):
            if op == 'sext': return s.sx(v, w) & ((1 << w2) - 1)
            return v & ((1 << w2) - 1)
        if w == 1:
            b = tob(v)
            if op == 'zext': return z3.If(b, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2))
            return z3.If(b, z3.BitVecVal((1 << w2) - 1, w2), z3.BitVecVal(0, w2))
        if op == 'trunc':
            if w2 == 1: return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(w2 - 1, 0, v))
        if op == 'zext': return simp(z3.ZeroExt(w2 - w, v))
        if op == 'sext': return simp(z3.SignExt(w2 - w, v))
        raise Unsupported(op)

    # ------------------------------------------------------------------ running
    def call_function(s, st, f, args, res=None, inv=None):
        f.parse()
        if len(st.fr) > 120: raise Unsupported('call depth')
        env = {}
        ps = s.m.params(f)
        k = 0
        for i, ((t, nm), a) in enumerate(zip(ps, args)):
            env[nm if nm is not None else str(i)] = a
        st.fr.append(Frame(f, f.entry, env, res, inv))
        s.trace_fn.add(f.name)

    def start(s, fname, args=()):
        st = State()
        s.call_function(st, s.m.funcs[fname], list(args))
        return st

    def enter(s, st, blk):
        """branch to blk in top frame; evaluates phis"""
        fr = st.fr[-1]
        fr.prev = fr.blk; fr.blk = blk; fr.ip = 0
        ins = fr.f.blocks[blk]
        upd = []
        for i in ins:
            if i.op != 'phi': break
            for v, l in i.a:
                if l == fr.prev:
                    upd.append((i.res, s.val(st, i.ty, v))); break
            else: raise Unsupported('phi')
            fr.ip += 1
        for r, v in upd: fr.env[r] = v

    def run(s, states, ctx):
        """run until every path is back at ctx.hdr, out of the loop, or finished.
           -> (back, exits, done)"""
        wl = list(states)
        back, exits, done = [], [], []
        D = ctx.depth if ctx else 0
        while wl:
            st = wl.pop()
            if s.opts['deadline'] and time.time() > s.opts['deadline']: raise Budget('deadline')
            while True:
                if st.dead: break
                if ctx and len(st.fr) < D:
                    exits.append(st); break
                if not st.fr:
                    done.append(st); break
                if type(st.tag) is tuple:
                    r = st.tag; st.tag = None
                else:
                    r = s.step(st)
                if r is None: continue
                kind = r[0]
                if kind == 'fork':
                    s.stats['paths'] += len(r[1])
                    if s.stats['paths'] > s.opts['maxpaths']: raise Budget('paths')
                    wl.extend(reversed(r[1])); break
                if kind == 'goto':
                    # (st positioned by caller)
                    tgt = r[1]
                    s.enter(st, tgt)
                    if s.route(st, ctx, D, wl, back, exits, done): break
                    continue
                if kind == 'end': break
        return back, exits, done

    def route(s, st, ctx, D, wl, back, exits, done):
        """st just entered a block (or left an inner loop). True if consumed."""
        if st.dead: return True
        d = len(st.fr)
        if d == 0:
            done.append(st); return True
        if ctx:
            if d < D:
                exits.append(st); return True
            if d == D:
                b = st.fr[-1].blk
                if b == ctx.hdr and st.fr[-1].ip == s.nphi(st.fr[-1]):
                    back.append(st); return True
                if b not in ctx.blocks:
                    exits.append(st); return True
        fr = st.fr[-1]
        if fr.blk in fr.f.loops and fr.ip == s.nphi(fr):
            from loops import analyze
            for e in analyze(s, st, fr.f.loops[fr.blk], fr.blk):
                if type(e.tag) is tuple or e.dead: wl.append(e)
                elif not s.route(e, ctx, D, wl, back, exits, done): wl.append(e)
            return True
        return False

    def nphi(s, fr):
        n = 0
        for i in fr.f.blocks[fr.blk]:
            if i.op != 'phi': break
            n += 1
        return n

    def step(s, st):
        fr = st.fr[-1]
        ins = fr.f.blocks[fr.blk][fr.ip]
        fr.ip += 1
        op = ins.op
        env = fr.env
        if op == 'load':
            p = s.val(st, ('ptr',), ins.a[0])
            if not isinstance(p, Ptr): p = s.topt(st, p)
            env[ins.res] = s.loadt(st, p, ins.ty)
            return
        if op == 'store':
            v = s.val(st, ins.ty, ins.a[0]); p = s.val(st, ('ptr',), ins.a[1])
            if not isinstance(p, Ptr): p = s.topt(st, p)
            s.storet(st, p, ins.ty, v)
            return
        if op == 'getelementptr':
            b = s.val(st, *ins.a[0])
            env[ins.res] = s.gep(st, ins.ty, b, [(t, s.val(st, t, v)) for t, v in ins.a[1:]])
            return
        if op == 'br':
            if ins.a[0] is None: return ('goto', ins.a[1])
            c = s.val(st, ('i', 1), ins.a[0])
            if isc(c): return ('goto', ins.a[1] if c else ins.a[2])
            return s.branch(st, [(c, ins.a[1]), (z3.Not(c), ins.a[2])])
        if op == 'call' or op == 'invoke':
            return s.docall(st, ins)
        if op == 'icmp':
            env[ins.res] = s.icmp(st, ins.x, ins.ty, s.val(st, ins.ty, ins.a[0]), s.val(st, ins.ty, ins.a[1])); return
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv'):
            a = s.val(st, ins.ty, ins.a[0]); b = s.val(st, ins.ty, ins.a[1])
            env[ins.res] = s.binop(st, op, ins.ty, a, b); return
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            env[ins.res] = s.cast(st, op, ins.x, ins.ty, s.val(st, ins.x, ins.a[0])); return
        if op == 'select':
            c = s.val(st, ('i', 1), ins.a[0])
            if isc(c):
                env[ins.res] = s.val(st, ins.ty, ins.a[1] if c else ins.a[2]); return
            a = s.val(st, ins.ty, ins.a[1]); b = s.val(st, ins.ty, ins.a[2])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if a.o == b.o:
                    env[ins.res] = Ptr(a.o, simp(z3.If(c, bv(a.off, 64), bv(b.off, 64)))); return
                return s.forkval(st, ins.res, [(c, a), (z3.Not(c), b)])
            t = s.m.rtype(ins.ty)
            if t[0] == 'i' and t[1] == 1:
                env[ins.res] = simp(z3.If(c, tob(a), tob(b))); return
            w = t[1] if t[0] == 'i' else (32 if t[0] == 'float' else 64)
            env[ins.res] = simp(z3.If(c, bv(a, w), bv(b, w))); return
        if op == 'ret':
            v = None if ins.a[0] is None else s.val(st, ins.ty, ins.a[0])
            for o in fr.allocas:
                if o in st.mem: st.obj(o, True).live = False
            st.fr.pop()
            st.retval = v
            if st.fr:
                c = st.fr[-1]
                if fr.res is not None: c.env[fr.res] = v
                if fr.inv is not None:
                    # returning to an invoke: continue at the normal destination
                    return ('goto', fr.inv)
            return
        if op == 'alloca':
            n = s.val(st, ('i', 32), ins.a[0])
            o = s.newobj(st, '%s' % (ins.res,), 'stack', s.m.size(ins.ty) * n)
            fr.allocas.append(o)
            env[ins.res] = Ptr(o, 0); return
        if op == 'switch':
            v = s.val(st, ins.ty, ins.a[0])
            if isc(v):
                for c, l in ins.a[3]:
                    if c == v: return ('goto', l)
                return ('goto', ins.a[2])
            w = ins.ty[1]
            by = {}
            for c, l in ins.a[3]: by.setdefault(l, []).append(c)
            d = z3.And([v != c for c, l in ins.a[3]])
            alts = []
            for l, cs in by.items():
                e = z3.Or([v == c for c in cs])
                if l == ins.a[2]: continue
                alts.append((e, l))
            dd = [c for l, cs in by.items() if l != ins.a[2] for c in cs]
            alts.append((z3.And([v != c for c in dd]) if dd else z3.BoolVal(True), ins.a[2]))
            return s.branch(st, alts)
        if op == 'extractvalue':
            v = s.val(st, ins.ty, ins.a[0])
            for i in ins.x:
                v = v[i]
            env[ins.res] = v; return
        if op == 'insertvalue':
            t = s.m.rtype(ins.ty)
            v = s.val(st, ins.ty, ins.a[0])
            et = t
            for i in ins.x: et = s.m.rtype(et); et = et[1][i] if et[0] == 'struct' else et[2]
            b = s.val(st, et, ins.a[1])

            def ins_(v, idx):
                if not idx: return b
                l = list(v); l[idx[0]] = ins_(l[idx[0]], idx[1:]); return tuple(l)
            env[ins.res] = ins_(v, ins.x); return
        if op == 'unreachable':
            s.oblige(st, 0, 'unreachable reached', s.where(st), 'assert'); return ('end',)
        if op == 'freeze':
            env[ins.res] = s.val(st, ins.ty, ins.a[0]); return
        if op == 'fcmp':
            env[ins.res] = s.fcmp(ins.x, ins.ty, s.val(st, ins.ty, ins.a[0]), s.val(st, ins.ty, ins.a[1])); return
        if op == 'fneg':
            w = 32 if ins.ty[0] == 'float' else 64
            env[ins.res] = simp(bv(s.val(st, ins.ty, ins.a[0]), w) ^ (1 << (w - 1))); return
        if op == 'fence': return
        if op == 'atomicrmw':
            p = s.val(st, ('ptr',), ins.a[0]); v = s.val(st, ins.ty, ins.a[1])
            old = s.loadt(st, p, ins.ty)
            if ins.x == 'xchg': nv = v
            elif ins.x in ('add', 'sub', 'and', 'or', 'xor'): nv = s.binop(st, ins.x, ins.ty, old, v)
            else: raise Unsupported('atomicrmw ' + ins.x)
            s.storet(st, p, ins.ty, nv)
            env[ins.res] = old; return
        if op == 'landingpad' or op == 'resume': return ('end',)
        raise Unsupported('%s %s' % (op, ins.x))

    def loadt(s, st, p, t):
        t = s.m.rtype(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            v = s.load(st, p, n)
            if isinstance(v, Ptr): v = s.p2i(st, v)
            if t[1] == 1:
                if isc(v): return v & 1
                return simp(z3.Extract(0, 0, v) == 1)
            if t[1] != 8 * n:
                return v & ((1 << t[1]) - 1) if isc(v) else simp(z3.Extract(t[1] - 1, 0, v))
            return v
        if t[0] == 'ptr': return s.load(st, p, 8, True)
        if t[0] == 'float': return s.load(st, p, 4)
        if t[0] == 'double': return s.load(st, p, 8)
        if t[0] == 'struct':
            offs = s.m.layout(t)[2]
            return tuple(s.loadt(st, Ptr(p.o, add64(p.off, o)), ft) for o, ft in zip(offs, t[1]))
        if t[0] == 'array':
            es = s.m.size(t[2])
            return tuple(s.loadt(st, Ptr(p.o, add64(p.off, i * es)), t[2]) for i in range(t[1]))
        raise Unsupported('load %r' % (t,))

    def storet(s, st, p, t, v):
        t = s.m.rtype(t)
        if t[0] == 'i':
            n = (t[1] + 7) // 8
            if t[1] == 1 and not isc(v): v = bv(v, 8)
            elif t[1] != 8 * n and not isc(v): v = z3.ZeroExt(8 * n - t[1], v)
            s.store(st, p, n, v); return
        if t[0] == 'ptr':
            s.store(st, p, 8, v); return
        if t[0] == 'float': s.store(st, p, 4, v); return
        if t[0] == 'double': s.store(st, p, 8, v); return
        if t[0] == 'struct':
            offs = s.m.layout(t)[2]
            for o, ft, x in zip(offs, t[1], v): s.storet(st, Ptr(p.o, add64(p.off, o)), ft, x)
            return
        if t[0] == 'array':
            es = s.m.size(t[2])
            for i, x in enumerate(v): s.storet(st, Ptr(p.o, add64(p.off, i * es)), t[2], x)
            return
        raise Unsupported('store %r' % (t,))

    def branch(s, st, alts):
        live = []
        for i, (c, l) in enumerate(alts):
            c = simp(c) if not isc(c) else c
            if isc(c):
                if c: live.append((None, l))
                continue
            if i == len(alts) - 1 and not live:
                live.append((c, l)); continue
            if s.feasible(st, c): live.append((c, l))
        if not live:
            st.dead = True; return ('end',)
        if len(live) == 1:
            c, l = live[0]
            if c is not None: st.pc.append(c)
            return ('goto', l)
        out = []
        for i, (c, l) in enumerate(live):
            n = st.copy() if i < len(live) - 1 else st
            out.append((n, c, l))
        res = []
        for n, c, l in out:
            if c is not None: n.pc.append(c)
            # re-issue as pending goto: set a pseudo instruction
            n.tag = None
            res.append(Pending(n, l))
        return ('fork', res)

    def forkval(s, st, res, alts):
        live = [(c, v) for c, v in alts if s.feasible(st, c)]
        if not live:
            st.dead = True; return ('end',)
        out = []
        for i, (c, v) in enumerate(live):
            n = st.copy() if i < len(live) - 1 else st
            out.append((n, c, v))
        for n, c, v in out:
            n.pc.append(c) if not isc(c) else None
            if res is not None: n.fr[-1].env[res] = v
        return ('fork', [n for n, c, v in out])

    # ------------------------------------------------------------------ calls
    def docall(s, st, ins):
        fv = ins.a[0]
        fr = st.fr[-1]
        if fv[0] == 'g': name = fv[1]
        else:
            p = s.val(st, ('ptr',), fv)
            if not isinstance(p, Ptr) or p.o == 0 or s.objs[p.o].kind != 'func':
                if isinstance(p, Ptr) and p.o == 0:
                    s.oblige(st, 0, 'call of null function pointer', s.where(st), 'mem'); return ('end',)
                raise Unsupported('indirect call')
            name = s.objs[p.o].name
        name = s.m.aliases.get(name, name)
        args = []
        for t, v in ins.a[1]:
            args.append(s.val(st, t, v) if t[0] != 'metadata' else None)
        return s.invoke(st, name, args, ins.res, ins.x[0] if ins.op == 'invoke' else None, ins)

    def invoke(s, st, name, args, res, inv, ins=None):
        # contract replacement
        cn = 'vfc__' + name
        if cn in s.m.funcs and not any(f.f.name in (cn, 'vf_real__' + name) or f.f.name == s.opts.get('noreplace') for f in st.fr) \
                and name not in s.opts.get('bodies', ()) and (name not in s.recursive or any(f.f.name == name for f in st.fr)):
            s.contract_used.add(name)
            s.call_function(st, s.m.funcs[cn], args, res, inv)
            return
        for c in s.closed:
            if name.startswith(c) and name[len(c):len(c) + 1] not in ('C', 'D'):
                raise Unsupported('no contract for ' + name)
        h = s.handler(name)
        if h is not None:
            s.model_used.add(name)
            r = h(s, st, args, ins)
            if isinstance(r, list):
                outs = []
                for (n, v) in r:
                    if n.dead: continue
                    if res is not None: n.fr[-1].env[res] = v
                    outs.append(Pending(n, inv) if inv else n)
                return ('fork', outs)
            if isinstance(r, tuple) and r and r[0] == '__end':
                return ('end',)
            if isinstance(r, tuple) and r and r[0] == '__call':
                s.call_function(st, r[1], r[2], res, inv)
                return
            if res is not None: st.fr[-1].env[res] = r
            if inv is not None: return ('goto', inv)
            return
        f = s.m.funcs.get(name)
        if f is not None and f.defined:
            if s.merging and not s.pure and s.mergeable(f):
                n0 = len(st.pc)
                base = st.copy()
                s.call_function(st, f, args, res, None)
                D = len(st.fr)
                _, exits, _ = s.run([st], Loop(D, None, set(f.blocks)))
                exits = [e for e in exits if not e.dead]
                out = s.merge(base, n0, exits, res, ins.ty[1] if ins is not None and ins.ty and ins.ty[0] == 'i' else 64)
                return ('fork', [Pending(n, inv) if inv else n for n in out])
            s.call_function(st, f, args, res, inv)
            return
        raise Unsupported('external call %s' % demangle([name]).get(name, name))

    def mergeable(s, f, depth=0):
        """loop-free code without effects beyond memory: its paths may be joined"""
        r = s.mcache.get(f.name)
        if r is None:
            f.parse()
            r = not f.loops and (depth or sum(1 for b in f.blocks.values() if b and b[-1].op in ('br', 'switch')) > 0)
            if r:
                for b in f.blocks.values():
                    for i in b:
                        if i.op in ('invoke', 'resume', 'landingpad', 'alloca'): r = False
                        elif i.op == 'call':
                            fv = i.a[0]
                            nm = s.m.aliases.get(fv[1], fv[1]) if fv[0] == 'g' else None
                            if nm is None: r = False
                            elif nm.startswith('llvm.') or nm in ('__assert_fail',): pass
                            elif nm.startswith('vf') or depth > 3 or 'vfc__' + nm in s.m.funcs: r = False
                            else:
                                g = s.m.funcs.get(nm)
                                if g is None or not g.defined or not s.mergeable(g, depth + 1): r = False
                        if not r: break
                    if not r: break
            if depth == 0 or not r: s.mcache[f.name] = r
        return r

    def merge(s, base, n0, sts, res, rw):
        """join states that differ in path condition, scalar memory content and the result only"""
        if len(sts) < 2: return sts
        a = sts[0]
        for x in sts[1:]:
            if len(x.nd) != len(base.nd) or len(x.fr) != len(a.fr) or x.exc or any(x.fax.get(k) is not v for k, v in a.fax.items()) or len(x.fax) != len(a.fax): return sts
        conds = [z3.And([c for c in x.pc[n0:]]) if len(x.pc) > n0 else z3.BoolVal(True) for x in sts]

        def ite(vals):
            v0 = vals[0]
            if all(v is v0 or (isc(v) and isc(v0) and type(v) is type(v0) and v == v0) for v in vals): return v0
            if any(isinstance(v, tuple) or v is None for v in vals): raise KeyError
            if any(isinstance(v, Ptr) for v in vals):
                if not all(isinstance(v, Ptr) and v.o == vals[0].o for v in vals): raise KeyError
                return Ptr(v0.o, ite2([v.off for v in vals], 64))
            return None

        def ite2(vals, w):
            r = ite(vals)
            if r is not None: return r
            f = (lambda v: tob(v)) if w == 1 else (lambda v: bv(v, w))
            e = f(vals[-1])
            for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])): e = z3.If(c, f(v), e)
            return simp(e)
        try:
            n = base.copy()
            n.tag = None
            upd = []
            for o in base.mem:
                xs = [x.mem.get(o) for x in sts]
                if all(x is base.mem[o] for x in xs): continue
                if all(x is xs[0] for x in xs): upd.append((o, xs[0])); continue
                if any(x.node is not xs[0].node or x.size is not xs[0].size or x.live != xs[0].live or x.gh is not xs[0].gh for x in xs): return sts
                keys = {}
                for x in xs:
                    for off, (sz, v) in x.cells.items():
                        if keys.setdefault(off, sz) != sz: return sts
                ks = sorted(keys.items())
                if any(p + q > r for (p, q), (r, _) in zip(ks, ks[1:])): return sts
                cells = {}
                for off, sz in ks:
                    vals = []
                    for st, x in zip(sts, xs):
                        c = x.cells.get(off)
                        vals.append(c[1] if c is not None else s.load(st, Ptr(o, off), sz, False, False))
                    cells[off] = (sz, ite2(vals, 8 * sz))
                upd.append((o, OS(cells, xs[0].node, xs[0].size, xs[0].live, xs[0].gh)))
            if res is not None:
                vals = [x.fr[-1].env[res] for x in sts]
                ws = [v.size() if z3.is_bv(v) else 1 if z3.is_bool(v) else None for v in vals]
                w = next((q for q in ws if q), None)
                if w is None: w = rw
                n.fr[-1].env[res] = ite2(vals, w); n.retval = n.fr[-1].env[res]
            for o, x in upd:
                n.mem[o] = x
        except KeyError: return sts
        n.fr[-1].ip = a.fr[-1].ip; n.fr[-1].blk = a.fr[-1].blk; n.fr[-1].prev = a.fr[-1].prev
        s.assume(n, z3.Or(conds))
        s.stats['merges'] = s.stats.get('merges', 0) + 1
        return [n]

    def handler(s, name):
        if name in s._hcache: return s._hcache[name]
        h = s.models.get(name)
        if h is None:
            dm = demangle([name])[name]
            for rx, fn in s.rxmodels:
                m = rx.match(dm)
                if m:
                    h = fn; break
        s._hcache[name] = h
        return h

    def pure_eval(s, st, fname, args, w):
        """evaluate a loop-free spec function on (a copy of) st and return an expression; st gains only axiom instances"""
        s.pure += 1
        sw, sr, s.writes, s.reads = s.writes, s.reads, None, s.reads
        try:
            n = st.copy()
            n.fr = []
            base = len(n.pc)
            s.call_function(n, s.m.funcs[fname], args)
            if True:
                n.fr[0].res = None
            _, _, done = s.run([n], None)
            e = None
            facts = []
            for d in done:
                c = z3.And(d.pc[base:]) if len(d.pc) > base else None
                v = tob(d.retval) if w == 1 else bv(d.retval, w)
                if e is None: e = v if c is None or len(done) == 1 and w != 1 else (z3.And(c, v) if w == 1 else v)
                else: e = z3.Or(e, z3.And(c, v) if c is not None else v) if w == 1 else z3.If(c, v, e)
            if e is None: e = z3.BoolVal(False) if w == 1 else fresh(w)
            e = simp(e)
            s.trigger(st, e)
            return e
        finally:
            s.pure -= 1
            s.writes, s.reads = sw, sr


class Pending:
    """a state that must first take a goto"""
    def __new__(cls, st, blk):
        st.tag = ('goto', blk)
        return st
