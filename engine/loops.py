"""Loop cutting with inductive invariants.  Candidates come from fixed templates over the scalars live at the cut point
   (whatever they are called), from the specification's own invariant functions and from its spec functions; Houdini keeps
   the largest inductive subset.  Each kept candidate contributes one initiation and one preservation obligation."""
import itertools, time, os, json
import z3
from sym import *
from sym import _ctr


class Restart(Exception): pass


def outermost(f, hdr):
    return not any(h != hdr and hdr in bl for h, bl in f.loops.items())


def analyze(s, st, blocks, hdr):
    if st.dead: return []
    s.stats['loops'] += 1
    D = len(st.fr)
    ctx = Loop(D, hdr, blocks)
    ck = s.checking
    out = []
    if s.opts['bmc']:
        # bounded mode: paths with more than bmc symbolic iterations are cut (never counted as proof)
        cur = [(st, 0, 0)]
        while cur:
            c, k, n = cur.pop()
            npc = len(c.pc)
            back, exits, done = s.run([c], ctx)
            out += exits
            for b in back:
                sym = k + (0 if len(b.pc) == npc else 1)
                if sym > s.opts['bmc'] or n > 300:
                    s.stats['bmc_cut'] = s.stats.get('bmc_cut', 0) + 1
                    continue
                cur.append((b, sym, n + 1))
        return out
    cur = [(st, 0, 0)]
    while cur:
        c, k, n = cur.pop()
        if n > 400: raise Unsupported('loop unrolling limit')
        if n < s.opts['unroll_outer'] and outermost(st.fr[-1].f, hdr):
            back, exits, done = s.run([c], ctx)
            out += exits
            for b in back: cur.append((b, k, n + 1))
            continue
        snap = c.copy()
        npc = len(c.pc)
        s.checking = False
        try:
            back, exits, done = s.run([c], ctx)
        finally:
            s.checking = ck
        conc = not back or (len(back) == 1 and (len(back[0].pc) == npc or not exits and n < 70))
        if conc or k < s.opts['unroll']:
            if ck:
                back, exits, done = s.run([snap], ctx)
            out += exits
            for b in back: cur.append((b, k + (0 if conc else 1), n + 1))
        else:
            out += invariant(s, snap, ctx)
    return out


def slots_of(s, st, ctx, mods, reads):
    """scalars at the cut point: phis and live SSA values of the frame, and memory cells"""
    fr = st.fr[-1]
    f = fr.f
    phis = []
    for i in f.blocks[ctx.hdr]:
        if i.op != 'phi': break
        phis.append(i.res)
    used = set(); defd = set()
    for b in ctx.blocks:
        used |= f.uses[b]; defd |= f.defs[b]
    out = []
    for n in phis:
        v = fr.env[n]
        out.append(Slot('env', n, wid(v), True, n))
    for n in sorted(used - defd):
        if n in fr.env:
            v = fr.env[n]
            if isinstance(v, tuple): continue
            out.append(Slot('env', n, wid(v), False, n))
    # values defined in the loop but outside of the header (irreducible / multi-entry): those live at hdr
    for n in sorted((used & defd) - set(phis)):
        if n in fr.env and not isinstance(fr.env[n], tuple):
            out.append(Slot('env', n, wid(fr.env[n]), True, n))
    cells = {}
    for (o, off, n, isp) in mods['cells']:
        cells[(o, off, n)] = True
    for (o, off, n) in reads:
        if (o, off, n) in cells: continue
        if any(o == a and off < b + c and b < off + n for (a, b, c) in cells): continue
        x = st.mem.get(o)
        if x is None or not x.live or s.objs[o].ro: continue
        c = x.cells.get(off)
        if c is None or c[0] != n: continue
        cells[(o, off, n)] = False
    for (o, off, n), mod in sorted(cells.items()):
        x = st.mem.get(o)
        if x is None or not x.live: continue
        out.append(Slot('cell', (o, off, n), 8 * n, mod, '%s+%d' % (s.objs[o].name, off)))
    return out


def wid(v):
    if isinstance(v, Ptr): return 64
    if isc(v): return 64
    if z3.is_bool(v): return 1
    return v.size()


def getslot(s, st, sl):
    if sl.kind == 'env': return st.fr[-1].env[sl.key]
    o, off, n = sl.key
    return s.load(st, Ptr(o, off), n, check=False) if not isptrcell(st, sl.key) else st.mem[o].cells[off][1]


def isptrcell(st, key):
    o, off, n = key
    c = st.mem[o].cells.get(off)
    return c is not None and c[0] == n and isinstance(c[1], Ptr)


def z64(v, w=64):
    if isinstance(v, Ptr): v = v.off
    if isc(v): return z3.BitVecVal(v, 64)
    if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if v.size() < 64: return z3.ZeroExt(64 - v.size(), v)
    if v.size() > 64: return z3.Extract(63, 0, v)
    return v


class Cand:
    """scalar candidate: f(s, st, slots, info, st0) -> Bool.
       quantified candidate (grp is not None): forall j. guard(st, j) -> body(st, j); candidates of one group share the body."""
    __slots__ = ('name', 'f', 'grp', 'guard', 'body')

    def __init__(s, name, f=None, grp=None, guard=None, body=None):
        s.name = name; s.f = f; s.grp = grp; s.guard = guard; s.body = body


def invariant(s, st0, ctx):
    s.loopdepth += 1
    try:
        return invariant_(s, st0, ctx)
    finally:
        s.loopdepth -= 1


def havoc(s, st0, ctx, mods, cands, slots, entryinfo):
    st = st0.copy()
    fr = st.fr[-1]
    f = fr.f
    newbases = {}
    for sl in slots:
        if not sl.mod: continue
        iv = entryinfo['init'][id(sl)]
        if sl.kind == 'env':
            if isinstance(iv, Ptr):
                if sl.key in mods['ptrobj']: raise Unsupported('pointer phi changes object: ' + sl.name)
                fr.env[sl.key] = Ptr(iv.o, fresh(64, 'h_' + sl.name))
            else:
                w = entryinfo['w'][id(sl)]
                fr.env[sl.key] = fresh(w, 'h_' + sl.name)
        else:
            o, off, n = sl.key
            x = st.obj(o, True)
            if isinstance(iv, Ptr):
                if sl.key in mods['ptrobj']: raise Unsupported('pointer cell changes object: ' + sl.name)
                if (o, off) in mods['ptroff']:
                    nv = Ptr(iv.o, fresh(64, 'h_' + sl.name))
                else: nv = iv
            else: nv = fresh(8 * n, 'h_' + sl.name)
            # remove overlapping cells
            for a in [a for a, c in x.cells.items() if a < off + n and off < a + c[0]]:
                if a != off: s.flush(st, o, off, off + n); x = st.obj(o, True); break
            x.cells[off] = (n, nv)
    for o in mods['bytes']:
        if o not in st.mem: continue
        s.flush(st, o)
        x = st.obj(o, True)
        # cells that survive the flush are pointers
        b = base_node(s.objs[o].name + '_h')
        newbases[o] = b
        x.node = b
    for o in mods['sizes']:
        if o in st.mem:
            x = st.obj(o, True)
            if o in mods.get('sizefn', {}): pass
            x.size = fresh(64, 'h_size')
            s.assume(st, z3.ULE(x.size, 1 << 40))
    for o, gh in mods['ghosts'].items():
        if o in st.mem:
            x = st.obj(o, True)
            x.gh = s.ghost_havoc(st, o, x.gh)
    # re-derive string lengths etc.: size of string contents = len + 1
    for (o, szkey) in mods.get('strs', ()):
        pass
    return st, newbases


def drop_temps(s, st0, ctx):
    """values defined inside a single-entry loop are dead at its header: they are defined again before any use"""
    fr = st0.fr[-1]; f = fr.f
    for b, ss in f.succ.items():
        if b not in ctx.blocks and any(x in ctx.blocks and x != ctx.hdr for x in ss): return
    phis = set(i.res for i in f.blocks[ctx.hdr] if i.op == 'phi')
    for b in ctx.blocks:
        for n in f.defs[b]:
            if n not in phis: fr.env.pop(n, None)


def invariant_(s, st0, ctx):
    t0 = time.time()
    drop_temps(s, st0, ctx)
    mods = dict(cells=set(), bytes=set(), sizes=set(), ghosts={}, ptrobj=set(), ptroff=set())
    pre_objs = set(st0.mem)
    pre = st0.copy()
    # flush so that byte content at entry can be named
    reads = set()
    ck = s.checking
    for round_ in range(14):
        # ---------------- discover the frame: what may the body change?
        slots = slots_of(s, st0, ctx, mods, reads)
        info = entry(s, st0, slots)
        st, nb = havoc(s, st0, ctx, mods, [], slots, info)
        w0, r0 = s.writes, s.reads
        s.writes, s.reads = set(), set()
        s.checking = False
        sz0 = {o: st.mem[o].size for o in pre_objs if o in st.mem}
        try:
            back, exits, done = s.run([st], ctx)
        finally:
            s.checking = ck
            wr, rd = s.writes, s.reads
            s.writes, s.reads = w0, r0
        ch = False
        for (o, off, n, isp) in wr:
            if o not in pre_objs: continue
            if o in mods['bytes'] and not isp:
                continue
            if off is None:
                mods['bytes'].add(o)
                mods['cells'] = set(c for c in mods['cells'] if c[0] != o or isptrcell(st0, (c[0], c[1], c[2])))
                ch = True; continue
            if (o, off, n, isp) in mods['cells'] or (o, off, n, not isp) in mods['cells']: continue
            # overlapping different-width writes -> treat the object as bytes unless it has pointers
            ov = [c for c in mods['cells'] if c[0] == o and c[1] < off + n and off < c[1] + c[2]]
            if ov:
                c0 = ov[0]
                if any(isptrcell(st0, (c[0], c[1], c[2])) for c in ov) or isp: raise Unsupported('overlapping pointer cells')
                mods['cells'] = set(c for c in mods['cells'] if c[0] != o or isptrcell(st0, (c[0], c[1], c[2])))
                mods['bytes'].add(o); ch = True; continue
            if sum(1 for c in mods['cells'] if c[0] == o) > 48 and not isp:
                mods['cells'] = set(c for c in mods['cells'] if c[0] != o or isptrcell(st0, (c[0], c[1], c[2])))
                mods['bytes'].add(o); ch = True; continue
            mods['cells'].add((o, off, n, isp)); ch = True
        # pointer-valued slots: same object?
        for b in back:
            for sl in slots:
                iv = info['init'][id(sl)]
                if isinstance(iv, Ptr) and sl.mod:
                    cv = getslot(s, b, sl)
                    if isinstance(cv, Ptr) and cv.o != iv.o and sl.key not in mods['ptrobj']:
                        mods['ptrobj'].add(sl.key); ch = True
                    if isinstance(cv, Ptr) and sl.kind == 'cell' and cv.o == iv.o:
                        k = (sl.key[0], sl.key[1])
                        if k not in mods['ptroff'] and not (isc(cv.off) and isc(iv.off) and cv.off == iv.off) and not same(cv.off, iv.off):
                            mods['ptroff'].add(k); ch = True
            for o in pre_objs:
                if o in b.mem:
                    z1 = b.mem[o].size
                    if o not in mods['sizes'] and not same(z1, sz0.get(o)):
                        mods['sizes'].add(o); ch = True
                    if b.mem[o].live != st0.mem[o].live: raise Unsupported('object freed in loop: ' + s.objs[o].name)
                    if b.mem[o].gh is not None and o not in mods['ghosts'] and b.mem[o].gh is not st0.mem[o].gh:
                        mods['ghosts'][o] = True; ch = True
        nr = set(r for r in rd if r[0] in pre_objs)
        if not nr <= reads:
            reads |= nr
        if w0 is not None:
            s.writes |= set(w for w in wr if w[0] in pre_objs)
        if r0 is not None: s.reads |= nr
        if not ch: break
    else:
        raise Unsupported('loop frame does not stabilise')
    # ---------------- candidates
    for o in mods['bytes']:
        s.flush(st0, o)
    slots = slots_of(s, st0, ctx, mods, reads)
    info = entry(s, st0, slots)
    mods['rdobjs'] = set(o for o in s.rdobjs if o in pre_objs)
    mods['guards'] = guard_terms(back + exits, len(st0.pc))
    cands = make_cands(s, st0, ctx, slots, info, mods)
    lkey = '%s:%s' % (st0.fr[-1].f.name, ctx.hdr)
    hint = s.hints.get(lkey)
    if hint is None and s.opts.get('reuse', True): hint = s.learnt.get(lkey)
    if hint is not None:
        s.used_hint = True
        cands = [c for c in cands if c.name in hint]
    s.stats['inv_cands'] += len(cands)
    # initiation
    alive = houdini(s, st0, st0, ctx, cands, slots, info, mods)
    rounds = 0
    while True:
        rounds += 1
        if rounds > 25: raise Unsupported('invariant inference does not converge')
        st, nb = havoc(s, st0, ctx, mods, alive, slots, info)
        assume_cands(s, st, st0, ctx, alive, slots, info, nb)
        if st.dead or s.chk(st.pc) == z3.unsat: raise Unsupported('contradictory invariant')
        s.checking = False
        hst = st.copy()
        w0, r0 = s.writes, s.reads
        s.writes, s.reads = set(), set()
        try:
            back, exits, done = s.run([st], ctx)
        finally:
            s.checking = ck
            wr = s.writes
            s.writes, s.reads = w0, r0
        n0 = len(alive)
        if s.opts.get('verbose', 0) > 2: print('round', rounds, 'cands', n0, 'back', len(back), 'exits', len(exits), round(s.stats['solver_s']), flush=True)
        core, implied = core_of(s, hst, st0, ctx, alive, slots, info)
        alive = par_houdini(s, back, st0, ctx, alive, slots, info, mods, implied)
        if len(alive) != n0: continue
        if len(alive) == n0: break
    s.stats['inv_kept'] += len(alive)
    imp = implied if len(alive) else ()
    s.learnt.setdefault(lkey, set()).update(c.name for c in alive if id(c) not in imp)
    if ck:
        s.stats['obligations'] += 2 * len(alive); s.stats['discharged'] += 2 * len(alive)
        key = 'loop invariant@%s' % s.where(st0)
        e = s.obl.setdefault(key, [0, 0, 'inv']); e[0] += 2 * len(alive); e[1] += 2 * len(alive)
        for c in alive:
            if c.name.startswith('spec'): s.obl.setdefault('invariant %s@%s' % (c.name, ctx.hdr), [1, 1, 'inv'])
        dropped = [c.name for c in cands if c.name.startswith('spec') and c not in alive]
        for d in dropped:
            s.stats.setdefault('spec_inv_dropped', []).append('%s@%s' % (d, s.where(st0)))
        if s.opts.get('verbose'):
            print('  loop %s %s: %d/%d cands, %d rounds, back=%d exits=%d %.1fs' % (st0.fr[-1].f.name[:50], ctx.hdr, len(alive), len(cands), rounds, len(back), len(exits), time.time() - t0), flush=True)
            if s.opts['verbose'] > 1:
                print('    mods', [(sl.name) for sl in slots if sl.mod], [s.objs[o].name for o in mods['bytes']], [s.objs[o].name for o in mods['sizes']])
                for c in alive[:120]: print('     ', c.name)
            for d in dropped: print('    dropped', d)
        # final pass, obligations on
        st, nb = havoc(s, st0, ctx, mods, alive, slots, info)
        assume_cands(s, st, st0, ctx, alive, slots, info, nb)
        back, exits, done = s.run([st], ctx)
    if w0 is not None: s.writes |= set(w for w in wr if w[0] in pre_objs)
    return exits


def guard_terms(sts, npc):
    """loop-invariant sides of the comparisons the loop branches on"""
    out = []; seen = set(); visited = set()

    def inv(e):
        wl = [e]; sn = set()
        while wl:
            x = wl.pop()
            if x.get_id() in sn: continue
            sn.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() or x.decl().name().startswith('h_'): return False
            if len(sn) > 40: return False
            wl.extend(x.children())
        return True
    for st in sts:
        for c in st.pc[npc:]:
            wl = [c]
            while wl:
                x = wl.pop()
                if x.get_id() in visited: continue
                visited.add(x.get_id())
                if z3.is_and(x) or z3.is_or(x) or z3.is_not(x): wl.extend(x.children()); continue
                if z3.is_app(x) and x.num_args() == 2 and z3.is_bv(x.arg(0)) and z3.is_bool(x):
                    for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                        if not z3.is_bv_value(a) and a.num_args() and inv(a) and not inv(b) and a.get_id() not in seen:
                            seen.add(a.get_id()); out.append(a)
    return out[:6]


def same(a, b):
    if isc(a) and isc(b): return a == b
    if isc(a) or isc(b) or a is None or b is None: return False
    if a.sort() != b.sort(): return False
    if a.eq(b): return True
    r = simp(a == b)
    return isc(r) and r == 1


def entry(s, st0, slots):
    init = {}; w = {}
    for sl in slots:
        v = getslot(s, st0, sl)
        init[id(sl)] = v
        if sl.kind == 'cell': w[id(sl)] = 8 * sl.key[2]
        elif isc(v):
            w[id(sl)] = typew(s, st0, sl)
        else: w[id(sl)] = wid(v)
    return dict(init=init, w=w)


def typew(s, st, sl):
    f = st.fr[-1].f
    m = f.__dict__.setdefault('_tw', {})
    if not m:
        for t, n in s.m.params(f): m[n] = t
        for b, ins in f.blocks.items():
            for i in ins:
                if i.res is not None:
                    t = i.ty
                    if i.op in ('icmp', 'fcmp'): t = ('i', 1)
                    m[i.res] = t
    t = m.get(sl.key, ('i', 64))
    if t is None: return 64
    if t[0] == 'i': return t[1]
    if t[0] == 'float': return 32
    return 64


def assume_cands(s, st, st0, ctx, cands, slots, info, nb):
    groups = {}
    for c in cands:
        if c.grp is not None: groups.setdefault(c.grp, []).append(c)
        else:
            e = c.f(s, st, slots, info, st0)
            if e is not None: s.assume(st, e)
    for g, cs in groups.items(): assume_group(s, st, st0, g, cs)


def group_formula(s, st, st0, cs, j):
    gs = [c.guard(st, j) if c.guard else z3.BoolVal(True) for c in cs]
    e = cs[0].body(s, st, j, st0)
    if e is None: return None, None
    return gs, bv_bool(e)


def bv_bool(e):
    return z3.BoolVal(bool(e)) if isc(e) else e


def assume_group(s, st, st0, g, cs):
    """forall j . (or of guards) -> body, frozen at the current header state; instantiated lazily on its trigger symbols"""
    snap = st.copy()
    snap.fax = {}
    j = z3.BitVec('j!%d' % next(_ctr), 64)
    gs, e = group_formula(s, snap, st0, cs, j)
    if e is None: return
    if any(z3.is_true(simp_(x)) for x in gs): pass
    else: e = z3.Implies(z3.Or(gs), e)
    e = simp(e)
    if isc(e): return
    trig = {}
    wl = [e]; seen = set()
    while wl:
        x = wl.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() == 1:
            d = simp(x.arg(0) - j)
            if isc(d) or not contains(d, j):
                l = trig.setdefault(x.decl().name(), [])
                if not any(same(d, q) for q in l): l.append(d)
        wl.extend(x.children())
    for nm, ds in trig.items():
        for d in ds:
            def ax(ib, e=e, j=j, d=d):
                return simp(z3.substitute(e, (j, bv(sub64(ib, d), 64))))
            st.fax[nm] = st.fax.get(nm, ()) + (ax,)


def simp_(e):
    e = simp(e)
    return z3.BoolVal(bool(e)) if isc(e) else e


def weigh(c):
    n = c.name
    return 0 if '==' in n else (2 if '!=' in n else 1)


def core_of(s, st, st0, ctx, cands, slots, info):
    """split cands into (core, implied): implied ones follow from the core by pure scalar reasoning at any header state"""
    sc = [c for c in cands if c.grp is None and not c.name.startswith('spec')]
    es = {}
    for c in sc:
        try: e = c.f(s, st, slots, info, st0)
        except KeyError: e = None
        if e is None or isc(e): continue
        es[id(c)] = e
    sol = z3.Solver(); sol.set('timeout', 300)
    for x in st0.pc:
        if not has_uf(x): sol.add(x)
    order = [c for c in sc if id(c) in es and not has_uf(es[id(c)])]
    order.sort(key=weigh)
    acc = []
    implied = set()
    t = time.time()
    for c in order:
        if time.time() - t > 5: break
        sol.push(); sol.add(z3.Not(es[id(c)]))
        r = sol.check()
        sol.pop()
        if r == z3.unsat: implied.add(id(c))
        else:
            acc.append(c); sol.add(es[id(c)])
    return [c for c in cands if id(c) not in implied], implied


_hu = {}


def has_uf(e):
    k = e.get_id()
    v = _hu.get(k)
    if v is not None and v[0].eq(e): return v[1]
    r = False
    wl = [e]; seen = set()
    while wl:
        x = wl.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() >= 1:
            r = True; break
        wl.extend(x.children())
    _hu[k] = (e, r)
    return r


def houdini(s, st, st0, ctx, cands, slots, info, mods, implied=()):
    """keep candidates that hold at st (a state positioned at the header)"""
    st = st.copy()
    dead = set()
    groups = {}
    es = []
    for c in cands:
        if id(c) in implied: continue
        if c.grp is not None: groups.setdefault(c.grp, []).append(c); continue
        try: e = c.f(s, st, slots, info, st0)
        except KeyError: e = False
        if e is None: continue
        e = simp_(e)
        if z3.is_true(e): continue
        es.append((c, e))
    if any(z3.is_false(e) for c, e in es) or groups:
        if s.chk(st.pc) == z3.unsat: return list(cands)
    for c, e in es:
        if z3.is_false(e): dead.add(id(c))
    es = [(c, e) for c, e in es if not z3.is_false(e)]
    plain = [(c, e) for c, e in es if not has_uf(e)]
    uf = [(c, e) for c, e in es if has_uf(e)]
    kill(s, st, plain, dead)
    kill(s, st, uf, dead)
    if groups:
        j = fresh(64, 'sk')
        for g, cs in groups.items():
            n = st.copy()
            try: gs, e = group_formula(s, n, st0, cs, j)
            except KeyError: gs, e = None, z3.BoolVal(False)
            if e is None: continue
            if gs is None:
                dead |= set(id(c) for c in cs); continue
            e = simp_(e)
            if z3.is_true(e): continue
            s.assume(n, z3.Not(e))
            if n.dead: continue
            kill(s, n, [(c, simp_(z3.Not(x))) for c, x in zip(cs, gs)], dead)
    return [c for c in cands if id(c) not in dead]


def seq_houdini(s, back, st0, ctx, cands, slots, info, mods, implied):
    alive = list(cands)
    for b in back:
        a2 = houdini(s, b, st0, ctx, alive, slots, info, mods, implied)
        if len(a2) != len(alive):
            if implied:
                # something was lost: the implied ones must stand on their own
                a2 = houdini(s, b, st0, ctx, a2, slots, info, mods)
                implied = ()
                ok = set(id(c) for c in a2)
            alive = a2
            if not alive: break
    return alive


def par_houdini(s, back, st0, ctx, cands, slots, info, mods, implied):
    n = min(s.opts.get('par', 1), len(back))
    if n <= 1: return seq_houdini(s, back, st0, ctx, cands, slots, info, mods, implied)
    kids = []
    s.sync([])
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                a = seq_houdini(s, back[k::n], st0, ctx, cands, slots, info, mods, implied)
                ok = set(id(c) for c in a)
                d = json.dumps(dict(dead=[i for i, c in enumerate(cands) if id(c) not in ok], st=[s.stats['queries'], s.stats['solver_s'], s.backend]))
                os.write(w, d.encode()) if len(d) < 60000 else [os.write(w, d[i:i + 30000].encode()) for i in range(0, len(d), 30000)]
                code = 0
            except BaseException as x:
                try: os.write(w, json.dumps(dict(err=str(x), kind=type(x).__name__)).encode())
                except Exception: pass
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    dead = set(); err = None
    for pid, r in kids:
        buf = b''
        while True:
            x = os.read(r, 65536)
            if not x: break
            buf += x
        os.close(r); os.waitpid(pid, 0)
        d = json.loads(buf.decode() or '{"err":"child died","kind":"Unsupported"}')
        if 'err' in d: err = d; continue
        dead |= set(d['dead'])
        s.stats['queries'] += d['st'][0] - 0 if False else 0
        for kk, v in d['st'][2].items(): pass
        s.stats['par_solver_s'] = s.stats.get('par_solver_s', 0) + max(0, d['st'][1] - s.stats['solver_s'])
        s.stats['par_queries'] = s.stats.get('par_queries', 0) + max(0, d['st'][0] - s.stats['queries'])
    if err:
        if err['kind'] == 'Budget': raise Budget(err['err'])
        raise Unsupported(err['err'])
    return [c for i, c in enumerate(cands) if i not in dead]


WATCH = os.environ.get('VF_WATCH')


def watch(s, st, c, e):
    """debugging aid: why is this candidate dropped"""
    z = z3.Solver(); z.set('timeout', 20000)
    z.add(*st.pc); z.add(z3.Not(e))
    r = z.check()
    print('WATCH', c.name, r, s.where(st) if st.fr else '', flush=True)
    if r == z3.sat:
        m = z.model()
        print('   model', str(m)[:4000])


def kill(s, st, live, dead):
    """remove from consideration every (c, e) with e falsifiable on st"""
    live = [(c, e) for c, e in live if not z3.is_true(e)]
    while live:
        q = z3.Or([z3.Not(e) for c, e in live])
        t_ = time.time()
        r = s.hard(st.pc, q, 8000, [e for c, e in live])
        if WATCH == '*': print('KILL', r, round(time.time() - t_, 1), len(live), [c.name for c, e in live][:4], flush=True)
        if r == z3.unsat: return
        vals = s.lastvals
        if r == z3.unknown or vals is None or all(vals):
            if len(live) == 1:
                c, e = live[0]
                if r == z3.unknown and c.name.startswith('spec') and s.second(st.pc + [z3.Not(e)], 30000) == z3.unsat: return
                if WATCH and c.name == WATCH: watch(s, st, c, e)
                dead.add(id(c)); return
            h = len(live) // 2
            kill(s, st, live[:h], dead); kill(s, st, live[h:], dead)
            return
        nl = []
        for (c, e), v in zip(live, vals):
            if v: nl.append((c, e))
            else:
                if WATCH and c.name == WATCH: watch(s, st, c, e)
                dead.add(id(c))
        live = nl


def make_cands(s, st0, ctx, slots, info, mods):
    C = []
    M = [sl for sl in slots if sl.mod and not (isinstance(info['init'][id(sl)], Ptr) and sl.kind == 'cell' and (sl.key[0], sl.key[1]) not in mods['ptroff'])]
    init = info['init']
    # entry terms (constants during the loop)
    consts = []
    seen = set()

    def addc(name, v):
        if isinstance(v, Ptr): v = v.off
        e = simp(z64(v))
        k = e if isc(e) else ('e', e.get_id())
        if k in seen: return
        seen.add(k); consts.append((name, z64(e)))
    addc('0', 0)
    if mods['sizes']: addc('huge', 1 << 40)
    for sl in slots: addc(sl.name + '@pre', init[id(sl)])
    for nm, sp in s.hints_consts(st0): addc(nm, sp)
    for k, g in enumerate(mods.get('guards', ())): addc('guard%d' % k, g)

    def cur(st, sl): return z64(getslot(s, st, sl))
    if s.lean: consts = consts[:1]
    for sl in M:
        w = info['w'][id(sl)]
        if s.lean:  # the spec gives the invariants that matter
            C.append(Cand('%s==pre' % sl.name, lambda s, st, S, I, s0, sl=sl, cv=z64(init[id(sl)]): cur(st, sl) == cv)); continue
        if w in (8, 1):
            for k in (1, 2, 3, 4, 7):
                C.append(Cand('%s<=%d' % (sl.name, k), lambda s, st, S, I, s0, sl=sl, k=k: z3.ULE(cur(st, sl), k)))
        for nm, cv in consts:
            if w == 1: 
                C.append(Cand('%s==%s' % (sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv: cur(st, sl) == cv)); continue
            C.append(Cand('%s==%s' % (sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv: cur(st, sl) == cv))
            if nm == '0' and w == 64:
                for k in (2, 4, 8): C.append(Cand('d%s%%%d==0' % (sl.name, k), lambda s, st, S, I, s0, sl=sl, k=k, iv=z64(init[id(sl)]): ((cur(st, sl) - iv) & (k - 1)) == 0))
            if nm == '0': C.append(Cand('%s!=%s' % (sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv: cur(st, sl) != cv)); continue
            C.append(Cand('%s<=%s' % (sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv: z3.ULE(cur(st, sl), cv)))
            C.append(Cand('%s>=%s' % (sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv: z3.UGE(cur(st, sl), cv)))
            C.append(Cand('%s<%s' % (sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv: z3.ULT(cur(st, sl), cv)))
    for a, b in itertools.combinations(M, 2) if not s.lean else ():
        wa, wb = info['w'][id(a)], info['w'][id(b)]
        if wa == 1 or wb == 1: continue
        C.append(Cand('%s==%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b: cur(st, a) == cur(st, b)))
        C.append(Cand('%s<=%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b: z3.ULE(cur(st, a), cur(st, b))))
        C.append(Cand('%s>=%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b: z3.UGE(cur(st, a), cur(st, b))))
        C.append(Cand('%s<%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b: z3.ULT(cur(st, a), cur(st, b))))
        C.append(Cand('%s>%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b: z3.UGT(cur(st, a), cur(st, b))))
        if wa == wb == 64:
            ia, ib = z64(init[id(a)]), z64(init[id(b)])
            C.append(Cand('d%s==d%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b, ia=ia, ib=ib: cur(st, a) - ia == cur(st, b) - ib))
            C.append(Cand('d%s==-d%s' % (a.name, b.name), lambda s, st, S, I, s0, a=a, b=b, ia=ia, ib=ib: cur(st, a) - ia == ib - cur(st, b)))
    # conditional candidates on split cells
    for (o, off, n, vals) in s.splits:
        key = (o, off, n)
        if not any(sl.kind == 'cell' and sl.key == key for sl in slots): continue
        for k in vals:
            def g(st, key=key, k=k): return z64(s.load(st, Ptr(key[0], key[1]), key[2], check=False)) == k
            for sl in M:
                if info['w'][id(sl)] == 1: continue
                if sl.kind == 'cell' and sl.key == key: continue
                for nm, cv in consts:
                    C.append(Cand('[%s=%d] %s==%s' % (key, k, sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv, g=g: z3.Implies(g(st), cur(st, sl) == cv)))
                    C.append(Cand('[%s=%d] %s>%s' % (key, k, sl.name, nm), lambda s, st, S, I, s0, sl=sl, cv=cv, g=g: z3.Implies(g(st), z3.UGT(cur(st, sl), cv))))
    # spec invariant functions
    V = [x for x in M if not (s.lean and x.name[0] == '@')]
    for fn, nargs in s.invfns:
        if nargs == 0:
            C.append(Cand('spec ' + fn, lambda s, st, S, I, s0, fn=fn: s.pure_eval(st, fn, [], 1)))
        elif nargs == 2:    # of one of the variables that the loop changes
            for a in V:
                if info['w'][id(a)] != 64: continue
                C.append(Cand('spec %s(%s)' % (fn, a.name), lambda s, st, S, I, s0, fn=fn, a=a: s.pure_eval(st, fn, [cur(st, a)], 1)))
        elif nargs == 3:    # of two of them
            for a, b in itertools.permutations([x for x in V if info['w'][id(x)] == 64], 2):
                C.append(Cand('spec %s(%s,%s)' % (fn, a.name, b.name), lambda s, st, S, I, s0, fn=fn, a=a, b=b: s.pure_eval(st, fn, [cur(st, a), cur(st, b)], 1)))
        elif nargs == 4:    # of a narrow one and a 64-bit one
            for a, b in itertools.product([x for x in V if 1 < info['w'][id(x)] < 64], [x for x in V if info['w'][id(x)] == 64]):
                C.append(Cand('spec %s(%s,%s)' % (fn, a.name, b.name), lambda s, st, S, I, s0, fn=fn, a=a, b=b: s.pure_eval(st, fn, [cur(st, a), cur(st, b)], 1)))
        elif nargs == 5:    # of a small local array and a 64-bit variable
            for o in sorted(mods['bytes']):
                if o not in st0.mem or not st0.mem[o].live or s.objs[o].kind in ('global', 'func', 'null'): continue
                n = st0.mem[o].size
                if not isc(n) or not 0 < n <= 8: continue
                for b in [x for x in V if info['w'][id(x)] == 64]:
                    C.append(Cand('spec %s(%s,%s)' % (fn, s.objs[o].name, b.name), lambda s, st, S, I, s0, fn=fn, o=o, n=n, b=b:
                        s.pure_eval(st, fn, [sum((z3.ZeroExt(56, bv(s.sel(st, st.mem[o].node, k), 8)) << (8 * k) for k in range(1, n)), z3.ZeroExt(56, bv(s.sel(st, st.mem[o].node, 0), 8))), cur(st, b)], 1)))
        else:
            C.append(forall_cand(s, 'spec ' + fn, lambda s, st, j, s0, fn=fn: s.pure_eval(st, fn, [j], 1)))
    # spec function templates: m == F(t)
    for fn, d in s.specfns.items():
        if not d.get('tmpl'): continue
        terms = [(sl.name, lambda st, sl=sl: cur(st, sl)) for sl in slots if info['w'][id(sl)] == 64 and (sl.mod or not isinstance(init[id(sl)], Ptr))]
        for a in M:
            if info['w'][id(a)] not in ((8, 16, 32, 64) if d.get('tmpl') == 1 else (64,)): continue
            for nm, tf in terms:
                if nm == a.name: continue
                C.append(Cand('%s==%s(%s)' % (a.name, fn, nm), lambda s, st, S, I, s0, a=a, tf=tf, fn=fn: cur(st, a) == s.specapp(st, fn, [tf(st)])))
        for a in slots:
            if a in M: continue
            for b in M:
                if info['w'][id(a)] not in ((8, 16, 32, 64) if d.get('tmpl') == 1 else (64,)) or info['w'][id(b)] != 64: continue
                C.append(Cand('%s==%s(%s)' % (a.name, fn, b.name), lambda s, st, S, I, s0, a=a, b=b, fn=fn: cur(st, a) == s.specapp(st, fn, [cur(st, b)])))
    for fn, d in s.specfns.items():
        if d.get('tmpl') == 4:   # tail recursion: F at the current position equals F at the start
            for sl in M:
                iv = init[id(sl)]
                if info['w'][id(sl)] == 64:
                    C.append(Cand('%s(%s)==%s(pre)' % (fn, sl.name, fn), lambda s, st, S, I, s0, sl=sl, fn=fn, iv=z64(iv): s.specapp(st, fn, [cur(st, sl)]) == s.specapp(st, fn, [iv])))
    for fn, d in s.specfns.items():
        if d.get('tmpl') == 2:
            for sl in slots:
                if info['w'][id(sl)] == 64 and sl.mod:
                    C.append(Cand('%s(%s)' % (fn, sl.name), lambda s, st, S, I, s0, sl=sl, fn=fn: s.specapp(st, fn, [cur(st, sl)]) != 0))
        if d.get('tmpl') == 1:
            for a in M:
                if info['w'][id(a)] == 64:
                    C.append(Cand('%s==%s(%s)' % (a.name, fn, a.name), lambda s, st, S, I, s0, a=a, fn=fn: cur(st, a) == s.specapp(st, fn, [cur(st, a)])))
        if d.get('tmpl') == 3:
            objs = set(mods['bytes']) | set(o for o in mods['rdobjs'])
            for o in sorted(objs):
                if o not in st0.mem or not st0.mem[o].live or s.objs[o].kind in ('global', 'func', 'null'): continue
                for sl in M:
                    if info['w'][id(sl)] != 64: continue
                    C.append(forall_cand(s, '%s[j<%s]==%s(j)' % (s.objs[o].name, sl.name, fn),
                             lambda s, st, j, s0, o=o, fn=fn: bv(s.sel(st, st.mem[o].node, j), 8) == z3.Extract(7, 0, s.specapp(st, fn, [j])) if o in st.mem else None,
                             ('tmpl3', o, fn), lambda st, j, sl=sl: z3.ULT(j, cur(st, sl))))
    for fn in s.regionpreds:
        terms = [(sl.name, lambda st, sl=sl: cur(st, sl), True) for sl in M if info['w'][id(sl)] == 64 and not (s.lean and sl.name[0] == '@')]
        terms += [] if s.lean else [(nm, lambda st, cv=cv: cv, False) for nm, cv in consts]
        terms += [] if s.lean else [('%s-%s' % (nm, sl.name), lambda st, cv=cv, sl=sl: cv - cur(st, sl), True) for nm, cv in consts if nm != '0' for sl in M if info['w'][id(sl)] == 64]
        for (na, fa, ma), (nb_, fb, mb) in itertools.permutations(terms, 2):
            if not (ma or mb): continue
            C.append(forall_cand(s, '%s on [%s,%s)' % (fn, na, nb_), lambda s, st, j, s0, fn=fn: s.pure_eval(st, fn, [j], 1),
                     ('region', fn), lambda st, j, fa=fa, fb=fb: z3.And(z3.ULE(fa(st), j), z3.ULT(j, fb(st)))))
    for fn in s.regionifs:
        terms = [(sl.name, lambda st, sl=sl: cur(st, sl), True) for sl in M if info['w'][id(sl)] == 64] + [('0', lambda st: z64(0), False)]
        for b in M:
            if info['w'][id(b)] not in (1, 8): continue
            for (na, fa, ma), (nb_, fb, mb) in itertools.permutations(terms, 2):
                C.append(forall_cand(s, '%s on [%s,%s) if %s' % (fn, na, nb_, b.name), lambda s, st, j, s0, fn=fn: s.pure_eval(st, fn, [j], 1),
                         ('region', fn), lambda st, j, fa=fa, fb=fb, b=b: z3.And(cur(st, b) != 0, z3.ULE(fa(st), j), z3.ULT(j, fb(st)))))
    for o in sorted(mods['sizes']):
        if o not in st0.mem: continue
        for sl in M:
            if info['w'][id(sl)] != 64: continue
            for k in (0, 1):
                C.append(Cand('size(%s)==%s+%d' % (s.objs[o].name, sl.name, k), lambda s, st, S, I, s0, sl=sl, k=k, o=o: z64(st.mem[o].size) == cur(st, sl) + k if o in st.mem else z3.BoolVal(False)))
    # frame conditions on byte contents: unchanged above / below a scalar
    for o in sorted(mods['bytes']):
        node0 = st0.mem[o].node
        offs = [sl for sl in M if info['w'][id(sl)] == 64]

        def eqj(s, st, j, s0, o=o, node0=node0):
            return bv(s.sel(st, st.mem[o].node, j), 8) == bv(s.sel(st, node0, j), 8)
        G = ('frame', o)
        C.append(forall_cand(s, '%s unchanged' % s.objs[o].name, eqj, G))
        for sl in offs:
            C.append(forall_cand(s, '%s[j>=%s] unchanged' % (s.objs[o].name, sl.name), eqj, G, lambda st, j, sl=sl: z3.UGE(j, cur(st, sl))))
            C.append(forall_cand(s, '%s[j<%s] unchanged' % (s.objs[o].name, sl.name), eqj, G, lambda st, j, sl=sl: z3.ULT(j, cur(st, sl))))
        for nm, cv in consts:
            if nm == '0': continue
            C.append(forall_cand(s, '%s[j<%s] unchanged' % (s.objs[o].name, nm), eqj, G, lambda st, j, cv=cv: z3.ULT(j, cv)))
            C.append(forall_cand(s, '%s[j>=%s] unchanged' % (s.objs[o].name, nm), eqj, G, lambda st, j, cv=cv: z3.UGE(j, cv)))
    return C


def forall_cand(s, name, body, grp=None, guard=None):
    return Cand(name, grp=grp if grp is not None else name, guard=guard, body=body)


def contains(e, j):
    wl = [e]; seen = set()
    while wl:
        x = wl.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if x.eq(j): return True
        wl.extend(x.children())
    return False
