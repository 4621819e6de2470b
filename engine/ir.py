"""Parser for textual LLVM 18 IR (opaque pointers).  Function bodies are parsed lazily."""
import re, subprocess, functools

TOK = re.compile(r'''
 (?P<lv>%"(?:[^"\\]|\\.)*"|%[\w.$-]+)
|(?P<gv>@"(?:[^"\\]|\\.)*"|@[\w.$-]+)
|(?P<cs>c"(?:[^"\\]|\\.)*")
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<num>-?0x[KMLHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+(?![\w]))
|(?P<md>![\w.]*)
|(?P<attr>\#\d+)
|(?P<id>[A-Za-z_$][\w.$-]*:?|\.\.\.)
|(?P<p>[()\[\]{}<>,=*|:])
|(?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tokenize: %r' % s[i:i + 80])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg returned
 immarg dso_local dso_preemptable unnamed_addr local_unnamed_addr internal linkonce_odr weak_odr external private
 available_externally linkonce weak common appending extern_weak hidden protected default constant global
 nofree nounwind nosync willreturn mustprogress noreturn noinline alwaysinline fastcc ccc coldcc tail musttail notail
 nsw nuw exact inbounds volatile fast nnan ninf nsz arcp contract afn reassoc disjoint nneg inrange thread_local swiftself
 noalias nest allocptr allocalign dead_on_unwind writable cold'''.split())


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'x')

    def __init__(s, op, res, ty, a, line=0, x=None):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.line = line; s.x = x

    def __repr__(s):
        return '%s = %s %s %s' % (s.res, s.op, s.ty, s.a)


class P:
    """token cursor"""
    def __init__(s, toks, mod):
        s.t = toks; s.i = 0; s.mod = mod

    def peek(s, k=0):
        return s.t[s.i + k][1] if s.i + k < len(s.t) else None

    def kind(s, k=0):
        return s.t[s.i + k][0] if s.i + k < len(s.t) else None

    def next(s):
        v = s.t[s.i][1]; s.i += 1; return v

    def acc(s, v):
        if s.peek() == v:
            s.i += 1; return True
        return False

    def exp(s, v):
        if not s.acc(v):
            raise SyntaxError('expected %r got %r in %r' % (v, s.peek(), ' '.join(x[1] for x in s.t)[:300]))

    def skip_attrs(s):
        while True:
            p = s.peek()
            if p in ATTRS:
                s.i += 1
                if s.peek() == '(' and p in ('thread_local',):
                    s.paren()
                continue
            if p in ('align', 'allocsize', 'vscale_range', 'addrspace'):
                s.i += 1
                if s.peek() == '(': s.paren()
                else: s.i += 1
                continue
            if p in ('dereferenceable', 'dereferenceable_or_null', 'memory', 'sret', 'byval', 'byref', 'inalloca',
                     'elementtype', 'captures', 'range', 'initializes', 'nofpclass', 'preallocated'):
                s.i += 1
                s.paren(); continue
            if s.kind() == 'attr' or s.kind() == 'str':
                s.i += 1; continue
            break

    def paren(s):
        s.exp('(')
        d = 1
        while d:
            v = s.next()
            if v == '(': d += 1
            elif v == ')': d -= 1

    # ---- types
    def type(s):
        k = s.kind(); v = s.next()
        if v == 'ptr':
            t = ('ptr',)
            if s.peek() == 'addrspace':
                s.i += 1; s.paren()
        elif v == 'void': t = ('void',)
        elif re.match(r'^i\d+$', v): t = ('i', int(v[1:]))
        elif v in ('float', 'double', 'half', 'x86_fp80', 'fp128'): t = (v,)
        elif v in ('label', 'metadata', 'token', 'opaque'): t = (v,)
        elif k == 'lv': t = ('named', v[1:].strip('"'))
        elif v == '[':
            n = int(s.next()); s.exp('x'); e = s.type(); s.exp(']'); t = ('array', n, e)
        elif v == '<':
            if s.peek() == '{':
                s.next(); t = s.struct(); s.exp('>'); t = ('struct', t[1], True)
            else:
                if s.acc('vscale'): s.exp('x')
                n = int(s.next()); s.exp('x'); e = s.type(); s.exp('>'); t = ('vec', n, e)
        elif v == '{':
            t = s.struct()
        else:
            raise SyntaxError('type %r in %r' % (v, ' '.join(x[1] for x in s.t)[:200]))
        while s.peek() == '(' and t[0] != 'label' and s._looks_fn():
            # function type
            args = []
            s.next(); va = False
            while not s.acc(')'):
                if s.acc('...'): va = True
                else:
                    args.append(s.type()); s.skip_attrs()
                s.acc(',')
            t = ('func', t, tuple(args), va)
        return t

    def _looks_fn(s):
        # only after a return type in call: "call i32 (ptr, ...) @f("
        j = s.i; d = 0
        n = len(s.t)
        while j < n:
            v = s.t[j][1]
            if v == '(': d += 1
            elif v == ')':
                d -= 1
                if d == 0: break
            j += 1
        return j + 1 < n and s.t[j + 1][0] in ('gv', 'lv') and s.t[s.i + 1][1] in \
            (')', 'ptr', '...', 'float', 'double', 'metadata') or \
            (j + 1 < n and s.t[j + 1][0] in ('gv', 'lv') and re.match(r'^(i\d+|%.*|\{|\[)$', s.t[s.i + 1][1] or ''))

    def struct(s):
        fs = []
        while not s.acc('}'):
            fs.append(s.type()); s.acc(',')
        return ('struct', tuple(fs), False)

    # ---- values
    def value(s, ty):
        k = s.kind(); v = s.next()
        if k == 'lv': return ('l', v[1:].strip('"'))
        if k == 'gv': return ('g', v[1:].strip('"'))
        if k == 'num':
            if ty[0] == 'i': return ('c', int(v) & ((1 << ty[1]) - 1), ty[1])
            if ty[0] in ('float', 'double', 'half', 'x86_fp80'):
                return ('f', v)
            if ty[0] == 'ptr': return ('c', int(v), 64)
        if v == 'true': return ('c', 1, 1)
        if v == 'false': return ('c', 0, 1)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if k == 'cs':
            return ('bytes', unescape(v[2:-1]))
        if v == '[' or v == '{' or v == '<':
            packed = False
            if v == '<' and s.peek() == '{':
                s.next(); packed = True; close = '}'
            else:
                close = {'[': ']', '{': '}', '<': '>'}[v]
            el = []
            while not s.acc(close):
                t = s.type(); el.append((t, s.value(t))); s.acc(',')
            if packed: s.exp('>')
            return ('agg', el)
        if v in ('getelementptr',):
            s.skip_attrs(); s.exp('(')
            t = s.type(); s.exp(',')
            ops = []
            while True:
                s.skip_attrs()
                ot = s.type(); s.skip_attrs(); ops.append((ot, s.value(ot)))
                if s.acc(')'): break
                s.exp(',')
            return ('gep', t, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            s.exp('('); t = s.type(); x = s.value(t); s.exp('to'); t2 = s.type(); s.exp(')')
            return ('cast', v, t, x, t2)
        if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'lshr', 'ashr'):
            s.skip_attrs(); s.exp('('); t = s.type(); a = s.value(t); s.exp(','); t2 = s.type(); b = s.value(t2); s.exp(')')
            return ('bin', v, t, a, b)
        if v == 'blockaddress':
            s.paren(); return ('undef',)
        if v == 'dso_local_equivalent' or v == 'no_cfi':
            return s.value(ty)
        raise SyntaxError('value %r in %r' % (v, ' '.join(x[1] for x in s.t)[:300]))

    def tv(s):
        t = s.type(); s.skip_attrs(); return t, s.value(t)


def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


class Func:
    def __init__(s, name, ret, params, lines, mod):
        s.name = name; s.ret = ret; s.params = params; s.lines = lines; s.mod = mod
        s._parsed = False

    @property
    def defined(s): return s.lines is not None

    def parse(s):
        if s._parsed: return
        s._parsed = True
        s.blocks = {}
        s.entry = None
        cur = None
        acc = None
        for ln in s.lines:
            st = ln.strip()
            if not st or st.startswith(';'): continue
            if acc is not None:
                acc += ' ' + st
                if st.startswith(']') or (accmode == 'lp' and False):
                    s._ins(cur, acc); acc = None
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):', ln)
            if m and not ln.startswith(' '):
                name = m.group(1).strip('"')
                cur = s.blocks[name] = []
                if s.entry is None: s.entry = name
                continue
            if cur is None:
                cur = s.blocks['0'] = []; s.entry = '0'
            if st.startswith('switch ') and st.endswith('['):
                acc = st; accmode = 'sw'; continue
            if (st.startswith('catch ') or st.startswith('cleanup') or st.startswith('filter ')):
                continue
            if st.startswith('to label') or st.startswith('to '):
                # continuation of invoke
                cur[-1] = cur[-1] + ' ' + st
                continue
            cur.append(st)
        # second phase: parse strings
        for b, l in s.blocks.items():
            out = []
            for x in l:
                if isinstance(x, Ins): out.append(x)
                else: out.append(parse_ins(x, s.mod))
            s.blocks[b] = out
        s._cfg()

    def _ins(s, cur, text):
        cur.append(text)

    def _cfg(s):
        s.succ = {}
        for b, ins in s.blocks.items():
            t = ins[-1]
            if t.op == 'br': s.succ[b] = [x for x in t.a[1:]]
            elif t.op == 'switch': s.succ[b] = [t.a[2]] + [c[1] for c in t.a[3]]
            elif t.op == 'invoke': s.succ[b] = [t.x[0]]
            else: s.succ[b] = []
        s.loops = find_loops(s.entry, s.succ)   # header -> frozenset(blocks)
        # uses per block
        s.uses = {}
        s.defs = {}
        for b, ins in s.blocks.items():
            u = set(); d = set()
            for i in ins:
                for v in operands(i): u.add(v)
                if i.res is not None: d.add(i.res)
            s.uses[b] = u; s.defs[b] = d


def operands(i):
    out = []

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'l' and isinstance(x[1], str): out.append(x[1])
            else:
                for y in x: w(y)
        elif isinstance(x, list):
            for y in x: w(y)
    w(i.a)
    return out


def sccs(nodes, succ):
    idx = {}; low = {}; st = []; on = set(); out = []; c = [0]
    for root in nodes:
        if root in idx: continue
        work = [(root, iter([x for x in succ[root] if x in nodes]))]
        idx[root] = low[root] = c[0]; c[0] += 1; st.append(root); on.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); on.add(w)
                    work.append((w, iter([x for x in succ[w] if x in nodes]))); adv = True; break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            if adv: continue
            work.pop()
            if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = set()
                while True:
                    w = st.pop(); on.discard(w); comp.add(w)
                    if w == v: break
                out.append(comp)
    return out


def find_loops(entry, succ):
    """cut points: header -> loop block set (nested; recursive SCC decomposition)."""
    reach = set([entry]); wl = [entry]
    while wl:
        b = wl.pop()
        for x in succ[b]:
            if x not in reach: reach.add(x); wl.append(x)
    pred = {b: [] for b in reach}
    for b in reach:
        for x in succ[b]: pred[x].append(b)
    res = {}

    def cyc(comp):
        return len(comp) > 1 or any(x in succ[x] for x in comp)

    def rec(nodes, entries0):
        for comp in sccs(nodes, succ):
            if not cyc(comp): continue
            ents = [b for b in comp if any(p not in comp for p in pred[b]) or b == entry]
            if len(ents) == 1:
                h = ents[0]
            else:
                h = None
                for c in sorted(comp):
                    rest = comp - {c}
                    if not any(cyc(k) for k in sccs(rest, succ)):
                        h = c; break
                if h is None: h = ents[0]
            res[h] = frozenset(comp)
            rec(comp - {h}, None)
    rec(reach, None)
    return res


def strip_md(st):
    dbg = 0
    m = re.search(r', !dbg !(\d+)', st)
    if m: dbg = int(m.group(1))
    st = re.sub(r',\s*!(?!dbg\b)[a-zA-Z_][\w.]*\s+!\d+', '', st)
    st = re.sub(r',\s*!dbg !\d+', '', st)
    return st, dbg


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr bitcast addrspacecast'.split())


def parse_ins(st, mod):
    st, dbg = strip_md(st)
    p = P(tokenize(st), mod)
    res = None
    if p.kind() == 'lv' and p.peek(1) == '=':
        res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        p.skip_attrs(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins(op, res, t, (a, b), dbg)
    if op in CAST:
        p.skip_attrs(); t = p.type(); a = p.value(t); p.exp('to'); t2 = p.type()
        return Ins(op, res, t2, (a,), dbg, t)
    if op in ('icmp', 'fcmp'):
        p.skip_attrs(); pr = p.next(); t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Ins(op, res, t, (a, b), dbg, pr)
    if op == 'fneg':
        p.skip_attrs(); t = p.type(); a = p.value(t)
        return Ins(op, res, t, (a,), dbg)
    if op == 'freeze':
        t = p.type(); return Ins(op, res, t, (p.value(t),), dbg)
    if op == 'alloca':
        p.skip_attrs(); t = p.type(); n = ('c', 1, 32)
        if p.acc(','):
            if p.peek() not in ('align',):
                nt, n = p.tv()
        return Ins(op, res, t, (n,), dbg)
    if op == 'load':
        at = p.acc('atomic'); p.skip_attrs(); at = at or p.acc('atomic'); p.skip_attrs()
        t = p.type(); p.exp(','); pt, a = p.tv()
        return Ins(op, res, t, (a,), dbg, at)
    if op == 'store':
        at = p.acc('atomic'); p.skip_attrs(); at = at or p.acc('atomic'); p.skip_attrs()
        t, v = p.tv(); p.exp(','); pt, a = p.tv()
        return Ins(op, res, t, (v, a), dbg, at)
    if op == 'getelementptr':
        p.skip_attrs(); t = p.type(); ops = []
        while p.acc(','):
            ops.append(p.tv())
        return Ins(op, res, t, tuple(ops), dbg)
    if op == 'phi':
        p.skip_attrs(); t = p.type(); inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); l = p.next(); p.exp(']')
            inc.append((v, l[1:].strip('"')))
            if not p.acc(','): break
        return Ins(op, res, t, inc, dbg)
    if op == 'br':
        if p.acc('label'):
            return Ins(op, None, None, (None, p.next()[1:].strip('"')), dbg)
        t = p.type(); c = p.value(t); p.exp(','); p.exp('label'); a = p.next()[1:].strip('"')
        p.exp(','); p.exp('label'); b = p.next()[1:].strip('"')
        return Ins(op, None, None, (c, a, b), dbg)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"'); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label'); cs.append((cv[1], p.next()[1:].strip('"')))
        return Ins(op, None, t, (v, t, d, cs), dbg)
    if op == 'ret':
        t = p.type()
        return Ins(op, None, t, (None if t[0] == 'void' else p.value(t),), dbg)
    if op == 'unreachable':
        return Ins(op, None, None, (), dbg)
    if op in ('call', 'invoke'):
        p.skip_attrs()
        t = p.type()
        rt = t
        p.skip_attrs()
        if t[0] == 'func': rt = t[1]
        if p.peek() == 'asm':
            return Ins('asm', res, rt, (), dbg)
        f = p.value(('ptr',))
        p.exp('('); args = []
        while not p.acc(')'):
            at = p.type()
            if at[0] == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    v = p.next()
                    if v == '(': d += 1
                    if v == ')': d -= 1
                args.append((at, ('undef',)))
            else:
                p.skip_attrs(); args.append((at, p.value(at)))
            p.acc(',')
        x = None
        if op == 'invoke':
            p.skip_attrs()
            p.exp('to'); p.exp('label'); n = p.next()[1:].strip('"'); p.exp('unwind'); p.exp('label'); u = p.next()[1:].strip('"')
            x = (n, u)
        return Ins(op, res, rt, (f, args), dbg, x)
    if op == 'select':
        p.skip_attrs(); ct, c = p.tv(); p.exp(','); t, a = p.tv(); p.exp(','); t2, b = p.tv()
        return Ins(op, res, t, (c, a, b), dbg)
    if op == 'extractvalue':
        t, a = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Ins(op, res, t, (a,), dbg, idx)
    if op == 'insertvalue':
        t, a = p.tv(); p.exp(','); t2, b = p.tv(); idx = []
        while p.acc(','): idx.append(int(p.next()))
        return Ins(op, res, t, (a, b), dbg, idx)
    if op in ('landingpad', 'resume', 'fence', 'va_arg', 'cleanupret', 'catchret', 'indirectbr'):
        return Ins(op, res, None, (), dbg)
    if op == 'cmpxchg':
        p.acc('weak'); p.skip_attrs(); pt, a = p.tv(); p.exp(','); t, c = p.tv(); p.exp(','); t2, n = p.tv()
        return Ins(op, res, t, (a, c, n), dbg)
    if op == 'atomicrmw':
        p.skip_attrs(); o = p.next(); pt, a = p.tv(); p.exp(','); t, v = p.tv()
        return Ins(op, res, t, (a, v), dbg, o)
    return Ins('unsupported', res, None, (), dbg, op)


class Module:
    def __init__(s, path):
        s.funcs = {}; s.globals = {}; s.types = {}; s.aliases = {}
        s.dbg = {}
        txt = open(path).read().split('\n')
        i = 0; n = len(txt)
        while i < n:
            ln = txt[i]
            if ln.startswith('define '):
                j = i + 1
                while txt[j] != '}': j += 1
                s._fn(ln, txt[i + 1:j]); i = j + 1; continue
            if ln.startswith('declare '):
                s._fn(ln, None)
            elif ln.startswith('@'):
                s._glob(ln)
            elif ln.startswith('%'):
                m = re.match(r'^(%"(?:[^"\\]|\\.)*"|%[\w.$-]+) = type (.*)$', ln)
                if m:
                    nm = m.group(1)[1:].strip('"')
                    s.types[nm] = m.group(2)
            elif ln.startswith('!'):
                m = re.match(r'^!(\d+) = (?:distinct )?(!DI\w+)\((.*)\)$', ln)
                if m and m.group(2) in ('!DILocation', '!DISubprogram', '!DILexicalBlock', '!DIFile', '!DILexicalBlockFile'):
                    s.dbg[int(m.group(1))] = (m.group(2), m.group(3))
            i += 1
        s._tc = {}
        s._lc = {}

    def _fn(s, ln, body):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', ln)
        name = m.group(1).strip('"')
        s.funcs[name] = Func(name, None, None, body, s)
        s.funcs[name].head = ln

    def params(s, f):
        if f.params is None:
            ln = f.head
            m = re.search(r'@("(?:[^"\\]|\\.)*"|[\w.$-]+)\(', ln)
            rest = ln[m.end() - 1:]
            p = P(tokenize(cut_paren(rest)), s)
            p.exp('('); out = []
            while not p.acc(')'):
                if p.acc('...'): continue
                t = p.type(); p.skip_attrs()
                nm = None
                if p.kind() == 'lv': nm = p.next()[1:].strip('"')
                out.append((t, nm)); p.acc(',')
            f.params = out
        return f.params

    def _glob(s, ln):
        m = re.match(r'^@("(?:[^"\\]|\\.)*"|[\w.$-]+) = (.*)$', ln)
        name = m.group(1).strip('"'); rest = m.group(2)
        if re.search(r'\balias\b', rest.split('"')[0][:120]):
            mm = re.search(r'alias .*?, ptr @("(?:[^"\\]|\\.)*"|[\w.$-]+)', rest)
            if mm: s.aliases[name] = mm.group(1).strip('"')
            return
        s.globals[name] = rest

    @functools.lru_cache(None)
    def gdef(s, name):
        rest = s.globals[name]
        rest, _ = strip_md(rest)
        p = P(tokenize(rest), s)
        const = False
        ext = False
        while True:
            v = p.peek()
            if v == 'constant': const = True
            if v in ('external', 'extern_weak', 'available_externally'): ext = v != 'available_externally'
            if v in ('global', 'constant'):
                p.i += 1; break
            if v == 'comdat':
                p.i += 1
                if p.peek() == '(': p.paren()
                continue
            if v == 'thread_local':
                p.i += 1
                if p.peek() == '(': p.paren()
                continue
            p.i += 1
        t = p.type()
        init = None
        if not ext and p.peek() not in (',', None):
            init = p.value(t)
        return t, init, const

    def rtype(s, t):
        while t[0] == 'named':
            if t[1] not in s._tc:
                d = s.types.get(t[1])
                if d is None or d == 'opaque': raise SyntaxError('opaque type ' + t[1])
                s._tc[t[1]] = P(tokenize(d), s).type()
            t = s._tc[t[1]]
        return t

    def layout(s, t):
        """(size, align, field offsets|None)"""
        r = s._lc.get(t)
        if r is None:
            r = s._layout(t); s._lc[t] = r
        return r

    def _layout(s, t):
        t = s.rtype(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n and a < 16: a *= 2
            return ((n + a - 1) // a * a if n in (1, 2, 4, 8, 16) else (n + a - 1) // a * a, a, None)
        if k == 'ptr': return (8, 8, None)
        if k == 'float': return (4, 4, None)
        if k == 'double': return (8, 8, None)
        if k == 'x86_fp80': return (16, 16, None)
        if k == 'array':
            es, ea, _ = s.layout(t[2]); return (es * t[1], ea, None)
        if k == 'vec':
            es, ea, _ = s.layout(t[2]); return (es * t[1], es * t[1], None)
        if k == 'struct':
            off = 0; al = 1; offs = []
            for f in t[1]:
                fs, fa, _ = s.layout(f)
                if not t[2]:
                    off = (off + fa - 1) // fa * fa; al = max(al, fa)
                offs.append(off); off += fs
            if not t[2]: off = (off + al - 1) // al * al
            return (off, al, offs)
        raise SyntaxError('layout %r' % (t,))

    def size(s, t): return s.layout(t)[0]

    def loc(s, dbg):
        """-> 'file:line'"""
        d = s.dbg.get(dbg)
        if not d or d[0] != '!DILocation': return '?'
        m = re.search(r'line: (\d+)', d[1]); sc = re.search(r'scope: !(\d+)', d[1])
        ln = m.group(1) if m else '?'
        f = '?'
        k = int(sc.group(1)) if sc else None
        while k in s.dbg:
            x = s.dbg[k]
            mm = re.search(r'file: !(\d+)', x[1])
            if mm and int(mm.group(1)) in s.dbg:
                fm = re.search(r'filename: "([^"]*)"', s.dbg[int(mm.group(1))][1])
                if fm: f = fm.group(1)
                break
            sc = re.search(r'scope: !(\d+)', x[1])
            k = int(sc.group(1)) if sc else None
        return '%s:%s' % (f.split('/repo/')[-1].split('/verif/')[-1], ln)


def cut_paren(s):
    d = 0; q = False
    for i, c in enumerate(s):
        if c == '"': q = not q
        if q: continue
        if c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0: return s[:i + 1]
    return s


_dm = {}


def demangle(names):
    names = [n for n in names if n not in _dm]
    if names:
        out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        for a, b in zip(names, out): _dm[a] = b
    return _dm
