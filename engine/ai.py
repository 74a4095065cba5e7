"""Path-partitioned value-flow analysis over MIR.

Domain: hash-consed terms over parameters, field access paths and uninterpreted
calls (value numbering), a store of abstract memory places, and the set of branch
decisions taken.  Local callees are analysed in place (inlined), foreign ones have
explicit models, everything else is an uninterpreted function of its arguments.
Nothing is executed and no solver is used: branch feasibility is decided only by
identity of terms and by the table of earlier decisions on the same term.
Loops: each loop header is entered at most LOOP+1 times per path (stated bound).
"""
import sys, re, time
sys.setrecursionlimit(20000)

LOOP = 2
MAXPATHS = 6000
MAXDEPTH = 60


class T:
    __slots__ = ('op', 'a', 'n', 'd')
    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        d = 0
        for x in a:
            if type(x) is T and x.d >= d:
                d = x.d + 1
        t.d = d
        _tab[key] = t
    return t


def show(t, depth=0):
    if type(t) is not T:
        return str(t)
    if depth > 14:
        return '…'
    s = lambda x: show(x, depth + 1)
    o, a = t.op, t.a
    if o == 'c': return str(a[0])
    if o == 'p': return str(a[1] or 'arg%d' % a[0])
    if o == 'pl':
        r = a[0]
        b = ('*' + s(r.a[0])) if r.op == 'M' else s(r)
        for p in a[1:]:
            b += ('[' + s(p.a[0]) + ']') if type(p) is T else p
        return b
    if o == 'L': return 'local%s_%s' % (a[0], a[1])
    if o == 'ini': return s(a[0])
    if o == 'ref': return '&' + s(a[0])
    if o == 'adt':
        return '%s{%s}' % (a[1] if a[1] != a[0].split('::')[-1] else a[1], ', '.join('%s:%s' % (f, s(v)) for f, v in zip(a[2], a[3:])))
    if o == 'f': return '%s%s' % (s(a[1]), a[0])
    if o == 'tuple': return '(%s)' % ', '.join(map(s, a))
    if o == 'app': return '%s(%s)' % (a[0].split('::')[-1] if isinstance(a[0], str) else a[0], ', '.join(map(s, a[1:])))
    if o == 'closure': return 'closure(%s)' % a[0].split('::')[-2]
    return '%s(%s)' % (o, ', '.join(map(s, a)))


TRUE = mk('c', 1, 'bool')
FALSE = mk('c', 0, 'bool')
UNIT = mk('tuple')
OPT = 'core::option::Option'
RES = 'core::result::Result'
NONE = mk('adt', OPT, 'None', ())


def some(x):
    return mk('adt', OPT, 'Some', ('0',), x)


def ok(x):
    return mk('adt', RES, 'Ok', ('0',), x)


def num(n, ty='usize'):
    return mk('c', n, ty)


def isconst(t):
    return t.op == 'c'


def subst(t, m, memo=None):
    """replace terms in dict m (by identity)"""
    if memo is None:
        memo = {}
    if type(t) is not T:
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is None:
        na = tuple(subst(x, m, memo) if type(x) is T else x for x in t.a)
        r = t if na == t.a else mk(t.op, *na)
        memo[t] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if type(x) is not T or x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in walk(t))


def place(root, *projs):
    return mk('pl', root, *projs)


def pl_ext(p, *projs):
    return mk('pl', *(p.a + projs))


AXES = {'.x': 0, '.y': 1, '.z': 2, '.w': 3}


def aidx(b, pr):
    """constant index into a literal array"""
    if b.op == 'array' and isinstance(pr, str):
        return AXES[pr] if pr in AXES and AXES[pr] < len(b.a) else None
    if b.op == 'array' and type(pr) is T and pr.op == 'ix' and isconst(pr.a[0]) and isinstance(pr.a[0].a[0], int) \
            and 0 <= pr.a[0].a[0] < len(b.a):
        return pr.a[0].a[0]
    return None


def not_(t):
    if t is TRUE: return FALSE
    if t is FALSE: return TRUE
    if t.op == 'not': return t.a[0]
    return mk('not', t)


class St:
    __slots__ = ('store', 'conds', 'ev', 'eqs', 'own')
    def __init__(self):
        self.store = {}
        self.conds = {}
        self.ev = None
        self.eqs = ()
        self.own = set()
    def copy(self):
        s = St()
        s.store = dict(self.store)
        self.own = set()
        s.conds = dict(self.conds)
        s.ev = self.ev
        s.eqs = self.eqs
        return s
    def event(self, *e):
        self.ev = (self.ev, e)
    def events(self):
        r = []
        x = self.ev
        while x is not None:
            r.append(x[1])
            x = x[0]
        r.reverse()
        return r


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('fn', 'id', 'body', 'roots', 'stack')


_gen = re.compile(r'<[^<>]*>')


def short(nm):
    """std::option::Option::<T>::unwrap -> std::option::Option::unwrap"""
    # protect ->
    x = nm.replace('->', '=>')
    prev = None
    while prev != x:
        prev = x
        x = re.sub(r'<[^<>]*>', '', x)
    x = re.sub(r'::(::)+', '::', x)
    return x.strip(':')


class AI:
    deadline = None

    def __init__(self, prog, hooks=None, domain=None, keep_panics=False, loop=LOOP, maxpaths=MAXPATHS):
        self.P = prog
        self.hooks = hooks or {}
        self.dom = domain
        self.fid = 0
        self.panics = []
        self.keep_panics = keep_panics
        self.fnrec = {}
        self.loop = loop
        self.maxpaths = maxpaths
        self.visited = set()     # functions analysed
        self.calls = 0
        self.truncated = 0
        self.stack = []
        self.maxrec = 1
        self.stepwise = False
        self.steplimit = None
        self.argt = []
        self.unmodelled = {}
        self.opaque_local = set()
        self.noinline = set()
        self.steps = 0
        self.record_calls = True
        self.concrete = False    # iterators over literal arrays and constant ranges are drawn element by element
        self.constv = {}
        self.cval = None         # values of library constants
        self.consts = {}         # values of const parameters (one instance of a generic function)
        self.joins = True        # merge paths with equal results and effects
        self.budget_steps = 3000000
        self.deadline = AI.deadline

    # ---------- memory
    def ini(self, p):
        if self.dom:
            r = self.dom.read_ini(p)
            if r is not None:
                return r
        return mk('ini', p)

    def project(self, v, projs):
        for i, pr in enumerate(projs):
            v = self.proj1(v, pr)
        return v

    def proj1(self, v, pr):
        if pr == '':
            return v
        if v.op == 'ini':
            return self.ini(pl_ext(v.a[0], pr))
        if v.op == 'upd':
            # upd(base, projs-key, val): an aggregate with one sub-place overwritten
            base, path, val = v.a[0], v.a[1].a, v.a[2]
            if path[0] == pr:
                if len(path) == 1:
                    return val
                return mk('upd', self.proj1(base, pr), mk('path', *path[1:]), val)
            if isinstance(pr, str) and pr.startswith('@'):
                return v
            return self.proj1(base, pr)
        if isinstance(pr, str):
            if v.op == 'array' and self.concrete and pr == '.data':
                return v
            if v.op == 'array' and self.concrete and pr in AXES and AXES[pr] < len(v.a):
                return v.a[AXES[pr]]
            if pr.startswith('@'):
                if v.op == 'adt':
                    return v
                return mk('f', pr, v)
            if pr.startswith('.'):
                f = pr[1:]
                if v.op == 'adt':
                    if f in v.a[2]:
                        return v.a[3 + v.a[2].index(f)]
                elif v.op == 'tuple' and f.isdigit() and int(f) < len(v.a):
                    return v.a[int(f)]
                elif v.op == 'closure' and f.isdigit() and int(f) + 1 < len(v.a):
                    return v.a[int(f) + 1]
                if self.dom:
                    r = self.dom.field(pr, v)
                    if r is not None:
                        return r
                return mk('f', pr, v)
            if pr == '*':
                return v
        if type(pr) is T and pr.op == 'ix':
            if v.op == 'array' and isconst(pr.a[0]) and isinstance(pr.a[0].a[0], int) and 0 <= pr.a[0].a[0] < len(v.a):
                return v.a[pr.a[0].a[0]]
            return mk('at', v, pr.a[0])
        return mk('f', str(pr), v)

    def read(self, st, p):
        root, projs = p.a[0], p.a[1:]
        cells = st.store.get(root)
        if not cells:
            return self.dom_snap(st, p, self.ini(p))
        if projs in cells:
            base = cells[projs]
            fp = projs
        else:
            base = None
            for k in range(len(projs) - 1, -1, -1):
                if projs[:k] in cells:
                    base = self.project(cells[projs[:k]], projs[k:])
                    break
            if base is None:
                base = self.ini(p)
        n = len(projs)
        subs = [(q, v) for q, v in cells.items() if len(q) > n and q[:n] == projs]
        if subs:
            subs.sort(key=lambda x: len(x[0]))
            for q, v in subs:
                base = self.upd(base, q[n:], v)
        return base

    def dom_snap(self, st, p, v):
        return v

    def upd(self, base, path, v):
        if base.op == 'adt' and isinstance(path[0], str):
            if path[0].startswith('@') and len(path) > 1:
                return self.upd(base, path[1:], v)
            if path[0].startswith('.') and path[0][1:] in base.a[2]:
                i = 3 + base.a[2].index(path[0][1:])
                nv = v if len(path) == 1 else self.upd(base.a[i], path[1:], v)
                return mk('adt', *(base.a[:i] + (nv,) + base.a[i + 1:]))
        if base.op == 'tuple' and isinstance(path[0], str) and path[0][1:].isdigit() and int(path[0][1:]) < len(base.a):
            i = int(path[0][1:])
            nv = v if len(path) == 1 else self.upd(base.a[i], path[1:], v)
            return mk('tuple', *(base.a[:i] + (nv,) + base.a[i + 1:]))
        i = aidx(base, path[0])
        if i is not None:
            nv = v if len(path) == 1 else self.upd(base.a[i], path[1:], v)
            return mk('array', *(base.a[:i] + (nv,) + base.a[i + 1:]))
        return mk('upd', base, mk('path', *path), v)

    def write(self, st, p, v, site=None):
        root, projs = p.a[0], p.a[1:]
        cells = st.store.get(root)
        nc = {}
        if cells:
            n = len(projs)
            for q, x in cells.items():
                if not (len(q) >= n and q[:n] == projs):
                    nc[q] = x
            # fold into a literal aggregate if a strict prefix is stored as one
            if projs:
                for k in range(len(projs) - 1, -1, -1):
                    pre = projs[:k]
                    if pre in nc:
                        b = nc[pre]
                        if b.op in ('adt', 'tuple') and self.foldable(b, projs[k:]) or aidx(b, projs[k]) is not None:
                            nc[pre] = self.upd(b, projs[k:], v)
                            st.store[root] = nc
                            if root.op != 'L' or projs:
                                st.event('w', p, v, site)
                            return
                        break
        nc[projs] = v
        st.store[root] = nc
        if root.op != 'L' or projs:
            st.event('w', p, v, site)

    def foldable(self, b, path):
        for pr in path:
            if not isinstance(pr, str):
                return False
            if pr.startswith('@'):
                continue
            if b.op == 'adt' and pr[1:] in b.a[2]:
                b = b.a[3 + b.a[2].index(pr[1:])]
            elif b.op == 'tuple' and pr[1:].isdigit() and int(pr[1:]) < len(b.a):
                b = b.a[int(pr[1:])]
            else:
                return False
        return True

    def deref_place(self, v):
        """place a reference value points to"""
        if v.op == 'ref':
            return v.a[0]
        return place(mk('M', v))

    def deref(self, st, v):
        return self.read(st, self.deref_place(v))

    def resolve_place(self, st, fr, p):
        cur = place(fr.roots[p[0]])
        for pr in p[1:]:
            if pr == '*':
                cur = self.deref_place(self.read(st, cur))
            elif isinstance(pr, str):
                cur = pl_ext(cur, pr)
            elif pr[0] == 'idx':
                cur = pl_ext(cur, mk('ix', self.read(st, place(fr.roots[pr[1]]))))
            elif pr[0] == 'cidx':
                cur = pl_ext(cur, mk('ix', num(pr[1]) if not pr[2] else mk('fromend', num(pr[1]))))
            else:
                cur = pl_ext(cur, '?')
        return cur

    # ---------- operands / rvalues
    def const(self, st, fr, o):
        if 'fn' in o:
            t = mk('fn', o['fn'].get('resolved') or o['fn']['id'], o['fn']['name'], o['ty'])
            self.fnrec[t] = o['fn']
            return t
        if 'closure' in o:
            return mk('closure', o['closure'])
        if 'promoted' in o:
            root = mk('H', 'promoted', fr.fn['id'], o['promoted'])
            if root not in st.store:
                b = fr.fn['promoted'][o['promoted']]
                outs = self.exec_body(fr.fn, b, [], st, promoted=True)
                v = outs[0][1] if outs else mk('opq', 'promoted')
                if outs:
                    st.store = outs[0][0].store
                # value of promoted is what the const ref points at; body returns the value itself
                st.store[root] = {(): v}
            v = self.read(st, place(root))
            return v if v.op == 'ref' and o.get('ty', '').startswith('&') else mk('ref', place(root))
        if 'v' in o:
            ty = o['ty']
            v = o['v']
            if ty == 'bool':
                return TRUE if v == '1' else FALSE
            try:
                return mk('c', int(v), ty)
            except ValueError:
                return mk('c', v, ty)
        if 'def' in o and self.cval:
            r = self.cval(o)
            if r is not None:
                return r
        if 'def' in o and self.concrete and o['def'] in self.P.consts:
            r = self.const_value(st, o['def'])
            if r is not None:
                return r
        if 'def' in o:
            return mk('cdef', o['def'], o['ty'])
        if o['ty'] == '()':
            return UNIT
        if o.get('str', '') in self.consts:
            return num(self.consts[o['str']], o['ty'])
        return mk('str', o.get('str', ''), o['ty'])

    def const_value(self, st, cid):
        """value of a constant of the crate"""
        if cid not in self.constv:
            self.constv[cid] = None
            c = self.P.consts[cid]
            try:
                outs = self.exec_body(c, c['body'], [], St())
                if len(outs) == 1:
                    self.constv[cid] = outs[0]
            except Budget:
                pass
        r = self.constv[cid]
        return self.snap(r[0], r[1]) if r else None

    def operand(self, st, fr, o):
        k = o['k']
        if k in ('copy', 'move'):
            return self.read(st, self.resolve_place(st, fr, o['p']))
        if k == 'const':
            return self.const(st, fr, o)
        return mk('opq', o.get('str', k))

    COMM = ('Eq', 'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor')

    def binop(self, op, a, b):
        for suf in ('WithOverflow', 'Unchecked'):
            if op.endswith(suf):
                r = self.binop(op[:-len(suf)], a, b)
                return mk('tuple', r, FALSE) if suf == 'WithOverflow' else r
        if self.concrete and (a.op == 'array' or b.op == 'array') and op in ('Add', 'Sub', 'Mul', 'Div'):
            n = len(a.a) if a.op == 'array' else len(b.a)
            return mk('array', *[self.binop(op, a.a[i] if a.op == 'array' else a, b.a[i] if b.op == 'array' else b) for i in range(n)])
        ca = isconst(a) and isinstance(a.a[0], int)
        cb = isconst(b) and isinstance(b.a[0], int)
        if op == 'Ne': return not_(self.binop('Eq', a, b))
        if op == 'Gt': return self.binop('Lt', b, a)
        if op == 'Ge': return not_(self.binop('Lt', a, b))
        if op == 'Le': return not_(self.binop('Lt', b, a))
        if ca and cb:
            x, y = a.a[0], b.a[0]
            ty = a.a[1]
            if op == 'Eq': return TRUE if x == y else FALSE
            if op == 'Lt': return TRUE if x < y else FALSE
            if op == 'Add': return mk('c', x + y, ty)
            if op == 'Sub': return mk('c', x - y, ty)
            if op == 'Mul': return mk('c', x * y, ty)
            if op == 'Div' and y: return mk('c', x // y, ty)
            if op == 'Rem' and y: return mk('c', x % y, ty)
            if op == 'BitAnd' and ty == 'bool': return TRUE if x & y else FALSE
            if op == 'BitOr' and ty == 'bool': return TRUE if x | y else FALSE
            if op == 'BitXor' and ty == 'bool': return TRUE if x ^ y else FALSE
            if x >= 0 and y >= 0:
                if op == 'BitAnd': return mk('c', x & y, ty)
                if op == 'BitOr': return mk('c', x | y, ty)
                if op == 'BitXor': return mk('c', x ^ y, ty)
                if op == 'Shl' and y < 64: return mk('c', x << y, ty)
                if op == 'Shr' and y < 64: return mk('c', x >> y, ty)
        if op == 'Eq':
            if a is b: return TRUE
            if a in (TRUE, FALSE): a, b = b, a
            if b is TRUE: return a
            if b is FALSE: return not_(a)
            if self.dom and self.dom.distinct(a, b): return FALSE
            if a.op == 'adt' and b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] != b.a[1]: return FALSE
            if a.op == 'fresh' or b.op == 'fresh':
                o = b if a.op == 'fresh' else a
                while o.op in ('f', 'ini', 'pl', 'M') and o.a:
                    o = next((x for x in o.a if type(x) is T), NONE)
                if o.op in ('fresh', 'p') or o.op == 'app' and str(o.a[0]).endswith('::max') and len(o.a) == 1: return FALSE
        if op == 'Lt' and a is b: return FALSE
        if op == 'Sub' and cb and b.a[0] == 0: return a
        if op == 'Add':
            if cb and b.a[0] == 0: return a
            if ca and a.a[0] == 0: return b
            if cb and a.op == 'bin' and a.a[0] == 'Add' and isconst(a.a[2]):
                return self.binop('Add', a.a[1], mk('c', a.a[2].a[0] + b.a[0], b.a[1]))
        if op == 'Sub' and a.op == 'bin' and a.a[0] == 'Add' and a.a[2] is b:
            return a.a[1]
        if op == 'Mul':
            if cb and b.a[0] == 1: return a
            if ca and a.a[0] == 1: return b
        if op == 'BitXor':
            for x, y in ((a, b), (b, a)):
                if x is TRUE: return not_(y)
                if x is FALSE: return y
        if op == 'BitAnd':
            if a is TRUE: return b
            if b is TRUE: return a
            if a is FALSE or b is FALSE: return FALSE
        if op == 'BitOr':
            if a is FALSE: return b
            if b is FALSE: return a
            if a is TRUE or b is TRUE: return TRUE
        if op in self.COMM:
            if (isconst(a), a.n) > (isconst(b), b.n):
                a, b = b, a
        return mk('bin', op, a, b)

    def rvalue(self, st, fr, r):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k in ('ref', 'raw'):
            p = self.resolve_place(st, fr, r['p'])
            # reborrow of an opaque pointer: &*x == x
            if p.a[0].op == 'M' and len(p.a) == 1 and p.a[0].a[0].op != 'ref':
                return p.a[0].a[0]
            return mk('ref', p)
        if k == 'bin':
            return self.binop(r['op'], self.operand(st, fr, r['a']), self.operand(st, fr, r['b']))
        if k == 'un':
            a = self.operand(st, fr, r['a'])
            if r['op'] == 'Not' and (a.op != 'c' or a.a[1] == 'bool'):
                return not_(a)
            if r['op'] == 'Neg' and a.op == 'neg':
                return a.a[0]
            if r['op'] == 'Neg' and isconst(a) and isinstance(a.a[0], int):
                return mk('c', -a.a[0], a.a[1])
            if r['op'] == 'PtrMetadata':
                v = self.deref(st, a)
                return num(len(v.a)) if v.op == 'array' else mk('len', v)
            return mk('neg' if r['op'] == 'Neg' else r['op'], a)
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            kd = r['kind']
            if kd.startswith('PointerCoercion') or kd.startswith('PtrToPtr') or kd.startswith('Transmute') or kd.startswith('Subtype') or kd == 'BoxDerefTransmute' and v.op == 'ref':
                return v
            if isconst(v) and isinstance(v.a[0], int) and kd == 'IntToInt':
                return mk('c', v.a[0], r['ty'])
            return mk('cast', r['from'], r['ty'], v)
        if k == 'discr':
            p = self.resolve_place(st, fr, r['p'])
            return self.discr(self.read(st, p))
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            if r['agg'] == 'tuple':
                return mk('tuple', *ops)
            if r['agg'] == 'array':
                return mk('array', *ops)
            if r['agg'] == 'adt':
                return mk('adt', r['adt'], r['variant'], tuple(r['fields']), *ops)
            if r['agg'] == 'closure':
                return mk('closure', r['def'], *ops)
            return mk('aggo', r['agg'], *ops)
        if k == 'repeat':
            n = self.consts.get(str(r['n']), r['n'])
            try:
                n = int(str(n).split('_')[0])
            except ValueError:
                n = None
            if self.concrete and n is not None and n <= 64:
                return mk('array', *[self.operand(st, fr, r['o'])] * n)
            return mk('repeat', self.operand(st, fr, r['o']), r['n'])
        return mk('opq', r.get('str', k))

    VARI = {OPT: {'None': 0, 'Some': 1}, RES: {'Ok': 0, 'Err': 1},
            'core::ops::control_flow::ControlFlow': {'Continue': 0, 'Break': 1},
            'core::cmp::Ordering': {'Less': 255, 'Equal': 0, 'Greater': 1}}

    def discr(self, v):
        if v.op == 'upd':
            return self.discr(v.a[0])
        if v.op == 'adt':
            m = self.VARI.get(v.a[0])
            if m and v.a[1] in m:
                return num(m[v.a[1]], 'isize')
            ad = self.P.adts.get(v.a[0])
            if ad:
                for i, x in enumerate(ad['variants']):
                    if x['name'] == v.a[1]:
                        return num(i, 'isize')
        return mk('discr', v)

    # ---------- branch decisions
    def decide(self, st, t):
        """known value of a term (int) or None"""
        neg = False
        while t.op == 'not':
            neg = not neg
            t = t.a[0]
        if isconst(t) and isinstance(t.a[0], int):
            v = t.a[0]
        else:
            v = st.conds.get(t)
            if not isinstance(v, int) and t.op == 'bin' and t.a[0] == 'Eq' and st.eqs:
                if self.equal(st, t.a[1], t.a[2]):
                    v = 1
            if not isinstance(v, int) and self.dom:
                v = self.dom.decide(self, st, t)
            if not isinstance(v, int):
                return None
        return (0 if v else 1) if neg else v

    def assume(self, st, t, v):
        """returns False if contradictory"""
        while t.op == 'not':
            t = t.a[0]
            v = 0 if v else 1
        k = self.decide(st, t)
        if k is not None:
            return k == v
        ex = st.conds.get(t)
        if isinstance(ex, frozenset) and v in ex:
            return False
        if t.op == 'bin' and t.a[0] == 'BitAnd' and v == 1:
            if not (self.assume(st, t.a[1], 1) and self.assume(st, t.a[2], 1)):
                return False
        if t.op == 'bin' and t.a[0] == 'BitOr' and v == 0:
            if not (self.assume(st, t.a[1], 0) and self.assume(st, t.a[2], 0)):
                return False
        st.conds[t] = v
        st.event('assume', t, v)
        if t.op == 'bin' and t.a[0] == 'Eq' and v == 1:
            st.eqs = st.eqs + ((t.a[1], t.a[2]),)
        return True

    def equal(self, st, a, b):
        if a is b:
            return True
        if not st.eqs:
            return False
        seen = {a}
        todo = [a]
        while todo:
            x = todo.pop()
            for u, v in st.eqs:
                for p, q in ((u, v), (v, u)):
                    y = None
                    if p is x:
                        y = q
                    if y is not None and y not in seen:
                        if y is b:
                            return True
                        seen.add(y)
                        todo.append(y)
        return False

    def fork(self, st, t):
        """[(state, truth)] for a boolean term"""
        k = self.decide(st, t)
        if k is not None:
            return [(st, bool(k))]
        out = []
        for v in (1, 0):
            s = st.copy()
            if self.assume(s, t, v):
                out.append((s, bool(v)))
        return out

    def panic(self, st, why, site):
        if self.keep_panics:
            self.panics.append((st, why, site, tuple(self.stack)))

    # ---------- execution
    def run(self, fid, args, st=None):
        """analyse function fid on given argument terms -> [(state, return term)]"""
        st = st or St()
        return self.exec_fn(fid, args, st)

    def exec_fn(self, fid, args, st):
        f = self.P.fns[fid]
        if len(self.stack) > MAXDEPTH or self.stack.count(fid) > self.maxrec:
            return self.opaque(st, 'rec:' + fid, args, None, f.get('inputs'))
        self.visited.add(fid)
        self.stack.append(fid)
        try:
            return self.exec_body(f, f['body'], args, st)
        finally:
            self.stack.pop()

    def exec_body(self, f, body, args, st, promoted=False):
        self.fid += 1
        fr = Frame()
        fr.fn = f
        fr.id = self.fid
        fr.body = body
        fr.roots = [mk('L', fr.id, i) for i in range(len(body['locals']))]
        st = st.copy()
        for i, a in enumerate(args):
            st.store[fr.roots[i + 1]] = {(): a}
        outs = []
        work = [(st, 0, {})]
        while work:
            st, bb, vis = work.pop()
            n = vis.get(bb, 0)
            if n > self.loop:
                self.truncated += 1
                continue
            vis = dict(vis)
            vis[bb] = n + 1
            b = body['blocks'][bb]
            if b.get('cleanup'):
                continue
            self.steps += 1
            if self.steps > self.budget_steps or self.deadline and not self.steps & 255 and time.time() > self.deadline:
                raise Budget('step budget exceeded in ' + f['id'])
            for s in b['st']:
                site = (f['id'], s.get('s'))
                if s['k'] == 'assign':
                    r = s['r']
                    v = self.rvalue(st, fr, r)
                    p = self.resolve_place(st, fr, s['p'])
                    self.write(st, p, v, site)
                    if r['k'] == 'bin' and self.dom and hasattr(self.dom, 'on_arith'):
                        self.dom.on_arith(self, st, r['op'], v, site)
                elif s['k'] == 'setdiscr':
                    p = self.resolve_place(st, fr, s['p'])
                    self.write(st, pl_ext(p, '#discr'), num(s['v']), site)
            t = b['t']
            k = t['k']
            site = (f['id'], t.get('s'))
            if k == 'goto':
                work.append((st, t['t'], vis))
            elif k == 'drop':
                work.append((st, t['t'], vis))
            elif k == 'return':
                ret = self.read(st, place(fr.roots[0]))
                for r in fr.roots:
                    if r in st.store and not promoted:
                        del st.store[r]
                outs.append((st, ret))
                if len(outs) > self.maxpaths:
                    raise Budget('path budget exceeded in ' + f['id'])
            elif k == 'switch':
                d = self.operand(st, fr, t['o'])
                self.switch(st, d, t, vis, work)
            elif k == 'assert':
                if t['msg'].startswith(('MisalignedPointer', 'NullPointer')):
                    work.append((st, t['t'], vis))  # inserted by the compiler around dereferences of valid references
                    continue
                d = self.operand(st, fr, t['o'])
                s2 = st.copy() if self.keep_panics else None
                if self.keep_panics and self.decide(s2, d) is None and self.assume(s2, d, 0 if t['e'] else 1):
                    self.panic(s2, 'assert:' + t['msg'], site)
                if self.assume(st, d, 1 if t['e'] else 0):
                    work.append((st, t['t'], vis))
                else:
                    self.panic(st, 'assert:' + t['msg'], site)
            elif k == 'call':
                args2 = [self.operand(st, fr, a) for a in t['args']]
                self.calls += 1
                self.argt = [fr.body['locals'][a['p'][0]]['ty'] if a['k'] in ('copy', 'move') and len(a['p']) == 1 else '' for a in t['args']]
                if 'f' in t:
                    res = self.call(st, t['f'], args2, site, t['t'] is None)
                else:
                    fv = self.operand(st, fr, t['fo'])
                    res = self.call_value(st, fv, args2, site)
                if t['t'] is None:
                    if not res or res == 'diverge':
                        pass
                    self.panic(st, t.get('f', {}).get('name', 'diverging call') + self.msg(args2), site)
                    continue
                res = self.dedupe(res)
                for s2, v in res:
                    p = self.resolve_place(s2, fr, t['d'])
                    self.write(s2, p, v, site)
                    work.append((s2, t['t'], vis if len(res) == 1 else dict(vis)))
                if len(work) > self.maxpaths:
                    raise Budget('path budget exceeded in ' + f['id'])
            elif k in ('unreachable', 'resume', 'abort'):
                pass
            else:
                raise Budget('unsupported terminator %s in %s' % (k, f['id']))
        return self.dedupe(outs)

    def msg(self, args):
        for a in args:
            if a.op == 'str':
                return ':' + str(a.a[0])[:80]
        return ''

    def dedupe(self, outs):
        if len(outs) < 2 or not self.joins:
            return outs
        groups = {}
        order = []
        for s, v in outs:
            key = (v, self.skey(s))
            if key in groups:
                g = groups[key][0]
                # join: keep only the decisions both paths agree on
                g.conds = {k: x for k, x in g.conds.items() if s.conds.get(k) == x}
                g.eqs = tuple(e for e in g.eqs if e in s.eqs)
            else:
                groups[key] = (s, v)
                order.append(key)
        return [groups[k] for k in order]

    def skey(self, s):
        return (tuple(sorted(((r.n, tuple(sorted(((str(q), v.n) for q, v in c.items())))) for r, c in s.store.items()))),
                self.evkey(s))

    def evkey(self, s):
        k = []
        x = s.ev
        while x is not None:
            e = x[1]
            if e[0] != 'assume' and not (e[0] == 'w' and e[1].a[0].op == 'L'):
                k.append(e[:3])
            x = x[0]
        return tuple(k)

    def switch(self, st, d, t, vis, work):
        neg = False
        base = d
        while base.op == 'not':
            neg = not neg
            base = base.a[0]
        k = self.decide(st, d)
        targets = [(int(v), b) for v, b in t['targets']]
        if k is not None:
            for v, b in targets:
                if v == k:
                    work.append((st, b, vis))
                    return
            work.append((st, t['else'], vis))
            return
        isbool = t['oty'] == 'bool'
        seen = []
        for v, b in targets:
            s = st.copy()
            if self.assume(s, d, v):
                work.append((s, b, vis))
            seen.append(v)
        s = st.copy()
        if isbool:
            rest = [v for v in (0, 1) if v not in seen]
            if len(rest) == 1:
                if self.assume(s, d, rest[0]):
                    work.append((s, t['else'], vis))
            return
        # otherwise-branch: is it reachable? (enum with all variants listed -> unreachable block)
        ex = s.conds.get(base)
        ex = ex if isinstance(ex, frozenset) else frozenset()
        full = ex | frozenset(seen)
        nvar = self.dom.nvariants(base) if self.dom else None
        if base.op == 'discr':
            s.conds[base] = full
            s.event('exclude', base, tuple(sorted(full)))
            for cand in (0, 1):
                pass
        else:
            s.conds[base] = full
            s.event('exclude', base, tuple(sorted(full)))
        work.append((s, t['else'], vis))

    # ---------- calls
    def call_value(self, st, fv, args, site):
        """call a closure / fn-item value with untupled args"""
        if fv.op == 'ref':
            inner = self.deref(st, fv)
            if inner.op in ('closure', 'fn', 'ref'):
                return self.call_value(st, inner, args, site) if inner.op != 'closure' else self.call_closure(st, inner, fv, args, site)
        if fv.op == 'closure':
            return self.call_closure(st, fv, None, args, site)
        if fv.op == 'fn' and fv in self.fnrec:
            return self.call(st, self.fnrec[fv], args, site, False)
        return self.opaque(st, 'callptr', [fv] + list(args), site)

    def call_closure(self, st, cl, ref, args, site):
        cid = cl.a[0]
        if cid not in self.P.fns:
            return self.opaque(st, 'closure', [cl] + list(args), site)
        f = self.P.fns[cid]
        envty = f['body']['locals'][1]['ty'] if f['body']['argc'] >= 1 else ''
        if envty.startswith('&'):
            if ref is None:
                self.fid += 1
                root = mk('H', 'env', self.fid)
                st = st.copy()
                st.store[root] = {(): cl}
                env = mk('ref', place(root))
            else:
                env = ref
        else:
            env = cl
        return self.exec_fn(cid, [env] + list(args), st)

    def call(self, st, c, args, site, diverges=False):
        if diverges:
            return []
        argt = self.argt
        nm = c['name']
        rid = self.P.resolve(c)
        # closure invocation through Fn* traits
        if nm in ('std::ops::Fn::call', 'std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once'):
            tup = args[1]
            sub = list(tup.a) if tup.op == 'tuple' else [tup]
            fv = args[0]
            if fv.op == 'ref':
                inner = self.deref(st, fv)
                if inner.op == 'closure':
                    return self.call_closure(st, inner, fv, sub, site)
                if inner.op == 'fn':
                    return self.call_value(st, inner, sub, site)
            if fv.op in ('closure', 'fn'):
                return self.call_value(st, fv, sub, site)
            return self.opaque(st, 'call:' , [fv] + sub, site)
        key = c['id'] if c['local'] else None
        for h in (rid, key):
            if h and h in self.hooks:
                r = self.hooks[h](self, st, c, args, site)
                if r is not None:
                    return r
        if '*' in self.hooks:
            r = self.hooks['*'](self, st, c, rid, args, site)
            if r is not None:
                return r
        if rid and rid in self.P.fns and rid not in self.noinline:
            return self.exec_fn(rid, args, st)
        if c['local']:
            self.opaque_local.add(c['name'])
            return self.opaque(st, self.lname(c, rid), args, site, argt)
        import models
        sn = short(nm)
        m = models.MODELS.get(sn)
        if m is None:
            m = models.MODELS_LAST.get('::'.join(sn.split('::')[-2:]))
        if m is not None:
            r = m(self, st, c, args, site)
            if r is not None:
                return r
        self.unmodelled[sn] = self.unmodelled.get(sn, 0) + 1
        return self.opaque(st, sn, args, site, argt)

    def lname(self, c, rid):
        n = short(c['name'])
        st = c.get('self_ty')
        return n

    def snap(self, st, v, depth=0):
        """argument of an uninterpreted call: references carry the overwritten content"""
        if v.op == 'ref' and depth < 3:
            p = v.a[0]
            root, projs = p.a[0], p.a[1:]
            if root.op in ('L', 'H'):
                return mk('refto', self.snap(st, self.read(st, p), depth + 1))
            cells = st.store.get(root)
            if cells:
                n = len(projs)
                if any((q[:n] == projs or projs[:len(q)] == q) for q in cells):
                    return mk('refto', self.read(st, p))
            return v
        if v.op in ('adt', 'tuple', 'array', 'closure') and depth < 3:
            na = tuple(self.snap(st, x, depth + 1) if type(x) is T else x for x in v.a)
            return v if na == v.a else mk(v.op, *na)
        return v

    def opaque(self, st, name, args, site, mutrefs=None):
        """uninterpreted call; &mut-reachable memory given by the caller type is havocked by models"""
        sargs = [self.snap(st, a) for a in args]
        t = mk('app', name, *sargs)
        st = st.copy()
        if self.record_calls:
            st.event('call', name, tuple(args), site, tuple(sargs))
        if mutrefs and len(mutrefs) == len(args):
            for i, ty in enumerate(mutrefs):
                if ty.startswith('&mut ') or ty.startswith('&\'_ mut') :
                    if args[i].op == 'ref':
                        p = args[i].a[0]
                        self.write(st, p, mk('post', i, t), site)
        return [(st, t)]

    def havoc(self, st, p, why):
        old = self.read(st, p)
        self.write(st, p, mk('post', why, old), None)
