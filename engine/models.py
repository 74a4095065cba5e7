"""Models of foreign (std / itertools) functions: total over values, no execution."""
from ai import *

MODELS = {}
MODELS_LAST = {}


def m(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def last(*names):
    def d(f):
        for n in names:
            MODELS_LAST[n] = f
        return f
    return d


# ---------------------------------------------------------------- identity-like
@last('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow',
      'hint::must_use', 'slice::as_slice', 'Vec::as_slice', 'Vec::as_mut_slice', 'BorrowMut::borrow_mut')
def ident(ai, st, c, args, site):
    if 'resolved' in c and 'nalgebra' in c['resolved']:
        return None
    return [(st, args[0])]


@m('std::convert::Into::into', 'std::convert::From::from')
def into(ai, st, c, args, site):
    a = c.get('args', [])
    if len(a) >= 2 and a[0] == a[1]:
        return [(st, args[0])]
    return None


@last('Clone::clone', 'ToOwned::to_owned', 'Clone::clone_from')
def clone(ai, st, c, args, site):
    return [(st, ai.deref(st, args[0]))]


@last('slice::to_vec', 'slice::into_vec')
def tovec(ai, st, c, args, site):
    v = args[0]
    if v.op == 'ref':
        v = ai.deref(st, v)
    return [(st, v)]


# ---------------------------------------------------------------- comparisons
def _cmp(op, neg=False, swap=False):
    def f(ai, st, c, args, site):
        a, b = args
        va, vb = a, b
        for _ in range(1):
            va, vb = ai.deref(st, va), ai.deref(st, vb)
        # &T == &T
        if va.op == 'ref' and vb.op == 'ref':
            va, vb = ai.deref(st, va), ai.deref(st, vb)
        r = ai.binop(op, va, vb)
        return [(st, r)]
    return f


for _n, _o in (('eq', 'Eq'), ('ne', 'Ne')):
    MODELS['std::cmp::PartialEq::' + _n] = _cmp(_o)
for _n, _o in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    MODELS['std::cmp::PartialOrd::' + _n] = _cmp(_o)


# ---------------------------------------------------------------- arithmetic traits
def _arith(op):
    def f(ai, st, c, args, site):
        return [(st, ai.binop(op, args[0], args[1]))]
    return f


INTS = ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize')
for _n, _o in (('Add::add', 'Add'), ('Sub::sub', 'Sub'), ('Mul::mul', 'Mul'), ('Div::div', 'Div'), ('Rem::rem', 'Rem')):
    MODELS['std::ops::' + _n] = _arith(_o)


@m('std::ops::Neg::neg')
def neg(ai, st, c, args, site):
    a = args[0]
    if a.op == 'neg':
        return [(st, a.a[0])]
    if ai.concrete and a.op == 'array':
        return [(st, mk('array', *[x.a[0] if x.op == 'neg' else mk('neg', x) for x in a.a]))]
    return [(st, mk('neg', a))]


@m('std::ops::Not::not')
def nott(ai, st, c, args, site):
    return [(st, not_(args[0]))]


def _arith_assign(op):
    def f(ai, st, c, args, site):
        st = st.copy()
        p = ai.deref_place(args[0])
        ai.write(st, p, ai.binop(op, ai.read(st, p), args[1]), site)
        return [(st, UNIT)]
    return f


for _n, _o in (('AddAssign::add_assign', 'Add'), ('SubAssign::sub_assign', 'Sub'),
               ('MulAssign::mul_assign', 'Mul'), ('DivAssign::div_assign', 'Div')):
    MODELS['std::ops::' + _n] = _arith_assign(_o)


# ---------------------------------------------------------------- mem
@last('mem::replace')
def mreplace(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    ai.write(st, p, args[1], site)
    return [(st, old)]


@last('mem::swap')
def mswap(ai, st, c, args, site):
    st = st.copy()
    p, q = ai.deref_place(args[0]), ai.deref_place(args[1])
    a, b = ai.read(st, p), ai.read(st, q)
    ai.write(st, p, b, site)
    ai.write(st, q, a, site)
    return [(st, UNIT)]


def std_default(ty):
    """the default value of a primitive or standard type, else None"""
    if ty in ('bool', 'usize', 'u8', 'u16', 'u32', 'u64', 'u128', 'isize', 'i8', 'i16', 'i32', 'i64', 'i128'):
        return num(0, ty)
    if ty == '()':
        return UNIT
    if ty.startswith(('std::option::Option<', 'core::option::Option<')):
        return NONE
    if ty.startswith(('std::vec::Vec<', 'alloc::vec::Vec<')):
        return mk('array')
    return None


@last('Default::default')
def mdefault(ai, st, c, args, site):
    ts = c.get('args') or []
    v = std_default(ts[0]) if ts else None
    if v is None:
        return None
    return [(st, v)]


@last('mem::take')
def mtake(ai, st, c, args, site):
    ts = c.get('args') or []
    d = std_default(ts[0]) if ts else None
    if d is not None:
        st = st.copy()
        p = ai.deref_place(args[0])
        old = ai.read(st, p)
        ai.write(st, p, d, site)
        return [(st, old)]
    st = st.copy()
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    ai.write(st, p, mk('default', 'take'), site)
    return [(st, old)]


# ---------------------------------------------------------------- Option / Result
def is_opt(v):
    return v.op == 'adt' and v.a[0] == OPT


def opt_cases(ai, st, v, adt=OPT, yes='Some', no='None'):
    """[(state, payload or None-marker)] : payload term when `yes`, None when `no`"""
    if v.op == 'adt' and v.a[0] == adt:
        return [(st, v.a[3] if v.a[1] == yes else None, v)]
    ycode = AI.VARI[adt][yes]
    out = []
    d = ai.discr(v)
    k = ai.decide(st, d)
    for code, tag in ((ycode, True), (AI.VARI[adt][no], False)):
        if k is not None and k != code:
            continue
        s = st.copy()
        if ai.assume(s, d, code):
            if tag:
                out.append((s, ai.proj1(ai.proj1(v, '@' + yes), '.0'), v))
            else:
                out.append((s, None, v))
    return out


def res_cases(ai, st, v):
    """[(state, 'Ok'|'Err', payload)]"""
    if v.op == 'adt' and v.a[0] == RES:
        return [(st, v.a[1], v.a[3])]
    out = []
    d = ai.discr(v)
    k = ai.decide(st, d)
    for code, tag in ((0, 'Ok'), (1, 'Err')):
        if k is not None and k != code:
            continue
        s = st.copy()
        if ai.assume(s, d, code):
            out.append((s, tag, ai.proj1(ai.proj1(v, '@' + tag), '.0')))
    return out


def res_is(c):
    return 'result::Result' in c['name']


@last('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def unwrap(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            ai.panic(s, 'unwrap-none', site)
        else:
            out.append((s, p))
    return out


@last('Result::unwrap', 'Result::expect')
def runwrap(ai, st, c, args, site):
    out = []
    for s, tag, p in res_cases(ai, st, args[0]):
        if tag == 'Ok':
            out.append((s, p))
        else:
            ai.panic(s, 'unwrap-err', site)
    return out


@last('Option::is_some')
def is_some(ai, st, c, args, site):
    d = ai.discr(ai.deref(st, args[0]))
    return [(st, ai.binop('Eq', d, num(1, 'isize')) if isconst(d) else mk('bin', 'Eq', num(1, 'isize'), d))] if False else \
        [(s, TRUE if p is not None else FALSE) for s, p, _ in opt_cases(ai, st, ai.deref(st, args[0]))]


@last('Option::is_none')
def is_none(ai, st, c, args, site):
    return [(s, FALSE if p is not None else TRUE) for s, p, _ in opt_cases(ai, st, ai.deref(st, args[0]))]


@last('Option::is_some_and')
def is_some_and(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, FALSE))
        else:
            out += ai.call_value(s, args[1], [p], site)
    return out


@last('Result::is_ok')
def is_ok(ai, st, c, args, site):
    return [(s, TRUE if t == 'Ok' else FALSE) for s, t, p in res_cases(ai, st, ai.deref(st, args[0]))]


@last('Result::is_err')
def is_err(ai, st, c, args, site):
    return [(s, FALSE if t == 'Ok' else TRUE) for s, t, p in res_cases(ai, st, ai.deref(st, args[0]))]


@last('array::map')
def amap(ai, st, c, args, site):
    v = ai.snap(st, args[0])
    if v.op != 'array':
        return None
    outs = [(st, [])]
    for x in v.a:
        outs = [(s2, xs + [r]) for s, xs in outs for s2, r in ai.call_value(s, args[1], [x], site)]
    return [(s, mk('array', *xs)) for s, xs in outs]


@last('Option::map')
def omap(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, NONE))
        else:
            out += [(s2, some(v)) for s2, v in ai.call_value(s, args[1], [p], site)]
    return out


@last('Option::and_then')
def oand(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, NONE))
        else:
            out += ai.call_value(s, args[1], [p], site)
    return out


@last('Option::filter')
def ofilter(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, NONE))
        else:
            r, s = tmpref(ai, s, p)
            for s2, v in ai.call_value(s, args[1], [r], site):
                for s3, b in ai.fork(s2, v):
                    out.append((s3, some(p) if b else NONE))
    return out


@last('Option::map_or')
def omapor(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, args[1]))
        else:
            out += ai.call_value(s, args[2], [p], site)
    return out


@last('Option::map_or_else')
def omaporelse(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out += ai.call_value(s, args[1], [], site)
        else:
            out += ai.call_value(s, args[2], [p], site)
    return out


@last('Option::unwrap_or')
def ounwrapor(ai, st, c, args, site):
    return [(s, args[1] if p is None else p) for s, p, _ in opt_cases(ai, st, args[0])]


@last('Option::unwrap_or_else')
def ounwrapelse(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out += ai.call_value(s, args[1], [], site)
        else:
            out.append((s, p))
    return out


@last('Option::or_else')
def oorelse(ai, st, c, args, site):
    out = []
    for s, p, v in opt_cases(ai, st, args[0]):
        if p is None:
            out += ai.call_value(s, args[1], [], site)
        else:
            out.append((s, some(p)))
    return out


@last('Option::ok_or')
def ookor(ai, st, c, args, site):
    return [(s, mk('adt', RES, 'Err', ('0',), args[1]) if p is None else ok(p)) for s, p, _ in opt_cases(ai, st, args[0])]


@last('Option::ok_or_else')
def ookorelse(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out += [(s2, mk('adt', RES, 'Err', ('0',), v)) for s2, v in ai.call_value(s, args[1], [], site)]
        else:
            out.append((s, ok(p)))
    return out


@last('Option::copied', 'Option::cloned')
def ocopied(ai, st, c, args, site):
    return [(s, NONE if p is None else some(ai.deref(s, p))) for s, p, _ in opt_cases(ai, st, args[0])]


@last('Option::as_ref', 'Option::as_mut', 'Option::as_deref')
def oasref(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    out = []
    for s, x, _ in opt_cases(ai, st, v):
        out.append((s, NONE if x is None else some(mk('ref', pl_ext(p, '@Some', '.0')))))
    return out


@last('Option::take')
def otake(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    ai.write(st, p, NONE, site)
    return [(st, v)]


@last('Option::zip')
def ozip(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, NONE))
        else:
            out += [(s2, NONE if y is None else some(mk('tuple', p, y))) for s2, y, _ in opt_cases(ai, s, args[1])]
    return out


@last('Option::or')
def oor(ai, st, c, args, site):
    return [(s, args[1] if p is None else some(p)) for s, p, _ in opt_cases(ai, st, args[0])]


@last('Option::and')
def oand2(ai, st, c, args, site):
    return [(s, NONE if p is None else args[1]) for s, p, _ in opt_cases(ai, st, args[0])]


@last('Option::xor')
def oxor(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        for s2, y, _ in opt_cases(ai, s, args[1]):
            out.append((s2, some(p) if p is not None and y is None else some(y) if p is None and y is not None else NONE))
    return out


@last('Option::is_none_or')
def is_none_or(ai, st, c, args, site):
    out = []
    for s, p, _ in opt_cases(ai, st, args[0]):
        if p is None:
            out.append((s, TRUE))
        else:
            out += ai.call_value(s, args[1], [p], site)
    return out


@last('Option::flatten')
def oflatten(ai, st, c, args, site):
    return [(s, NONE if p is None else p) for s, p, _ in opt_cases(ai, st, args[0])]


@last('Option::replace')
def oreplace(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    ai.write(st, p, some(args[1]), site)
    return [(st, v)]


@last('bool::then')
def bthen(ai, st, c, args, site):
    out = []
    for s, b in ai.fork(st, args[0]):
        if b:
            out += [(s2, some(v)) for s2, v in ai.call_value(s, args[1], [], site)]
        else:
            out.append((s, NONE))
    return out


@last('bool::then_some')
def bthensome(ai, st, c, args, site):
    return [(s, some(args[1]) if b else NONE) for s, b in ai.fork(st, args[0])]


@last('Result::is_ok_and')
def ris_ok_and(ai, st, c, args, site):
    out = []
    for s, t, p in res_cases(ai, st, args[0]):
        out += ai.call_value(s, args[1], [p], site) if t == 'Ok' else [(s, FALSE)]
    return out


@last('Result::unwrap_or')
def runwrapor(ai, st, c, args, site):
    return [(s, p if t == 'Ok' else args[1]) for s, t, p in res_cases(ai, st, args[0])]


@last('Result::or_else')
def rorelse(ai, st, c, args, site):
    out = []
    for s, t, p in res_cases(ai, st, args[0]):
        out += [(s, ok(p))] if t == 'Ok' else ai.call_value(s, args[1], [p], site)
    return out


@last('Result::map_err')
def rmaperr(ai, st, c, args, site):
    out = []
    for s, t, p in res_cases(ai, st, args[0]):
        if t == 'Ok':
            out.append((s, ok(p)))
        else:
            out += [(s2, mk('adt', RES, 'Err', ('0',), v)) for s2, v in ai.call_value(s, args[1], [p], site)]
    return out


@last('Result::map')
def rmap(ai, st, c, args, site):
    out = []
    for s, t, p in res_cases(ai, st, args[0]):
        if t == 'Err':
            out.append((s, mk('adt', RES, 'Err', ('0',), p)))
        else:
            out += [(s2, ok(v)) for s2, v in ai.call_value(s, args[1], [p], site)]
    return out


@last('Result::and_then')
def randthen(ai, st, c, args, site):
    out = []
    for s, t, p in res_cases(ai, st, args[0]):
        if t == 'Err':
            out.append((s, mk('adt', RES, 'Err', ('0',), p)))
        else:
            out += ai.call_value(s, args[1], [p], site)
    return out


@last('Result::and')
def rand_(ai, st, c, args, site):
    out = []
    for s, t, p in res_cases(ai, st, args[0]):
        out.append((s, args[1] if t == 'Ok' else mk('adt', RES, 'Err', ('0',), p)))
    return out


@last('Result::ok')
def rok(ai, st, c, args, site):
    return [(s, some(p) if t == 'Ok' else NONE) for s, t, p in res_cases(ai, st, args[0])]


CF = 'core::ops::control_flow::ControlFlow'


@last('Try::branch')
def trybranch(ai, st, c, args, site):
    sty = c.get('self_ty', '')
    out = []
    if 'option::Option' in sty.split('<')[0]:
        for s, p, v in opt_cases(ai, st, args[0]):
            if p is None:
                out.append((s, mk('adt', CF, 'Break', ('0',), NONE)))
            else:
                out.append((s, mk('adt', CF, 'Continue', ('0',), p)))
        return out
    for s, t, p in res_cases(ai, st, args[0]):
        if t == 'Ok':
            out.append((s, mk('adt', CF, 'Continue', ('0',), p)))
        else:
            out.append((s, mk('adt', CF, 'Break', ('0',), mk('adt', RES, 'Err', ('0',), p))))
    return out


@last('FromResidual::from_residual')
def fromres(ai, st, c, args, site):
    return [(st, args[0])]


# ---------------------------------------------------------------- temporaries
def tmpref(ai, st, v):
    ai.fid += 1
    root = mk('H', 'tmp', ai.fid)
    st = st.copy()
    st.store[root] = {(): v}
    return mk('ref', place(root)), st


def freeze(ai, st, cl):
    """closure value whose captured references to locals outlive the frame"""
    if cl.op != 'closure':
        return cl, st
    ops = []
    for v in cl.a[1:]:
        if v.op == 'ref' and isinstance(v.a[0].a[0], T) and v.a[0].a[0].op not in ('M', 'H'):
            v, st = tmpref(ai, st, ai.deref(st, v))
        ops.append(v)
    return mk('closure', cl.a[0], *ops), st


# ---------------------------------------------------------------- Vec / slices
@m('std::vec::Vec::new', 'std::vec::Vec::with_capacity', 'std::collections::VecDeque::new')
def vnew(ai, st, c, args, site):
    return [(st, mk('array'))]


@last('Vec::len', 'slice::len', 'VecDeque::len')
def vlen(ai, st, c, args, site):
    return [(st, length(ai.deref(st, args[0])))]


def length(v):
    if v.op == 'array':
        return num(len(v.a))
    if v.op == 'push':
        n = length(v.a[0])
        return mk('bin', 'Add', n, num(1)) if not isconst(n) else num(n.a[0] + 1)
    return mk('len', v)


@last('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'HashMap::is_empty', 'HashSet::is_empty')
def vempty(ai, st, c, args, site):
    v = ai.deref(st, args[0])
    if v.op in ('mput', 'map0'):
        e = entries(ai, st, v)
        if e is not None:
            return [(st, FALSE if e else TRUE)]
    return [(st, ai.binop('Eq', length(ai.deref(st, args[0])), num(0)))]


def vidx(ai, st, ix):
    return mk('ix', ix)


@m('std::ops::Index::index', 'std::ops::IndexMut::index_mut')
def index(ai, st, c, args, site):
    sty = c.get('self_ty', '')
    r = c.get('resolved_name', '')
    if 'Vec' in r or 'slice' in r or 'array' in r or sty.startswith('[') or sty.startswith('std::vec::Vec') or 'VecDeque' in sty:
        p = ai.deref_place(args[0])
        if args[1].op == 'adt' and 'range' in args[1].a[0].lower():
            if ai.concrete and 'IndexMut' not in c['name'] + c.get('id', ''):
                sub = subarray(ai, st, ai.read(st, p), args[1], site)
                if sub is False:
                    return []
                if sub is not None:
                    r, s = tmpref(ai, st, sub)
                    return [(s, r)]
            return [(st, mk('ref', pl_ext(p, mk('ix', args[1]))))]
        if ai.concrete and isconst(args[1]):
            v = ai.read(st, p)
            if v.op == 'array' and args[1].a[0] >= len(v.a):
                ai.panic(st, 'index out of bounds', site)
                return []
        return [(st, mk('ref', pl_ext(p, vidx(ai, st, args[1]))))]
    if 'HashMap' in r or 'HashMap' in sty:
        mp = ai.deref(st, args[0])
        k = ai.deref(st, args[1])
        return mapget(ai, st, mp, k, site, index=True)
    # foreign containers (matrices ...): place extended by the index
    p = ai.deref_place(args[0])
    return [(st, mk('ref', pl_ext(p, mk('ix', args[1]))))]


def subarray(ai, st, v, r, site):
    """part of an array; False: out of bounds"""
    kind, f = r.a[0].split('::')[-1], dict(zip(r.a[2], r.a[3:]))
    if v.op != 'array' or kind not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull') or not all(isconst(x) for x in f.values()):
        return None
    lo, hi = (f[k].a[0] if k in f else d for k, d in (('start', 0), ('end', len(v.a))))
    if not 0 <= lo <= hi <= len(v.a):
        ai.panic(st, 'range out of bounds', site)
        return False
    return mk('array', *v.a[lo:hi])


@last('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut')
def vget(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    cond = ai.binop('Lt', args[1], length(v))
    return [(s, some(mk('ref', pl_ext(p, vidx(ai, s, args[1])))) if b else NONE) for s, b in ai.fork(st, cond)]


@last('Vec::push', 'VecDeque::push_back', 'BinaryHeap::push')
def vpush(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    nv = mk('array', *(old.a + (args[1],))) if old.op == 'array' and len(old.a) < (64 if ai.concrete else 12) else mk('push', old, args[1])
    ai.write(st, p, nv, site)
    st.event('push', p, args[1], site)
    return [(st, UNIT)]


@last('Vec::pop', 'VecDeque::pop_front', 'BinaryHeap::pop', 'VecDeque::pop_back')
def vpop(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    if old.op == 'array' and not old.a:
        return [(st, NONE)]
    if old.op in ('array', 'push') and 'pop_front' not in c['name'] and 'Heap' not in c['name']:
        st = st.copy()
        if old.op == 'array':
            ai.write(st, p, mk('array', *old.a[:-1]), site)
        else:
            ai.write(st, p, old.a[0], site)
        return [(st, some(old.a[-1]))]
    out = []
    for s, b in ai.fork(st, ai.binop('Eq', length(old), num(0))):
        s = s.copy()
        if b:
            out.append((s, NONE))
        else:
            ai.write(s, p, mk('popped', old), site)
            s.event('pop', p, mk('popitem', old), site)
            out.append((s, some(mk('popitem', old))))
    return out


@last('Vec::clear', 'HashMap::clear', 'HashSet::clear', 'VecDeque::clear')
def vclear(ai, st, c, args, site):
    st = st.copy()
    ai.write(st, ai.deref_place(args[0]), mk('array'), site)
    return [(st, UNIT)]


@last('Vec::extend', 'Extend::extend', 'Vec::append', 'Vec::extend_from_slice')
def vextend(ai, st, c, args, site):
    out = []
    p = ai.deref_place(args[0])
    src = args[1]
    if 'append' in c['name'] or 'from_slice' in c['name']:
        src = mk('it', 'ref', args[1])
    for s, it in collect_term(ai, st, src, site):
        s = s.copy()
        old = ai.read(s, p)
        it0 = it
        if ai.concrete and it.op == 'it' and it.a[0] == 'ref' and ai.deref(s, it.a[1]).op == 'array':
            it0 = ai.deref(s, it.a[1])
            if 'append' in c['name']:
                ai.write(s, ai.deref_place(it.a[1]), mk('array'), site)
        if ai.concrete and old.op == 'array' and it0.op == 'array':
            ai.write(s, p, mk('array', *(old.a + it0.a)), site)
            s.event('extend', p, it0, site)
            out.append((s, UNIT))
            continue
        ai.write(s, p, mk('extend', old, it), site)
        s.event('extend', p, it, site)
        out.append((s, UNIT))
    return out


@last('slice::last', 'slice::first', 'slice::last_mut', 'slice::first_mut')
def vlast(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    isl = 'last' in c['name'].split('::')[-1]
    out = []
    for s, b in ai.fork(st, ai.binop('Eq', length(v), num(0))):
        if b:
            out.append((s, NONE))
        else:
            ixv = num(0) if not isl else ai.binop('Sub', length(v), num(1))
            out.append((s, some(mk('ref', pl_ext(p, mk('ix', ixv))))))
    return out


def _rot(back):
    def f(ai, st, c, args, site):
        p = ai.deref_place(args[0])
        v = ai.read(st, p)
        if v.op != 'array' or not isconst(args[1]) or args[1].a[0] > len(v.a):
            return None
        k = args[1].a[0]
        if back:
            k = len(v.a) - k
        st = st.copy()
        ai.write(st, p, mk('array', *(v.a[k:] + v.a[:k])), site)
        return [(st, UNIT)]
    return f


last('slice::rotate_right')(_rot(True))
last('slice::rotate_left')(_rot(False))


@last('slice::reverse')
def vreverse(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    if v.op != 'array':
        return None
    st = st.copy()
    ai.write(st, p, mk('array', *v.a[::-1]), site)
    return [(st, UNIT)]


@last('slice::swap')
def vswap(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    a, b = pl_ext(p, mk('ix', args[1])), pl_ext(p, mk('ix', args[2]))
    x, y = ai.read(st, a), ai.read(st, b)
    ai.write(st, a, y, site)
    ai.write(st, b, x, site)
    return [(st, UNIT)]


# ---------------------------------------------------------------- maps (uninterpreted, functional)
@m('std::collections::HashMap::new', 'std::collections::HashSet::new', 'std::collections::BTreeMap::new',
   'std::collections::BTreeSet::new', 'std::collections::HashMap::with_capacity', 'std::collections::HashSet::with_capacity')
def mapnew(ai, st, c, args, site):
    return [(st, mk('map0'))]


def lookup(ai, st, mp, k):
    """the value at a key of a literal map or set; False: certainly absent; None: unknown"""
    if not ai.concrete:
        return None
    entries = []
    x = mp
    while x.op == 'mput':
        entries.append((x.a[1], x.a[2]))
        x = x.a[0]
    if x.op == 'array':
        entries += [(y.a[0], y.a[1]) if y.op == 'tuple' and len(y.a) == 2 else (y, UNIT) for y in reversed(x.a)]
    elif x.op != 'map0':
        return None
    for y, v in entries:
        e = same_key(ai, st, y, k)
        if e:
            return v
        if e is None:
            return None
    return False


def same_key(ai, st, a, b):
    a, b = deep(ai, st, a), deep(ai, st, b)
    if a.op == 'tuple' and b.op == 'tuple' and len(a.a) == len(b.a):
        r = [same_key(ai, st, x, y) for x, y in zip(a.a, b.a)]
        return False if False in r else None if None in r else True
    e = ai.binop('Eq', a, b)
    if e is TRUE or e is FALSE:
        return e is TRUE
    d = ai.decide(st, e)
    return None if d is None else d == 1


def entries(ai, st, mp):
    """the (key, value) pairs of a literal map or set without shadowed ones, oldest first, or None"""
    if not ai.concrete:
        return None
    out = []
    while mp.op == 'mput':
        out.append((mp.a[1], mp.a[2]))
        mp = mp.a[0]
    if mp.op == 'array':
        out += [(y.a[0], y.a[1]) if y.op == 'tuple' and len(y.a) == 2 else (y, UNIT) for y in reversed(mp.a)]
    elif mp.op != 'map0':
        return None
    res = []
    for k, v in out:
        for k2, _ in res:
            e = same_key(ai, st, k, k2)
            if e:
                break
            if e is None:
                return None
        else:
            res.append((k, v))
    return res[::-1]


@last('HashMap::len', 'HashSet::len', 'BTreeMap::len', 'BTreeSet::len')
def maplen(ai, st, c, args, site):
    e = entries(ai, st, ai.deref(st, args[0]))
    return None if e is None else [(st, num(len(e)))]


@last('HashMap::entry', 'BTreeMap::entry')
def mapentry(ai, st, c, args, site):
    return [(st, mk('hentry', args[0], args[1]))] if ai.concrete and args[0].op == 'ref' else None


@last('Entry::or_insert', 'Entry::or_insert_with')
def or_insert(ai, st, c, args, site):
    e = args[0]
    if e.op != 'hentry':
        return None
    p = ai.deref_place(e.a[0])
    old = ai.read(st, p)
    v = lookup(ai, st, old, e.a[1])
    if v is None:
        return None
    outs = []
    for s, w in ([(st, v)] if v is not False else [(st, args[1])] if c['name'].endswith('or_insert') else ai.call_value(st, args[1], [], site)):
        # changes through the returned reference are not followed, so only values that are not counted up or extended
        if w.op not in ('alloc', 'p', 'ini', 'ref', 'app'):
            return None
        if v is False:
            s = s.copy()
            ai.write(s, p, mk('mput', ai.read(s, p), e.a[1], w), site)
            s.event('mput', p, e.a[1], w, site)
        r, s = tmpref(ai, s, w)
        outs.append((s, r))
    return outs


@last('HashMap::remove', 'HashSet::remove', 'BTreeMap::remove', 'BTreeSet::remove')
def mapremove(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    e = entries(ai, st, old)
    k = ai.deref(st, args[1])
    v = lookup(ai, st, old, k)
    if e is None or v is None:
        return None
    isset = 'Set' in c.get('resolved_name', '') + c.get('name', '') + c['id']
    if v is False:
        return [(st, FALSE if isset else NONE)]
    new = mk('map0')
    for y, w in e:
        if not same_key(ai, st, y, k):
            new = mk('mput', new, y, w)
    st = st.copy()
    ai.write(st, p, new, site)
    return [(st, TRUE if isset else some(v))]


def mapget(ai, st, mp, k, site, index=False):
    x = mp
    v = lookup(ai, st, mp, k)
    if v is False and index:
        ai.panic(st, 'access to a key that does not exist', site)
        return []
    if v is False:
        return [(st, NONE)]
    if v is not None:
        r, s = tmpref(ai, st, v)
        return [(s, r if index else some(r))]
    while x.op == 'mput':
        if ai.equal(st, x.a[1], k):
            v = x.a[2]
            if index:
                r, s = tmpref(ai, st, v)
                return [(s, r)]
            r, s = tmpref(ai, st, v)
            return [(s, some(r))]
        x = x.a[0]
    v = mk('mget', mp, k)
    if index:
        ai_note(st, 'mapindex', mp, k, site)
        r, s = tmpref(ai, st, v)
        return [(s, r)]
    out = []
    for s, b in ai.fork(st, mk('mhas', mp, k)):
        if b:
            r, s = tmpref(ai, s, v)
            out.append((s, some(r)))
        else:
            out.append((s, NONE))
    return out


def ai_note(st, *e):
    st.event(*e)


@last('HashMap::get', 'BTreeMap::get', 'HashMap::get_mut')
def hget(ai, st, c, args, site):
    return mapget(ai, st, ai.deref(st, args[0]), ai.deref(st, args[1]), site)


@last('HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key', 'BTreeSet::contains')
def hcontains(ai, st, c, args, site):
    mp, k = ai.deref(st, args[0]), ai.deref(st, args[1])
    v = lookup(ai, st, mp, k)
    if v is not None:
        return [(st, FALSE if v is False else TRUE)]
    x = mp
    while x.op == 'mput':
        if ai.equal(st, x.a[1], k):
            return [(st, TRUE)]
        x = x.a[0]
    return [(st, mk('mhas', mp, k))]


@last('HashMap::insert', 'BTreeMap::insert')
def hinsert(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    ai.write(st, p, mk('mput', old, args[1], args[2]), site)
    st.event('mput', p, args[1], args[2], site)
    v = lookup(ai, st, old, args[1])
    if v is not None:
        return [(st, NONE if v is False else some(v))]
    return [(st, mk('mprev', old, args[1]))]


@last('HashSet::insert', 'BTreeSet::insert')
def sinsert(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    old = ai.read(st, p)
    ai.write(st, p, mk('mput', old, args[1], UNIT), site)
    st.event('mput', p, args[1], UNIT, site)
    v = lookup(ai, st, old, args[1])
    if v is not None:
        return [(st, TRUE if v is False else FALSE)]
    return [(st, not_(mk('mhas', old, args[1])))]


# ---------------------------------------------------------------- iterators
def base_item(it, k):
    return mk('item', it, k)


def strip_adv(it):
    n = 0
    while it.op == 'adv':
        n += 1
        it = it.a[0]
    return it, n


LAZY = {'map', 'filter', 'filter_map', 'enumerate', 'zip', 'rev', 'skip', 'take', 'step_by', 'cloned', 'copied',
        'chain', 'flat_map', 'peekable', 'take_while', 'skip_while', 'inspect', 'flatten', 'cycle', 'fuse', 'windows',
        'chunks', 'by_ref', 'scan', 'map_while', 'dedup', 'tuple_windows', 'circular_tuple_windows', 'unique', 'sorted',
        'sorted_by', 'tuple_combinations', 'tuples', 'interleave', 'cartesian_product', 'multipeek'}


def tuple_arity(ty):
    d = n = 0
    for ch in ty[1:-1]:
        d += ch in '<([{'
        d -= ch in '>)]}'
        n += ch == ',' and d == 0
    return n + 1 if ty.startswith('(') and not ty.rstrip(')').endswith(',') else 2


def _lazy(name):
    def f(ai, st, c, args, site):
        a = list(args)
        if name in ('zip', 'chain'):
            outs = []
            for s, v in as_iter(ai, st, a[1], site):
                outs.append((s, mk('it', name, a[0], v)))
            return outs
        if name == 'by_ref':
            return [(st, a[0])]
        if name == 'flat_map' and len(c.get('args', ())) > 1 and c['args'][1].startswith(('std::option::Option<', 'core::option::Option<')):
            return [(st, mk('it', 'filter_map', *a))]
        if name.endswith('tuple_windows'):
            a.append(tuple_arity(c['args'][1] if len(c.get('args', ())) > 1 else ''))
        return [(st, mk('it', name, *a))]
    return f


for _n in LAZY:
    MODELS['std::iter::Iterator::' + _n] = _lazy(_n)
    MODELS['itertools::Itertools::' + _n] = _lazy(_n)
MODELS['itertools::Itertools::sorted_by_key'] = _lazy('sorted')


def as_iter(ai, st, v, site):
    """value of IntoIterator::into_iter(v)"""
    if v.op in ('it', 'adv'):
        return [(st, v)]
    if v.op == 'adt' and v.a[0] == OPT:
        return [(st, mk('it', 'val', mk('array', *v.a[3:])))]
    if v.op == 'adt':
        if v.a[0] in ('core::ops::range::Range', 'core::ops::range::RangeInclusive', 'core::ops::range::RangeFrom'):
            return [(st, mk('it', 'range', v))]
        return [(st, v)]
    if v.op == 'ref':
        return [(st, mk('it', 'ref', v))]
    if v.op in ('coll', 'array', 'push', 'extend'):
        return [(st, mk('it', 'val', v))]
    return [(st, mk('it', 'val', v))]


@m('std::iter::IntoIterator::into_iter')
def into_iter(ai, st, c, args, site):
    sty = c.get('self_ty', '')
    v = args[0]
    if sty.startswith(('std::option::Option<', 'core::option::Option<')):
        return [(s, mk('it', 'val', mk('array', *([] if x is None else [x])))) for s, x, _ in opt_cases(ai, st, v)]
    if v.op == 'ref' and sty.startswith('&'):
        inner = ai.deref(st, v)
        return [(st, mk('it', 'ref', v))]
    return as_iter(ai, st, v, site)


@last('slice::iter', 'slice::iter_mut', 'Vec::iter', 'VecDeque::iter', 'HashSet::iter', 'HashMap::iter', 'HashMap::values',
      'HashMap::keys', 'HashMap::values_mut', 'HashMap::iter_mut', 'BTreeMap::iter', 'BTreeMap::values', 'BTreeMap::keys')
def slice_iter(ai, st, c, args, site):
    nm = c['name'].split('::')[-1]
    if nm in ('iter', 'iter_mut') and 'Map' not in c['name']:
        return [(st, mk('it', 'ref', args[0]))]
    return [(st, mk('it', nm, args[0]))]


@last('Vec::drain', 'Vec::into_iter')
def vdrain(ai, st, c, args, site):
    st = st.copy()
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    ai.write(st, p, mk('array'), site)
    return [(st, mk('it', 'val', v))]


@m('std::iter::once')
def once(ai, st, c, args, site):
    return [(st, mk('it', 'val', mk('array', args[0])))]


@m('std::iter::empty')
def empty(ai, st, c, args, site):
    return [(st, mk('it', 'val', mk('array')))]


@m('std::iter::repeat')
def repeat(ai, st, c, args, site):
    return [(st, mk('it', 'repeat', args[0]))]


def summarised(ai, v):
    return v.op == 'adt' and ai.dom is not None and hasattr(ai.dom, 'is_summarised') and ai.dom.is_summarised(v)


def local_next(ai, v, unroll=False):
    """local impl of Iterator::next for an ADT value"""
    if not unroll and summarised(ai, v):
        return None
    if v.op == 'adt' and v.a[0] in ai.P.adts:
        for im in ai.P.impls:
            if im.get('self_adt') == v.a[0] and im.get('trait', '').endswith('::Iterator'):
                for fid, tid in im['items']:
                    if tid and tid.endswith('::next') and fid in ai.P.fns:
                        return fid
    return None


def gen_item(ai, st, it, k, site):
    """generic element(s) of an iterator value: [(state, item, next-iterator)]; k tags the draw.
    Only the 'there is an element' case; emptiness is handled by the caller."""
    it0 = it
    it, n = strip_adv(it)
    kk = k if n == 0 else (k, n) if not isinstance(k, tuple) else k
    tag = str(k) if n == 0 else '%s+%d' % (k, n)
    adv = mk('adv', it0)
    if ai.dom and hasattr(ai.dom, 'gen_item'):
        r = ai.dom.gen_item(ai, st, it, tag, site)
        if r is not None:
            return [(s, v, adv) for s, v in r]
    if it.op == 'it':
        kind = it.a[0]
        if kind == 'ref':
            p = ai.deref_place(it.a[1])
            v = ai.read(st, p)
            if v.op == 'array':
                if tag.isdigit() or True:
                    idx = n if k != '*' else None
                    if idx is not None and idx < len(v.a):
                        return [(st, mk('ref', pl_ext(p, mk('ix', num(idx)))), adv)]
                    if idx is not None:
                        return []
                    return [(st, mk('ref', pl_ext(p, mk('ix', num(i)))), adv) for i in range(len(v.a))]
            if v.op == 'coll':
                r, s = tmpref(ai, st, subst(v.a[1], {mk('star'): mk('tag', tag, it)}))
                return [(s, r, adv)]
            if v.op == 'push' and k == '*':
                outs = []
                x = v
                while x.op == 'push':
                    r, s = tmpref(ai, st, x.a[1])
                    outs.append((s, r, adv))
                    x = x.a[0]
                return outs
            return [(st, mk('ref', pl_ext(p, mk('ix', base_item(mk('it', 'idx', it.a[1]), tag)))), adv)]
        if kind == 'val':
            v = it.a[1]
            if v.op == 'array':
                if k == '*':
                    return [(st, x, adv) for x in v.a]
                return [(st, v.a[n], adv)] if n < len(v.a) else []
            if v.op == 'coll':
                return [(st, subst(v.a[1], {mk('star'): mk('tag', tag, it)}), adv)]
            return [(st, base_item(it, tag), adv)]
        if kind == 'range':
            return [(st, base_item(it, tag), adv)]
        if kind == 'map':
            out = []
            for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site):
                for s2, v in ai.call_value(s, it.a[2], [x], site):
                    out.append((s2, v, adv))
            return out
        if kind == 'filter':
            out = []
            for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site):
                r, s = tmpref(ai, s, x)
                for s2, v in ai.call_value(s, it.a[2], [r], site):
                    s2 = s2.copy()
                    if ai.assume(s2, v, 1):
                        out.append((s2, x, adv))
            return out
        if kind in ('filter_map', 'map_while'):
            out = []
            for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site):
                for s2, v in ai.call_value(s, it.a[2], [x], site):
                    for s3, p, _ in opt_cases(ai, s2, v):
                        if p is not None:
                            out.append((s3, p, adv))
            return out
        if kind in ('take_while', 'skip_while'):
            out = []
            for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site):
                r, s = tmpref(ai, s, x)
                for s2, v in ai.call_value(s, it.a[2], [r], site):
                    s2 = s2.copy()
                    if kind == 'take_while' and not ai.assume(s2, v, 1):
                        continue
                    out.append((s2, x, adv))
            return out
        if kind == 'enumerate':
            return [(s, mk('tuple', num(n) if k != '*' else base_item(mk('it', 'count', it), tag), x), adv)
                    for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site)]
        if kind == 'zip':
            out = []
            for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site):
                for s2, y, _ in gen_item(ai, s, readvance(it.a[2], n), k, site):
                    out.append((s2, mk('tuple', x, y), adv))
            return out
        if kind in ('rev', 'skip', 'take', 'step_by', 'peekable', 'fuse', 'inspect', 'cycle', 'unique', 'sorted', 'sorted_by', 'dedup'):
            inner = it.a[1]
            lbl = kind + str(tag)
            if kind in ('take', 'peekable', 'fuse', 'inspect'):
                return [(s, x, adv) for s, x, _ in gen_item(ai, st, readvance(inner, n), k, site)]
            return [(s, x, adv) for s, x, _ in gen_item(ai, st, inner, '%s.%s' % (kind, tag), site)]
        if kind in ('cloned', 'copied'):
            return [(s, ai.deref(s, x), adv) for s, x, _ in gen_item(ai, st, readvance(it.a[1], n), k, site)]
        if kind == 'chain':
            out = []
            for sub in it.a[1:3]:
                out += [(s, x, adv) for s, x, _ in gen_item(ai, st, sub, tag, site)]
            return out
        if kind == 'flatten':
            inner = gen_item(ai, st, it.a[1], tag, site)
            if inner and all(is_opt(x) for _, x, _ in inner):
                return [(s2, p, adv) for s, x, _ in inner for s2, p, _ in opt_cases(ai, s, x) if p is not None]
        if kind in ('flat_map',):
            out = []
            for s, x, _ in gen_item(ai, st, it.a[1], tag, site):
                for s2, v in ai.call_value(s, it.a[2], [x], site):
                    for s3, v3 in as_iter(ai, s2, v, site):
                        out += [(s4, y, adv) for s4, y, _ in gen_item(ai, s3, v3, tag, site)]
            return out
        if kind in ('tuple_windows', 'circular_tuple_windows', 'tuples', 'tuple_combinations'):
            ar = 3 if False else None
            outs = []
            # consecutive draws of the underlying iterator
            for s, x, _ in gen_item(ai, st, it.a[1], '%s.a%s' % (kind, tag), site):
                for s2, y, _ in gen_item(ai, s, it.a[1], '%s.b%s' % (kind, tag), site):
                    for s3, z, _ in gen_item(ai, s2, it.a[1], '%s.c%s' % (kind, tag), site):
                        outs.append((s3, mk('tuple', x, y, z), adv))
            return outs
    return [(st, base_item(it, tag), adv)]


def readvance(it, n):
    for _ in range(n):
        it = mk('adv', it)
    return it


def may_be_empty_now(ai, it):
    it0, n = strip_adv(it)
    if it0.op == 'it' and it0.a[0] == 'val' and it0.a[1].op == 'array':
        return n >= len(it0.a[1].a)
    return None


def known_exhausted(ai, st, it):
    """True / False / None"""
    it0, n = strip_adv(it)
    if ai.dom is not None and hasattr(ai.dom, 'known_exhausted'):
        r = ai.dom.known_exhausted(ai, st, it0, n)
        if r is not None:
            return r
    if it0.op != 'it':
        return None
    k = it0.a[0]
    if k == 'val' and it0.a[1].op == 'array':
        return n >= len(it0.a[1].a)
    if k == 'ref':
        v = ai.deref(st, it0.a[1])
        if v.op == 'array':
            return n >= len(v.a)
    if k in ('map', 'enumerate', 'cloned', 'copied', 'peekable', 'fuse', 'inspect', 'rev'):
        return known_exhausted(ai, st, readvance(it0.a[1], n))
    if k in ('filter', 'filter_map', 'take_while', 'skip_while', 'skip', 'take') and n == 0:
        return True if known_exhausted(ai, st, it0.a[1]) else None
    if k == 'range':
        r = it0.a[1]
        if r.op == 'adt' and len(r.a) >= 5 and isconst(r.a[3]) and isconst(r.a[4]):
            lo, hi = r.a[3].a[0], r.a[4].a[0]
            if 'Inclusive' in r.a[0]:
                hi += 1
            return lo + n >= hi
    return None


# ---------------------------------------------------------------- unrolled draws (domain with summarise=False)
ELEMWISE = ('map', 'filter', 'filter_map', 'map_while', 'take_while', 'skip_while', 'skipped', 'ended', 'cloned', 'copied', 'enumerate', 'inspect', 'fuse', 'peekable', 'take', 'skip', 'chain', 'zip')


def const_range(it):
    """(lo, hi) of a range iterator with constant bounds, hi exclusive (None: unbounded)"""
    r = it.a[1]
    if r.op == 'adt' and len(r.a) >= 4 and isconst(r.a[3]) and isinstance(r.a[3].a[0], int):
        if len(r.a) == 4 or r.a[0].endswith('RangeFrom'):
            return r.a[3].a[0], None
        if isconst(r.a[4]) and isinstance(r.a[4].a[0], int):
            return r.a[3].a[0], r.a[4].a[0] + (1 if 'Inclusive' in r.a[0] else 0)
    return None


def finite(ai, st, it):
    if it.op == 'adv':
        return finite(ai, st, it.a[0])
    if it.op == 'it':
        k = it.a[0]
        if k == 'range':
            return const_range(it)[1] is not None
        if k in ('repeat', 'cycle'):
            return False
        if k in ('take',):
            return True
        if k == 'chain':
            return finite(ai, st, it.a[1]) and finite(ai, st, it.a[2])
        if k == 'zip':
            return finite(ai, st, it.a[1]) or finite(ai, st, it.a[2])
        if k in CONC:
            return finite(ai, st, it.a[1])
    return True


CONC = ('map', 'filter', 'filter_map', 'map_while', 'take_while', 'skip_while', 'skipped', 'ended', 'cloned', 'copied', 'enumerate',
        'inspect', 'fuse', 'peekable', 'take', 'skip', 'chain', 'zip', 'rev', 'step_by', 'cycle', 'flat_map', 'flatten', 'peeked', 'cyc',
        'tuple_windows', 'circular_tuple_windows', 'windows')


def range_it(b):
    """a range value used directly as an iterator"""
    if b.op == 'adt' and b.a[0] in ('core::ops::range::Range', 'core::ops::range::RangeInclusive', 'core::ops::range::RangeFrom'):
        return mk('it', 'range', b)
    return b


def concrete_iter(ai, st, it):
    """all sources of the iterator are literal: arrays and constant ranges"""
    if not ai.concrete:
        return False
    todo = [it]
    while todo:
        x = todo.pop()
        b, n = strip_adv(x)
        b = range_it(b)
        if b.op != 'it':
            if b.op == 'adt' and b is x and local_next(ai, x, True):
                continue
            return False
        k = b.a[0]
        if k == 'val':
            if b.a[1].op != 'array':
                return False
        elif k == 'ref':
            if ai.deref(st, b.a[1]).op != 'array':
                return False
        elif k == 'range':
            if const_range(b) is None:
                return False
        elif k == 'repeat':
            pass
        elif n == 0 and k in ('flat_map', 'flatten'):
            todo.append(b.a[1])
        elif n == 0 and k in CONC:
            todo.append(b.a[1])
            if k in ('chain', 'zip'):
                todo.append(b.a[2])
        else:
            return False
    return True


def unrollable(ai, it, st=None):
    """the chain ends in a local iterator that is analysed step by step"""
    if st is not None and concrete_iter(ai, st, it):
        return True
    if ai.dom is None or getattr(ai.dom, 'summarise', True):
        return False
    found = False
    todo = [it]
    while todo:
        x = todo.pop()
        if x.op == 'adt':
            if not local_next(ai, x, True):
                return False
            found = True
        elif x.op == 'it' and x.a[0] in ELEMWISE:
            todo.append(x.a[1])
            if x.a[0] in ('chain', 'zip'):
                todo.append(x.a[2])
        else:
            b, n = strip_adv(x)
            if not (b.op == 'it' and b.a[0] == 'val' and b.a[1].op == 'array'):
                return False
    return found


def draw(ai, st, it, site):
    """one step of an unrollable iterator value: [(state, item or None, iterator)]"""
    it = range_it(it)
    if it.op == 'adt':
        r, s0 = tmpref(ai, st, it)
        out = []
        for s, o in ai.exec_fn(local_next(ai, it, True), [r], s0):
            for s2, x, _ in opt_cases(ai, s, o):
                out.append((s2, x, ai.deref(s2, r)))
        return out
    b, n = strip_adv(it)
    if b.op == 'it' and b.a[0] == 'val' and b.a[1].op == 'array':
        if n >= len(b.a[1].a):
            return [(st, None, it)]
        return [(st, b.a[1].a[n], mk('adv', it))]
    k = b.a[0]
    if k == 'ref':
        p = ai.deref_place(b.a[1])
        v = ai.read(st, p)
        if n >= len(v.a):
            return [(st, None, it)]
        return [(st, mk('ref', pl_ext(p, mk('ix', num(n)))), mk('adv', it))]
    if k == 'range':
        lo, hi = const_range(b)
        if hi is not None and lo + n >= hi:
            return [(st, None, it)]
        return [(st, mk('c', lo + n, b.a[1].a[3].a[1]), mk('adv', it))]
    if k == 'repeat':
        return [(st, it.a[1], it)]
    if k == 'cyc':
        xs, i = it.a[1], it.a[2]
        if not xs.a:
            return [(st, None, it)]
        return [(st, xs.a[i % len(xs.a)], mk('it', 'cyc', xs, i + 1))]
    if k in ('rev', 'step_by', 'cycle', 'tuple_windows', 'circular_tuple_windows', 'windows'):
        if not finite(ai, st, it.a[1]):
            raise Budget(k + ' of an unbounded iterator')
        out = []
        for s, xs in drain(ai, st, it.a[1], site):
            if k == 'rev':
                ys = xs[::-1]
            elif k == 'step_by':
                if not isconst(it.a[2]):
                    raise Budget('step_by of unknown width')
                ys = xs[::it.a[2].a[0]]
            elif k == 'cycle':
                out += draw(ai, s, mk('it', 'cyc', mk('array', *xs), 0), site)
                continue
            elif k == 'windows':
                w = it.a[2].a[0]
                ys = []
                for i in range(len(xs) - w + 1):
                    r, s = tmpref(ai, s, mk('array', *[ai.deref(s, x) for x in xs[i:i + w]]))
                    ys.append(r)
            else:
                w = it.a[2]
                if k == 'circular_tuple_windows':
                    ys = [mk('tuple', *[xs[(i + j) % len(xs)] for j in range(w)]) for i in range(len(xs))]
                else:
                    ys = [mk('tuple', *xs[i:i + w]) for i in range(len(xs) - w + 1)]
            out += draw(ai, s, mk('it', 'val', mk('array', *ys)), site)
        return out
    if k in ('flat_map', 'flatten'):
        out, work = [], [(st, it.a[1], it.a[-1] if type(it.a[-1]) is T and it.a[-1].op == 'inner' else None, 0)]
        cl = it.a[2] if k == 'flat_map' else None
        while work:
            s, outer, inner, cnt = work.pop()
            if cnt > ai.loop + 1:
                ai.truncated += 1
                continue
            tail = lambda o, i: mk('it', k, o, *(([cl] if cl is not None else []) + ([mk('inner', i)] if i is not None else [])))
            if inner is not None:
                i0 = inner.a[0]
                if not unrollable(ai, i0, s):
                    raise Budget('nested iterator of unknown extent')
                for s2, x, i2 in draw(ai, s, i0, site):
                    if x is None:
                        work.append((s2, outer, None, cnt))
                    else:
                        out.append((s2, x, tail(outer, i2)))
                continue
            for s2, x, o2 in draw(ai, s, outer, site):
                if x is None:
                    out.append((s2, None, tail(o2, None)))
                    continue
                for s3, v in (ai.call_value(s2, cl, [x], site) if cl is not None else [(s2, x)]):
                    for s4, p_, _ in (opt_cases(ai, s3, v) if is_opt(v) else [(s3, v, None)]):
                        if p_ is None:
                            work.append((s4, o2, None, cnt + 1))
                        elif is_opt(v):
                            work.append((s4, o2, mk('inner', mk('it', 'val', mk('array', p_))), cnt + 1))
                        else:
                            work += [(s5, o2, mk('inner', i5), cnt + 1) for s5, i5 in as_iter(ai, s4, v, site)]
        return out
    if k == 'peeked':
        if it.a[2] is None:
            return [(st, None, it)]
        return [(st, it.a[2], mk('it', 'peekable', it.a[1]))]
    if k == 'chain':
        out = []
        for s, x, i2 in draw(ai, st, it.a[1], site):
            if x is None:
                out += [(s2, y, mk('it', 'chain', i2, j)) for s2, y, j in draw(ai, s, it.a[2], site)]
            else:
                out.append((s, x, mk('it', 'chain', i2, it.a[2])))
        return out
    if k == 'zip':
        out = []
        for s, x, i2 in draw(ai, st, it.a[1], site):
            if x is None:
                out.append((s, None, mk('it', 'zip', i2, it.a[2])))
                continue
            for s2, y, j2 in draw(ai, s, it.a[2], site):
                out.append((s2, None if y is None else mk('tuple', x, y), mk('it', 'zip', i2, j2)))
        return out
    if k == 'take':
        c = it.a[2]
        if isconst(c) and c.a[0] <= 0:
            return [(st, None, it)]
        if not isconst(c):
            raise Budget('take of unknown length')
        return [(s, x, mk('it', 'take', i2, num(c.a[0] - 1))) for s, x, i2 in draw(ai, st, it.a[1], site)]
    if k == 'skip':
        c = it.a[2]
        if not isconst(c):
            raise Budget('skip of unknown length')
        work, out = [(st, it.a[1], c.a[0])], []
        while work:
            s, i, m_ = work.pop()
            for s2, x, i2 in draw(ai, s, i, site):
                if x is None or m_ == 0:
                    out.append((s2, x, mk('it', 'skip', i2, num(0))))
                else:
                    work.append((s2, i2, m_ - 1))
        return out
    if k == 'skipped':
        return [(s, x, mk('it', k, i2)) for s, x, i2 in draw(ai, st, it.a[1], site)]
    if k == 'ended':
        return [(st, None, it)]
    out = []
    work = [(st, it.a[1], 0)]
    while work:
        st1, inner, cnt = work.pop()
        if cnt > ai.loop + 1:
            ai.truncated += 1
            continue
        for s, x, i2 in draw(ai, st1, inner, site):
            again = mk('it', k, i2, *it.a[2:])
            if x is None:
                out.append((s, None, again))
            elif k == 'map':
                out += [(s2, v, again) for s2, v in ai.call_value(s, it.a[2], [x], site)]
            elif k in ('cloned', 'copied'):
                out.append((s, ai.deref(s, x), again))
            elif k == 'enumerate':
                c = it.a[2] if len(it.a) > 2 else num(0)
                out.append((s, mk('tuple', c, x), mk('it', k, i2, num(c.a[0] + 1))))
            elif k == 'filter':
                r, s = tmpref(ai, s, x)
                for s2, v in ai.call_value(s, it.a[2], [r], site):
                    for s3, tr in ai.fork(s2, v):
                        if tr:
                            out.append((s3, x, again))
                        else:
                            work.append((s3, i2, cnt + 1))
            elif k in ('take_while', 'skip_while'):
                r, s = tmpref(ai, s, x)
                for s2, v in ai.call_value(s, it.a[2], [r], site):
                    for s3, tr in ai.fork(s2, v):
                        if k == 'take_while':
                            out.append((s3, x, again) if tr else (s3, None, mk('it', 'ended', i2)))
                        elif tr:
                            work.append((s3, i2, cnt + 1))
                        else:
                            out.append((s3, x, mk('it', 'skipped', i2)))
            elif k in ('filter_map', 'map_while'):
                for s2, v in ai.call_value(s, it.a[2], [x], site):
                    for s3, y, _ in opt_cases(ai, s2, v):
                        if y is None and k == 'map_while':
                            out.append((s3, None, mk('it', 'ended', i2)))
                        elif y is None:
                            work.append((s3, i2, cnt + 1))
                        else:
                            out.append((s3, y, again))
            else:
                out.append((s, x, again))
    return out


def drain(ai, st, it, site):
    """all elements of an unrollable iterator: [(state, [items])], at most LOOP+1 elements"""
    outs, work = [], [(st, it, ())]
    while work:
        s, i, acc = work.pop()
        for s2, x, i2 in draw(ai, s, i, site):
            if x is None:
                outs.append((s2, acc))
            elif len(acc) > ai.loop + (24 if ai.concrete else 0):
                ai.truncated += 1
            else:
                work.append((s2, i2, acc + (x,)))
    return outs


def drive_value(ai, st, it, site, body, done):
    outs, work = [], [(st, it, 0)]
    while work:
        s, i, n = work.pop()
        if n > ai.loop + (24 if ai.concrete else 0):
            ai.truncated += 1
            continue
        for s2, x, i2 in draw(ai, s, i, site):
            if x is None:
                outs.append((s2, done))
                continue
            for s4, r in body(s2, x):
                if r is None:
                    work.append((s4, i2, n + 1))
                else:
                    outs.append((s4, r))
    return outs


def exh_cond(it):
    # adaptors that draw one element of their source per element end with it
    base, n = strip_adv(it)
    while base.op == 'it' and base.a[0] in ('map', 'enumerate', 'cloned', 'copied', 'inspect', 'rev') and type(base.a[1]) is T and base.a[1].op in ('it', 'adv'):
        base, k = strip_adv(base.a[1])
        n += k
    return mk('exhausted', readvance(base, n))


@m('std::iter::Iterator::next')
def inext(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    it = ai.read(st, p)
    if it.op == 'adt':
        fid = local_next(ai, it, True)
        if fid:
            return ai.exec_fn(fid, [args[0]], st)
        for s, it in as_iter(ai, st, it, site):
            st = s
    if ai.stepwise and it.op == 'it' and it.a[0] == 'map' and it.a[1].op == 'adt' and local_next(ai, it.a[1], True):
        src, st = tmpref(ai, st, it.a[1])
        out = []
        for s, o in ai.exec_fn(local_next(ai, it.a[1], True), [src], st):
            for s2, x, _ in opt_cases(ai, s, o):
                s2 = s2.copy()
                ai.write(s2, p, mk('it', 'map', ai.deref(s2, src), *it.a[2:]), site)
                if x is None:
                    out.append((s2, NONE))
                else:
                    out += [(s3, some(y)) for s3, y in ai.call_value(s2, it.a[2], [x], site)]
        return out
    if it.op == 'it' and it.a[0] == 'peeked':
        s = st.copy()
        ai.write(s, p, it if it.a[2] is None else it.a[1], site)
        return [(s, NONE if it.a[2] is None else some(it.a[2]))]
    if unrollable(ai, it, st):
        out = []
        for s, x, i2 in draw(ai, st, it, site):
            s = s.copy()
            ai.write(s, p, i2, site)
            out.append((s, NONE if x is None else some(x)))
        return out
    k = known_exhausted(ai, st, it)
    out = []
    for s, b in ([(st, k)] if k is not None else ai.fork(st, exh_cond(it))):
        if b:
            out.append((s, NONE))
        else:
            for s2, x, nx in gen_item(ai, s, it, 'n', site):
                s2 = s2.copy()
                ai.write(s2, p, nx, site)
                out.append((s2, some(x)))
    return out


def peeked(ai, st, c, p, site):
    """draw ahead: [(state, item or None, rest)]; the iterator at p keeps the item"""
    it = ai.read(st, p)
    if it.op == 'it' and it.a[0] == 'peeked':
        return [(st, it.a[2], it.a[1])]
    if it.op == 'it' and it.a[0] == 'peekable':
        it = it.a[1]
    ref, st = tmpref(ai, st, it)
    out = []
    for s, o in inext(ai, st, c, [ref], site) or ():
        for s2, x, _ in opt_cases(ai, s, o):
            s2 = s2.copy()
            nx = ai.deref(s2, ref)
            ai.write(s2, p, mk('it', 'peeked', nx, x), site)
            out.append((s2, x, nx))
    return out


@last('Peekable::peek')
def ipeek(ai, st, c, args, site):
    out = []
    for s, x, _ in peeked(ai, st, c, ai.deref_place(args[0]), site):
        if x is None:
            out.append((s, NONE))
        else:
            r, s = tmpref(ai, s, x)
            out.append((s, some(r)))
    return out


@last('Peekable::next_if')
def inext_if(ai, st, c, args, site):
    out = []
    p = ai.deref_place(args[0])
    for s, x, nx in peeked(ai, st, c, p, site):
        if x is None:
            out.append((s, NONE))
            continue
        r, s = tmpref(ai, s, x)
        for s2, v in ai.call_value(s, args[1], [r], site):
            for s3, t in ai.fork(s2, v):
                if t:
                    s3 = s3.copy()
                    ai.write(s3, p, mk('it', 'peekable', nx), site)
                out.append((s3, some(x) if t else NONE))
    return out


@m('std::iter::Iterator::for_each')
def for_each(ai, st, c, args, site):
    it = args[0]
    if it.op == 'adt':
        fid = local_next(ai, it)
        if fid:
            return drive(ai, st, it, fid, site, lambda s, x: [(s2, None) for s2, v in ai.call_value(s, args[1], [x], site)], UNIT)
        for s, it in as_iter(ai, st, it, site):
            st = s
    if unrollable(ai, it, st):
        return drive_value(ai, st, it, site, lambda s, x: [(s2, None) for s2, v in ai.call_value(s, args[1], [x], site)], UNIT)
    if ai.stepwise:
        return [(s, UNIT) for s, _ in steps(ai, st, c, it, site, UNIT, lambda s, acc, x: [(s2, UNIT) for s2, _v in ai.call_value(s, args[1], [x], site)])]
    out = []
    k = known_exhausted(ai, st, it)
    for s, b in ([(st, k)] if k is not None else ai.fork(st, exh_cond(it))):
        if b:
            out.append((s, UNIT))
            continue
        for s2, x, _ in gen_item(ai, s, it, '*', site):
            s2 = s2.copy()
            s2.event('forall+', it, x, site)
            for s3, v in ai.call_value(s2, args[1], [x], site):
                s3 = s3.copy()
                s3.event('forall-', it, x, site)
                out.append((s3, UNIT))
    return out


def steps(ai, st, c, it, site, acc, body, stop=False):
    """draw the elements one after the other (at most LOOP)"""
    ref, st = tmpref(ai, st, it)
    outs, work = [], [(st, acc, 0)]
    while work:
        s, a, n = work.pop()
        if n > ai.loop:
            ai.truncated += 1
            continue
        cap = ai.steplimit and ai.steplimit(it)
        for s2, o in inext(ai, s, c, [ref], site) or []:
            for s3, x, _ in opt_cases(ai, s2, o):
                if x is None:
                    outs.append((s3, a))
                elif cap is None or cap is False or n < cap:
                    for s4, a2 in body(s3, a, x):
                        if stop and a2 is not None:
                            outs.append((s4, a2))
                        else:
                            work.append((s4, a2, n + 1))
    return outs


def drive(ai, st, it, fid, site, body, done):
    """repeatedly call a local `next` (at most LOOP times) and run body on the element"""
    ref, st = tmpref(ai, st, it)
    outs = []
    work = [(st, 0)]
    while work:
        s, n = work.pop()
        if n > ai.loop:
            ai.truncated += 1
            continue
        for s2, o in ai.exec_fn(fid, [ref], s):
            for s3, p, _ in opt_cases(ai, s2, o):
                if p is None:
                    outs.append((s3, done))
                else:
                    for s4, r in body(s3, p):
                        if r is None:
                            work.append((s4, n + 1))
                        else:
                            outs.append((s4, r))
    return outs


@m('std::iter::Iterator::find')
def ifind(ai, st, c, args, site):
    return find_like(ai, st, args, site, 'find')


@m('std::iter::Iterator::find_map')
def ifindmap(ai, st, c, args, site):
    return find_like(ai, st, args, site, 'find_map')


@m('std::iter::Iterator::any')
def iany(ai, st, c, args, site):
    return find_like(ai, st, args, site, 'any')


@m('std::iter::Iterator::eq', 'std::iter::Iterator::ne')
def iter_eq(ai, st, c, args, site):
    its = []
    for a in args:
        for s, i in as_iter(ai, st, a, site) if a.op not in ('it', 'adv') else [(st, a)]:
            st = s
        its.append(i)
    if not ai.concrete or not all(unrollable(ai, i, st) and finite(ai, st, i) for i in its):
        return None
    out = []
    for s, xs in drain(ai, st, its[0], site):
        for s2, ys in drain(ai, s, its[1], site):
            work = [(s2, 0)] if len(xs) == len(ys) else []
            if not work:
                out.append((s2, FALSE))
            while work:
                s3, i = work.pop()
                if i == len(xs):
                    out.append((s3, TRUE))
                    continue
                for s4, b in ai.fork(s3, ai.binop('Eq', deep(ai, s3, xs[i]), deep(ai, s3, ys[i]))):
                    if b:
                        work.append((s4, i + 1))
                    else:
                        out.append((s4, FALSE))
    return out


def deep(ai, st, v):
    while v.op == 'ref':
        v = ai.deref(st, v)
    return v


@m('std::iter::Iterator::all')
def iall(ai, st, c, args, site):
    return find_like(ai, st, args, site, 'all')


@m('std::iter::Iterator::position')
def ipos(ai, st, c, args, site):
    return find_like(ai, st, args, site, 'position')


def find_like(ai, st, args, site, kind):
    it, cl = args[0], args[1]
    if it.op == 'ref':
        it = ai.deref(st, it)
    none = {'find': NONE, 'find_map': NONE, 'any': FALSE, 'all': TRUE, 'position': NONE}[kind]

    def test(s, x):
        """-> [(state, result or None to go on)]"""
        a = x
        if kind == 'find':
            a, s = tmpref(ai, s, x)
        out = []
        for s2, v in ai.call_value(s, cl, [a], site):
            if kind == 'find_map':
                for s3, p, _ in opt_cases(ai, s2, v):
                    out.append((s3, None if p is None else some(p)))
                continue
            for s3, b in ai.fork(s2, v):
                if kind == 'find':
                    out.append((s3, some(x) if b else None))
                elif kind == 'any':
                    out.append((s3, TRUE if b else None))
                elif kind == 'all':
                    out.append((s3, None if b else FALSE))
                else:
                    out.append((s3, some(mk('pos', it)) if b else None))
        return out
    if it.op == 'adt':
        fid = local_next(ai, it)
        if fid:
            return drive(ai, st, it, fid, site, test, none)
        for s, it in as_iter(ai, st, it, site):
            st = s
    if unrollable(ai, it, st):
        return drive_value(ai, st, it, site, test, none)
    if ai.stepwise:
        return [(s, none if r is None else r) for s, r in steps(ai, st, None, it, site, None, lambda s, a, x: test(s, x), True)]
    outs = []
    # no matching element
    s0 = st.copy()
    cl2, s0 = freeze(ai, s0, cl)
    s0.event('nomatch', it, kind, site, cl2)
    outs.append((s0, none))
    k = known_exhausted(ai, st, it)
    if k is True:
        return outs
    for s2, x, _ in gen_item(ai, st, it, 'f', site):
        for s3, r in test(s2, x):
            if r is not None:
                s3 = s3.copy()
                s3.event('match', it, x, site)
                outs.append((s3, r))
    return outs


def collect_term(ai, st, it, site):
    """[(state, term for the collected sequence)]"""
    outs = []
    if it.op in ('coll', 'array', 'push', 'extend'):
        return [(st, it)]
    if it.op == 'adt':
        fid = local_next(ai, it)
        if not fid:
            for s, i2 in as_iter(ai, st, it, site):
                it = i2
    if unrollable(ai, it, st):
        return [(s, mk('array', *xs)) for s, xs in drain(ai, st, it, site)]
    if it.op in ('it', 'adv') or summarised(ai, it):
        base, n = strip_adv(it)
        if base.op == 'it' and base.a[0] == 'val' and base.a[1].op == 'array':
            return [(st, mk('array', *base.a[1].a[n:]))]
        for s, x, _ in gen_item(ai, st, it, '*', site):
            outs.append((s, mk('coll', it, star(x))))
        if outs:
            return outs
        return [(st, mk('array'))]
    return [(st, mk('coll', it, mk('item', it, '*')))]


def star(x):
    # replace the tag '*' of drawn items by a substitutable marker
    m_ = {}
    for t in list(walk(x)):
        if t.op in ('item', 'loop', 'wheel') and t.a[-1] == '*':
            m_[t] = mk(t.op, *(t.a[:-1] + (mk('star'),)))
    return subst(x, m_)


@m('std::iter::Iterator::collect', 'itertools::Itertools::collect_vec', 'std::iter::FromIterator::from_iter')
def collect(ai, st, c, args, site):
    it = args[0]
    if 'from_iter' in c['name']:
        r = as_iter(ai, st, it, site)
        st, it = r[0]
    return collect_term(ai, st, it, site)


@last('Box::new_uninit', 'Box<T>::new_uninit')
def new_uninit(ai, st, c, args, site):
    """vec![a, b]: the array is written through the box that becomes the vector"""
    if not ai.concrete:
        return None
    r, st = tmpref(ai, st, mk('uninit'))
    return [(st, mk('adt', 'alloc::boxed::Box', 'Box', ('0',), r))]


@m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(ai, st, c, args, site):
    b = args[0]
    if b.op != 'adt' or b.a[0] != 'alloc::boxed::Box' or b.a[3].op != 'ref':
        return None
    v = ai.read(st, pl_ext(b.a[3].a[0], '.value', '.value'))
    return [(st, v)] if v.op == 'array' else None


@m('std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max')
def ordminmax(ai, st, c, args, site):
    a, b = args
    if ai.concrete and isconst(a) and isconst(b) and type(a.a[0]) is int and type(b.a[0]) is int:
        lo = a.a[0] <= b.a[0]
        return [(st, (a if lo else b) if short(c['name']).endswith('min') else (b if lo else a))]
    return None


@m('std::vec::from_elem')
def from_elem(ai, st, c, args, site):
    if ai.concrete and isconst(args[1]) and 0 <= args[1].a[0] <= 64:
        return [(st, mk('array', *[args[0]] * args[1].a[0]))]
    return None


def type_list(t):
    """the components of a tuple type"""
    out, depth, cur = [], 0, ''
    for ch in t.strip()[1:-1]:
        depth += ch in '(<[{'
        depth -= ch in ')>]}'
        if ch == ',' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + ([cur] if cur.strip() else [])


@m('itertools::Itertools::collect_tuple')
def collect_tuple(ai, st, c, args, site):
    t = (c.get('args') or [''])[-1]
    outs = concrete_drain(ai, st, args[0], site)
    if outs is None or not t.startswith('('):
        return None
    n = len(type_list(t))
    return [(s, some(mk('tuple', *xs)) if len(xs) == n else NONE) for s, xs in outs]


@m('std::iter::Iterator::count', 'std::iter::ExactSizeIterator::len')
def icount(ai, st, c, args, site):
    it = args[0]
    if it.op == 'ref':
        it = ai.deref(st, it)
    if unrollable(ai, it, st):
        return [(s, num(len(xs))) for s, xs in drain(ai, st, it, site)]
    return [(st, mk('count', it))]


@m('std::iter::Iterator::last')
def ilast(ai, st, c, args, site):
    it = args[0]
    if unrollable(ai, it, st):
        return [(s, some(xs[-1]) if xs else NONE) for s, xs in drain(ai, st, it, site)]
    if it.op == 'adt':
        return None
    out = []
    for s, b in ai.fork(st, exh_cond(it)):
        if b:
            out.append((s, NONE))
        else:
            out += [(s2, some(x)) for s2, x, _ in gen_item(ai, s, it, 'last', site)]
    return out


@m('std::iter::Iterator::nth')
def inth(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    it = ai.read(st, p)
    if not isconst(args[1]):
        return None
    outs = [(st, None)]
    for i in range(args[1].a[0] + 1):
        nxt = []
        for s, r in outs:
            if r is NONE:
                nxt.append((s, r))
                continue
            nxt += inext(ai, s, c, [args[0]], site) or []
        outs = nxt
    return outs


@m('std::iter::Iterator::fold')
def ifold(ai, st, c, args, site):
    it, init, cl = args
    if unrollable(ai, it, st):
        outs = []
        for s, xs in drain(ai, st, it, site):
            acc = [(s, init)]
            for x in xs:
                acc = [r for s2, v in acc for r in ai.call_value(s2, cl, [v, x], site)]
            outs += acc
        return outs
    if ai.stepwise:
        return steps(ai, st, c, it, site, init, lambda s, a, x: ai.call_value(s, cl, [a, x], site))
    k = known_exhausted(ai, st, it)
    outs = []
    if it.op == 'adt' and not summarised(ai, it):
        for s, it in as_iter(ai, st, it, site):
            st = s
    for s, x, _ in gen_item(ai, st, it, '*', site):
        for s2, v in ai.call_value(s, cl, [mk('acc', it, init), x], site):
            outs.append((s2, mk('fold', it, init, star(v))))
    return outs or None


def concrete_drain(ai, st, it, site):
    if it.op == 'ref':
        it = ai.deref(st, it)
    if ai.concrete and it.op not in ('it', 'adv', 'adt'):
        it = as_iter(ai, st, it, site)[0][1]
    if not ai.concrete or not unrollable(ai, it, st):
        return None
    return drain(ai, st, it, site)


@m('std::iter::Iterator::sum', 'std::iter::Iterator::product')
def isum(ai, st, c, args, site):
    outs = concrete_drain(ai, st, args[0], site)
    if outs is None:
        return None
    op = 'Add' if c['name'].endswith('sum') else 'Mul'
    res = []
    for s, xs in outs:
        xs = [ai.deref(s, x) if x.op == 'ref' else x for x in xs]
        r = num(0 if op == 'Add' else 1) if not xs else xs[0]
        for x in xs[1:]:
            r = ai.binop(op, r, x)
        res.append((s, r))
    return res


@m('std::iter::Iterator::reduce')
def ireduce(ai, st, c, args, site):
    outs = concrete_drain(ai, st, args[0], site)
    if outs is None:
        return None
    res = []
    for s, xs in outs:
        if not xs:
            res.append((s, NONE))
            continue
        acc = [(s, xs[0])]
        for x in xs[1:]:
            acc = [r for s2, v in acc for r in ai.call_value(s2, args[1], [v, x], site)]
        res += [(s2, some(v)) for s2, v in acc]
    return res


@last('Vec::reverse', 'slice::reverse')
def vreverse(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    if v.op != 'array':
        return None
    st = st.copy()
    ai.write(st, p, mk('array', *v.a[::-1]), site)
    return [(st, UNIT)]


@last('Vec::insert', 'Vec::remove', 'Vec::swap_remove', 'Vec::truncate')
def vinsrem(ai, st, c, args, site):
    p = ai.deref_place(args[0])
    v = ai.read(st, p)
    if v.op != 'array' or not isconst(args[1]):
        return None
    i = args[1].a[0]
    st = st.copy()
    nm = leafname(c['name'])
    if nm == 'truncate':
        ai.write(st, p, mk('array', *v.a[:i]), site)
        return [(st, UNIT)]
    if nm == 'insert':
        ai.write(st, p, mk('array', *(v.a[:i] + (args[2],) + v.a[i:])), site)
        return [(st, UNIT)]
    if i >= len(v.a):
        return []
    x = v.a[i]
    if nm == 'remove':
        ai.write(st, p, mk('array', *(v.a[:i] + v.a[i + 1:])), site)
    else:
        w = list(v.a)
        w[i] = w[-1]
        ai.write(st, p, mk('array', *w[:-1]), site)
    return [(st, x)]


def leafname(n):
    return short(n).split('::')[-1]


@last('slice::windows')
def swindows(ai, st, c, args, site):
    return [(st, mk('it', 'windows', mk('it', 'ref', args[0]), args[1]))]


@m('itertools::Itertools::exactly_one')
def exactly_one(ai, st, c, args, site):
    it = args[0]
    if it.op == 'adt' and not unrollable(ai, it, st):
        return None
    outs = []
    if unrollable(ai, it, st):
        return [(s, ok(xs[0]) if len(xs) == 1 else mk('adt', RES, 'Err', ('0',), mk('opq', 'exactly_one')))
                for s, xs in drain(ai, st, it, site)]
    s0 = st.copy()
    outs.append((s0, mk('adt', RES, 'Err', ('0',), mk('opq', 'exactly_one'))))
    for s, x, _ in gen_item(ai, st, it, 'one', site):
        outs.append((s, ok(x)))
    return outs


@last('RangeInclusive::new')
def rinc(ai, st, c, args, site):
    return [(st, mk('adt', 'core::ops::range::RangeInclusive', 'RangeInclusive', ('start', 'end'), *args))]


@last('Box::new', 'Rc::new')
def boxnew(ai, st, c, args, site):
    return [(st, args[0])]
