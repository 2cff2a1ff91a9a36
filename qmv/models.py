"""Contracts of functions outside the code under verification: the contract
language itself, the standard library and the numeric libraries. Everything here
is assumed, and reported as such in the evidence of each run that uses it."""
import re, z3
from fractions import Fraction
from .engine import *

EXACT = {}
PATTERNS = []
_cache = {}

def model(*names):
    def deco(fn):
        for n in names: EXACT[n] = fn
        return fn
    return deco

def pattern(rx):
    def deco(fn):
        PATTERNS.append((re.compile(rx), fn)); return fn
    return deco

def lookup(d):
    r = by_name(d['idef'])
    # a trait method without a body of its own goes by its full name
    if r is None and d['kind'] == 'item' and d['idef'] == d['def'] and d['name'] != d['def']: r = by_name(d['name'])
    return r

def by_name(n):
    if n in _cache: return _cache[n]
    r = EXACT.get(n)
    if r is None:
        for rx, fn in PATTERNS:
            if rx.search(n): r = fn; break
    _cache[n] = r
    return r

def rets(pairs): return [(s, 'ret', v) for s, v in pairs]

# ------------------------------------------------------------ contract language

def sname(E, st, p): return E.str_of(st, p).s

def input_name(st, n):
    k = st.counts.get(n, 0); st.counts[n] = k + 1
    return '%s#%d' % (n, k)

@model('qmharness::sym::any_f64')
def _(E, st, d, a, r):
    n = sname(E, st, a[0]); x = z3.Real(input_name(st, n))
    st.inputs += ((n, x),)
    return x

@model('qmharness::sym::any_i32')
def _(E, st, d, a, r):
    n = sname(E, st, a[0])
    lo, hi = a[1], a[2]
    x = z3.Int(input_name(st, n))
    if isinstance(lo, int) and isinstance(hi, int): E.solver.enum.declare(str(x), lo, hi)
    st.assume(x >= lo); st.assume(x <= hi)
    st.inputs += ((n, x),)
    return x

@model('qmharness::sym::any_int')
def _(E, st, d, a, r):
    n = sname(E, st, a[0])
    x = z3.Int(input_name(st, n))
    st.assume(z3.And(x >= -2**31, x <= 2**31 - 1))
    st.inputs += ((n, x),)
    return x

@model('qmharness::sym::any_bool')
def _(E, st, d, a, r):
    n = sname(E, st, a[0]); x = z3.Bool(input_name(st, n))
    st.inputs += ((n, x),)
    return x

@model('qmharness::sym::choose')
def _(E, st, d, a, r):
    n = sname(E, st, a[0]); k = a[1]
    input_name(st, n)
    out = []
    for i in range(k):
        s = st if i == k - 1 else st.fork()
        s.inputs += ((n, i),)
        out.append((s, 'ret', i))
    return out

@model('qmharness::sym::assume')
def _(E, st, d, a, r):
    c = simp(a[0])
    if c is True: return UNIT
    if c is False or not E.solver.feasible(st.pc, c): return []
    st.assume(c)
    return UNIT

@model('qmharness::sym::prove')
def _(E, st, d, a, r):
    return do_prove(E, st, sname(E, st, a[0]), a[1])

def do_prove(E, st, label, goal):
    E.prover.prove(st, label, goal, loc=E.loc(*E._where))
    goal = simp(goal)
    if goal is False: return []
    if goal is not True: st.assume(goal)
    return UNIT

@model('qmharness::sym::prove_root')
def _(E, st, d, a, r):
    n = sname(E, st, a[1]); x, reach = real(a[3]), real(a[4])
    fx = app_uf(E, st, n, [a[3]], z3.RealSort())
    goal = [fx == 0]
    for m, args, e in st.ufs:
        if m != n: continue
        y = real(args[0])
        goal.append(z3.And(y - x <= reach, x - y <= reach, z3.Or(z3.And(fx >= 0, e <= 0), z3.And(fx <= 0, e >= 0))))
    # applications the loop invariants speak of
    seen = set(); todo = list(st.pc)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 1 and t.decl().name() == n:
                y = t.arg(0)
                goal.append(z3.And(y - x <= reach, x - y <= reach, z3.Or(z3.And(fx >= 0, t <= 0), z3.And(fx <= 0, t >= 0))))
            todo.extend(t.children())
    return do_prove(E, st, sname(E, st, a[0]), z3.Or(*goal))

@model('qmharness::sym::prove_eq', 'qmharness::sym::prove_close')
def _(E, st, d, a, r):
    x, y = a[1], a[2]
    if isinstance(x, FSpec) or isinstance(y, FSpec): g = x is y
    else: g = E.fcmp('Eq', x, y)
    return do_prove(E, st, sname(E, st, a[0]), g)

@model('qmharness::sym::prove_le')
def _(E, st, d, a, r):
    return do_prove(E, st, sname(E, st, a[0]), E.fcmp('Le', a[1], a[2]))

@model('qmharness::sym::cover')
def _(E, st, d, a, r):
    l = sname(E, st, a[0])
    if not E.covers.get((E.cur, l)):
        s = z3.Solver(); s.set('timeout', 20000); s.add(*st.pc)
        rr = s.check()
        E.covers[(E.cur, l)] = (rr == z3.sat) or (E.covers.get((E.cur, l), False))
        if rr == z3.unknown: E.covers.setdefault((E.cur, l), 'unknown')
    return UNIT

@model('qmharness::sym::uf')
def _(E, st, d, a, r):
    n = sname(E, st, a[0]); args = E.slice_elems(st, a[1])
    return app_uf(E, st, n, args, z3.RealSort())

@model('qmharness::sym::up')
def _(E, st, d, a, r):
    n = sname(E, st, a[0]); args = E.slice_elems(st, a[1])
    return app_uf(E, st, n, args, z3.BoolSort())

def app_uf(E, st, n, args, sort):
    for x in args:
        if isinstance(x, FSpec): raise Unsupported('uninterpreted function of %r' % x)
    key = (n, len(args))
    f = E.uf_decl.get(key)
    if f is None:
        f = E.uf_decl[key] = z3.Function(n, *([z3.RealSort()] * len(args) + [sort])) if args else z3.Const(n, sort)
    e = f(*[z3.simplify(real(x)) for x in args]) if args else f
    st.ufs += ((n, tuple(args), e),)
    return e

@model('qmharness::sym::ufi')
def _(E, st, d, a, r):
    n = sname(E, st, a[0]); args = E.slice_elems(st, a[1])
    e = app_uf(E, st, n, args, z3.IntSort())
    st.assume(z3.And(e >= -2**31, e < 2**31))
    return e

@model('qmharness::sym::symbolic')
def _(E, st, d, a, r): return True

@model('qmharness::sym::lemma')
def _(E, st, d, a, r):
    E.lemmas[sname(E, st, a[0])] = E.lemmas.get(sname(E, st, a[0]), 0) + 1
    c = simp(a[1])
    if c is False: raise Unsupported('lemma is false: ' + sname(E, st, a[0]))
    st.assume(c)
    return UNIT

@model('qmharness::sym::lemma_exp_add')
def _(E, st, d, a, r):
    E.lemmas['exp(a+b) = exp(a)exp(b)'] = E.lemmas.get('exp(a+b) = exp(a)exp(b)', 0) + 1
    x, y = a
    if isinstance(x, FSpec) or isinstance(y, FSpec): return UNIT
    ex, ey, exy = fexp(E, st, x), fexp(E, st, y), fexp(E, st, E.fop(st, 'Add', x, y))
    st.assume(real(exy) == real(ex) * real(ey))
    return UNIT

@model('qmharness::sym::lemma_exp_mono')
def _(E, st, d, a, r):
    E.lemmas['exp increasing'] = E.lemmas.get('exp increasing', 0) + 1
    x, y = real(a[0]), real(a[1])
    ex, ey = real(fexp(E, st, a[0])), real(fexp(E, st, a[1]))
    st.assume(z3.And(z3.Implies(x < y, ex < ey), z3.Implies(x > y, ex > ey), z3.Implies(x == y, ex == ey)))
    return UNIT

@model('qmharness::sym::lemma_ln_exp')
def _(E, st, d, a, r):
    E.lemmas['ln(exp(a)) = a'] = E.lemmas.get('ln(exp(a)) = a', 0) + 1
    e = fexp(E, st, a[0])
    st.assume(LN(real(e)) == real(a[0]))
    return UNIT

# ------------------------------------------------------------ real functions

R = z3.RealSort()
EXP = z3.Function('exp', R, R); LN = z3.Function('ln', R, R); SQRT = z3.Function('sqrt', R, R)
PHI = z3.Function('Phi', R, R); POW = z3.Function('pow', R, R, R)
AXIOMS = {
 'exp': 'exp(x) > 0; exp(0) = 1; exp(x) >= 1 + x', 'ln': 'exp(ln(x)) = x for x > 0; ln(1) = 0', 'sqrt': 'sqrt(x) >= 0 and sqrt(x)^2 = x for x >= 0',
 'Phi': '0 < Phi(x) < 1; Phi(x) + Phi(-x) = 1', 'pow': 'pow(x, y) > 0 for x > 0',
}

def norm(x): return z3.simplify(real(x), som=True)

def fexp(E, st, x):
    if x is NAN: return NAN
    if x is PINF: return PINF
    if x is NINF: return Fraction(0)
    x0 = simp(x)
    if isinstance(x0, Fraction) and x0 == 0: return Fraction(1)
    X = norm(x)
    if z3.is_rational_value(X) and X.numerator_as_long() == 0: return Fraction(1)
    if z3.is_app(X) and X.decl().eq(LN): return X.arg(0)
    e = EXP(X)
    once(st, ('exp', X), lambda: z3.And(e > 0, e >= 1 + X, z3.Implies(X == 0, e == 1)))
    return e

def once(st, key, mk):
    """add an axiom instance to the path once"""
    k = (key[0],) + tuple(x.get_id() for x in key[1:])
    if k in st.seen: return
    st.seen = st.seen | {k}
    st.assume(mk())
    KEEP.append(key)
KEEP = []

def fln(E, st, x):
    if x is NAN or x is NINF: return NAN
    if x is PINF: return PINF
    x0 = simp(x)
    if isinstance(x0, Fraction):
        if x0 == 1: return Fraction(0)
        if x0 == 0: return NINF
        if x0 < 0: return NAN
    X = norm(x)
    if z3.is_app(X) and X.decl().eq(EXP): return X.arg(0)
    def pos(s):
        e = LN(X)
        once(s, ('ln', X), lambda: z3.And(EXP(e) == X, z3.Implies(X == 1, e == 0), e <= X - 1,
                                          z3.Implies(X > 1, e > 0), z3.Implies(X < 1, e < 0)))
        return e
    out = []
    for s, v in E.split(st, [(X > 0, 1), (X == 0, 0), (X < 0, -1)]):
        out.append((s, 'ret', pos(s) if v == 1 else NINF if v == 0 else NAN))
    return out

def isqrt_exact(x):
    import math
    n, d = x.numerator, x.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None

def fsqrt(E, st, x):
    if x is NAN or x is NINF: return NAN
    if x is PINF: return PINF
    x0 = simp(x)
    if isinstance(x0, Fraction):
        if x0 < 0: return NAN
        q = isqrt_exact(x0)
        if q is not None: return q
    X = norm(x)
    out = []
    for s, v in E.split(st, [(X >= 0, 1), (X < 0, 0)]):
        if v:
            e = SQRT(X)
            once(s, ('sqrt', X), lambda: z3.And(e >= 0, e * e == X))
            out.append((s, 'ret', e))
        else: out.append((s, 'ret', NAN))
    return out

def fphi(E, st, x):
    if x is NAN: return NAN
    if x is PINF: return Fraction(1)
    if x is NINF: return Fraction(0)
    X = norm(x); N = z3.simplify(-X, som=True)
    e, n = PHI(X), PHI(N)
    once(st, ('Phi', X), lambda: z3.And(e > 0, e < 1, e + n == 1, z3.Implies(X == 0, e == z3.Q(1, 2))))
    return e

def fabs(E, st, x):
    if isinstance(x, FSpec): return NAN if x is NAN else PINF
    if isinstance(x, Fraction): return abs(x)
    return either(E, st, [(x >= 0, x), (x < 0, -x)])

def either(E, st, cases):
    """one of several real values: separate paths, or a name for the value where the
    loop specification asks for names"""
    if not E.defining or any(isinstance(v, FSpec) for _, v in cases): return ForkV(cases)
    y = z3.FreshConst(z3.RealSort(), 'either')
    st.assume(z3.Or(*[z3.And(c, y == (z3.Q(v.numerator, v.denominator) if isinstance(v, Fraction) else v)) for c, v in cases]))
    return y

def ffloor(x): return Fraction(x.numerator // x.denominator)

FLOAT1 = {}
def f1(n):
    def deco(fn): FLOAT1[n] = fn; return fn
    return deco
f1('exp')(fexp); f1('ln')(fln); f1('sqrt')(fsqrt); f1('abs')(fabs)
@f1('floor')
def _(E, st, x):
    if isinstance(x, FSpec): return x
    if isinstance(x, Fraction): return ffloor(x)
    return z3.ToReal(z3.ToInt(x))
@f1('ceil')
def _(E, st, x):
    if isinstance(x, FSpec): return x
    if isinstance(x, Fraction): return -ffloor(-x)
    return -z3.ToReal(z3.ToInt(-x))
@f1('trunc')
def _(E, st, x):
    if isinstance(x, FSpec): return x
    if isinstance(x, Fraction): return ffloor(x) if x >= 0 else -ffloor(-x)
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
@f1('round')
def _(E, st, x):
    if isinstance(x, FSpec): return x
    h = Fraction(1, 2)
    if isinstance(x, Fraction): return ffloor(x + h) if x >= 0 else -ffloor(-x + h)
    if z3.is_app_of(x, z3.Z3_OP_TO_REAL): return x
    H = z3.Q(1, 2)
    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + H)), -z3.ToReal(z3.ToInt(-x + H)))
@f1('is_nan')
def _(E, st, x): return x is NAN
@f1('is_finite')
def _(E, st, x): return not isinstance(x, FSpec)
@f1('is_infinite')
def _(E, st, x): return x is PINF or x is NINF
@f1('signum')
def _(E, st, x):
    if x is NAN: return NAN
    c = E.fcmp('Ge', x, Fraction(0))
    if isinstance(c, bool): return Fraction(1 if c else -1)
    return either(E, st, [(c, Fraction(1)), (lnot(c), Fraction(-1))])
@f1('is_sign_negative')
def _(E, st, x): return E.fcmp('Lt', x, Fraction(0))
@f1('is_sign_positive')
def _(E, st, x): return E.fcmp('Ge', x, Fraction(0))
@f1('recip')
def _(E, st, x): return E.fop(st, 'Div', Fraction(1), x)
@f1('neg')
def _(E, st, x): return E.fop(st, 'Sub', Fraction(0), x)

@pattern(r'(^|::)f64::<impl f64>::(\w+)$|<impl f64>::(\w+)$')
def _(E, st, d, a, r):
    n = d['idef'].split('::')[-1]
    if n in FLOAT1 and len(a) == 1: return FLOAT1[n](E, st, a[0])
    if n in ('max', 'min'):
        x, y = a
        if x is NAN: return y
        if y is NAN: return x
        c = E.fcmp('Ge' if n == 'max' else 'Le', x, y)
        if isinstance(c, bool): return x if c else y
        return either(E, st, [(c, x), (lnot(c), y)])
    if n == 'powi':
        x, k = a[0], E.concrete(st, a[1])
        if not 0 <= k <= 64: raise Unsupported('powi')
        v = Fraction(1)
        for _ in range(k): v = E.fop(st, 'Mul', v, x)
        return v
    if n == 'powf':
        x, y = a
        y0 = simp(y)
        if isinstance(y0, Fraction) and y0.denominator == 1 and 0 <= y0 <= 16:
            v = Fraction(1)
            for _ in range(int(y0)): v = E.fop(st, 'Mul', v, x)
            return v
        if isinstance(y0, Fraction) and y0 == Fraction(1, 2): return fsqrt(E, st, x)
        if isinstance(x, FSpec) or isinstance(y, FSpec): raise Unsupported('powf special')
        e = POW(norm(x), norm(y))
        st.assume(z3.Implies(norm(x) > 0, e > 0))
        return e
    if n == 'mul_add': return E.fop(st, 'Add', E.fop(st, 'Mul', a[0], a[1]), a[2])
    if n == 'clamp':
        x, lo, hi = a
        return ForkV([(E.fcmp('Lt', x, lo), lo), (E.fcmp('Gt', x, hi), hi), (land(E.fcmp('Ge', x, lo), E.fcmp('Le', x, hi)), x)])
    if n == 'partial_cmp': return fpcmp(E, st, E.deref(st, a[0]), E.deref(st, a[1]))
    if n == 'total_cmp':
        x, y = E.deref(st, a[0]), E.deref(st, a[1])
        return ForkV([(E.fcmp('Lt', x, y), LESS), (E.fcmp('Eq', x, y), EQUAL), (E.fcmp('Gt', x, y), GREATER)])
    raise Unsupported('f64::' + n)

def fpcmp(E, st, x, y):
    if x is NAN or y is NAN: return none()
    return ForkV([(E.fcmp('Lt', x, y), some(LESS)), (E.fcmp('Eq', x, y), some(EQUAL)), (E.fcmp('Gt', x, y), some(GREATER))])

# ------------------------------------------------------------ intrinsics

def intrinsic(E, st, d, a, r):
    n = d['key']
    if n in ('assume', 'cold_path', 'assert_inhabited', 'assert_zero_valid', 'assert_mem_uninitialized_valid'): return UNIT
    if n in ('likely', 'unlikely', 'black_box'): return a[0]
    if n == 'abort': return [(st, 'panic', 'abort')]
    m = re.match(r'(sqrt|exp|log|fabs|floor|ceil|trunc|round|pow|powi|fma|minnum|maxnum|ln)f64$', n)
    if m:
        k = {'log': 'ln', 'fabs': 'abs'}.get(m.group(1), m.group(1))
        if k in FLOAT1: return FLOAT1[k](E, st, a[0])
    if n == 'fabs': return fabs(E, st, a[0])
    if n in ('size_of', 'size_of_val'): return E.types[d['args'][0]].get('size', 8)
    if n in ('align_of', 'min_align_of', 'align_of_val'): return 8
    if n == 'needs_drop': return False
    if n in ('wrapping_add', 'wrapping_sub', 'wrapping_mul'):
        return E.binop(st, {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[9]], a[0], a[1], d['args'][0])
    if n in ('add_with_overflow', 'sub_with_overflow', 'mul_with_overflow'):
        return E.checked(st, {'a': 'Add', 's': 'Sub', 'm': 'Mul'}[n[0]], a[0], a[1], d['args'][0])
    if n in ('unchecked_add', 'unchecked_sub', 'unchecked_mul'):
        x, y = a
        return x + y if n[10] == 'a' else x - y if n[10] == 's' else x * y
    if n in ('saturating_add', 'saturating_sub'):
        lo, hi = E.int_range(d['args'][0])
        v = a[0] + a[1] if n.endswith('add') else a[0] - a[1]
        if isinstance(v, int): return max(lo, min(hi, v))
        return ForkV([(v < lo, lo), (v > hi, hi), (z3.And(v >= lo, v <= hi), v)])
    if n in ('offset', 'arith_offset'): return E.ptr_offset(a[0], E.concrete(st, a[1]))
    if n == 'ptr_offset_from' or n == 'ptr_offset_from_unsigned': return a[0].p[-1] - a[1].p[-1]
    if n in ('read_via_copy', 'volatile_load'): return E.deref(st, a[0])
    if n == 'write_via_move':
        E.store(st, a[0].a, a[0].p, a[1]); return UNIT
    if n == 'typed_swap_nonoverlapping':
        x, y = E.deref(st, a[0]), E.deref(st, a[1])
        E.store(st, a[0].a, a[0].p, y); E.store(st, a[1].a, a[1].p, x); return UNIT
    if n == 'discriminant_value':
        v = E.deref(st, a[0]); T = E.types[d['args'][0]]
        return E.wrap(st, int(T['variants'][v.var]['discr']) if T['k'] == 'adt' else 0, r)
    if n == 'transmute' or n == 'transmute_unchecked': return E.transmute(st, a[0], d['args'][0], d['args'][1])
    if n == 'forget': return UNIT
    if n in ('integer_max', 'integer_min'):
        x, y = a
        if isinstance(x, int) and isinstance(y, int): return max(x, y) if n.endswith('x') else min(x, y)
        c = simp(x >= y) if n.endswith('x') else simp(x <= y)
        if isinstance(c, bool): return x if c else y
        return z3.If(c, integer(x), integer(y))
    if n == 'three_way_compare': return E.binop(st, 'Cmp', a[0], a[1], d['args'][0])
    if n == 'ptr_metadata': return E.as_ptr(a[0]).m[2]
    if n == 'type_id': return Agg((Opaque('type'), d['args'][0]))
    if n == 'type_name': return E.new_str(st, E.types[d['args'][0]]['d'])
    if n == 'slice_get_unchecked':
        return None
    if n == 'select_unpredictable':
        c = a[0]
        if isinstance(c, bool): return a[1] if c else a[2]
        return ForkV([(c, a[1]), (lnot(c), a[2])])
    raise Unsupported('intrinsic ' + n)

# ------------------------------------------------------------ panics

@pattern(r'^core::panicking::|^std::panicking::|^std::rt::(begin_panic|panic)|^core::option::(unwrap|expect)_failed|^core::result::unwrap_failed|^std::(option|result)::(unwrap|expect)_failed|^core::slice::index::slice_|^core::str::slice_error|^core::cell::panic_already|^std::cell::panic_already')
def _(E, st, d, a, r):
    msg = d['idef']
    for x in a:
        if isinstance(x, Ptr) and x.m == ('str',):
            try: msg += ': ' + str(E.str_of(st, x).s)
            except Unsupported: pass
    return [(st, 'panic', msg)]

def str_len(E, st, p):
    s = E.str_of(st, p).s
    if isinstance(s, str): return len(s.encode())
    if p.m and isinstance(s, tuple) and all(isinstance(t, str) or (isinstance(t, Num) and not E.solver.feasible(st.pc, z3.Or(t.v < 0, t.v >= 10 ** t.w))) for t in s):
        return sum(len(t.encode()) if isinstance(t, str) else t.w for t in s)
    raise Unsupported('length of symbolic text')

# ------------------------------------------------------------ unbounded holiday lists

@pattern(r'^qmharness::sym::others')
def _(E, st, d, a, r):
    m = load(E, st, a[0])
    E.store(st, a[0].a, a[0].p, Map(m.f, tuple(E.str_of(st, x).s for x in E.slice_elems(st, a[1]))))
    return UNIT

@model('qmharness::sym::any_holidays')
def _(E, st, d, a, r):
    n = sname(E, st, a[0])
    return AbsSeq(n, None)

WD = z3.Function('weekdays', z3.IntSort(), z3.IntSort())

def point(E, st, n, x):
    """a day at which the list n is looked at: counts of listed days (H), of
    weekdays (WD) and of business days (B = WD - H) before it. The list is strictly
    increasing and holds weekdays only, so H and B both are non-decreasing and
    increase by at most one a day."""
    H = z3.Function('H_' + n, z3.IntSort(), z3.IntSort())
    B = z3.Function('B_' + n, z3.IntSort(), z3.IntSort())
    X = z3.simplify(integer(x))
    pts = st.tls.get(('H', n), ())
    for p in pts:
        if p.eq(X): return H(X), B(X)
    wday_def(st, X)
    ax = [H(X) >= 0, H(X) <= 10 ** 6, B(X) == WD(X) - H(X)]
    for p in pts:
        ax.append(z3.Implies(p <= X, z3.And(H(p) <= H(X), B(p) <= B(X), B(X) - B(p) <= X - p)))
        ax.append(z3.Implies(X <= p, z3.And(H(X) <= H(p), B(X) <= B(p), B(p) - B(X) <= p - X)))
    st.tls[('H', n)] = pts + (X,)
    for c in ax: st.assume(z3.simplify(c))
    return H(X), B(X)

def wday_def(st, X):
    if ('wd', X.get_id()) in st.seen: return
    KEEP.append(X); st.seen = st.seen | {('wd', X.get_id())}
    k = X + 3
    st.assume(WD(X) == 5 * (k / 7) + z3.If(k % 7 < 5, k % 7, 5))

def hcount(E, st, n, x): return point(E, st, n, x)[0]
def bcount(E, st, n, x): return point(E, st, n, x)[1]

def hday(E, st, n, x):
    """is day x in the list: the count steps there"""
    X = integer(x)
    return hcount(E, st, n, X + 1) == hcount(E, st, n, X) + 1

@model('qmharness::sym::business_before')
def _(E, st, d, a, r):
    v = E.load(st, a[0].a, a[0].p)
    if isinstance(v, AbsSeq): return bcount(E, st, v.name, a[1])
    X = z3.simplify(integer(a[1])); wday_def(st, X)
    n = WD(X)
    for e in E.slice_elems(st, a[0]): n = n - z3.If(integer(e.f[0]) < X, 1, 0)
    return simp(n)

@model('qmharness::sym::weekdays_before')
def _(E, st, d, a, r):
    if isinstance(a[0], int): k = a[0] + 3; return 5 * (k // 7) + min(k % 7, 5)
    X = z3.simplify(integer(a[0])); wday_def(st, X)
    return WD(X)

# ------------------------------------------------------------ unbounded point lists

@model('qmharness::sym::any_curve', 'qmharness::sym::any_date_curve', 'qmharness::sym::any_points', 'qmharness::sym::any_date_points')
def _(E, st, d, a, r):
    """any number of points, those of a curve in strictly increasing order of abscissa"""
    n = sname(E, st, a[0]); dates = '::any_date' in d['idef']
    I = z3.IntSort()
    X = z3.Function('X_' + n, I, I if dates else z3.RealSort()); Y = z3.Function('Y_' + n, I, z3.RealSort())
    N = z3.Int('N_' + n)
    st.assume(z3.And(N >= 1, N <= 2 ** 31))
    at = (lambda i: Agg((Agg((X(i),)), Y(i)))) if dates else (lambda i: Agg((X(i), Y(i))))
    return FunSeq((n, dates, d['idef'].endswith('curve')), N, at)

@pattern(r'^qmharness::sym::any_place$')
def _(E, st, d, a, r):
    v = load(E, st, a[0])
    if not isinstance(v, FunSeq): raise Unsupported('any place of a list of known length')
    k = z3.Int('K_' + v.name[0])
    st.assume(z3.And(k >= 1, k < v.n))
    return k

@model('qmharness::sym::in_full')
def _(E, st, d, a, r): E.unfolded = set(SUMMARIES); return UNIT

# contracts of functions under verification, used by their callers where the
# argument is unbounded; each is proved by a contract of its own
SUMMARIES = {}

def _valid_points(E, st, d, a):
    v = load(E, st, a[0])
    return [(st, 'ret', ok(UNIT))] if isinstance(v, FunSeq) and v.name[2] else None
SUMMARIES['quantmath::math::interpolation::validate_abscissae'] = _valid_points

def touch(E, st, v, i):
    """element i of an unbounded point list is looked at"""
    n, dates, ordered = v.name
    i = z3.simplify(integer(i))
    pts = st.tls.get(('F', n), ())
    if any(p.eq(i) for p in pts): return
    X = z3.Function('X_' + n, z3.IntSort(), z3.IntSort() if dates else z3.RealSort())
    for p in pts if ordered else ():
        g = (lambda a, b: X(b) - X(a) >= b - a) if dates else (lambda a, b: X(b) - X(a) > z3.Q(1, 10 ** 12))
        st.assume(z3.simplify(z3.And(z3.Implies(p < i, g(p, i)), z3.Implies(i < p, g(i, p)))))
    if dates: st.assume(z3.And(X(i) >= 1, X(i) <= 72999))
    st.tls[('F', n)] = pts + (i,)

# ------------------------------------------------------------ Vec and slices

def load(E, st, p): return E.load(st, p.a, p.p)
def vec_store(E, st, p, v): E.store(st, p.a, p.p, v)

def vec_slice(E, st, p):
    v = load(E, st, p)
    if isinstance(v, AbsSeq): return Ptr(p.a, p.p, ('abs',))
    if isinstance(v, FunSeq): return Ptr(p.a, p.p, ('slice', 0, v.n))
    if not isinstance(v, Seq): raise Unsupported('Vec holds %r' % (v,))
    return Ptr(p.a, p.p, ('slice', 0, len(v.f)))

@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref', '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow')
def _(E, st, d, a, r): return vec_slice(E, st, a[0])

@model('std::vec::Vec::<T>::new', '<std::vec::Vec<T> as std::default::Default>::default', 'std::vec::Vec::<T>::with_capacity')
def _(E, st, d, a, r): return Seq(())

@model('std::vec::Vec::<T, A>::push')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); vec_store(E, st, a[0], Seq(v.f + (a[1],))); return UNIT

@model('std::vec::Vec::<T, A>::pop')
def _(E, st, d, a, r):
    v = load(E, st, a[0])
    if not v.f: return none()
    vec_store(E, st, a[0], Seq(v.f[:-1])); return some(v.f[-1])

@model('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'std::slice::<impl [T]>::len')
def _(E, st, d, a, r): return slen(E, st, a[0])

@model('std::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty')
def _(E, st, d, a, r): return simp(slen(E, st, a[0]) == 0)

@model('std::vec::Vec::<T, A>::clear')
def _(E, st, d, a, r): vec_store(E, st, a[0], Seq(())); return UNIT

@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit')
def _(E, st, d, a, r): return UNIT

@model('std::vec::Vec::<T, A>::insert')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); i = E.concrete(st, a[1])
    if i > len(v.f): return [(st, 'panic', 'Vec::insert out of range')]
    vec_store(E, st, a[0], Seq(v.f[:i] + (a[2],) + v.f[i:])); return UNIT

@model('std::vec::Vec::<T, A>::remove')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); i = E.concrete(st, a[1])
    if i >= len(v.f): return [(st, 'panic', 'Vec::remove out of range')]
    vec_store(E, st, a[0], Seq(v.f[:i] + v.f[i + 1:])); return v.f[i]

@model('std::vec::Vec::<T, A>::resize')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); n = E.concrete(st, a[1])
    if n <= len(v.f):
        E.store(st, a[0].a, a[0].p, Seq(v.f[:n])); return UNIT
    def put(s, vs):
        E.store(s, a[0].a, a[0].p, Seq(list(v.f) + vs)); return UNIT
    return clone_all(E, st, d['args'][0], [a[2]] * (n - len(v.f)), put)

@model('std::vec::Vec::<T, A>::truncate')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); vec_store(E, st, a[0], Seq(v.f[:E.concrete(st, a[1])])); return UNIT

@model('std::vec::Vec::<T, A>::append')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); w = load(E, st, a[1])
    vec_store(E, st, a[0], Seq(v.f + w.f)); vec_store(E, st, a[1], Seq(())); return UNIT

@model('std::vec::Vec::<T, A>::extend_from_slice')
def _(E, st, d, a, r):
    return clone_all(E, st, d['args'][0], E.slice_elems(st, a[1]),
                     lambda s, vs: (vec_store(E, s, a[0], Seq(load(E, s, a[0]).f + tuple(vs))), UNIT)[1])

@model('std::vec::Vec::<T, A>::swap_remove')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); i = E.concrete(st, a[1])
    if i >= len(v.f): return [(st, 'panic', 'swap_remove out of range')]
    w = list(v.f); x = w[i]; w[i] = w[-1]; w.pop()
    vec_store(E, st, a[0], Seq(w)); return x

def slen(E, st, p):
    if p.m and p.m[0] == 'slice': return p.m[2]
    v = load(E, st, p)
    if isinstance(v, AbsSeq): raise Unsupported('length of unbounded list')
    if isinstance(v, FunSeq): return v.n
    return len(v.f)

def copyable(v):
    """values that clone to themselves"""
    if isinstance(v, (int, bool, Fraction, FSpec, Str, FnV)) or isz(v): return True
    if isinstance(v, Ptr): return True
    if isinstance(v, Agg) or isinstance(v, Seq): return all(copyable(x) for x in v.f)
    return False

def clone_all(E, st, t, vals, k):
    """clone a sequence of values of type t, then continue with k(state, values)"""
    outs = [(st, [])]
    for v in vals:
        nxt = []
        for s, acc in outs:
            for s2, kind, x in clone(E, s, t, v):
                if kind != 'ret': raise Unsupported('clone panics')
                nxt.append((s2, acc + [x]))
        outs = nxt
    return rets([(s, k(s, vs)) for s, vs in outs])

def clone(E, st, t, v):
    T = E.types[t]
    if T['k'] in ('int', 'bool', 'char', 'float', 'ref', 'ptr'): return [(st, 'ret', v)]
    if T['k'] == 'adt' and T['name'] == 'std::string::String': return [(st, 'ret', v)]
    d = E.tfns.get('%d|clone' % t)
    if d is None:
        if copyable(v): return [(st, 'ret', v)]
        raise Unsupported('clone of ' + T['d'])
    return E.call(st, d, [Ptr(st.alloc(v))])

@model('alloc::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_vec', 'alloc::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
       'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', '<std::vec::Vec<T> as std::convert::From<&[T]>>::from')
def _(E, st, d, a, r):
    v = load(E, st, a[0])
    if isinstance(v, (AbsSeq, FunSeq)): return v
    es = E.slice_elems(st, a[0])
    return clone_all(E, st, d['args'][0], es, lambda s, vs: Seq(vs))

@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', '<std::vec::Vec<T> as std::clone::Clone>::clone')
def _(E, st, d, a, r):
    v = load(E, st, a[0])
    if isinstance(v, (AbsSeq, FunSeq)): return v
    return clone_all(E, st, E.types[d['args'][0]]['args'][0], v.f, lambda s, vs: Seq(vs))

@model('std::vec::from_elem', 'alloc::vec::from_elem')
def _(E, st, d, a, r):
    n = E.concrete(st, a[1])
    return clone_all(E, st, d['args'][0], [a[0]] * n, lambda s, vs: Seq(vs))

@model('alloc::slice::<impl [T]>::into_vec', 'std::slice::<impl [T]>::into_vec', 'std::boxed::box_assume_init_into_vec_unsafe')
def _(E, st, d, a, r):
    p = E.as_ptr(a[0]); v = load(E, st, p)
    while isinstance(v, Agg) and len(v.f) >= 1: v = v.f[-1]
    return Seq(v.f)

def index_elem(E, st, p, i, f_loc='index out of bounds'):
    """pointer to element i of the slice or Vec at p, or a panic: outcomes"""
    n = slen(E, st, p)
    off = p.m[1] if p.m and p.m[0] == 'slice' else 0
    v = load(E, st, p)
    if isinstance(v, FunSeq):
        out = []
        for s, okk in E.branch(st, z3.And(integer(i) >= 0, integer(i) < n)):
            if okk:
                touch(E, s, v, simp(integer(i) + off)); out.append((s, 'ret', Ptr(p.a, p.p + (simp(integer(i) + off),))))
            else: out.append((s, 'panic', f_loc))
        return out
    if isinstance(i, int):
        if not 0 <= i < n: return [(st, 'panic', f_loc)]
        return [(st, 'ret', Ptr(p.a, p.p + (off + i,)))]
    k = i.get_id()
    if k in st.concr: return index_elem(E, st, p, st.concr[k][1])
    out = []
    for s, v in E.split(st, [(i == x, x) for x in range(n)] + [(z3.Or(i < 0, i >= n), None)]):
        if v is None: out.append((s, 'panic', f_loc))
        else:
            s.concr[k] = (i, v)
            out.append((s, 'ret', Ptr(p.a, p.p + (off + v,))))
    return out

def range_of(E, st, idx, n):
    """(lo, hi) of a range value by its shape"""
    raise Unsupported('range')

def index_any(E, st, p, idx, ity):
    """slice indexing by integer or range"""
    T = E.types[ity]
    n = slen(E, st, p); off = p.m[1] if p.m and p.m[0] == 'slice' else 0
    if T['k'] == 'int': return index_elem(E, st, p, idx)
    nm = T.get('name', '')
    c = lambda x: E.concrete(st, x)
    if nm.endswith('::RangeFull'): lo, hi = 0, n
    elif nm.endswith('::RangeFrom'): lo, hi = c(idx.f[0]), n
    elif nm.endswith('::RangeTo'): lo, hi = 0, c(idx.f[0])
    elif nm.endswith('::Range'): lo, hi = c(idx.f[0]), c(idx.f[1])
    elif nm.endswith('::RangeToInclusive'): lo, hi = 0, c(idx.f[0]) + 1
    elif nm.endswith('::RangeInclusive'): lo, hi = c(idx.f[0]), c(idx.f[1]) + 1
    else: raise Unsupported('index by ' + T.get('d', ''))
    if lo > hi or hi > n: return [(st, 'panic', 'slice range out of bounds')]
    return [(st, 'ret', Ptr(p.a, p.p, ('slice', off + lo, hi - lo)))]

@pattern(r'^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$|^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$|^core::array::<impl std::ops::Index(Mut)?<I> for \[T; N\]>::index(_mut)?$')
def _(E, st, d, a, r):
    return index_any(E, st, a[0], a[1], E._argtys[1])

@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def _(E, st, d, a, r):
    res = index_any(E, st, a[0], a[1], E._argtys[1])
    return [(s, 'ret', none() if k == 'panic' else some(v)) for s, k, v in res]

@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def _(E, st, d, a, r): return index_any(E, st, a[0], a[1], E._argtys[1])

@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def _(E, st, d, a, r):
    n = slen(E, st, a[0])
    return none() if n == 0 else some(Ptr(a[0].a, a[0].p + ((a[0].m[1] if a[0].m else 0),)))

@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def _(E, st, d, a, r):
    n = slen(E, st, a[0])
    return none() if n == 0 else some(Ptr(a[0].a, a[0].p + ((a[0].m[1] if a[0].m else 0) + n - 1,)))

@model('core::slice::<impl [T]>::swap')
def _(E, st, d, a, r):
    p = a[0]; i, j = E.concrete(st, a[1]), E.concrete(st, a[2]); off = p.m[1]
    x, y = E.load(st, p.a, p.p + (off + i,)), E.load(st, p.a, p.p + (off + j,))
    E.store(st, p.a, p.p + (off + i,), y); E.store(st, p.a, p.p + (off + j,), x); return UNIT

@model('core::slice::<impl [T]>::binary_search')
def _(E, st, d, a, r):
    v = load(E, st, a[0]); key = E.deref(st, a[1])
    if isinstance(v, AbsSeq):
        x = key.f[0]
        c = hday(E, st, v.name, x)
        h = hcount(E, st, v.name, x)
        return ForkV([(c, ok(h)), (z3.Not(c), err(h))])
    t = d['args'][0]
    cmpd = E.tfns.get('%d|cmp' % t)
    def compare(s, p): return E.call(s, cmpd, [p, a[1]])
    return bsearch(E, st, a[0], compare)

def bsearch(E, st, p, compare):
    """contract of binary search: first element not less than the key. The
    precondition (elements sorted) is what the callers establish."""
    n = slen(E, st, p); off = p.m[1] if p.m else 0
    out = []
    seq = load(E, st, p)
    if isinstance(seq, FunSeq): return bsearch_unbounded(E, st, p, seq, compare)
    work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i == n: out.append((s, 'ret', err(n))); continue
        for s2, k, o in compare(s, Ptr(p.a, p.p + (off + i,))):
            if k != 'ret': out.append((s2, k, o)); continue
            if o.var == 0: work.append((s2, i + 1))
            elif o.var == 1: out.append((s2, 'ret', ok(i)))
            else: out.append((s2, 'ret', err(i)))
    return out

def bsearch_unbounded(E, st, p, seq, compare):
    out = []
    i = z3.FreshConst(z3.IntSort(), 'bs')
    st.assume(z3.And(i >= 0, i <= seq.n))
    def at(s, k):
        touch(E, s, seq, k)
        return compare(s, Ptr(p.a, p.p + (k,)))
    for s, inside in E.branch(st, i < seq.n):
        if inside:
            for s2, k, o in at(s, i):
                if k != 'ret': out.append((s2, k, o)); continue
                if o.var == 1: out.append((s2, 'ret', ok(i)))
                elif o.var == 2: out.extend(before(E, s2, i, at))
        else: out.extend(before(E, s, i, at))
    return out

def before(E, st, i, at):
    out = []
    for s, has in E.branch(st, i > 0):
        if not has: out.append((s, 'ret', err(i))); continue
        for s2, k, o in at(s, z3.simplify(i - 1)):
            if k != 'ret': out.append((s2, k, o))
            elif o.var == 0: out.append((s2, 'ret', err(i)))
    return out

@model('core::slice::<impl [T]>::binary_search_by')
def _(E, st, d, a, r):
    fty = E._argtys[1]
    fp = Ptr(st.alloc(a[1]))
    return bsearch(E, st, a[0], lambda s, p: E.call_value(s, fty, fp, [p]))

@model('core::slice::<impl [T]>::binary_search_by_key')
def _(E, st, d, a, r):
    fty = E._argtys[2]; kt = E.types[E._argtys[1]]['elem']
    fp = Ptr(st.alloc(a[2])); cmpd = E.tfns.get('%d|cmp' % kt)
    if cmpd is None: raise Unsupported('binary_search_by_key')
    def compare(s, p):
        out = []
        for s2, k, v in E.call_value(s, fty, fp, [p]):
            if k != 'ret': out.append((s2, k, v)); continue
            out.extend(E.call(s2, cmpd, [Ptr(s2.alloc(v)), a[1]]))
        return out
    return bsearch(E, st, a[0], compare)

@model('alloc::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def _(E, st, d, a, r):
    fty = E._argtys[1]; fp = Ptr(st.alloc(a[1]))
    return isort(E, st, a[0], lambda s, x, y: E.call_value(s, fty, fp, [Ptr(s.alloc(x)), Ptr(s.alloc(y))]))

@model('alloc::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable')
def _(E, st, d, a, r):
    c = E.tfns.get('%d|cmp' % d['args'][0])
    return isort(E, st, a[0], lambda s, x, y: E.call(s, c, [Ptr(s.alloc(x)), Ptr(s.alloc(y))]))

def isort(E, st, p, compare):
    """contract of a stable sort, by insertion with case splits"""
    es = list(E.slice_elems(st, p))
    states = [(st, [])]
    for e in es:
        nxt = []
        for s, done in states:
            # insert after the last element not greater than e
            work = [(s, len(done))]
            while work:
                s1, i = work.pop()
                if i == 0: nxt.append((s1, [e] + done)); continue
                for s2, k, o in compare(s1, done[i - 1], e):
                    if k != 'ret': raise Unsupported('panic while sorting')
                    if o.var == 2: work.append((s2, i - 1))
                    else: nxt.append((s2, done[:i] + [e] + done[i:]))
        states = nxt
    out = []
    for s, vs in states:
        v = E.load(s, p.a, p.p); off = p.m[1] if p.m else 0
        E.store(s, p.a, p.p, Seq(v.f[:off] + tuple(vs) + v.f[off + len(vs):]))
        out.append((s, 'ret', UNIT))
    return out

@model('core::slice::<impl [T]>::reverse')
def _(E, st, d, a, r):
    p = a[0]; es = E.slice_elems(st, p); v = load(E, st, p); off = p.m[1]
    E.store(st, p.a, p.p, Seq(v.f[:off] + tuple(reversed(es)) + v.f[off + len(es):])); return UNIT

@model('core::slice::<impl [T]>::contains')
def _(E, st, d, a, r):
    t = d['args'][0]
    work = [(st, 0)]; out = []; es = E.slice_elems(st, a[0]); off = a[0].m[1]
    if isinstance(es, AbsSeq): raise Unsupported('contains on unbounded list')
    while work:
        s, i = work.pop()
        if i == len(es): out.append((s, 'ret', False)); continue
        for s2, b in equal(E, s, t, Ptr(a[0].a, a[0].p + (off + i,)), a[1]):
            if b: out.append((s2, 'ret', True))
            else: work.append((s2, i + 1))
    return out

def equal(E, st, t, p, q):
    """equality of the values behind two pointers: list of (state, bool)"""
    T = E.types[t]
    x, y = E.deref(st, p), E.deref(st, q)
    if T['k'] in ('int', 'char', 'bool', 'float'):
        c = E.binop(st, 'Eq', x, y, t)
        return E.branch(st, c)
    if T['k'] == 'str' or (T['k'] == 'adt' and T['name'] == 'std::string::String'):
        return E.branch(st, str_eq(x, y))
    if T['k'] == 'ref': return equal(E, st, T['elem'], x, y)
    if isinstance(x, Str) and isinstance(y, Str): return E.branch(st, str_eq(x, y))
    d = E.tfns.get('%d|eq' % t)
    if d is None: raise Unsupported('equality of ' + T['d'])
    out = []
    for s, k, v in E.call(st, d, [p, q]):
        if k != 'ret': raise Unsupported('eq panics')
        out.extend(E.branch(s, v))
    return out

def str_eq(x, y):
    if isinstance(x.s, str) and isinstance(y.s, str): return x.s == y.s
    if x.s is y.s or (isinstance(x.s, Opaque) and isinstance(y.s, Opaque) and x.s.n == y.s.n): return True
    if isinstance(x.s, tuple) and isinstance(y.s, tuple) and len(x.s) == len(y.s):
        c = True
        for a, b in zip(x.s, y.s):
            if isinstance(a, str) and isinstance(b, str):
                if a != b: break
            elif isinstance(a, Num) and isinstance(b, Num) and a.w == b.w: c = land(c, integer(a.v) == integer(b.v))
            elif isinstance(a, Opaque) and isinstance(b, Opaque) and a.n == b.n: pass
            elif isinstance(a, Agg) and isinstance(b, Agg) and a.f[0].n == 'shown' and a.f[1] is b.f[1]: pass
            else: break
        else: return simp(c)
    raise Unsupported('equality of symbolic texts %r %r' % (x, y))

# ------------------------------------------------------------ slice iterators

# Iter value: Agg((base pointer, front, back)); IntoIter: Agg((Seq, front, back))

@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'std::slice::Iter::<\'a, T>::new', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def _(E, st, d, a, r): return mk_iter(E, st, a[0])

def mk_iter(E, st, p):
    v = load(E, st, p)
    if isinstance(v, AbsSeq): raise Unsupported('iteration over unbounded list')
    off, n = (p.m[1], p.m[2]) if p.m and p.m[0] == 'slice' else (0, v.n if isinstance(v, FunSeq) else len(v.f))
    return Agg((Ptr(p.a, p.p), off, simp(off + n)))

@pattern(r"^core::array::<impl std::iter::IntoIterator for &'a (mut )?\[T; N\]>::into_iter$")
def _(E, st, d, a, r): return mk_iter(E, st, a[0])

@pattern(r"^<std::slice::Iter(Mut)?<'_?a?, T> as std::iter::Iterator>::next$|^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    it = E.deref(st, a[0])
    p, i, n = it.f
    if isz(i) or isz(n):
        # going through a list of any length
        if isinstance(i, int) and i > 3: raise Unsupported('loop over a list of any length without an invariant')
        v = load(E, st, p); out = []
        for s, more in E.branch(st, integer(i) < n):
            if not more: out.append((s, 'ret', none())); continue
            if isinstance(v, FunSeq): touch(E, s, v, i)
            E.store(s, a[0].a, a[0].p, Agg((p, simp(integer(i) + 1), n)))
            out.append((s, 'ret', some(Ptr(p.a, p.p + (i,)))))
        return out
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((p, i + 1, n)))
    return some(Ptr(p.a, p.p + (i,)))

@pattern(r"^<std::slice::Iter(Mut)?<.*> as std::iter::DoubleEndedIterator>::next_back$")
def _(E, st, d, a, r):
    it = E.deref(st, a[0]); p, i, n = it.f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((p, i, n - 1)))
    return some(Ptr(p.a, p.p + (n - 1,)))

@pattern(r"^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::size_hint$")
def _(E, st, d, a, r):
    p, i, n = E.deref(st, a[0]).f
    return Agg((n - i, some(n - i)))

@pattern(r"^<std::slice::Iter(Mut)?<.*> as std::iter::ExactSizeIterator>::len$|^<std::slice::Iter<.*> as std::iter::Iterator>::count$")
def _(E, st, d, a, r):
    it = a[0] if isinstance(a[0], Agg) else E.deref(st, a[0])
    return it.f[2] - it.f[1]

@pattern(r"^<std::slice::Iter<.*> as std::clone::Clone>::clone$")
def _(E, st, d, a, r): return E.deref(st, a[0])

@pattern(r"^<std::slice::Iter(Mut)?<.*> as std::iter::Iterator>::(nth|last|__iterator_get_unchecked)$")
def _(E, st, d, a, r):
    m = d['idef'].split('::')[-1]
    if m == 'last':
        p, i, n = a[0].f
        return none() if i >= n else some(Ptr(p.a, p.p + (n - 1,)))
    p, i, n = E.deref(st, a[0]).f; k = E.concrete(st, a[1])
    if m == '__iterator_get_unchecked': return Ptr(p.a, p.p + (i + k,))
    if i + k >= n:
        E.store(st, a[0].a, a[0].p, Agg((p, n, n))); return none()
    E.store(st, a[0].a, a[0].p, Agg((p, i + k + 1, n)))
    return some(Ptr(p.a, p.p + (i + k,)))

@model('core::slice::<impl [T]>::windows')
def _(E, st, d, a, r):
    p, i, n = mk_iter(E, st, a[0]).f
    return Agg((p, i, n, E.concrete(st, a[1])))

@pattern(r"^<std::slice::Windows<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    p, i, n, k = E.deref(st, a[0]).f
    if isz(n): raise Unsupported('pieces of a list of any length')
    if i + k > n: return none()
    E.store(st, a[0].a, a[0].p, Agg((p, i + 1, n, k)))
    return some(Ptr(p.a, p.p, ('slice', i, k)))

CONSUMED = r"^<(std::slice::(Iter(Mut)?|Windows)|ndarray::iter::\w+|std::vec::IntoIter|std::collections::hash_map::\w+|std::collections::hash_set::\w+)<.*> as std::iter::(Iterator|DoubleEndedIterator)>::"

@pattern(CONSUMED + r"(any|all|find|find_map|position|fold|for_each|rfind)$")
def _(E, st, d, a, r):
    """the consumers libraries write out anew for their own iterators: one next after another"""
    m = d['idef'].split('::')[-1]
    ity = E._argtys[0]; tys = list(E._argtys)
    if E.types[ity]['k'] in ('ref', 'ptr') and isinstance(a[0], Ptr): ity = E.types[ity]['elem']
    step = E.tfns.get('%d|%s' % (ity, 'next_back' if m == 'rfind' else 'next'))
    if step is None:
        n = '<%s<> as std::iter::%s' % (E.types[ity]['name'], 'DoubleEndedIterator>::next_back' if m == 'rfind' else 'Iterator>::next')
        step = {'idef': n, 'def': n, 'name': n, 'args': [], 'kind': 'item', 'key': ''}
    cell = a[0] if isinstance(a[0], Ptr) else Ptr(st.alloc(a[0]))
    fty, f = tys[-1], Ptr(st.alloc(a[-1]))
    if E.types[fty]['k'] in ('ref', 'ptr', 'fndef'): f = a[-1]
    out = []; work = [(st, 0, a[1] if m == 'fold' else None)]
    while work:
        s, i, acc = work.pop()
        if i > 2000: raise Unsupported('iterator too long')
        for s2, k, v in E.call(s, step, [cell]):
            if k != 'ret': out.append((s2, k, v)); continue
            if v.var == 0:
                out.append((s2, 'ret', {'any': False, 'all': True, 'fold': acc, 'for_each': UNIT}.get(m, None) if m in ('any', 'all', 'fold', 'for_each') else none()))
                continue
            x = v.f[0]
            given = [acc, x] if m == 'fold' else [Ptr(s2.alloc(x))] if m in ('find', 'rfind') else [x]
            for s3, k3, y in E.call_value(s2, fty, f, given):
                if k3 != 'ret': out.append((s3, k3, y)); continue
                if m == 'fold': work.append((s3, i + 1, y)); continue
                if m == 'for_each': work.append((s3, i + 1, None)); continue
                if m == 'find_map':
                    if y.var == 0: work.append((s3, i + 1, None))
                    else: out.append((s3, 'ret', y))
                    continue
                for s4, b in E.branch(s3, y):
                    if b == (m == 'all'): work.append((s4, i + 1, None))
                    else: out.append((s4, 'ret', {'any': True, 'all': False}[m] if m in ('any', 'all') else some(i) if m == 'position' else some(x)))
    return out

# generic consumers of an iterator whose own loop is in a library we do not run

def drain(E, st, ity, it):
    """all items of an iterator: outcomes (state, items) ; panics pass through"""
    d = E.tfns.get('%d|next' % ity)
    if d is None: raise Unsupported('iterator ' + E.types[ity]['d'])
    cell = it if isinstance(it, Ptr) else Ptr(st.alloc(it))
    out = []; work = [(st, [])]
    while work:
        s, acc = work.pop()
        if len(acc) > 2000: raise Unsupported('iterator too long')
        for s2, k, v in E.call(s, d, [cell]):
            if k != 'ret': out.append((s2, k, v)); continue
            if v.var == 0: out.append((s2, 'items', acc))
            else: work.append((s2, acc + [v.f[0]]))
    return out

def into_iter(E, st, t, v):
    d = E.tfns.get('%d|into_iter' % t)
    if d is None: return [(st, t, v)]
    # identity for iterators
    if E.tfns.get('%d|next' % t): return [(st, t, v)]
    out = []
    for s, k, x in E.call(st, d, [v]):
        f = E.fns.get(d['key'])
        out.append((s, ret_type(E, d), x))
    return out

def ret_type(E, d):
    raise Unsupported('into_iter of ' + d['name'])

@model('<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter')
def _(E, st, d, a, r):
    ity = d['args'][-1]
    out = []
    for s, k, v in collect_items(E, st, ity, a[0]):
        out.append((s, 'ret', Seq(v)) if k == 'items' else (s, k, v))
    return out

def collect_items(E, st, ity, v):
    if E.tfns.get('%d|next' % ity): return drain(E, st, ity, v)
    T = E.types[ity]
    if T['k'] == 'adt' and T['name'] == 'std::vec::Vec': return [(st, 'items', list(v.f))]
    if T['k'] == 'ref':
        e = E.types[T['elem']]
        if (e['k'] == 'adt' and e['name'] == 'std::vec::Vec') or e['k'] in ('slice', 'array'):
            n = slen(E, st, v); off = v.m[1] if v.m else 0
            return [(st, 'items', [Ptr(v.a, v.p + (off + i,)) for i in range(n)])]
    raise Unsupported('into_iter of ' + T['d'])

@model('<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend')
def _(E, st, d, a, r):
    out = []
    for s, k, v in collect_items(E, st, d['args'][-1], a[1]):
        if k == 'items':
            vec_store(E, s, a[0], Seq(load(E, s, a[0]).f + tuple(v))); out.append((s, 'ret', UNIT))
        else: out.append((s, k, v))
    return out

@model("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend")
def _(E, st, d, a, r):
    out = []
    for s, k, v in collect_items(E, st, d['args'][-1], a[1]):
        if k == 'items':
            vec_store(E, s, a[0], Seq(load(E, s, a[0]).f + tuple(E.deref(s, p) for p in v))); out.append((s, 'ret', UNIT))
        else: out.append((s, k, v))
    return out

@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def _(E, st, d, a, r): return Agg((a[0], 0, len(a[0].f)))

@pattern(r'^<std::vec::IntoIter<.*> as std::iter::Iterator>::next$')
def _(E, st, d, a, r):
    v, i, n = E.deref(st, a[0]).f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((v, i + 1, n)))
    return some(v.f[i])

@pattern(r'^<std::vec::IntoIter<.*> as std::iter::(DoubleEndedIterator>::next_back)$')
def _(E, st, d, a, r):
    v, i, n = E.deref(st, a[0]).f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((v, i, n - 1)))
    return some(v.f[n - 1])

@pattern(r'^<std::vec::IntoIter<.*> as std::iter::(Iterator>::size_hint)$')
def _(E, st, d, a, r):
    v, i, n = E.deref(st, a[0]).f
    return Agg((n - i, some(n - i)))

# ------------------------------------------------------------ smart pointers

@pattern(r'^std::boxed::Box::<T>::new_uninit$')
def _(E, st, d, a, r): return E.mk_box(st, UNINIT, r)

@model('std::boxed::Box::<T>::new')
def _(E, st, d, a, r): return E.mk_box(st, a[0], r)

@pattern(r'^std::sync::Arc::<T>::new$|^std::rc::Rc::<T>::new$')
def _(E, st, d, a, r):
    # ArcInner { strong, weak, data }
    return E.wrap_ptr(Ptr(st.alloc(Agg((1, 1, a[0])))), r)

@pattern(r'^<std::(sync::Arc|rc::Rc)<T, A> as std::clone::Clone>::clone$')
def _(E, st, d, a, r): return E.deref(st, a[0])

@pattern(r'^<std::(sync::Arc|rc::Rc)<T, A> as std::ops::Deref>::deref$|^<std::(sync::Arc|rc::Rc)<T, A> as std::convert::AsRef<T>>::as_ref$|^<std::(sync::Arc|rc::Rc)<T, A> as std::borrow::Borrow<T>>::borrow$')
def _(E, st, d, a, r):
    p = E.as_ptr(E.deref(st, a[0]))
    return Ptr(p.a, p.p + (2,), p.m)

@pattern(r'^<std::boxed::Box<T, A> as std::(ops::Deref(Mut)?|convert::AsRef<T>|convert::AsMut<T>|borrow::Borrow<T>|borrow::BorrowMut<T>)>::\w+$')
def _(E, st, d, a, r): return E.as_ptr(E.deref(st, a[0]))

@pattern(r'^std::sync::Arc::<T, A>::ptr_eq$|^std::rc::Rc::<T, A>::ptr_eq$')
def _(E, st, d, a, r):
    p, q = E.as_ptr(E.deref(st, a[0])), E.as_ptr(E.deref(st, a[1]))
    return p.a == q.a and p.p == q.p

@pattern(r'^<std::boxed::Box<T, A> as std::clone::Clone>::clone$|^<std::boxed::Box<T> as std::clone::Clone>::clone$')
def _(E, st, d, a, r):
    p = E.as_ptr(E.deref(st, a[0]))
    return [(s, k, E.mk_box(s, v, r) if k == 'ret' else v) for s, k, v in clone(E, st, d['args'][0], E.deref(st, p))]

@pattern(r'^std::boxed::Box::<T(, A)?>::(into_raw|leak)$')
def _(E, st, d, a, r): return E.as_ptr(a[0])
@pattern(r'^std::boxed::Box::<T>::from_raw$')
def _(E, st, d, a, r): return E.wrap_ptr(a[0], r)

# ------------------------------------------------------------ dynamic typing

@pattern(r'^(std|core)::any::<impl \(dyn std::any::Any.*\)>::(is|downcast_ref|downcast_mut)$|<impl dyn std::any::Any>::(is|downcast_ref|downcast_mut)$|^<\(?dyn std::any::Any.*>::(is|downcast_ref|downcast_mut)$')
def _(E, st, d, a, r):
    p = E.as_ptr(a[0]); t = d['args'][-1]
    if not (p.m and p.m[0] == 'dyn'): raise Unsupported('Any without type')
    same = p.m[1] == t
    m = d['idef'].split('::')[-1]
    if m == 'is': return same
    return some(Ptr(p.a, p.p)) if same else none()

# ------------------------------------------------------------ text

# A text is a python string, a tuple of tokens (strings, numerals with a symbolic
# value, opaque pieces), or opaque altogether.

def toks(s): return s if isinstance(s, tuple) else (s,) if s != '' else ()
def mktext(ts):
    out = []
    for t in ts:
        if isinstance(t, str):
            if t == '': continue
            if out and isinstance(out[-1], str): out[-1] += t; continue
        out.append(t)
    if not out: return ''
    return out[0] if len(out) == 1 and isinstance(out[0], (str, Opaque)) else tuple(out)

@model('qmharness::sym::text')
def _(E, st, d, a, r):
    sep = sname(E, st, a[1]); ts = []
    for i, p in enumerate(E.slice_elems(st, a[0])):
        if i: ts.append(sep)
        if p.var == 0:
            v, w = p.f
            if isinstance(v, int): ts.append('%0*d' % (E.concrete(st, w), v))
            else: ts.append(Num(v, E.concrete(st, w)))
        else: ts.append(E.str_of(st, p.f[0]).s)
    return Str(mktext(ts))

@pattern(r'^(core|std|alloc)::fmt::rt::Argument::<.*>::new_(\w+)$')
def _(E, st, d, a, r): return Agg((Opaque(d['idef'].split('::')[-1]), a[0], d['args'][-1]))

@pattern(r'^(core|std|alloc)::fmt::(rt::<impl .*>|Arguments::<.*>)::(new|new_const|from_str|from_str_nonconst)$')
def _(E, st, d, a, r):
    if len(a) == 1:
        v = E.deref(st, a[0])
        if isinstance(v, Str): return Agg((Opaque('literal'), v.s))
        raise Unsupported('format arguments')
    return Agg((Opaque('arguments'), a[0], a[1]))

def show(E, st, arg, flags, width):
    kind, p, t = arg.f
    try:
        T = E.types[t]
        while T['k'] == 'ref': p = E.deref(st, p); t = T['elem']; T = E.types[t]
        v = E.deref(st, p)
        if kind.n == 'new_display':
            if isinstance(v, Str): return toks(v.s)
            if T['k'] == 'int':
                zero = flags is not None and flags & (1 << 24)
                if isinstance(v, int):
                    return (('%0*d' if zero else '%*d') % (width or 0, v),)
                if (zero or not width) and not E.solver.feasible(st.pc, v < 0): return (Num(v, width or 1),)
            if is_float(v) and isz(v): return (Agg((Opaque('shown'), v)),)
    except Unsupported: pass
    return (E.fresh_opaque('text'),)

def render(E, st, args):
    """tokens of format arguments"""
    if args.f[0].n == 'literal': return toks(args.f[1])
    b = E.deref(st, args.f[1]).f
    vs = E.deref(st, args.f[2]).f
    out = []; i = 0; nxt = 0
    while b[i] != 0:
        c = b[i]; i += 1
        if c < 0x80:
            out.append(bytes(b[i:i + c]).decode()); i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out.append(bytes(b[i:i + n]).decode()); i += n
        else:
            flags = width = None
            if c & 1: flags = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24; i += 4
            if c & 2: width = b[i] | b[i + 1] << 8; i += 2
            prec = None
            if c & 4: prec = b[i] | b[i + 1] << 8; i += 2
            if c & 8: nxt = b[i] | b[i + 1] << 8; i += 2
            if prec is not None or c & 48: out.append(E.fresh_opaque('text'))
            else: out.extend(show(E, st, vs[nxt], flags, width))
            nxt += 1
    return tuple(out)

@pattern(r'^(alloc|std)::fmt::format$|^(alloc|std)::fmt::format::format_inner$')
def _(E, st, d, a, r):
    if not isinstance(a[0], Agg): return Str(E.fresh_opaque('text'))
    if a[0].f[0].n == 'arguments':
        b = E.deref(st, a[0].f[1]).f; vs = E.deref(st, a[0].f[2]).f
        if len(vs) == 1 and len(b) == 2 and b[0] == 0xc0 and b[1] == 0 and vs[0].f[0].n == 'new_display':
            # nothing but one value
            p, t = vs[0].f[1:]
            while E.types[t]['k'] == 'ref': p = E.deref(st, p); t = E.types[t]['elem']
            if E.types[t]['k'] == 'adt' and not isinstance(E.deref(st, p), Str): return display(E, st, t, p)
    return Str(mktext(render(E, st, a[0])))

@pattern(r"^(core|std)::fmt::Formatter::<.*>::(write_fmt|write_str|pad)$|^<(core|std)::fmt::Formatter<.*> as (core|std)::fmt::Write>::(write_fmt|write_str)$|^(core|std)::fmt::Write::write_fmt$")
def _(E, st, d, a, r):
    f = E.deref(st, a[0])
    if isinstance(f, Agg) and f.f and isinstance(f.f[0], Opaque) and f.f[0].n == 'formatter':
        ts = render(E, st, a[1]) if isinstance(a[1], Agg) else toks(E.str_of(st, a[1]).s)
        E.store(st, a[0].a, a[0].p, Agg((f.f[0], mktext(toks(f.f[1]) + ts))))
    return ok(UNIT)

def display(E, st, t, p):
    """text printed for the value at p: outcomes"""
    d = E.tfns.get('%d|display' % t)
    if d is None or lookup(d) is not None: return rets([(st, Str(E.fresh_opaque('text')))])
    f = Ptr(st.alloc(Agg((Opaque('formatter'), ''))))
    out = []
    for s, k, v in E.call(st, d, [p, f]):
        out.append((s, k, Str(E.deref(s, f).f[1]) if k == 'ret' else v))
    return out

@pattern(r'^<?(std|core|alloc)::fmt::|<impl std::fmt::|^<.* as std::fmt::(Debug|LowerExp|Write)>::|^<(std|core|alloc)::.* as std::fmt::Display>::')
def _(E, st, d, a, r):
    n = d['idef']
    if n.endswith('::fmt') or n.endswith('write_str') or n.endswith('write_fmt'): return ok(UNIT)
    return E.fresh_opaque('fmt')

@pattern(r'^core::str::<impl str>::split$')
def _(E, st, d, a, r):
    s = E.str_of(st, a[0]).s
    if isinstance(s, Opaque): raise Unsupported('split of opaque text')
    sep = a[1]
    if isinstance(sep, Ptr): sep = E.str_of(st, sep).s
    elif isinstance(sep, int): sep = chr(sep)
    else: raise Unsupported('split pattern')
    if not isinstance(sep, str) or sep == '' or sep.isdigit(): raise Unsupported('split pattern')
    parts = [[]]
    for t in toks(s):
        if isinstance(t, Opaque): raise Unsupported('split of opaque text')
        if not isinstance(t, str): parts[-1].append(t); continue
        x = t.split(sep)
        parts[-1].append(x[0])
        for y in x[1:]: parts.append([y])
    return Agg((Seq([E.new_str(st, mktext(x)) for x in parts]), 0, len(parts)))

@pattern(r"^<std::str::Split<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    v, i, n = E.deref(st, a[0]).f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((v, i + 1, n)))
    return some(v.f[i])
@pattern(r"^<std::str::Split<.*> as std::iter::Iterator>::(size_hint|count)$")
def _(E, st, d, a, r):
    if d['idef'].endswith('count'): return a[0].f[2] - a[0].f[1]
    return Agg((0, none()))

@pattern(r'^core::str::<impl str>::parse$|^core::num::<impl (std|core)::str::FromStr for \w+>::from_str$')
def _(E, st, d, a, r):
    s = E.str_of(st, a[0]).s
    R_ = E.types[r]
    t = R_['args'][0]
    T = E.types[t]
    if T['k'] != 'int':
        f = E.tfns.get('%d|from_str' % t)
        if f is None: raise Unsupported('parse as ' + T['d'])
        return E.call(st, f, a)
    if isinstance(s, tuple) and len(s) == 1 and isinstance(s[0], Num):
        lo, hi = E.int_range(t); v = s[0].v
        c = simp(z3.And(v >= lo, v <= hi))
        if isinstance(c, bool): return ok(v) if c else err(Opaque('parse error'))
        return ForkV([(c, ok(v)), (z3.Not(c), err(Opaque('parse error')))])
    if isinstance(s, str):
        lo, hi = E.int_range(t)
        if re.match(r'^[+-]?[0-9]+$' if lo < 0 else r'^\+?[0-9]+$', s) and lo <= int(s) <= hi: return ok(int(s))
        return err(Opaque('parse error'))
    if isinstance(s, tuple) and any(isinstance(t, str) and not t.lstrip('+-').isdigit() for t in s): return err(Opaque('parse error'))
    raise Unsupported('parse of symbolic text')

def Sval(E, st, p): return E.str_of(st, p)

@pattern(r'^std::string::String::(new|with_capacity)$|^<std::string::String as std::default::Default>::default$')
def _(E, st, d, a, r): return Str('')

@pattern(r'^<str as (std|alloc)::string::(ToString|SpecToString)>::|^<(std::string::String|str|.*) as std::string::ToString>::to_string$|^<std::string::String as std::convert::From<&(mut )?str>>::from$|^std::str::<impl std::borrow::ToOwned for str>::to_owned$|^alloc::str::<impl std::borrow::ToOwned for str>::to_owned$|^<std::string::String as std::clone::Clone>::clone$|^alloc::str::<impl str>::(to_owned|into_string)$|^<std::string::String as std::str::FromStr>::from_str$')
def _(E, st, d, a, r):
    v = E.deref(st, a[0])
    if isinstance(v, Ptr): v = E.deref(st, v)
    if isinstance(v, Str): return v if not d['idef'].endswith('from_str') else ok(v)
    t = E._argtys[0]
    while E.types[t]['k'] == 'ref': t = E.types[t]['elem']
    if E.types[t]['k'] == 'int': return Str(mktext(show(E, st, Agg((Opaque('new_display'), a[0], t)), None, None)))
    if E.types[t]['k'] == 'adt': return display(E, st, t, a[0])
    return Str(E.fresh_opaque('text'))

@pattern(r'^<std::string::String as std::(ops::Deref(Mut)?|convert::AsRef<str>|borrow::Borrow<str>)>::\w+$|^std::string::String::(as_str|as_mut_str)$|^<str as std::(convert::AsRef<str>|borrow::Borrow<str>)>::\w+$')
def _(E, st, d, a, r): return Ptr(a[0].a, a[0].p, ('str',))

@pattern(r'std::cmp::PartialEq<.*> for (str|std::string::String|&.*str)>::(eq|ne)$|^<(std::string::String|str|&.?str) as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|^<std::string::String as std::cmp::PartialEq.*>::(eq|ne)$|^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$')
def _(E, st, d, a, r):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    if isinstance(x, Ptr): x = E.deref(st, x)
    if isinstance(y, Ptr): y = E.deref(st, y)
    b = str_eq(x, y)
    return b if d['idef'].endswith('eq') else lnot(b)

@pattern(r'^core::str::traits::<impl std::cmp::(Partial)?Ord for str>::\w+$|^<std::string::String as std::cmp::(Partial)?Ord>::\w+$')
def _(E, st, d, a, r):
    x, y = E.deref(st, a[0]).s, E.deref(st, a[1]).s
    if not (isinstance(x, str) and isinstance(y, str)): raise Unsupported('order of symbolic text')
    o = LESS if x < y else EQUAL if x == y else GREATER
    m = d['idef'].split('::')[-1]
    return {'cmp': o, 'partial_cmp': some(o)}.get(m) or {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[m]

@pattern(r'^core::str::<impl str>::len$|^std::string::String::len$')
def _(E, st, d, a, r): return str_len(E, st, a[0])
@pattern(r'^core::str::<impl str>::is_empty$|^std::string::String::is_empty$')
def _(E, st, d, a, r):
    s = E.str_of(st, a[0]).s
    if isinstance(s, tuple) and any(isinstance(t, (str, Num)) for t in s): return False
    return str_len(E, st, a[0]) == 0

@pattern(r'^std::string::String::push_str$')
def _(E, st, d, a, r):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    v = Str(mktext(toks(x.s) + toks(y.s)))
    E.store(st, a[0].a, a[0].p, v); return UNIT
@pattern(r'^<std::string::String as std::ops::Add<&str>>::add$')
def _(E, st, d, a, r):
    x, y = a[0], E.deref(st, a[1])
    return Str(mktext(toks(x.s) + toks(y.s)))

# ------------------------------------------------------------ hash maps

HM = r'^std::collections::(hash_map::|hash::map::)?HashMap::<K, V.*>::'

def find_key(E, st, mp, kt, qp, qt):
    """look a key up: outcomes (state, index or None)"""
    m = load(E, st, mp)
    if isinstance(m, Agg): m = m.f[0]
    out = []; work = [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(m.f):
            if m.open is not None:
                q = E.deref(s, qp)
                if isinstance(q, Ptr): q = E.deref(s, q)
                if not (isinstance(q, Str) and isinstance(q.s, str) and q.s in m.open): raise Unsupported('key of an arbitrary map')
            out.append((s, None)); continue
        k = m.f[i].f[0]
        q = E.deref(s, qp)
        if isinstance(k, Str) and isinstance(q, Str): res = E.branch(s, str_eq(k, q))
        elif isinstance(k, Ptr) and isinstance(q, Str): res = E.branch(s, str_eq(E.deref(s, k), q))
        elif isinstance(k, Ptr) and isinstance(q, Ptr) and isinstance(E.deref(s, k), Str): res = E.branch(s, str_eq(E.deref(s, k), E.deref(s, q)))
        else: res = equal(E, s, kt, Ptr(s.alloc(k)), qp)
        for s2, b in res:
            if b: out.append((s2, i))
            else: work.append((s2, i + 1))
    return out

@pattern(HM + r'new$|^<std::collections::HashMap<K, V, S> as std::default::Default>::default$|' + HM + 'with_capacity$|^std::collections::HashSet::<T.*>::new$')
def _(E, st, d, a, r): return Map(())

@pattern(HM + r'(get|get_mut)$')
def _(E, st, d, a, r):
    kt = d['args'][0]
    return rets([(s, none() if i is None else some(Ptr(a[0].a, a[0].p + (i, 1)))) for s, i in find_key(E, st, a[0], kt, a[1], None)])

@pattern(r'^<std::collections::HashMap<K, V, S.*> as std::ops::Index<&Q>>::index$')
def _(E, st, d, a, r):
    T = E.types[d['args'][0]]
    kt = T['args'][0] if 'HashMap<' in T['d'] else d['args'][0]
    out = []
    for s, i in find_key(E, st, a[0], kt, a[1], None):
        if i is None: raise Unsupported('index of a map without the key')
        out.append((s, Ptr(a[0].a, a[0].p + (i, 1))))
    return rets(out)

@pattern(HM + r'contains_key$')
def _(E, st, d, a, r):
    return rets([(s, i is not None) for s, i in find_key(E, st, a[0], d['args'][0], a[1], None)])

@pattern(HM + r'insert$')
def _(E, st, d, a, r):
    qp = Ptr(st.alloc(a[1])); out = []
    for s, i in find_key(E, st, a[0], d['args'][0], qp, None):
        m = load(E, s, a[0])
        if i is None:
            E.store(s, a[0].a, a[0].p, Map(m.f + (Agg((a[1], a[2])),), m.open)); out.append((s, 'ret', none()))
        else:
            old = m.f[i].f[1]
            E.store(s, a[0].a, a[0].p, Map(m.f[:i] + (Agg((m.f[i].f[0], a[2])),) + m.f[i + 1:], m.open)); out.append((s, 'ret', some(old)))
    return out

@pattern(HM + r'remove$')
def _(E, st, d, a, r):
    out = []
    for s, i in find_key(E, st, a[0], d['args'][0], a[1], None):
        m = load(E, s, a[0])
        if i is None: out.append((s, 'ret', none()))
        else:
            E.store(s, a[0].a, a[0].p, Map(m.whole().f[:i] + m.f[i + 1:])); out.append((s, 'ret', some(m.f[i].f[1])))
    return out

@pattern(HM + r'clear$')
def _(E, st, d, a, r): E.store(st, a[0].a, a[0].p, Map(())); return UNIT
@pattern(HM + r'len$')
def _(E, st, d, a, r): return len(load(E, st, a[0]).whole().f)
@pattern(HM + r'is_empty$')
def _(E, st, d, a, r): return len(load(E, st, a[0]).whole().f) == 0
@pattern(HM + r'reserve$')
def _(E, st, d, a, r): return UNIT

@pattern(r'^<std::collections::HashMap<K, V, S.*> as std::clone::Clone>::clone$')
def _(E, st, d, a, r):
    m = load(E, st, a[0]); vt = E.types[d['args'][0]]['args'][1] if len(d['args']) == 1 else d['args'][1]
    def done(s, vs):
        return Map([Agg((e.f[0], v)) for e, v in zip(m.f, vs)], m.open)
    if not all(copyable(e.f[0]) for e in m.f): raise Unsupported('clone of keys')
    return clone_all(E, st, vt, [e.f[1] for e in m.f], done)

# iteration order is arbitrary in a real map; the association list order is one
# possible order (stated as an assumption)
@pattern(HM + r"(iter|iter_mut|keys|values|values_mut)$|^<&'a (mut )?std::collections::HashMap<K, V, S.*> as std::iter::IntoIterator>::into_iter$")
def _(E, st, d, a, r):
    m = load(E, st, a[0])
    return Agg((Ptr(a[0].a, a[0].p), 0, len(m.whole().f)))

@pattern(r"^<std::collections::hash_map::(Iter|IterMut|Keys|Values|ValuesMut)<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    p, i, n = E.deref(st, a[0]).f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((p, i + 1, n)))
    kp, vp = Ptr(p.a, p.p + (i, 0)), Ptr(p.a, p.p + (i, 1))
    if 'Keys' in d['idef']: return some(kp)
    if 'Values' in d['idef']: return some(vp)
    return some(Agg((kp, vp)))

@pattern(r"^<std::collections::hash_map::(Iter|IterMut|Keys|Values|ValuesMut|IntoIter)<.*> as std::iter::Iterator>::size_hint$")
def _(E, st, d, a, r):
    p, i, n = E.deref(st, a[0]).f
    return Agg((n - i, some(n - i)))

@pattern(r"^<std::collections::HashMap<K, V, S.*> as std::iter::IntoIterator>::into_iter$")
def _(E, st, d, a, r): return Agg((a[0], 0, len(a[0].whole().f)))
@pattern(r"^<std::collections::hash_map::IntoIter<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    m, i, n = E.deref(st, a[0]).f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((m, i + 1, n)))
    return some(m.f[i])

@pattern(r'^<std::collections::HashMap<K, V, S.*> as std::iter::FromIterator<\(K, V\)>>::from_iter$')
def _(E, st, d, a, r):
    out = []
    for s, k, items in collect_items(E, st, d['args'][-1], a[0]):
        if k != 'items': out.append((s, k, items)); continue
        states = [(s, Ptr(s.alloc(Map(()))))]
        for it in items:
            nxt = []
            for s1, mp in states:
                for s2, kk, _x in EXACT_INSERT(E, s1, {'args': d['args']}, [mp, it.f[0], it.f[1]], None): nxt.append((s2, mp))
            states = nxt
        for s1, mp in states: out.append((s1, 'ret', load(E, s1, mp)))
    return out
for _rx, _fn in PATTERNS:
    if _rx.pattern == HM + r'insert$': EXACT_INSERT = _fn

# entry API
@pattern(HM + r'entry$')
def _(E, st, d, a, r):
    qp = Ptr(st.alloc(a[1])); out = []
    for s, i in find_key(E, st, a[0], d['args'][0], qp, None):
        if i is None: out.append((s, 'ret', Agg((Agg((a[0], a[1])),), 1)))
        else: out.append((s, 'ret', Agg((Agg((a[0], i)),), 0)))
    return out

@pattern(r"^std::collections::hash_map::(Entry|VacantEntry|OccupiedEntry)::<.*>::(or_insert|insert|or_insert_with|or_default|get|get_mut|into_mut)$")
def _(E, st, d, a, r):
    m = d['idef'].split('::')[-1]
    if '::Entry::' in d['idef']:
        e = a[0]
        if e.var == 0:
            mp, i = e.f[0].f
            return Ptr(mp.a, mp.p + (i, 1))
        mp, k = e.f[0].f
        if m == 'or_insert': vals = [(st, 'ret', a[1])]
        elif m == 'or_insert_with': vals = E.call_value(st, E._argtys[1], a[1], [], 'fnonce')
        elif m == 'or_default': vals = E.call(st, E.tfns['%d|default' % d['args'][1]], [])
        else: raise Unsupported('entry ' + m)
        out = []
        for s, kk, v in vals:
            if kk != 'ret': out.append((s, kk, v)); continue
            mv = load(E, s, mp)
            E.store(s, mp.a, mp.p, Map(mv.f + (Agg((k, v)),), mv.open))
            out.append((s, 'ret', Ptr(mp.a, mp.p + (len(mv.f), 1))))
        return out
    if 'VacantEntry' in d['idef'] and m == 'insert':
        mp, k = a[0].f
        mv = load(E, st, mp)
        E.store(st, mp.a, mp.p, Map(mv.f + (Agg((k, a[1])),), mv.open))
        return Ptr(mp.a, mp.p + (len(mv.f), 1))
    if 'OccupiedEntry' in d['idef']:
        oe = a[0] if isinstance(a[0], Agg) else E.deref(st, a[0])
        mp, i = oe.f
        if m in ('get', 'get_mut', 'into_mut'): return Ptr(mp.a, mp.p + (i, 1))
        if m == 'insert':
            old = E.load(st, mp.a, mp.p + (i, 1)); E.store(st, mp.a, mp.p + (i, 1), a[1]); return old
    raise Unsupported('entry ' + m)

# sets: Map from element to unit
HS = r'^std::collections::HashSet::<T, S.*>::'
@pattern(HS + r'insert$')
def _(E, st, d, a, r):
    qp = Ptr(st.alloc(a[1])); out = []
    for s, i in find_key(E, st, a[0], d['args'][0], qp, None):
        m = load(E, s, a[0])
        if i is None: E.store(s, a[0].a, a[0].p, Map(m.f + (Agg((a[1], UNIT)),)))
        out.append((s, 'ret', i is None))
    return out
@pattern(HS + r'contains$')
def _(E, st, d, a, r): return rets([(s, i is not None) for s, i in find_key(E, st, a[0], d['args'][0], a[1], None)])
@pattern(HS + r"iter$|^<&'a std::collections::HashSet<T, S.*> as std::iter::IntoIterator>::into_iter$")
def _(E, st, d, a, r): return Agg((Ptr(a[0].a, a[0].p), 0, len(load(E, st, a[0]).f)))
@pattern(r"^<std::collections::hash_set::Iter<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    p, i, n = E.deref(st, a[0]).f
    if i >= n: return none()
    E.store(st, a[0].a, a[0].p, Agg((p, i + 1, n)))
    return some(Ptr(p.a, p.p + (i, 0)))
@pattern(HS + r'(len|is_empty)$')
def _(E, st, d, a, r):
    n = len(load(E, st, a[0]).f)
    return n if d['idef'].endswith('len') else n == 0

# ------------------------------------------------------------ memory

@pattern(r'^std::mem::(replace|swap|take)$|^core::mem::(replace|swap|take)$')
def _(E, st, d, a, r):
    m = d['idef'].split('::')[-1]
    if m == 'replace':
        v = E.deref(st, a[0]); E.store(st, a[0].a, a[0].p, a[1]); return v
    if m == 'swap':
        x, y = E.deref(st, a[0]), E.deref(st, a[1])
        E.store(st, a[0].a, a[0].p, y); E.store(st, a[1].a, a[1].p, x); return UNIT
    v = E.deref(st, a[0]); out = []
    t = d['args'][0]; T = E.types[t]
    if T['k'] == 'adt' and T['name'] == 'std::vec::Vec': dv = [(st, 'ret', Seq(()))]
    elif T['k'] == 'adt' and T['name'] == 'std::string::String': dv = [(st, 'ret', Str(''))]
    elif T['k'] == 'adt' and T['name'] == 'std::option::Option': dv = [(st, 'ret', none())]
    elif T['k'] == 'adt' and 'HashMap' in T['name']: dv = [(st, 'ret', Map(()))]
    else: dv = E.call(st, E.tfns['%d|default' % t], [])
    for s, k, x in dv:
        if k == 'ret': E.store(s, a[0].a, a[0].p, x)
        out.append((s, k, v if k == 'ret' else x))
    return out

@pattern(r'^std::mem::(drop|forget)$|^core::mem::(drop|forget)$|^std::ptr::drop_in_place$|^std::ptr::drop_glue')
def _(E, st, d, a, r): return UNIT

# ------------------------------------------------------------ statrs

@pattern(r'^<statrs::distribution::(?:normal::)?Normal as statrs::distribution::Univariate<.*>>::cdf$')
def _(E, st, d, a, r):
    nrm = E.deref(st, a[0]); mean, sd = nrm.f[0], nrm.f[1]
    if isinstance(mean, Fraction) and mean == 0 and isinstance(sd, Fraction) and sd == 1: return fphi(E, st, a[1])
    raise Unsupported('normal distribution with parameters')
@pattern(r'^statrs::distribution::Normal::new$|^statrs::distribution::normal::Normal::new$')
def _(E, st, d, a, r): return ok(Agg((a[0], a[1])))

# ------------------------------------------------------------ derived helpers on floats

@pattern(r'^core::cmp::impls::<impl std::cmp::PartialOrd for f64>::(\w+)$|^std::cmp::impls::<impl std::cmp::PartialOrd for f64>::(\w+)$')
def _(E, st, d, a, r):
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    m = d['idef'].split('::')[-1]
    if m == 'partial_cmp': return fpcmp(E, st, x, y)
    return E.fcmp({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[m], x, y)

@pattern(r'^std::panic::catch_unwind$|^std::panicking::catch_unwind$')
def _(E, st, d, a, r):
    out = []
    for s, k, v in E.call_value(st, E._argtys[0], a[0], [], 'fnonce'):
        out.append((s, 'ret', ok(v) if k == 'ret' else err(E.fresh_opaque('panic'))))
    return out

# ------------------------------------------------------------ arrays of fixed shape

# An owned array is (shape, elements nested by axis); a view is (shape, where the
# elements are, an index or -1 for each axis of the owner). Shapes are concrete.

def size(E, st, x):
    """an integer that the path leaves no choice for"""
    x = simp(x) if isz(x) else x
    if isz(x):
        for n in range(9):
            if not E.solver.feasible(st.pc, x != n): return n
    return E.concrete(st, x)

def axes(E, st, v):
    if isinstance(v, int): return (v,)
    if isinstance(v, Agg): return tuple(size(E, st, x) for x in v.f)
    return (size(E, st, v),)

def nested(shape, make, at=()):
    if not shape: return make(at)
    return Seq([nested(shape[1:], make, at + (i,)) for i in range(shape[0])])

def view_of(E, st, p):
    """the array or view at p, as a view"""
    v = E.deref(st, p)
    if not isinstance(v, Agg) or not isinstance(v.f[0], Seq): raise Unsupported('array')
    if len(v.f) == 3: return v
    return Agg((v.f[0], Ptr(p.a, p.p + (1,)), Seq([-1] * len(v.f[0].f))))

def cell(v, at):
    it = iter(at)
    return Ptr(v.f[1].a, v.f[1].p + tuple(next(it) if i == -1 else i for i in v.f[2].f))

def fix_axis(v, axis, i):
    """the view with index i on its given free axis"""
    n = -1; idx = list(v.f[2].f)
    for k, x in enumerate(idx):
        if x == -1:
            n += 1
            if n == axis: idx[k] = i; break
    else: raise Unsupported('axis of an array')
    sh = list(v.f[0].f); del sh[axis]
    return Agg((Seq(sh), v.f[1], Seq(idx)))

def cells(v):
    out = [()]
    for n in v.f[0].f: out = [o + (i,) for o in out for i in range(n)]
    return [cell(v, o) for o in out]

def axis_no(E, st, x): return E.concrete(st, x.f[0] if isinstance(x, Agg) else x)

ND = r'^ndarray::(?:\w+::)+<impl ndarray::ArrayBase<S, .*>>::'

@pattern(ND + r'zeros$')
def _(E, st, d, a, r):
    sh = axes(E, st, a[0])
    return Agg((Seq(sh), nested(sh, lambda at: Fraction(0))))

@pattern(ND + r'(view|view_mut)$')
def _(E, st, d, a, r): return view_of(E, st, a[0])

@pattern(ND + r'(shape)$')
def _(E, st, d, a, r):
    n = len(view_of(E, st, a[0]).f[0].f)
    return Ptr(a[0].a, a[0].p + (0,), ('slice', 0, n))

@pattern(ND + r'(len)$')
def _(E, st, d, a, r):
    n = 1
    for x in view_of(E, st, a[0]).f[0].f: n *= x
    return n

@pattern(ND + r'(rows|cols|nrows|ncols)$')
def _(E, st, d, a, r): return view_of(E, st, a[0]).f[0].f[0 if 'row' in d['idef'].split('::')[-1] else 1]

@pattern(ND + r'(subview|subview_mut|index_axis|index_axis_mut)$')
def _(E, st, d, a, r):
    v = view_of(E, st, a[0]); ax = axis_no(E, st, a[1]); i = E.concrete(st, a[2])
    if not 0 <= ax < len(v.f[0].f) or not 0 <= i < v.f[0].f[ax]: raise Unsupported('index of an array')
    return fix_axis(v, ax, i)

@pattern(ND + r'(row|row_mut|column|column_mut)$')
def _(E, st, d, a, r):
    return fix_axis(view_of(E, st, a[0]), 0 if 'row' in d['idef'].split('::')[-1] else 1, E.concrete(st, a[1]))

@pattern(ND + r'(outer_iter|outer_iter_mut|axis_iter|axis_iter_mut|genrows|genrows_mut)$')
def _(E, st, d, a, r):
    v = view_of(E, st, a[0]); ax = axis_no(E, st, a[1]) if len(a) > 1 else 0
    return Agg((Seq([fix_axis(v, ax, i) for i in range(v.f[0].f[ax])]), 0))

@pattern(ND + r'(iter|iter_mut)$')
def _(E, st, d, a, r): return Agg((Seq(cells(view_of(E, st, a[0]))), 0))

@pattern(r"^<ndarray::iter(ators)?::(\w+::)?(AxisIter|AxisIterMut|Iter|IterMut)<.*> as std::iter::Iterator>::next$|^<ndarray::(AxisIter|AxisIterMut|Iter|IterMut)<.*> as std::iter::Iterator>::next$")
def _(E, st, d, a, r):
    s, i = E.deref(st, a[0]).f
    if i >= len(s.f): return none()
    E.store(st, a[0].a, a[0].p, Agg((s, i + 1)))
    return some(s.f[i])

@pattern(r'^ndarray::\w+::<impl std::ops::Index(Mut)?<I> for ndarray::ArrayBase<S, D>>::index(_mut)?$|^<ndarray::ArrayBase<S, D> as std::ops::Index(Mut)?<I>>::index(_mut)?$')
def _(E, st, d, a, r):
    v = view_of(E, st, a[0]); at = axes(E, st, a[1])
    if len(at) != len(v.f[0].f): raise Unsupported('index of an array')
    if not all(0 <= i < n for i, n in zip(at, v.f[0].f)): raise Unsupported('index outside an array')
    return cell(v, at)

@pattern(ND + r'to_owned$|^<ndarray::ArrayBase<.*> as std::clone::Clone>::clone$|^ndarray::\w+::<impl std::clone::Clone for ndarray::ArrayBase<.*>>::clone$')
def _(E, st, d, a, r):
    v = view_of(E, st, a[0]); sh = tuple(v.f[0].f)
    return Agg((Seq(sh), nested(sh, lambda at: load(E, st, cell(v, at)))))

@pattern(ND + r'assign$')
def _(E, st, d, a, r):
    v, w = view_of(E, st, a[0]), view_of(E, st, a[1])
    if v.f[0].f != w.f[0].f: raise Unsupported('assignment between arrays of different shape')
    for x, y in [(p, load(E, st, q)) for p, q in zip(cells(v), cells(w))]: E.store(st, x.a, x.p, y)
    return UNIT

@pattern(ND + r'eye$')
def _(E, st, d, a, r):
    n = size(E, st, a[0])
    return Agg((Seq((n, n)), nested((n, n), lambda at: Fraction(1 if at[0] == at[1] else 0))))

@pattern(ND + r'as_slice$')
def _(E, st, d, a, r):
    v = E.deref(st, a[0])
    if len(v.f) != 2: raise Unsupported('slice of a view')
    es = [load(E, st, c) for c in cells(view_of(E, st, a[0]))]
    return some(Ptr(st.alloc(Seq(es)), (), ('slice', 0, len(es))))

@pattern(ND + r'from_shape_vec$')
def _(E, st, d, a, r):
    sh = axes(E, st, a[0].f[0] if isinstance(a[0], Agg) and len(a[0].f) == 1 and isinstance(a[0].f[0], Agg) else a[0])
    es = list(a[1].f); n = 1
    for x in sh: n *= x
    if n != len(es): raise Unsupported('array of a list of another length')
    it = iter(es)
    return ok(Agg((Seq(sh), nested(sh, lambda at: next(it)))))

def turned(v):
    n, m = v.f[0].f
    return Agg((Seq((m, n)), nested((m, n), lambda at: v.f[1].f[at[1]].f[at[0]])))

@pattern(ND + r'reversed_axes$')
def _(E, st, d, a, r):
    if len(a[0].f) != 2 or len(a[0].f[0].f) != 2: raise Unsupported('reversed axes')
    return turned(a[0])

# correlations of a single name

@pattern(r'^nalgebra::.*::from_column_slice$')
def _(E, st, d, a, r):
    n, m = (size(E, st, x) for x in a[:2]); es = E.slice_elems(st, a[2])
    if n != m or n > 1 or len(es) != n * m: raise Unsupported('matrix')
    return Agg((Opaque('matrix'), Seq(es)))

@pattern(r'^nalgebra::.*Cholesky::<.*>::new$')
def _(E, st, d, a, r):
    x, = a[0].f[1].f
    if not (isinstance(x, Fraction) and x == 1): raise Unsupported('root of a matrix')
    return some(a[0])

@pattern(r'^nalgebra::.*Cholesky::<.*>::unpack$')
def _(E, st, d, a, r): return a[0]

@pattern(r'^nalgebra::.*Matrix.*::as_slice$')
def _(E, st, d, a, r):
    v = E.deref(st, a[0])
    return Ptr(st.alloc(v.f[1]), (), ('slice', 0, len(v.f[1].f)))

# random numbers: an arbitrary sequence

@pattern(r'^rand::(os::|\w+::)*StdRng::new$')
def _(E, st, d, a, r): return ok(Agg((0,)))

@pattern(r'^<statrs::distribution::(normal::)?Normal as statrs::distribution::Distribution<f64>>::sample$')
def _(E, st, d, a, r):
    n = E.deref(st, a[1]).f[0]
    E.store(st, a[1].a, a[1].p, Agg((n + 1,)))
    f = E.uf_decl.get(('sample', 1))
    if f is None: f = E.uf_decl[('sample', 1)] = z3.Function('sample', R, R)
    return f(z3.RealVal(n))

@pattern(ND + r'(scalar_sum|sum)$')
def _(E, st, d, a, r):
    if len(a) > 1: raise Unsupported('sum along an axis')
    t = Fraction(0)
    for c in cells(view_of(E, st, a[0])):
        t = E.fop(st, 'Add', t, load(E, st, c))
        if isinstance(t, ForkV): raise Unsupported('sum of an array')
    return t

@pattern(r'^ndarray::linalg::impl_linalg::<impl ndarray::ArrayBase<S, .*>>::dot$|^<ndarray::ArrayBase<.*> as ndarray::linalg::Dot<.*>>::dot$')
def _(E, st, d, a, r):
    m, v = view_of(E, st, a[0]), view_of(E, st, a[1])
    if len(m.f[0].f) != 2 or len(v.f[0].f) != 1 or m.f[0].f[1] != v.f[0].f[0]: raise Unsupported('product of arrays')
    out = []
    for i in range(m.f[0].f[0]):
        t = Fraction(0)
        for k in range(v.f[0].f[0]):
            x = E.fop(st, 'Mul', load(E, st, cell(m, (i, k))), load(E, st, cell(v, (k,))))
            t = E.fop(st, 'Add', t, x)
            if isinstance(t, ForkV): raise Unsupported('product of arrays')
        out.append(t)
    return Agg((Seq((len(out),)), Seq(out)))
