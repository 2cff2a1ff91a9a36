"""Loop invariants. They are attached to loops of the real code by function and by
the order of the loop in the function, and refer to local variables by the names
the compiler records. If a loop or name is not there any more the proof of that
function is given up (beyond reach), which is never an alarm."""
import z3
from .engine import *

def successors(T):
    if isinstance(T, str): return []
    k = list(T)[0]; b = T[k]
    if k == 'SwitchInt': return [x[1] for x in b['targets']['branches']] + [b['targets']['otherwise']]
    if k in ('Goto', 'Drop', 'Assert'): return [b['target']]
    if k == 'Call': return [b['target']] if b['target'] is not None else []
    return []

def natural_loops(body):
    """loop headers in order of appearance -> set of blocks of the loop"""
    blocks = body['blocks']
    succ = [successors(b['terminator']['kind']) for b in blocks]
    # depth first search for back edges
    state = {}; back = []
    stack = [(0, iter(succ[0]))]; state[0] = 1
    while stack:
        n, it = stack[-1]
        for m in it:
            if state.get(m) == 1: back.append((n, m))
            elif m not in state:
                state[m] = 1; stack.append((m, iter(succ[m]))); break
        else:
            state[n] = 2; stack.pop()
    pred = {}
    for i, ss in enumerate(succ):
        for s in ss: pred.setdefault(s, []).append(i)
    loops = {}
    for n, h in back:
        body_ = loops.setdefault(h, {h})
        work = [n]
        while work:
            x = work.pop()
            if x in body_: continue
            body_.add(x); work.extend(pred.get(x, []))
    return loops

def assigned(body, blks):
    out = set(); refd = set()
    for b in blks:
        B = body['blocks'][b]
        for s in B['statements']:
            k = s['kind']
            if isinstance(k, dict) and 'Assign' in k:
                pl, rv = k['Assign']
                if 'Deref' not in pl['projection']: out.add(pl['local'])
                else: out.add(pl['local'])
                if 'Ref' in rv and isinstance(rv['Ref'][1], (dict, str)) and 'Mut' in str(rv['Ref'][1]): refd.add(rv['Ref'][2]['local'])
                if 'AddressOf' in rv: refd.add(rv['AddressOf'][1]['local'])
        T = B['terminator']['kind']
        if isinstance(T, dict) and 'Call' in T: out.add(T['Call']['destination']['local'])
    return out | refd

class Env:
    """names -> values at a loop head"""
    def __init__(self, E, st, base, names): self.E = E; self.st = st; self.base = base; self.names = names
    def raw(self, n):
        """value of the variable; of several with the same name, the one in scope"""
        for pl in self.names.get(n, ()):
            try:
                a, p, m = self.E.place(self.st, self.base, pl)
                v = self.E.load(self.st, a, p)
            except Unsupported: continue
            if not isinstance(v, Opaque): return v
        raise Unsupported('loop invariant: no variable ' + n)
    def __getitem__(self, n):
        v = self.raw(n)
        while isinstance(v, Agg) and len(v.f) == 1: v = v.f[0]
        return v

def changes(v, w, at=()):
    """places of the numbers in which two values differ"""
    if v is w: return set()
    if isinstance(v, Agg) and isinstance(w, Agg) and len(v.f) == len(w.f) and v.var == w.var:
        return {p for i in range(len(v.f)) for p in changes(v.f[i], w.f[i], at + (i,))}
    if real_like(v) and real_like(w): return set() if simp(v) is simp(w) else {at}
    raise Unsupported('loop changes more than its own variables')

def real_like(v): return isinstance(v, Fraction) or isz(v) and v.sort().kind() == z3.Z3_REAL_SORT

def forget(v, places):
    for p in places: v = set_path(v, p, z3.FreshConst(z3.RealSort(), 'kept'))
    return v

class Header:
    def __init__(self, spec, h, blks, names, mod, idx):
        self.spec = spec; self.h = h; self.blks = blks; self.names = names; self.mod = mod; self.idx = idx
    def enter(self, E, st, base, body, f):
        key = ('inv', base, self.h)
        if self.spec.when and not self.spec.when(Env(E, st, base, self.names)): return st
        if self.spec.peel and key not in st.tls:
            n = st.tls.get(('peel',) + key, 0)
            if n == 0: st.tls[('entry',) + key] = (dict(st.heap), st.pc, [False])
            if n < self.spec.peel:
                st.tls[('peel',) + key] = n + 1
                return st
        env = Env(E, st, base, self.names)
        if key in st.tls:
            g = st.tls[key]
            entry = st.tls.get(('entry',) + key)
            for a, v in st.tls[('frame',) + key].items():
                if st.heap.get(a) is v: continue
                if entry is None or not changes(v, st.heap.get(a)) <= entry[2][1].get(a, set()): raise Unsupported('loop changes more than its own variables')
            for lab, c in self.spec.inv(env, self.idx, g):
                E.prover.prove(st, 'loop invariant kept: %s (%s)' % (lab, f['def'].split('::')[-1]), simp(c), kind='invariant', loc='%s:%s' % (f['file'], f['line']))
            if self.spec.variant:
                v = self.spec.variant(env, self.idx, g)
                if v is not None:
                    E.prover.prove(st, 'loop measure decreases (%s)' % f['def'].split('::')[-1],
                                   land(st.tls[('var',) + key] >= 0, v < st.tls[('var',) + key]), kind='variant', loc='%s:%s' % (f['file'], f['line']))
            return None
        g = self.spec.ghost(env, self.idx) if self.spec.ghost else None
        for lab, c in self.spec.inv(env, self.idx, g):
            E.prover.prove(st, 'loop invariant initially: %s (%s)' % (lab, f['def'].split('::')[-1]), simp(c), kind='invariant', loc='%s:%s' % (f['file'], f['line']))
        if ('entry',) + key in st.tls:
            # every state reached after the first iterations satisfies the invariant: one
            # arbitrary iteration, from the state before the loop, stands for all of them
            heap, pc, done = st.tls[('entry',) + key]
            other = [a for a, v in heap.items() if st.heap.get(a) is not v and not (a >= base and a - base in self.mod)]
            if done[0] and not set(other) <= set(done[1]): raise Unsupported('loop changes more than its own variables')
            if done[0]: return None
            done[0] = True; done.append({a: changes(heap[a], st.heap.get(a)) for a in other})
            for a in other: st.heap[a] = forget(heap[a], done[1][a])
            st.pc = pc
        # arbitrary iteration: forget everything the loop assigns
        named = {pl['local']: n for n, pls in self.names.items() for pl in pls if not pl['projection']}
        for l in self.mod:
            if l in named and (base + l) in st.heap:
                st.heap[base + l] = like(st.heap[base + l], named[l]) if self.spec.when else self.havoc(E, st, body['locals'][l]['ty'], named[l])
            else: st.heap.pop(base + l, None)
        st.tls[key] = g
        st.tls[('frame',) + key] = {a: v for a, v in st.heap.items() if a < base}
        env = Env(E, st, base, self.names)
        for lab, c in self.spec.inv(env, self.idx, g): st.assume(simp(c))
        if self.spec.variant:
            v = self.spec.variant(env, self.idx, g)
            if v is not None: st.tls[('var',) + key] = v
        E.loop_inv_used.add((f['def'], self.idx))
        return st
    def havoc(self, E, st, t, n):
        T = E.types[t]
        if T['k'] == 'int':
            x = z3.FreshConst(z3.IntSort(), n); lo, hi = E.int_range(t)
            st.assume(z3.And(x >= lo, x <= hi)); return x
        if T['k'] == 'float': return z3.FreshConst(z3.RealSort(), n)
        if T['k'] == 'bool': return z3.FreshConst(z3.BoolSort(), n)
        if T['k'] == 'adt' and T['kind'] == 'Struct':
            return Agg([self.havoc(E, st, ft, n + '.' + fn) for fn, ft in T['variants'][0]['fields']])
        if T['k'] == 'tuple': return Agg([self.havoc(E, st, ft, n) for ft in T['elems']])
        raise Unsupported('loop changes %s of type %s' % (n, T.get('d')))

def like(v, n):
    """another value of the same shape: pointers and variants stay, numbers are forgotten"""
    if isinstance(v, Agg): return Agg([like(x, n) for x in v.f], v.var)
    if isinstance(v, Ptr): return v
    if isz(v): return z3.FreshConst(v.sort(), n)
    if isinstance(v, bool): return z3.FreshConst(z3.BoolSort(), n)
    if isinstance(v, int): return z3.FreshConst(z3.IntSort(), n)
    if isinstance(v, Fraction): return z3.FreshConst(z3.RealSort(), n)
    raise Unsupported('loop changes %s' % n)

class LoopSpec:
    def __init__(self, nloops, names, inv, ghost=None, variant=None, peel=0, define=False, when=None):
        # when: the invariant is used only in these states, otherwise the loop is unrolled
        # peel: so many iterations are followed as they are before the invariant has to hold
        # define: long expressions get a name (see Prover.decide)
        self.peel = peel; self.define = define; self.when = when
        self.nloops = nloops; self.names = names; self.inv = inv; self.ghost = ghost; self.variant = variant
        self.cache = {}
    def headers(self, E, key, f):
        if key in self.cache: return self.cache[key]
        body = f['body']
        loops = natural_loops(body)
        if len(loops) != self.nloops: raise Unsupported('loop structure of %s changed' % f['def'])
        names = {}
        for v in body['var_debug_info']:
            if isinstance(v['value'], dict) and 'Place' in v['value']: names.setdefault(v['name'], []).append(v['value']['Place'])
        for n in self.names:
            if n not in names: raise Unsupported('loop invariant of %s: variable %s is gone' % (f['def'], n))
        out = {}
        # order by source line of the header, then block number
        order = sorted(loops, key=lambda h: (min(f['lines'][b] for b in loops[h] if f['lines'][b] > 0), h))
        for i, h in enumerate(order):
            out[h] = Header(self, h, loops[h], names, assigned(body, loops[h]), i)
        self.cache[key] = out
        return out

# ---- calendars with holiday lists

def _hol(env):
    """the holiday list behind self"""
    v = env.E.deref(env.st, env.E.as_ptr(env.raw('self')))
    for x in v.f:
        if isinstance(x, AbsSeq): return x.name
    raise Unsupported('holiday list is not where the invariant expects it')

def _B(env, n, x):
    from . import models
    return models.bcount(env.E, env.st, n, integer(x))

def _slip_inv(env, idx, g):
    n = _hol(env)
    d, f, s = integer(env['date']), integer(env['from']), env['step']
    s = simp(s)
    if s == 1: return [('no business day passed', _B(env, n, d) == _B(env, n, f)), ('direction', d >= f)]
    if s == -1: return [('no business day passed', _B(env, n, d + 1) == _B(env, n, f + 1)), ('direction', d <= f)]
    raise Unsupported('slip by other than one')

def _step_inv(env, idx, g):
    n = _hol(env)
    d, a, s, x = integer(env['date']), integer(env['adj_from']), integer(env['step']), integer(env['extra'])
    if idx == 0: return [('business days passed and to pass', _B(env, n, d) + x == _B(env, n, a) + s), ('days to pass', x >= 0), ('direction', d >= a)]
    return [('business days passed and to pass', _B(env, n, d + 1) - x == _B(env, n, a) + s + 1), ('days to pass', x >= 0), ('direction', d <= a)]

# ---- root finding

def _brent_inv(env, idx, g):
    F = env.E.uf_decl.get(('f', 1))
    if F is None: raise Unsupported('root finding of an unknown function')
    v = {n: real(env[n]) for n in ('a', 'b', 'c', 'fa', 'fb', 'fc', 'x1', 'x2')}
    for n in ('d', 'e'): real(env[n])
    out = []
    for n in ('a', 'b', 'c'):
        out.append((n + ' inside the bracket', z3.Or(z3.And(v['x1'] <= v[n], v[n] <= v['x2']), z3.And(v['x2'] <= v[n], v[n] <= v['x1']))))
        out.append(('value at ' + n, v['f' + n] == F(z3.simplify(v[n]))))
    def opposite(x, y): return z3.Or(z3.And(x <= 0, y >= 0), z3.And(x >= 0, y <= 0))
    out.append(('sign change', z3.Or(opposite(v['fb'], v['fc']), opposite(v['fb'], v['fa']))))
    return out

# ---- points of a curve in order

def _points(env):
    v = env.E.deref(env.st, env.E.as_ptr(env.raw('points')))
    return v if isinstance(v, FunSeq) else None

def _points_inv(env, idx, g):
    """the points so far are in order (seen at an arbitrary place) and prev is the last of them"""
    v = _points(env)
    n, dates, ordered = v.name
    p, i, end = env.raw('iter').f
    prev = env.raw('prev')
    if prev.var != 1: raise Unsupported('loop invariant: no point before this one')
    x = prev.f[0]
    while isinstance(x, Agg): x = x.f[0]
    i = integer(i); k = z3.Int('K_' + n)
    X = z3.Function('X_' + n, z3.IntSort(), z3.IntSort() if dates else z3.RealSort())
    env.E.models.touch(env.E, env.st, v, i - 1)
    return [('all points', integer(end) == v.n), ('place', z3.And(i >= 1, i <= v.n)), ('the point before', x == X(z3.simplify(i - 1))),
            ('in order so far', z3.Implies(z3.And(k >= 1, k < i), X(k) > X(k - 1)))]

SPECS = {
    'quantmath::math::interpolation::validate_abscissae': LoopSpec(1, ['points', 'iter', 'prev'], _points_inv, peel=1, when=_points),
    'quantmath::math::brent::zbrent': LoopSpec(1, ['a', 'b', 'c', 'd', 'e', 'fa', 'fb', 'fc', 'x1', 'x2'], _brent_inv, peel=1, define=True),
    'quantmath::dates::calendar::WeekdayAndHolidayCalendar::slip_to_next': LoopSpec(1, ['date', 'from', 'step', 'self'], _slip_inv),
    '<quantmath::dates::calendar::WeekdayAndHolidayCalendar as quantmath::dates::calendar::Calendar>::step':
        LoopSpec(2, ['date', 'adj_from', 'step', 'extra', 'self'], _step_inv),
}
