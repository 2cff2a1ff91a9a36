"""qmv: verification-condition generator for MIR dumped by mirdump.

Symbolic execution of compiler MIR, function by function, path by path. Integers
are mathematical integers with the compiler's own overflow assertions kept as
obligations; f64 is treated as a real number or one of NaN/+inf/-inf (stated as an
assumption in the evidence); exp, ln, sqrt and the normal distribution are
uninterpreted functions with the axioms listed in AXIOMS.
"""
import json, sys, time, re
from fractions import Fraction
import z3

sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass

class Budget(Exception):
    pass

# ---------------------------------------------------------------- values

class Agg:
    __slots__ = ('var', 'f')
    def __init__(self, f, var=0):
        self.f = tuple(f); self.var = var
    def __repr__(self): return 'Agg%d%r' % (self.var, self.f)

class Seq:
    """contents of a Vec, array or slice"""
    __slots__ = ('f',)
    def __init__(self, f): self.f = tuple(f)
    def __repr__(self): return 'Seq%r' % (self.f,)

class AbsSeq:
    """a sorted sequence of dates of arbitrary length, known only through the
    counting function: how many elements are less than d"""
    __slots__ = ('name', 'count')
    def __init__(self, name, count): self.name = name; self.count = count
    def __repr__(self): return 'AbsSeq(%s)' % self.name

class FunSeq:
    """a sequence of arbitrary length n whose elements are functions of the index"""
    __slots__ = ('name', 'n', 'at')
    def __init__(self, name, n, at): self.name = name; self.n = n; self.at = at
    def __repr__(self): return 'FunSeq(%s)' % self.name
    @property
    def f(self): return _At(self)

class _At:
    def __init__(self, s): self.s = s
    def __getitem__(self, i):
        if not (isinstance(i, int) or isz(i)): raise Unsupported('part of an unbounded sequence')
        return self.s.at(integer(i))
    def __len__(self): raise Unsupported('length of unbounded sequence')
    def __iter__(self): raise Unsupported('loop over unbounded sequence')

class Str:
    __slots__ = ('s',)
    def __init__(self, s): self.s = s
    def __repr__(self): return 'Str(%r)' % (self.s,)

class Num:
    """numeral inside a text: the digits of an integer value"""
    __slots__ = ('v', 'w')
    def __init__(self, v, w): self.v = v; self.w = w
    def __repr__(self): return 'Num(%s,%s)' % (self.v, self.w)

class Map:
    """HashMap / HashSet / BTreeMap contents as an association list of Agg(k, v). An open
    map has any number of further entries; `open` lists the keys known not to be there"""
    __slots__ = ('f', 'open')
    def __init__(self, f=(), open=None): self.f = tuple(f); self.open = open
    def whole(self):
        if self.open is not None: raise Unsupported('going through an arbitrary map')
        return self
    def __repr__(self): return 'Map%r%s' % (self.f, '' if self.open is None else '+')

class Ptr:
    __slots__ = ('a', 'p', 'm')
    def __init__(self, a, p=(), m=None): self.a = a; self.p = tuple(p); self.m = m
    def __repr__(self): return 'Ptr(%r,%r,%r)' % (self.a, self.p, self.m)

class FnV:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d
    def __repr__(self): return 'Fn(%s)' % self.d.get('name')

class Opaque:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return 'Opaque(%s)' % self.n

class FSpec:
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n
NAN = FSpec('nan'); PINF = FSpec('inf'); NINF = FSpec('-inf')
UNIT = Agg(())
UNINIT = Opaque('uninit')
def none(): return Agg((), 0)
def some(v): return Agg((v,), 1)
def ok(v): return Agg((v,), 0)
def err(v): return Agg((v,), 1)
LESS, EQUAL, GREATER = Agg((), 0), Agg((), 1), Agg((), 2)

class ForkV:
    """a value that depends on a case split: [(condition, value)]"""
    __slots__ = ('c',)
    def __init__(self, c): self.c = c

class NeedSplit(Exception):
    def __init__(self, e, lo, hi): self.e = e; self.lo = lo; self.hi = hi; self.st = None

def isz(x): return isinstance(x, z3.ExprRef)
def is_float(x): return isinstance(x, (Fraction, FSpec)) or (isz(x) and x.sort().kind() == z3.Z3_REAL_SORT)

def to_real(x):
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))
    return x
_rv = {}
def real(x):
    if isinstance(x, Fraction):
        r = _rv.get(x)
        if r is None:
            r = _rv[x] = z3.Q(x.numerator, x.denominator)
        return r
    if isinstance(x, (int,)): return real(Fraction(x))
    return x
def integer(x):
    return z3.IntVal(x) if isinstance(x, int) else x
def boolean(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x

def simp(e):
    """simplify, returning a python constant when possible"""
    if not isz(e): return e
    e = z3.simplify(e)
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    if z3.is_int_value(e): return e.as_long()
    if z3.is_rational_value(e): return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return e

def lnot(c):
    if isinstance(c, bool): return not c
    return z3.Not(c)
def land(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c: return False
        else: out.append(c)
    if not out: return True
    return out[0] if len(out) == 1 else z3.And(*out)
def lor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c: return True
        else: out.append(c)
    if not out: return False
    return out[0] if len(out) == 1 else z3.Or(*out)

# ---------------------------------------------------------------- state

class State:
    __slots__ = ('heap', 'pc', 'n', 'inputs', 'ufs', 'counts', 'concr', 'depth', 'loops', 'trace', 'seen', 'bounded', 'tls')
    def __init__(self):
        self.heap = {}; self.pc = (); self.n = 1; self.inputs = (); self.ufs = (); self.counts = {}
        self.concr = {}; self.depth = 0; self.loops = {}; self.trace = (); self.seen = frozenset(); self.bounded = False
        self.tls = {}
    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.pc = self.pc; s.n = self.n; s.inputs = self.inputs; s.ufs = self.ufs
        s.counts = dict(self.counts); s.concr = dict(self.concr); s.depth = self.depth; s.loops = dict(self.loops)
        s.trace = self.trace; s.seen = self.seen; s.bounded = self.bounded; s.tls = dict(self.tls)
        return s
    def assume(self, c):
        if c is True: return
        if c is False: c = z3.BoolVal(False)
        self.pc = self.pc + (c,)
    def alloc(self, v):
        a = self.n; self.n += 1; self.heap[a] = v
        return a

def get_path(v, path):
    for p in path:
        try:
            v = v.f[p]
        except (AttributeError, IndexError, TypeError):
            raise Unsupported('read of %r at %r' % (type(v).__name__ if not isinstance(v, Opaque) else v, p))
    return v

def set_path(v, path, x):
    if not path: return x
    p = path[0]
    if isinstance(v, Opaque):
        # first write into an uninitialised aggregate
        n = 0; fs = []
        while len(fs) <= p: fs.append(UNINIT)
        fs[p] = set_path(UNINIT, path[1:], x)
        return Agg(fs)
    fs = list(v.f)
    while len(fs) <= p and isinstance(v, Agg): fs.append(UNINIT)
    fs[p] = set_path(fs[p], path[1:], x)
    if isinstance(v, Agg): return Agg(fs, v.var)
    if isinstance(v, Map): return Map(fs, v.open)
    return type(v)(fs)

# ---------------------------------------------------------------- solver

class Obligation:
    __slots__ = ('label', 'status', 'backend', 'time', 'loc', 'model', 'harness', 'kind')
    def __init__(self, label, status, backend, t, loc, model=None, kind='post'):
        self.label = label; self.status = status; self.backend = backend; self.time = t; self.loc = loc; self.model = model
        self.kind = kind

DISCRETE = {}

def discrete(c):
    """whether a condition speaks of integers and truth values only"""
    k = c.get_id()
    r = DISCRETE.get(k)
    if r is not None: return r[0]
    ok = True; seen = set(); todo = [c]
    while todo and ok:
        e = todo.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if e.sort_kind() == z3.Z3_REAL_SORT and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: ok = False
        todo.extend(e.children())
    DISCRETE[k] = (ok, c)
    return ok

ATOMS = {}

def atoms(c):
    """the unknowns of a condition: constants and whole applications of unknown functions"""
    k = c.get_id()
    r = ATOMS.get(k)
    if r is not None: return r[0]
    out = set(); seen = set(); todo = [c]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(i)
        else: todo.extend(e.children())
    r = frozenset(out)
    ATOMS[k] = (r, c)
    return r

def concerning(pc, c):
    """the part of a path condition linked to c by shared unknowns"""
    want = set(atoms(c)); rest = [(x, atoms(x)) for x in pc]; out = set()
    while True:
        more = [(x, a) for x, a in rest if not want.isdisjoint(a)]
        if not more: break
        for x, a in more: want |= a; out.add(x.get_id())
        rest = [(x, a) for x, a in rest if x.get_id() not in out]
    return [x for x in pc if x.get_id() in out]

class Solver:
    def __init__(self, feas_ms=1500):
        self.s = z3.Solver()
        self.s.set('timeout', feas_ms)
        self.cur = []
        self.small = None; self.part = None
        self.checks = 0
        self.time = 0.0
        self.unknowns = 0
        from .enumeration import Enumeration
        self.enum = Enumeration()
        self.skip = ()
    def sync(self, pc):
        cur = self.cur
        k = 0
        n = min(len(cur), len(pc))
        while k < n and cur[k] is pc[k]: k += 1
        if len(cur) > k:
            self.s.pop(len(cur) - k)
            del cur[k:]
        for c in pc[k:]:
            self.s.push(); self.s.add(c); cur.append(c)
    def feasible(self, pc, c=None):
        t = time.time()
        self.checks += 1
        # without the definitions of long expressions, for the same reason as below
        if self.skip: pc = [x for x in pc if x.get_id() not in self.skip]
        if c is not None and len(pc) > 8 and discrete(c):
            # only the integer part of the path condition: a path kept by this
            # although it is impossible costs time, nothing else
            part = [x for x in pc if discrete(x)]
            if len(part) < len(pc):
                if self.small is None: self.small = Solver()
                r = self.small.feasible(part, c)
                self.time += time.time() - t
                return r
        if c is not None and len(pc) > 8:
            # likewise only the part of it that says something about the same unknowns
            part = concerning(pc, c)
            if 3 * len(part) < 2 * len(pc):
                if self.part is None: self.part = Solver()
                r = self.part.feasible(part, c)
                self.time += time.time() - t
                return r
        if c is not None:
            r = self.enum.find(pc, c)
            if r is not None:
                self.time += time.time() - t
                return r is not False
        self.sync(pc)
        if c is not None:
            r = self.s.check(c)
        else:
            r = self.s.check()
        self.time += time.time() - t
        if r == z3.unknown: self.unknowns += 1
        return r != z3.unsat

def size(e):
    seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); todo.extend(x.children())
    return len(seen)

def degree(e):
    """degree as a polynomial, quotients counting as products"""
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_EQ): return max(degree(x) for x in e.children())
    if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV): return sum(degree(x) for x in e.children())
    return 0 if z3.is_rational_value(e) else 1

# ---------------------------------------------------------------- engine

INT_BYTES = {}

class Engine:
    def __init__(self, dump, opts=None):
        self.definitions = {}; self._kept = []; self.defining = False
        self.fns = dump['fns']; self.types = {int(k): v for k, v in dump['types'].items()}
        self.allocs = dump['allocs']; self.statics = dump['statics']; self.vtab = dump['vtab']; self.tfns = dump.get('tfns', {})
        self.roots = dump['roots']
        self.solver = Solver(); self.solver.skip = self.definitions
        self.obls = []
        self.covers = {}
        self.gcells = {}
        self.max_loop = 60
        self.loop_inv_used = set()
        self.axioms_used = set()
        self.inexact = False
        from . import loops
        self.loop_specs = loops.SPECS
        self.used_models = {}
        self.used_fns = {}
        self.lemmas = {}
        self.stub = {}
        self.uf_decl = {}
        self.axiom_seen = {}
        self.unfolded = set(); self.summaries_used = set()
        self.deadline = None
        self.prove_ms = 10000
        self.paths = 0
        self.bounded_notes = set()
        self.opaque_n = 0
        self.cur_loc = None
        self.failed_labels = set()
        self.facts_of = {}
        from . import models
        self.models = models
        from . import prover
        self.prover = prover.Prover(self)

    # ---- types
    def ty(self, t): return self.types[t]
    def int_range(self, t):
        T = self.types[t]
        while T['k'] == 'pat': T = self.types[T['elem']]
        k = T['k']
        if k == 'int':
            b = T['bytes'] * 8
            return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if T['signed'] else (0, (1 << b) - 1)
        if k == 'char': return (0, 0x10ffff)
        if k == 'bool': return (0, 1)
        raise Unsupported('int_range of %s' % T.get('d'))

    def strip_generic(self, n): return n

    # ---- constants
    def decode_const(self, c):
        k = c['kind']; t = c['ty']
        if k == 'ZeroSized': return self.zst(t)
        if isinstance(k, dict) and 'Allocated' in k:
            a = k['Allocated']
            ptrs = {o: self.alloc_of(p) for o, p in a['provenance']['ptrs']}
            return self.decode(a['bytes'], ptrs, 0, t)
        raise Unsupported('constant %s' % json.dumps(k)[:200])

    def alloc_of(self, p):
        return str(p) if not isinstance(p, list) else str(p[0])

    def zst(self, t):
        T = self.types[t]; k = T['k']
        if k == 'fndef':
            return FnV(T['fn']) if T['fn'] else FnV({'name': T.get('name'), 'kind': 'unresolved', 'key': '', 'idef': T.get('name'), 'def': T.get('name'), 'args': []})
        if k == 'tuple': return Agg([self.zst(x) for x in T['elems']])
        if k == 'adt':
            if not T['variants']: return Agg(())
            return Agg([self.zst(f[1]) for f in T['variants'][0]['fields']])
        if k == 'closure': return Agg(())
        if k == 'array': return Seq([self.zst(T['elem'])] * (T['n'] or 0))
        return Opaque('zst:' + T.get('d', k))

    def decode(self, b, ptrs, off, t):
        T = self.types[t]; k = T['k']
        def num(o, n, signed=False):
            bs = b[o:o + n]
            if any(x is None for x in bs): raise Unsupported('uninit constant')
            return int.from_bytes(bytes(bs), 'little', signed=signed)
        if k == 'int': return num(off, T['bytes'], T['signed'])
        if k == 'bool': return num(off, 1) != 0
        if k == 'char': return num(off, 4)
        if k == 'pat': return self.decode(b, ptrs, off, T['elem'])
        if k == 'float':
            import struct
            n = 8 if T.get('size', 8) == 8 else 4
            x = struct.unpack('<d' if n == 8 else '<f', bytes(b[off:off + n]))[0]
            return mkfloat(x)
        if k in ('ref', 'ptr', 'fnptr'):
            if off in ptrs:
                aid = ptrs[off]; A = self.allocs[aid]
                inner = num(off, 8)
                if A['k'] == 'fn':
                    f = self.fns.get(A['key'], {})
                    return FnV({'kind': 'item', 'key': A['key'], 'name': f.get('name'), 'idef': f.get('def'), 'def': f.get('def'), 'args': f.get('args', [])})
                if k == 'fnptr': raise Unsupported('fnptr const')
                E = self.types[T['elem']]
                if E['k'] == 'str':
                    n = num(off + 8, 8)
                    s = bytes(A['a']['bytes'][inner:inner + n]).decode('utf8', 'replace')
                    cell = ('s', s)
                    self.gcells[cell] = Str(s)
                    return Ptr(cell, (), ('str',))
                if E['k'] == 'slice':
                    n = num(off + 8, 8)
                    cell = ('g', aid, inner, 'slice', T['elem'], n)
                    if cell not in self.gcells:
                        es = self.types[E['elem']].get('size', 0)
                        pp = {o: self.alloc_of(p) for o, p in A['a']['ptrs']} if A['k'] == 'mem' else {}
                        self.gcells[cell] = Seq([self.decode(A['a']['bytes'], pp, inner + i * es, E['elem']) for i in range(n)])
                    return Ptr(cell, (), ('slice', 0, n))
                if E['k'] == 'dyn':
                    va = self.allocs[ptrs[off + 8]]
                    return Ptr(self.gcell(aid, inner, va['ty']), (), ('dyn', va['ty']))
                return Ptr(self.gcell(aid, inner, T['elem']))
            E = self.types[T['elem']] if 'elem' in T else {}
            if E.get('k') in ('str', 'slice'):
                n = num(off + 8, 8)
                if n == 0:
                    cell = ('s', '') if E['k'] == 'str' else ('empty',)
                    self.gcells[cell] = Str('') if E['k'] == 'str' else Seq(())
                    return Ptr(cell, (), ('str',) if E['k'] == 'str' else ('slice', 0, 0))
            return Ptr(('int', num(off, 8)))
        if k == 'tuple':
            offs = self.field_offsets(T)
            return Agg([self.decode(b, ptrs, off + o, e) for o, e in zip(offs, T['elems'])])
        if k == 'array':
            es = self.types[T['elem']].get('size', 0)
            return Seq([self.decode(b, ptrs, off + i * es, T['elem']) for i in range(T['n'])])
        if k == 'closure' or k == 'fndef': return self.zst(t)
        if k == 'adt':
            if T['name'] in ('std::vec::Vec',): return Seq(())
            if T['name'] == 'std::string::String': return Str('')
            if T['kind'] == 'Struct' or T['kind'] == 'Union':
                offs = self.field_offsets(T)
                fs = T['variants'][0]['fields']
                if T['kind'] == 'Union': raise Unsupported('union constant ' + T['d'])
                return Agg([self.decode(b, ptrs, off + o, f[1]) for o, f in zip(offs, fs)])
            V = T['layout']['variants']
            if 'Single' in V:
                i = V['Single']['index']
                return Agg([self.zst(f[1]) if not self.types[f[1]].get('size') else self.decode(b, ptrs, off + o, f[1])
                            for o, f in zip(self.field_offsets(T), T['variants'][i]['fields'])], i)
            M = V['Multiple']
            toff = self.offs(T['layout']['fields'])[M['tag_field']] + off
            prim = (M['tag'].get('Initialized') or M['tag'].get('Union'))['value']
            if 'Pointer' in prim:
                n = 8
                tag = None if toff in ptrs else num(toff, 8)
            else:
                n = {'I8': 1, 'I16': 2, 'I32': 4, 'I64': 8, 'I128': 16}[prim['Int']['length']]
                tag = num(toff, n)
            te = M['tag_encoding']
            if te == 'Direct':
                i = None
                for j, v in enumerate(T['variants']):
                    if int(v['discr']) & ((1 << (8 * n)) - 1) == tag: i = j
                if i is None: raise Unsupported('enum tag')
            else:
                N = te['Niche']
                i = N['untagged_variant']
                if tag is not None:
                    rel = (tag - N['niche_start']) & ((1 << (8 * n)) - 1)
                    lo, hi = N['niche_variants']['start'], N['niche_variants']['end']
                    if rel <= hi - lo: i = lo + rel
            offs = [o['num_bits'] // 8 for o in M['variants'][i]['offsets']]
            return Agg([self.decode(b, ptrs, off + o, f[1]) for o, f in zip(offs, T['variants'][i]['fields'])], i)
        return Opaque('const ' + T.get('d', k))

    def offs(self, F):
        if isinstance(F, dict) and 'Arbitrary' in F: return [o['num_bits'] // 8 for o in F['Arbitrary']['offsets']]
        return [0]
    def field_offsets(self, T): return self.offs(T['layout']['fields'])

    def gcell(self, aid, inner, t):
        cell = ('g', aid, inner, t)
        if cell not in self.gcells:
            A = self.allocs[aid]
            if A['k'] == 'mem':
                pp = {o: self.alloc_of(p) for o, p in A['a']['ptrs']}
                self.gcells[cell] = self.decode(A['a']['bytes'], pp, inner, t)
            elif A['k'] == 'static':
                cell = ('static', A['name'])
                if cell not in self.gcells:
                    S = self.statics[A['name']]
                    if S.get('a'):
                        pp = {o: self.alloc_of(p) for o, p in S['a']['ptrs']}
                        try: self.gcells[cell] = self.decode(S['a']['bytes'], pp, inner, t)
                        except Unsupported: self.gcells[cell] = Opaque('static ' + A['name'])
                    else: self.gcells[cell] = Opaque('static ' + A['name'])
            else: raise Unsupported('global alloc ' + A['k'])
        return cell

    # ---- memory
    def load(self, st, a, path):
        if isinstance(a, tuple):
            v = st.heap.get(a)
            if v is None:
                if a[0] == 'int': raise Unsupported('deref of integer address')
                v = self.gcells[a]
        else:
            v = st.heap.get(a, UNINIT)
        return get_path(v, path) if path else v

    def store(self, st, a, path, x):
        if not path:
            st.heap[a] = x
            return
        if isinstance(a, tuple): v = st.heap.get(a, self.gcells.get(a, UNINIT))
        else: v = st.heap.get(a, UNINIT)
        st.heap[a] = set_path(v, path, x)

    def deref(self, st, p):
        """value a pointer points to"""
        return self.load(st, p.a, p.p)

    def slice_elems(self, st, p):
        """elements a slice pointer covers"""
        v = self.load(st, p.a, p.p)
        if isinstance(v, AbsSeq): return v
        if isinstance(v, FunSeq): raise Unsupported('all elements of an unbounded sequence')
        if not isinstance(v, Seq): raise Unsupported('slice over %r' % type(v).__name__)
        if p.m and p.m[0] == 'slice':
            return v.f[p.m[1]:p.m[1] + p.m[2]]
        return v.f

    def str_of(self, st, p):
        v = self.load(st, p.a, p.p)
        if isinstance(v, Str): return v
        raise Unsupported('str over %r' % (v,))

    def new_str(self, st, s):
        return Ptr(st.alloc(Str(s)), (), ('str',))

    def fresh_opaque(self, n):
        self.opaque_n += 1
        return Opaque('%s#%d' % (n, self.opaque_n))

    # ---- places
    def as_ptr(self, v):
        d = 0
        while isinstance(v, Agg):
            if not v.f: raise Unsupported('pointer inside empty struct')
            v = v.f[0]; d += 1
        if not isinstance(v, Ptr): raise Unsupported('not a pointer: %r' % (v,))
        return v

    def place(self, st, base, pl):
        a, path, m = base + pl['local'], (), None
        for pr in pl['projection']:
            if pr == 'Deref':
                v = self.as_ptr(self.load(st, a, path))
                a, path, m = v.a, v.p, v.m
            elif 'Field' in pr:
                path = path + (pr['Field'][0],)
            elif 'Downcast' in pr: pass
            elif 'Index' in pr:
                i = self.load(st, base + pr['Index'], ())
                v = self.load(st, a, path)
                if isinstance(v, FunSeq): self.models.touch(self, st, v, i)
                else: i = self.concrete(st, i, a, path, m)
                off = m[1] if m and m[0] == 'slice' else 0
                path = path + (off + i,); m = None
            elif 'ConstantIndex' in pr:
                c = pr['ConstantIndex']
                off, n = (m[1], m[2]) if m and m[0] == 'slice' else (0, len(self.load(st, a, path).f))
                i = c['offset'] if not c['from_end'] else n - c['offset']
                path = path + (off + i,); m = None
            elif 'Subslice' in pr:
                c = pr['Subslice']
                off, n = (m[1], m[2]) if m and m[0] == 'slice' else (0, len(self.load(st, a, path).f))
                to = n - c['to'] if c['from_end'] else c['to']
                m = ('slice', off + c['from'], to - c['from'])
            elif 'OpaqueCast' in pr or 'UnwrapUnsafeBinder' in pr: pass
            else: raise Unsupported('projection %r' % (pr,))
        return a, path, m

    def concrete(self, st, i, a=None, path=None, m=None):
        if isinstance(i, int): return i
        k = i.get_id() if isz(i) else None
        if k in st.concr: return st.concr[k][1]
        s = simp(i)
        if isinstance(s, int): return s
        if a is not None:
            n = m[2] if m and m[0] == 'slice' else len(self.load(st, a, path).f)
            raise NeedSplit(i, 0, n)
        raise Unsupported('symbolic index')

    def place_ty(self, body, pl):
        t = body['locals'][pl['local']]['ty']
        for pr in pl['projection']:
            if pr == 'Deref':
                T = self.types[t]
                if 'elem' in T: t = T['elem']
                elif T['k'] == 'adt': t = T['args'][0]
                else: raise Unsupported('deref type')
            elif 'Field' in pr: t = pr['Field'][1]
            elif 'Index' in pr or 'ConstantIndex' in pr: t = self.types[t]['elem']
            elif 'Downcast' in pr or 'Subslice' in pr: pass
        return t

    def operand(self, st, base, op):
        if 'Constant' in op: return self.decode_const(op['Constant']['const_'])
        pl = op.get('Copy') or op.get('Move')
        if pl is None:
            if 'RuntimeChecks' in op: return False
            raise Unsupported('operand %r' % (list(op),))
        a, p, m = self.place(st, base, pl)
        return self.load(st, a, p)

    def operand_ty(self, body, op):
        if 'Constant' in op: return op['Constant']['const_']['ty']
        return self.place_ty(body, op.get('Copy') or op.get('Move'))

    # ---- arithmetic
    def wrap(self, st, e, t):
        lo, hi = self.int_range(t)
        if isinstance(e, int):
            n = hi - lo + 1
            return (e - lo) % n + lo
        e = z3.simplify(e)
        if z3.is_int_value(e): return self.wrap(st, e.as_long(), t)
        if self.solver.feasible(st.pc, z3.Or(e < lo, e > hi)):
            n = hi - lo + 1
            return (e - lo) % n + lo
        return e

    def tdiv(self, st, x, y):
        """truncated division and remainder"""
        if isinstance(x, int) and isinstance(y, int):
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return q, x - q * y
        if isinstance(y, int) and y > 0:
            X = integer(x)
            if not self.solver.feasible(st.pc, X < 0): return X / y, X % y
            if not self.solver.feasible(st.pc, X >= 0): return -((-X) / y), -((-X) % y)
            return z3.If(X >= 0, X / y, -((-X) / y)), z3.If(X >= 0, X % y, -((-X) % y))
        if isinstance(y, int) and y < 0:
            q, r = self.tdiv(st, x, -y)
            return -q, r
        X, Y = integer(x), integer(y)
        q = z3.If(z3.And(X >= 0, Y > 0), X / Y, z3.If(z3.And(X < 0, Y > 0), -((-X) / Y), z3.If(X >= 0, -(X / (-Y)), (-X) / (-Y))))
        return q, X - q * Y

    def fcmp(self, op, x, y):
        if x is NAN or y is NAN: return op == 'Ne'
        if isinstance(x, FSpec) or isinstance(y, FSpec):
            kx = 1 if x is PINF else -1 if x is NINF else 0
            ky = 1 if y is PINF else -1 if y is NINF else 0
            return {'Eq': kx == ky, 'Ne': kx != ky, 'Lt': kx < ky, 'Le': kx <= ky, 'Gt': kx > ky, 'Ge': kx >= ky}[op]
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
        X, Y = real(x), real(y)
        return simp({'Eq': X == Y, 'Ne': X != Y, 'Lt': X < Y, 'Le': X <= Y, 'Gt': X > Y, 'Ge': X >= Y}[op])

    def fop(self, st, op, x, y):
        if x is NAN or y is NAN: return NAN
        if isinstance(x, FSpec) or isinstance(y, FSpec):
            return self.fop_inf(op, x, y)
        if op == 'Div':
            if isinstance(y, Fraction):
                if y == 0: return self.div0(x)
                if isinstance(x, Fraction): return x / y
                return real(x) / real(y)
            y0 = simp(y)
            if isinstance(y0, Fraction): return self.fop(st, op, x, y0)
            if self.solver.feasible(st.pc, y == 0):
                z = self.div0(x)
                cs = [(y == 0, z)] if not isinstance(z, ForkV) else [(land(y == 0, c), v) for c, v in z.c]
                return ForkV(cs + [(y != 0, real(x) / y)])
            if isinstance(x, Fraction) and x == 0: return Fraction(0)
            return real(x) / y
        if isinstance(x, Fraction) and isinstance(y, Fraction):
            return {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Rem': lambda: self.frem(x, y)}[op]()
        if op == 'Add':
            if isinstance(x, Fraction) and x == 0: return y
            if isinstance(y, Fraction) and y == 0: return x
            return real(x) + real(y)
        if op == 'Sub':
            if isinstance(y, Fraction) and y == 0: return x
            return real(x) - real(y)
        if op == 'Mul':
            if isinstance(x, Fraction):
                if x == 0: return Fraction(0)
                if x == 1: return y
            if isinstance(y, Fraction):
                if y == 0: return Fraction(0)
                if y == 1: return x
            return real(x) * real(y)
        raise Unsupported('float op ' + op)

    def frem(self, x, y):
        if y == 0: return NAN
        q = x / y
        t = q.numerator // q.denominator if q >= 0 else -((-q).numerator // (-q).denominator)
        return x - t * y

    def div0(self, x):
        if isinstance(x, Fraction):
            return NAN if x == 0 else PINF if x > 0 else NINF
        return ForkV([(x == 0, NAN), (x > 0, PINF), (x < 0, NINF)])

    def fop_inf(self, op, x, y):
        s = lambda v: 1 if v is PINF else -1 if v is NINF else None
        inf = lambda k: PINF if k > 0 else NINF
        sx, sy = s(x), s(y)
        if op == 'Sub': op = 'Add'; sy = -sy if sy is not None else None
        if op == 'Add':
            if sx is not None and sy is not None: return inf(sx) if sx == sy else NAN
            return inf(sx if sx is not None else sy)
        if op == 'Mul' or (op == 'Div' and sy is None):
            if sx is not None and sy is not None: return inf(sx * sy)
            k, v = (sx, y) if sx is not None else (sy, x)
            if isinstance(v, Fraction):
                if v == 0: return NAN if op == 'Mul' else inf(k)
                return inf(k if v > 0 else -k)
            return ForkV([(v > 0, inf(k)), (v < 0, inf(-k)), (v == 0, NAN if op == 'Mul' else inf(k))])
        if op == 'Div': return NAN if sx is not None else Fraction(0)
        raise Unsupported('inf op ' + op)

    def binop(self, st, op, x, y, t):
        if is_float(x) or is_float(y):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.fcmp(op, x, y)
            return self.fop(st, op.replace('Unchecked', ''), x, y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'Offset':
                y = self.concrete(st, y)
                return self.ptr_offset(x, y)
            same = isinstance(x, Ptr) and isinstance(y, Ptr) and x.a == y.a and x.p == y.p
            if op == 'Eq': return same
            if op == 'Ne': return not same
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.a == y.a and x.p[:-1] == y.p[:-1]:
                return self.binop(st, op, x.p[-1], y.p[-1], t)
            raise Unsupported('pointer op ' + op)
        if isinstance(x, bool) or isinstance(y, bool) or (isz(x) and z3.is_bool(x)):
            X, Y = x, y
            if isinstance(X, bool) and isinstance(Y, bool):
                return {'Eq': X == Y, 'Ne': X != Y, 'BitAnd': X and Y, 'BitOr': X or Y, 'BitXor': X != Y, 'Lt': X < Y, 'Le': X <= Y, 'Gt': X > Y, 'Ge': X >= Y}[op]
            X, Y = boolean(X), boolean(Y)
            return simp({'Eq': lambda: X == Y, 'Ne': lambda: X != Y, 'BitAnd': lambda: z3.And(X, Y), 'BitOr': lambda: z3.Or(X, Y), 'BitXor': lambda: z3.Xor(X, Y),
                         'Lt': lambda: z3.And(z3.Not(X), Y), 'Le': lambda: z3.Or(z3.Not(X), Y), 'Gt': lambda: z3.And(X, z3.Not(Y)), 'Ge': lambda: z3.Or(X, z3.Not(Y))}[op]())
        if isinstance(x, Agg) and isinstance(y, Agg) and not x.f and not y.f and op in ('Eq', 'Ne'):
            return (x.var == y.var) == (op == 'Eq')
        if not ((isinstance(x, int) or isz(x)) and (isinstance(y, int) or isz(y))):
            raise Unsupported('binop %s on %r, %r' % (op, x, y))
        conc = isinstance(x, int) and isinstance(y, int)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            r = {'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y, 'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y}[op]()
            return r if conc else simp(r)
        if op == 'Cmp':
            if conc: return LESS if x < y else EQUAL if x == y else GREATER
            return ForkV([(x < y, LESS), (x == y, EQUAL), (x > y, GREATER)])
        base = op.replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            r = x + y if base == 'Add' else x - y if base == 'Sub' else x * y
            return self.wrap(st, r, t) if base == op else (r if conc else r)
        if op == 'Div': return self.tdiv(st, x, y)[0]
        if op == 'Rem': return self.tdiv(st, x, y)[1]
        if conc:
            if base == 'Shl': return self.wrap(st, x << y, t)
            if base == 'Shr': return x >> y
            if op == 'BitAnd': return x & y
            if op == 'BitOr': return x | y
            if op == 'BitXor': return x ^ y
        if isinstance(y, int):
            if base == 'Shr': return integer(x) / (1 << y)
            if base == 'Shl': return self.wrap(st, x * (1 << y), t)
            if op == 'BitAnd' and y >= 0 and (y & (y + 1)) == 0: return integer(x) % (y + 1)
        raise Unsupported('int op %s symbolic' % op)

    def ptr_offset(self, p, n):
        if n == 0: return p
        if not p.p: raise Unsupported('pointer offset')
        return Ptr(p.a, p.p[:-1] + (p.p[-1] + n,), p.m)

    def checked(self, st, op, x, y, t):
        lo, hi = self.int_range(t)
        r = x + y if op == 'Add' else x - y if op == 'Sub' else x * y if op == 'Mul' else None
        if r is None: raise Unsupported('checked ' + op)
        if isinstance(r, int):
            return Agg((self.wrap(st, r, t), not (lo <= r <= hi)))
        return Agg((r, simp(z3.Or(r < lo, r > hi))))

    # ---- casts
    def cast(self, st, body, kind, op, v, t):
        T = self.types[t]
        if kind == 'IntToInt':
            if isinstance(v, Agg): raise Unsupported('enum cast')
            if T['k'] == 'bool': return v
            if isinstance(v, bool): v = int(v)
            if isz(v) and z3.is_bool(v): v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.wrap(st, v, t)
        if kind == 'IntToFloat':
            if isinstance(v, int): return Fraction(v)
            return z3.ToReal(v)
        if kind == 'FloatToInt':
            lo, hi = self.int_range(t)
            if v is NAN: return 0
            if v is PINF: return hi
            if v is NINF: return lo
            if isinstance(v, Fraction):
                q = v.numerator // v.denominator if v >= 0 else -((-v).numerator // (-v).denominator)
                return max(lo, min(hi, q))
            if z3.is_app_of(v, z3.Z3_OP_TO_REAL): tr = v.arg(0)
            elif not self.solver.feasible(st.pc, v < 0): tr = z3.ToInt(v)
            else: tr = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if self.solver.feasible(st.pc, z3.Or(tr < lo, tr > hi)):
                return z3.If(tr < lo, z3.IntVal(lo), z3.If(tr > hi, z3.IntVal(hi), tr))
            return tr
        if kind == 'FloatToFloat': return v
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            if isinstance(v, Ptr) and T['k'] in ('ptr', 'ref'):
                ek = self.types[T['elem']]['k']
                if v.m and v.m[0] == 'slice' and ek not in ('slice', 'str', 'dyn'):
                    if ek == 'array': return Ptr(v.a, v.p)
                    return Ptr(v.a, v.p + (v.m[1],))
                if v.m and v.m[0] == 'dyn' and ek not in ('dyn',): return Ptr(v.a, v.p)
            return v
        if kind == 'BoxDerefTransmute': return self.as_ptr(v)
        if kind == 'Transmute': return self.transmute(st, v, self.operand_ty(body, op), t)
        if isinstance(kind, dict) and 'PointerCoercion' in kind:
            pc = kind['PointerCoercion']
            name = pc if isinstance(pc, str) else list(pc)[0]
            if name == 'Unsize': return self.unsize(st, v, self.operand_ty(body, op), t)
            if name in ('MutToConstPointer', 'UnsafeFnPointer', 'ReifyFnPointer'): return v
            if name == 'ArrayToPointer': return Ptr(v.a, v.p + (0,))
            if name == 'ClosureFnPointer':
                S = self.types[self.operand_ty(body, op)]
                key = S['inst'].get('fnonce')
                f = self.fns[key]
                return FnV({'kind': 'closureptr', 'key': S['inst'].get('fn'), 'name': S['name'], 'idef': S['name'], 'def': S['name'], 'args': []})
            raise Unsupported('coercion ' + name)
        if kind in ('PointerExposeAddress', 'PointerWithExposedProvenance', 'PointerExposeProvenance'):
            if isinstance(v, Ptr): return v
            return v
        if kind == 'Subtype': return v
        raise Unsupported('cast %r' % (kind,))

    def unsize(self, st, v, s, t):
        S, T = self.types[s], self.types[t]
        if S['k'] in ('ref', 'ptr') and T['k'] in ('ref', 'ptr'):
            se, te = self.types[S['elem']], self.types[T['elem']]
            if te['k'] == 'slice' and se['k'] == 'array': return Ptr(v.a, v.p, ('slice', 0, se['n']))
            if te['k'] == 'dyn':
                if se['k'] == 'dyn': return v     # upcast: the concrete type stays known
                return Ptr(v.a, v.p, ('dyn', S['elem']))
            return self.unsize_meta(v, S['elem'], T['elem'])
        if S['k'] == 'adt' and T['k'] == 'adt':
            return self.unsize_meta(v, self.pointee(s), self.pointee(t))
        raise Unsupported('unsize %s -> %s' % (S.get('d'), T.get('d')))

    def pointee(self, t):
        T = self.types[t]
        if T['k'] in ('ref', 'ptr'): return T['elem']
        return T['args'][0]

    def unsize_meta(self, v, se, te):
        SE, TE = self.types[se], self.types[te]
        if isinstance(v, Ptr):
            # struct whose last field is unsized (ArcInner, RefCell, ...)
            if TE['k'] == 'dyn':
                return v if SE['k'] == 'dyn' else Ptr(v.a, v.p, ('dyn', se))
            if TE['k'] == 'slice': return Ptr(v.a, v.p, ('slice', 0, SE['n']))
            if TE['k'] == 'adt': return self.unsize_meta(v, SE['args'][0], TE['args'][0])
            raise Unsupported('unsize_meta')
        if isinstance(v, Agg) and v.f:
            return Agg((self.unsize_meta(v.f[0], se, te),) + v.f[1:], v.var)
        raise Unsupported('unsize value')

    def transmute(self, st, v, s, t):
        S, T = self.types[s], self.types[t]
        if s == t: return v
        # unwrap single pointers / wrap them back
        if T['k'] in ('ptr', 'ref'):
            while isinstance(v, Agg) and v.f: v = v.f[0]
            if isinstance(v, Ptr): return v
            if isinstance(v, int): return Ptr(('int', v))
        if isinstance(v, Ptr) and T['k'] == 'adt': return self.wrap_ptr(v, t)
        if isinstance(v, Ptr) and T['k'] == 'int' and S['k'] in ('ptr', 'ref') and isinstance(v.a, int): return 4096 * (v.a + 1)
        if S['k'] == 'adt' and T['k'] == 'adt' and S['name'] == T['name']: return v
        if S['k'] == 'adt' and T['k'] == 'adt' and S['name'] in ('std::mem::MaybeUninit', 'std::mem::ManuallyDrop'): return v
        if S['k'] == 'int' and T['k'] == 'int': return self.wrap(st, v, t)
        if T['k'] == 'int' and isinstance(v, Agg):
            while isinstance(v, Agg) and v.f: v = v.f[0]
            if isinstance(v, (int,)) or isz(v): return v
        if S['k'] == 'int' and T['k'] == 'adt' and T['kind'] == 'Struct':
            w = v
            return self.wrap_ptr(w, t)
        if isinstance(v, Seq) and T['k'] == 'array': return v
        raise Unsupported('transmute %s -> %s' % (S.get('d'), T.get('d')))

    def wrap_ptr(self, v, t):
        T = self.types[t]
        if T['k'] != 'adt' or T['kind'] != 'Struct': return v
        fs = T['variants'][0]['fields']
        out = []; done = False
        for n, ft in fs:
            if self.types[ft].get('size', 0) == 0 or done: out.append(self.zst(ft))
            else: out.append(self.wrap_ptr(v, ft)); done = True
        return Agg(out)

    def mk_box(self, st, v, t):
        """Box value of type t owning a new cell holding v"""
        return self.wrap_ptr(Ptr(st.alloc(v)), t)

    # ---- rvalues
    def rvalue(self, st, base, body, rv):
        if 'Use' in rv:
            u = rv['Use']
            return self.operand(st, base, u[0] if isinstance(u, list) else u)
        if 'Ref' in rv:
            a, p, m = self.place(st, base, rv['Ref'][2])
            return Ptr(a, p, m if m else self.meta_of(st, a, p, body, rv['Ref'][2]))
        if 'AddressOf' in rv:
            a, p, m = self.place(st, base, rv['AddressOf'][1])
            return Ptr(a, p, m if m else self.meta_of(st, a, p, body, rv['AddressOf'][1]))
        if 'Reborrow' in rv:
            r = rv['Reborrow']
            a, p, m = self.place(st, base, r[-1])
            return self.load(st, a, p)
        if 'CopyForDeref' in rv:
            a, p, m = self.place(st, base, rv['CopyForDeref'])
            return self.load(st, a, p)
        if 'BinaryOp' in rv:
            op, x, y = rv['BinaryOp']
            t = self.operand_ty(body, x)
            return self.binop(st, op, self.operand(st, base, x), self.operand(st, base, y), t)
        if 'CheckedBinaryOp' in rv:
            op, x, y = rv['CheckedBinaryOp']
            return self.checked(st, op, self.operand(st, base, x), self.operand(st, base, y), self.operand_ty(body, x))
        if 'UnaryOp' in rv:
            op, x = rv['UnaryOp']
            v = self.operand(st, base, x)
            if op == 'Not':
                if isinstance(v, bool): return not v
                if isz(v) and z3.is_bool(v): return simp(z3.Not(v))
                lo, hi = self.int_range(self.operand_ty(body, x))
                return (-1 - v) if lo < 0 else hi - v
            if op == 'Neg':
                if isinstance(v, FSpec): return NINF if v is PINF else PINF if v is NINF else NAN
                if is_float(v): return -v
                return self.wrap(st, -v, self.operand_ty(body, x))
            if op == 'PtrMetadata':
                p = self.as_ptr(v)
                if p.m and p.m[0] == 'slice': return p.m[2]
                if p.m and p.m[0] == 'str': return self.models.str_len(self, st, p)
                if p.m and p.m[0] == 'absseq': return p.m[1]
                return UNIT
            raise Unsupported('unop ' + op)
        if 'Cast' in rv:
            kind, op, t = rv['Cast']
            v = self.operand(st, base, op)
            if kind == 'IntToInt' and isinstance(v, Agg):
                S = self.types[self.operand_ty(body, op)]
                v = int(S['variants'][v.var]['discr'])
            return self.cast(st, body, kind, op, v, t)
        if 'Aggregate' in rv:
            kind, ops = rv['Aggregate']
            vs = [self.operand(st, base, o) for o in ops]
            if kind == 'Tuple': return Agg(vs)
            if 'Array' in kind: return Seq(vs)
            if 'Adt' in kind:
                d = kind['Adt']
                if len(d) > 4 and d[4] is not None:
                    raise Unsupported('union aggregate')
                return Agg(vs, d[1])
            if 'Closure' in kind: return Agg(vs)
            if 'RawPtr' in kind:
                p = self.as_ptr(vs[0])
                if isinstance(vs[1], int):
                    # pointer + length: slice starting at this element
                    if p.p: return Ptr(p.a, p.p[:-1], ('slice', p.p[-1], vs[1]))
                    return Ptr(p.a, p.p, ('slice', 0, vs[1]))
                return p
            raise Unsupported('aggregate %r' % (kind,))
        if 'Discriminant' in rv:
            pl = rv['Discriminant']
            a, p, m = self.place(st, base, pl)
            v = self.load(st, a, p)
            T = self.types[self.place_ty(body, pl)]
            if v is UNINIT and T['k'] == 'adt' and 'Single' in T.get('layout', {}).get('variants', {}):
                return int(T['variants'][T['layout']['variants']['Single']['index']]['discr'])
            if not isinstance(v, Agg): raise Unsupported('discriminant of %r' % (v,))
            if T['k'] != 'adt': return 0
            d = int(T['variants'][v.var]['discr'])
            # as a bit pattern read with the discriminant type of the enum
            return d
        if 'Len' in rv:
            a, p, m = self.place(st, base, rv['Len'])
            if m and m[0] == 'slice': return m[2]
            return len(self.load(st, a, p).f)
        if 'Repeat' in rv:
            op, c = rv['Repeat']
            v = self.operand(st, base, op)
            return Seq([v] * self.const_usize(c))
        if 'ThreadLocalRef' in rv: raise Unsupported('thread local')
        if 'NullaryOp' in rv: return False
        raise Unsupported('rvalue %r' % (list(rv),))

    def const_usize(self, c):
        k = c.get('kind', c)
        if 'Value' in k:
            a = k['Value'][1]
            return int.from_bytes(bytes(a['bytes']), 'little')
        raise Unsupported('const usize %r' % (c,))

    def meta_of(self, st, a, p, body, pl):
        """metadata for a reference to an unsized place reached through a field"""
        t = self.place_ty(body, pl)
        k = self.types[t]['k']
        if k == 'str': return ('str',)
        if k in ('slice', 'dyn'):
            # tail of an unsized struct: take the metadata of the pointer deref'd
            q = None
            a2, path, m = None, None, None
            a2 = 0
            proj = pl['projection']
            for i in range(len(proj) - 1, -1, -1):
                if proj[i] == 'Deref':
                    sub = {'local': pl['local'], 'projection': proj[:i]}
                    base = self._base
                    aa, pp, mm = self.place(st, base, sub)
                    q = self.as_ptr(self.load(st, aa, pp))
                    return q.m
            raise Unsupported('unsized place')
        return None

    # ---- execution
    def branch(self, st, c):
        """fork on a condition: list of (state, bool)"""
        c = simp(c)
        if isinstance(c, bool): return [(st, c)]
        # a path is only followed while feasible, so if one side is not, the other is
        if not self.solver.feasible(st.pc, z3.Not(c)): return [(st, True)]
        if not self.solver.feasible(st.pc, c): return [(st, False)]
        s2 = st.fork()
        st.assume(c); s2.assume(z3.Not(c))
        return [(st, True), (s2, False)]

    def split(self, st, cases):
        """fork on a list of exhaustive (cond, value): list of (state, value)"""
        live = []
        cases = [(simp(c), v) for c, v in cases]
        cases = [(c, v) for c, v in cases if c is not False]
        for i, (c, v) in enumerate(cases):
            if c is True or (i == len(cases) - 1 and not live) or self.solver.feasible(st.pc, c): live.append((c, v))
        out = []
        for i, (c, v) in enumerate(live):
            s = st if i == len(live) - 1 else st.fork()
            if len(live) > 1: s.assume(c)
            out.append((s, v))
        return out

    def forkv(self, st, v):
        if isinstance(v, ForkV):
            out = []
            for s, x in self.split(st, v.c): out.extend(self.forkv(s, x))
            return out
        return [(st, v)]

    def call_key(self, st, key, args, desc=None):
        f = self.fns.get(key)
        if f is None: raise Unsupported('no function ' + key)
        if f.get('body') is None: raise Unsupported('no body: ' + f['def'])
        return self.exec_fn(st, key, f, args)

    def call(self, st, d, args, ret=None):
        """call a described callee: list of (state, kind, value)"""
        kind = d['kind']
        if self.deadline and time.time() > self.deadline: raise Budget('time')
        if kind == 'virtual':
            p = self.as_ptr(args[0])
            if not (p.m and p.m[0] == 'dyn'): raise Unsupported('virtual call without concrete type: ' + d['name'])
            d2 = self.vtab.get('%d|%s' % (p.m[1], d['key']))
            if d2 is None: raise Unsupported('no vtable entry %s for %s' % (d['name'], self.types[p.m[1]]['d']))
            # method with self: Box<Self>/&Self: thin receiver
            a0 = self.strip_meta(args[0])
            return self.call(st, d2, [a0] + list(args[1:]), ret)
        if kind == 'intrinsic':
            r = self.models.intrinsic(self, st, d, args, ret)
            return r if isinstance(r, list) else [(s, 'ret', v) for s, v in self.forkv(st, r)]
        if kind == 'unresolved': raise Unsupported('unresolved ' + str(d['name']))
        c = self.models.SUMMARIES.get(d['idef'])
        if c is not None and d['idef'] not in self.unfolded:
            r = c(self, st, d, args)
            if r is not None:
                self.summaries_used.add(d['idef'])
                return r
        m = self.models.lookup(d)
        if m is not None:
            self.used_models[d['idef']] = self.used_models.get(d['idef'], 0) + 1
            r = m(self, st, d, args, ret)
            return r if isinstance(r, list) else [(s, 'ret', v) for s, v in self.forkv(st, r)]
        f = self.fns.get(d['key'])
        if f is None or f.get('body') is None: raise Unsupported('no model or body: %s' % d['idef'])
        # closures are called with their arguments as a tuple
        if kind == 'closureptr': args = [UNIT] + list(args)
        elif d['def'].startswith('std::ops::Fn') and d['def'].split('::')[-1] in ('call', 'call_mut', 'call_once') and f.get('kind') == 'Item':
            args = [args[0]] + list(args[1].f)
        return self.exec_fn(st, d['key'], f, args)

    def strip_meta(self, v):
        if isinstance(v, Ptr): return Ptr(v.a, v.p)
        if isinstance(v, Agg) and v.f: return Agg((self.strip_meta(v.f[0]),) + v.f[1:], v.var)
        return v

    def call_value(self, st, fty, fv, args, mode='fnmut'):
        """call a closure or function value (given its type) with a list of arguments"""
        T = self.types[fty]
        if T['k'] == 'fndef': return self.call(st, T['fn'], args)
        if T['k'] == 'closure':
            if mode == 'fnonce':
                key = T['inst'].get('fnonce')
                f = self.fns[key]
                if f.get('kind') == 'Shim':
                    key = T['inst'].get('fnmut') or T['inst'].get('fn')
                    return self.call_key(st, key, [Ptr(st.alloc(fv))] + list(args))
                return self.call_key(st, key, [fv] + list(args))
            key = T['inst'].get('fn') or T['inst'].get('fnmut')
            return self.call_key(st, key, [fv if isinstance(fv, Ptr) else Ptr(st.alloc(fv))] + list(args))
        if T['k'] in ('ref', 'ptr'):
            inner = self.types[T['elem']]
            if inner['k'] == 'closure': return self.call_value(st, T['elem'], fv, args, mode)
        raise Unsupported('call_value of ' + T.get('d', ''))

    def exec_fn(self, st, key, f, args):
        body = f['body']
        if st.depth > 200: raise Unsupported('recursion')
        self.used_fns[key] = self.used_fns.get(key, 0) + 1
        nl = len(body['locals'])
        base = st.n; st.n += nl
        sp = body.get('spread_arg')
        if sp is not None and len(args) != body['arg_count']:
            k = sp - 1
            args = list(args[:k]) + [Agg(args[k:])]
        if len(args) != body['arg_count']:
            raise Unsupported('argument count of %s: %d vs %d' % (f['name'], len(args), body['arg_count']))
        for i, a in enumerate(args): st.heap[base + 1 + i] = a
        st.depth += 1
        out = []
        work = [(st, 0, 0)]
        blocks = body['blocks']
        spec = self.loop_specs.get(f['def']) if self.loop_specs else None
        try: headers = spec.headers(self, key, f) if spec else {}
        except Unsupported:
            if not spec.when: raise
            headers = {}      # needed only for lists of any length
        while work:
            st, bb, si = work.pop()
            try:
                self.run_block(st, base, body, blocks, bb, si, f, work, out, nl, headers)
            except NeedSplit as e:
                # re-execute the statement with the expression fixed
                vals = [(e.e == v, v) for v in range(e.lo, e.hi)]
                pos = e.st.trace[0]
                for s, v in self.split(e.st, vals):
                    s.concr[e.e.get_id()] = (e.e, v)
                    work.append((s, pos[0], pos[1]))
        return out

    def run_block(self, st, *rest):
        cur = [st]
        try:
            self.run_block1(cur, *rest)
        except NeedSplit as e:
            if e.st is None: e.st = cur[0]
            raise

    def define(self, st, headers, v):
        """a name for a long expression, where the loop specification asks for that"""
        if v.sort().kind() != z3.Z3_REAL_SORT or v.num_args() == 0: return v
        if not next(iter(headers.values())).spec.define: return v
        n = degree(v)
        if n < 2: return v
        x = z3.FreshConst(z3.RealSort(), 'def')
        c = x == v
        self.definitions[c.get_id()] = n; self._kept.append(c)
        st.assume(c)
        return x

    def run_block1(self, cur, base, body, blocks, bb, si, f, work, out, nl, headers):
        st = cur[0]
        while True:
            cur[0] = st
            if si == 0:
                h = headers.get(bb)
                if h is not None:
                    r = h.enter(self, st, base, body, f)
                    if r is None: return          # path ends at the loop head (invariant re-established)
                    st = r
                c = (base, bb)
                n = st.loops.get(c, 0) + 1
                st.loops[c] = n
                if n > 5000: raise Unsupported('loop runs too long in ' + f['name'])
            blk = blocks[bb]
            self.defining = bool(headers) and next(iter(headers.values())).spec.define
            stmts = blk['statements']
            while si < len(stmts):
                k = stmts[si]['kind']
                st.trace = ((bb, si),)
                if isinstance(k, dict):
                    if 'Assign' in k:
                        pl, rv = k['Assign']
                        self._base = base
                        v = self.rvalue(st, base, body, rv)
                        if 'Discriminant' in rv: v = self.wrap(st, v, self.place_ty(body, pl))
                        if isinstance(v, ForkV):
                            for s, x in self.forkv(st, v):
                                a, p, m = self.place(s, base, pl)
                                self.store(s, a, p, x)
                                work.append((s, bb, si + 1))
                            return
                        if headers and isz(v): v = self.define(st, headers, v)
                        a, p, m = self.place(st, base, pl)
                        self.store(st, a, p, v)
                    elif 'SetDiscriminant' in k:
                        d = k['SetDiscriminant']
                        a, p, m = self.place(st, base, d['place'])
                        v = self.load(st, a, p)
                        self.store(st, a, p, Agg(v.f if isinstance(v, Agg) else (), d['variant_index']))
                    elif 'Intrinsic' in k:
                        if 'Assume' in k['Intrinsic']: pass
                        else: raise Unsupported('copy_nonoverlapping')
                si += 1
            T = blk['terminator']['kind']
            st.trace = ((bb, si),)
            self.cur_loc = (f, bb)
            if isinstance(T, str):
                if T == 'Return':
                    rv = st.heap.get(base, UNIT)
                    for i in range(nl): st.heap.pop(base + i, None) if i not in () else None
                    st.depth -= 1
                    out.append((st, 'ret', rv)); return
                if T == 'Unreachable': return
                raise Unsupported('terminator ' + T)
            if 'Goto' in T: bb, si = T['Goto']['target'], 0; continue
            if 'Drop' in T: bb, si = T['Drop']['target'], 0; continue
            if 'SwitchInt' in T:
                d = self.operand(st, base, T['SwitchInt']['discr'])
                br = T['SwitchInt']['targets']['branches']; ow = T['SwitchInt']['targets']['otherwise']
                if isinstance(d, Agg): raise Unsupported('switch on aggregate')
                if isinstance(d, bool): d = int(d)
                if isinstance(d, int):
                    t = ow
                    for v, b in br:
                        if v == d or (d < 0 and v in (d + (1 << 8), d + (1 << 16), d + (1 << 32), d + (1 << 64), d + (1 << 128))): t = b; break
                    bb, si = t, 0; continue
                if z3.is_bool(d):
                    cases = []
                    rest = True
                    for v, b in br:
                        c = z3.Not(d) if v == 0 else d
                        cases.append((c, b)); rest = land(rest, lnot(c))
                    cases.append((rest, ow))
                else:
                    if not z3.is_int(d): raise Unsupported('switch on %s' % d.sort())
                    signed = True
                    cases = []
                    t = self.operand_ty(body, T['SwitchInt']['discr'])
                    lo, hi = self.int_range(t)
                    for v, b in br:
                        if v > hi: v -= (hi - lo + 1)
                        cases.append((d == v, b))
                    cases.append((z3.And(*[z3.Not(c) for c, _ in cases]), ow))
                live = self.split(st, cases)
                if len(live) == 1: st, bb = live[0]; si = 0; continue
                # count symbolic decisions to recognise unbounded loops
                for s, b in live:
                    key = ('sym', base, bb)
                    s.loops[key] = s.loops.get(key, 0) + 1
                    if s.loops[key] > self.max_loop:
                        self.bounded_hit(f, bb)
                        continue
                    work.append((s, b, 0))
                return
            if 'Assert' in T:
                A = T['Assert']
                c = self.operand(st, base, A['cond'])
                if not A['expected']: c = lnot(c)
                live = self.branch(st, c)
                nxt = None
                for s, okk in live:
                    if okk: nxt = s
                    else:
                        s.depth -= 1
                        out.append((s, 'panic', 'assertion %s at %s' % (self.msg(A['msg']), self.loc(f, bb))))
                if nxt is None: return
                st = nxt; bb, si = A['target'], 0; continue
            if 'Call' in T:
                C = T['Call']
                fn = C['func']
                if 'Constant' in fn:
                    FT = self.types[fn['Constant']['const_']['ty']]
                    if FT['k'] == 'fndef':
                        d = FT['fn']
                        if d is None: raise Unsupported('unresolved call ' + str(FT.get('name')))
                    else: raise Unsupported('call of ' + FT['k'])
                else:
                    v = self.operand(st, base, fn)
                    if not isinstance(v, FnV): raise Unsupported('call of value %r' % (v,))
                    d = v.d
                args = [self.operand(st, base, a) for a in C['args']]
                self._argtys = [self.operand_ty(body, a) for a in C['args']]
                self._where = (f, bb)
                ret = self.place_ty(body, C['destination'])
                res = self.call(st, d, args, ret)
                live = []
                for s, k, v in res:
                    if k == 'ret':
                        if C['target'] is None: continue
                        a, p, m = self.place(s, base, C['destination'])
                        self.store(s, a, p, v)
                        live.append(s)
                    elif k == 'panic':
                        s.depth -= 1
                        out.append((s, 'panic', v if ' at ' in str(v) else '%s at %s' % (v, self.loc(f, bb))))
                    elif k == 'stop':
                        out.append((s, 'stop', v))
                if not live: return
                for s in live[1:]: work.append((s, C['target'], 0))
                st = live[0]; bb, si = C['target'], 0
                continue
            raise Unsupported('terminator %r' % (list(T),))

    def bounded_hit(self, f, bb):
        raise Unsupported('loop without invariant in %s (line %s)' % (f['name'], f['lines'][bb] if f.get('lines') else '?'))

    def msg(self, m):
        if isinstance(m, dict):
            k = list(m)[0]
            return k
        return str(m)
    def loc(self, f, bb):
        fn = f.get('file', '?')
        return '%s:%s' % (fn, f['lines'][bb] if f.get('lines') else '?')

    # ---- running a contract
    def run(self, name):
        """explore one contract function; obligations are collected in self.obls"""
        key = self.roots[name]
        self.cur = name
        st = State()
        res = self.call_key(st, key, [])
        for s, k, v in res:
            self.paths += 1
            if k == 'panic':
                self.prover.prove(s, 'no panic: %s' % v, False, kind='panic', loc=str(v))
        return res

def mkfloat(x):
    if x != x: return NAN
    if x == float('inf'): return PINF
    if x == float('-inf'): return NINF
    return Fraction(repr(x))
