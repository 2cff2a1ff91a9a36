"""Discharging obligations: z3, a ring-identity decision for equalities, cvc5."""
import time, z3, subprocess, tempfile, os
from .ring import identity
from fractions import Fraction
from .engine import *

def occurs(x, y):
    seen = set(); todo = [y]
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if e.eq(x): return True
        todo.extend(e.children())
    return False

class Prover:
    def __init__(self, E):
        self.E = E
        self.ms = 4000
        self.long_ms = 20000
        self.stats = {}

    def note(self, b, t):
        n, s = self.stats.get(b, (0, 0.0))
        self.stats[b] = (n + 1, s + t)

    def prove(self, st, label, goal, kind='post', loc=None):
        E = self.E
        t0 = time.time()
        goal = simp(goal) if not isinstance(goal, bool) else goal
        if goal is True:
            self.note('evaluation', 0.0)
            E.obls.append(Obligation(label, 'ok', 'evaluation', 0.0, loc, None, kind))
            return True
        st_, backend, model = self.decide(st, goal)
        dt = time.time() - t0
        self.note(backend, dt)
        cex = None
        if st_ == 'fail' and model is not None: cex = self.inputs(st, model)
        E.obls.append(Obligation(label, st_, backend, dt, loc, cex, kind))
        return st_ == 'ok'

    def rewrite(self, pc, goal):
        """the goal with variables replaced by what the path condition equates them to"""
        for c in pc:
            if not z3.is_eq(c): continue
            for x, y in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and not occurs(x, y):
                    goal = z3.substitute(goal, (x, y)); break
        return goal if z3.is_eq(goal) else goal == goal

    def decide(self, st, goal):
        """-> (status, backend, model)"""
        E = self.E
        pc = list(st.pc)
        neg = z3.BoolVal(True) if goal is False else z3.Not(goal)
        # 0. every combination of values, when there are finitely many
        r = E.solver.enum.find(pc, neg)
        if r is False: return 'ok', 'enumeration', None
        if r is not None:
            s = z3.Solver(); s.set('timeout', self.long_ms)
            s.add(*pc)
            s.add(*[z3.Int(x) == v for x, v in r.items() if E.solver.enum.bounds[x] != (0, 1)])
            s.add(neg)
            if s.check() == z3.sat: return 'fail', 'enumeration', s.model()
        # an equality as a ring identity, when that is quick
        real = goal is not False and z3.is_eq(goal) and goal.arg(0).sort().kind() == z3.Z3_REAL_SORT
        if real: goal = self.rewrite(pc, goal)
        if real and identity(goal.arg(0), goal.arg(1), 1.0): return 'ok', 'ring', None
        # without the definitions of long expressions, or of the longer ones (weaker hypotheses)
        defs = [c for c in pc if c.get_id() in E.definitions] if E.definitions else []
        for n in (0, 6) if defs else ():
            drop = {c.get_id() for c in defs[:len(defs) - n]}
            less = [c for c in pc if c.get_id() not in drop]
            s = z3.Solver(); s.set('timeout', self.ms // 4)
            s.add(*less); s.add(neg)
            if s.check() == z3.unsat: return 'ok', 'z3', None
            if n and self.nlsat(less, neg)[0] == z3.unsat: return 'ok', 'z3-nlsat', None
        # 1. incremental solver already loaded with the path condition
        s = z3.Solver(); s.set('timeout', self.ms)
        s.add(*pc); s.add(neg)
        r = s.check()
        if r == z3.unsat: return 'ok', 'z3', None
        if r == z3.sat:
            m = s.model()
            if self.genuine(m, pc, neg): return 'fail', 'z3', m
        # 2. equality as a ring identity
        if real:
            if identity(goal.arg(0), goal.arg(1), 30.0): return 'ok', 'ring', None
        # 3. nlsat on the formula with function applications abstracted (weaker
        #    hypotheses, so unsat still means valid)
        r, m = self.nlsat(pc, neg)
        if r == z3.unsat: return 'ok', 'z3-nlsat', None
        # 4. cvc5
        r2 = self.cvc5(pc, neg)
        if r2 == 'unsat': return 'ok', 'cvc5', None
        # 5. z3, longer
        s = z3.Solver(); s.set('timeout', self.long_ms)
        s.set('random_seed', 7)
        s.add(*pc); s.add(neg)
        r = s.check()
        if r == z3.unsat: return 'ok', 'z3', None
        if r == z3.sat: return 'fail', 'z3', s.model()
        return 'unknown', 'none', None

    def genuine(self, m, pc, neg):
        return True

    def nlsat(self, pc, neg):
        cache = {}
        fs = [abstract(c, cache) for c in pc + [neg]]
        try:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat').solver()
            s.set('timeout', self.ms)
            # integers relaxed to reals inside abstract()
            s.add(*fs)
            r = s.check()
            return r, None
        except z3.Z3Exception:
            return z3.unknown, None

    def cvc5(self, pc, neg):
        s = z3.Solver(); s.add(*pc); s.add(neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % self.long_ms, '--nl-ext-tplanes'], input=txt, capture_output=True, text=True,
                               timeout=self.long_ms / 1000 + 5)
            return r.stdout.strip().split('\n')[0]
        except Exception:
            return 'error'

    def inputs(self, st, m):
        def ev(x):
            if isinstance(x, (int, bool)): return float(x)
            if isinstance(x, Fraction): return float(x)
            if isinstance(x, FSpec): return float(x.n)
            v = m.eval(x, model_completion=True)
            if z3.is_true(v): return 1.0
            if z3.is_false(v): return 0.0
            if z3.is_int_value(v): return float(v.as_long())
            if z3.is_rational_value(v): return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
            if z3.is_algebraic_value(v):
                a = v.approx(30)
                return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
            return 0.0
        tape = {}
        for n, e in st.inputs:
            tape.setdefault(n, []).append(ev(e))
        for k, pts in st.tls.items():
            if k[0] == 'H':
                H = z3.Function('H_' + k[1], z3.IntSort(), z3.IntSort())
                tape[k[1]] = place_holidays(sorted({(int(ev(p)), int(ev(H(p)))) for p in pts}))
            if k[0] == 'F':
                xs = []
                dates = any(x.decl().name() == 'X_' + k[1] and x.sort().kind() == z3.Z3_INT_SORT for x in m_apps(st, 'X_' + k[1]))
                X = z3.Function('X_' + k[1], z3.IntSort(), z3.IntSort() if dates else z3.RealSort()); Y = z3.Function('Y_' + k[1], z3.IntSort(), z3.RealSort())
                n = int(ev(z3.Int('N_' + k[1])))
                for i in sorted({int(ev(p)) for p in pts}):
                    if 0 <= i < n: xs += [ev(X(z3.IntVal(i))), ev(Y(z3.IntVal(i)))]
                if n > 1 and len(xs) == 2:
                    # the other points were never looked at
                    last = any(int(ev(p)) == n - 1 for p in pts)
                    xs = [xs[0] - 1, xs[1] + 1] + xs if last else xs + [xs[0] + 1, xs[1] + 1]
                tape[k[1]] = xs
        ufs = []
        for n, args, e in st.ufs:
            ufs.append((n, [ev(a) for a in args], ev(e)))
        return {'tape': tape, 'ufs': ufs}

def m_apps(st, name):
    out = []; seen = set(); todo = list(st.pc)
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name: return [x]
            todo.extend(x.children())
    return out

def place_holidays(pts):
    """a list of weekdays with the given counts (day, number before that day)"""
    out = []
    for (p, h), (q, k) in zip(pts, pts[1:]):
        days = [d for d in range(max(p, 1), min(q, p + 40000)) if (d + 3) % 7 < 5]
        out += [float(d) for d in days[:max(0, k - h)]]
    return out

def abstract(e, cache):
    """replace uninterpreted applications by fresh reals, integers by reals"""
    k = e.get_id()
    if k in cache: return cache[k][1]
    def fresh(srt):
        if srt.kind() == z3.Z3_BOOL_SORT: return z3.FreshConst(z3.BoolSort(), 'ab')
        return z3.FreshConst(z3.RealSort(), 'ab')
    if z3.is_app(e):
        d = e.decl().kind()
        n = e.num_args()
        if d == z3.Z3_OP_UNINTERPRETED: r = fresh(e.sort())
        elif d in (z3.Z3_OP_TO_INT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM): r = fresh(e.sort())
        elif d == z3.Z3_OP_TO_REAL: r = abstract(e.arg(0), cache)
        elif z3.is_int_value(e): r = z3.RealVal(e.as_long())
        elif n == 0: r = e
        else:
            ch = [abstract(c, cache) for c in e.children()]
            if d == z3.Z3_OP_ADD: r = z3.Sum(ch)
            elif d == z3.Z3_OP_MUL: r = z3.Product(ch)
            elif d == z3.Z3_OP_SUB: r = ch[0] - ch[1] if n == 2 else ch[0] - z3.Sum(ch[1:])
            elif d == z3.Z3_OP_UMINUS: r = -ch[0]
            elif d == z3.Z3_OP_DIV: r = ch[0] / ch[1]
            elif d == z3.Z3_OP_LE: r = ch[0] <= ch[1]
            elif d == z3.Z3_OP_GE: r = ch[0] >= ch[1]
            elif d == z3.Z3_OP_LT: r = ch[0] < ch[1]
            elif d == z3.Z3_OP_GT: r = ch[0] > ch[1]
            elif d == z3.Z3_OP_EQ: r = ch[0] == ch[1]
            elif d == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
            elif d == z3.Z3_OP_ITE: r = z3.If(ch[0], ch[1], ch[2])
            elif d == z3.Z3_OP_AND: r = z3.And(*ch)
            elif d == z3.Z3_OP_OR: r = z3.Or(*ch)
            elif d == z3.Z3_OP_NOT: r = z3.Not(ch[0])
            elif d == z3.Z3_OP_IMPLIES: r = z3.Implies(ch[0], ch[1])
            elif d == z3.Z3_OP_XOR: r = z3.Xor(ch[0], ch[1])
            else: r = fresh(e.sort())
    else:
        r = fresh(e.sort())
    cache[k] = (e, r)
    return r
