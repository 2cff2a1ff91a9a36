"""Complete decision for formulas over integers that each have a declared finite
range: the formula is evaluated for every combination of values."""
import z3
import numpy as np

LIMIT = 400000
K = {}
for n in ('ADD MUL SUB UMINUS LE GE LT GT EQ DISTINCT ITE AND OR NOT IMPLIES XOR IDIV MOD UNINTERPRETED').split():
    K[getattr(z3, 'Z3_OP_' + n)] = n

class No(Exception):
    pass

class Enumeration:
    def __init__(self):
        self.bounds = {}
        self.vars_of = {}     # expr id -> (expr, frozenset of names or None)
        self.vals = {}        # (grid, expr id) -> array
        self.grids = {}
        self.keep = {}
        self.used = 0

    def declare(self, name, lo, hi): self.bounds[name] = (lo, hi)

    def vars(self, e):
        """names of the variables of e, or None if e is outside the fragment"""
        k = e.get_id()
        r = self.vars_of.get(k)
        if r is not None: return r[1]
        if z3.is_int_value(e) or z3.is_true(e) or z3.is_false(e): v = frozenset()
        elif not z3.is_app(e): v = None
        else:
            op = K.get(e.decl().kind())
            if op is None: v = None
            elif op == 'UNINTERPRETED':
                nm = e.decl().name()
                if e.num_args() == 0 and e.sort().kind() == z3.Z3_INT_SORT and nm in self.bounds: v = frozenset([nm])
                elif e.num_args() == 0 and e.sort().kind() == z3.Z3_BOOL_SORT: v = frozenset([nm]); self.bounds.setdefault(nm, (0, 1))
                else: v = None
            elif op in ('IDIV', 'MOD') and not (z3.is_int_value(e.arg(1)) and e.arg(1).as_long() > 0): v = None
            else:
                v = frozenset()
                for c in e.children():
                    w = self.vars(c)
                    if w is None: v = None; break
                    v = v | w
        self.vars_of[k] = (e, v)
        return v

    def grid(self, names):
        key = tuple(sorted(names))
        g = self.grids.get(key)
        if g is None:
            n = 1
            for x in key: n *= self.bounds[x][1] - self.bounds[x][0] + 1
            if n > LIMIT: g = (key, None, None)
            else:
                axes = [np.arange(self.bounds[x][0], self.bounds[x][1] + 1, dtype=np.int64) for x in key]
                ms = np.meshgrid(*axes, indexing='ij') if axes else []
                g = (key, {x: m.ravel() for x, m in zip(key, ms)}, n)
            self.grids[key] = g
        return g

    def ev(self, g, e):
        k = (g[0], e.get_id())
        r = self.vals.get(k)
        if r is not None: return r
        if z3.is_int_value(e):
            if abs(e.as_long()) > 2 ** 40: raise No()
            r = np.int64(e.as_long())
        elif z3.is_true(e): r = np.bool_(True)
        elif z3.is_false(e): r = np.bool_(False)
        else:
            op = K[e.decl().kind()]
            if op == 'UNINTERPRETED':
                r = g[1][e.decl().name()]
                if e.sort().kind() == z3.Z3_BOOL_SORT: r = r != 0
            else:
                c = [self.ev(g, x) for x in e.children()]
                if op == 'ADD':
                    r = c[0]
                    for x in c[1:]: r = r + x
                elif op == 'MUL':
                    r = c[0]
                    for x in c[1:]:
                        if float(np.max(np.abs(r), initial=0)) * float(np.max(np.abs(x), initial=0)) > 2 ** 60: raise No()
                        r = r * x
                elif op == 'SUB':
                    r = c[0]
                    for x in c[1:]: r = r - x
                elif op == 'UMINUS': r = -c[0]
                elif op == 'LE': r = c[0] <= c[1]
                elif op == 'GE': r = c[0] >= c[1]
                elif op == 'LT': r = c[0] < c[1]
                elif op == 'GT': r = c[0] > c[1]
                elif op == 'EQ': r = c[0] == c[1]
                elif op == 'DISTINCT':
                    if len(c) != 2: raise No()
                    r = c[0] != c[1]
                elif op == 'ITE': r = np.where(c[0], c[1], c[2])
                elif op == 'AND':
                    r = c[0]
                    for x in c[1:]: r = r & x
                elif op == 'OR':
                    r = c[0]
                    for x in c[1:]: r = r | x
                elif op == 'NOT': r = ~c[0]
                elif op == 'IMPLIES': r = ~c[0] | c[1]
                elif op == 'XOR': r = c[0] ^ c[1]
                elif op == 'IDIV': r = c[0] // c[1]
                elif op == 'MOD': r = c[0] % c[1]
        self.vals[k] = r
        self.keep[k] = e
        return r

    def find(self, pc, goal):
        """values making pc and goal true: dict, False when there are none, None
        when the formula is outside the fragment"""
        names = self.vars(goal)
        if names is None: return None
        # the constraints connected to the goal; the rest of pc is taken to be
        # satisfiable, as it is on every path followed
        rest = []
        for c in pc:
            v = self.vars(c)
            rest.append((c, v))
        chosen = []
        grown = True
        while grown:
            grown = False
            nxt = []
            for c, v in rest:
                if v is None:
                    nxt.append((c, v)); continue
                if v & names or not v:
                    chosen.append(c)
                    if not v <= names: names = names | v; grown = True
                else: nxt.append((c, v))
            if len(nxt) != len(rest): grown = True
            rest = nxt
        for c, v in rest:
            if v is None and self.mentions(c) & names: return None
        g = self.grid(names)
        if g[1] is None: return None
        try:
            m = self.ev(g, goal)
            for c in chosen:
                if not np.any(m): break
                m = m & self.ev(g, c)
        except No:
            return None
        self.used += 1
        if len(self.vals) > 3000: self.vals.clear(); self.keep.clear()
        if not names: return {} if bool(m) else False
        m = np.broadcast_to(m, (g[2],))
        if not m.any(): return False
        i = int(np.argmax(m))
        return {x: int(g[1][x][i]) for x in names}

    def mentions(self, e):
        """names of all 0-ary symbols in e"""
        k = ('m', e.get_id())
        r = self.vars_of.get(k)
        if r is not None: return r[1]
        out = set(); seen = set(); todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                todo.extend(x.children())
        self.vars_of[k] = (e, frozenset(out))
        return self.vars_of[k][1]
