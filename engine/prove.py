"""Obligations to z3: real arithmetic over canonical forms, and bit-precise floating point."""
import itertools
import math
import time
from fractions import Fraction
import z3
from . import expr as E
from . import norm as N
from .expr import Cx, Node, Unsupported

# a difference whose coefficients are all below this fraction of the compared terms' coefficients is rounding
DROP = {'f64': Fraction(1, 10 ** 9), 'f32': Fraction(1, 10 ** 5)}


def poly_to_node(p):
    t = E.const(0)
    for m, c in p.items():
        f = E.const(c)
        for i, e in m:
            a = N.AT.list[i]
            if a.kind == 'var':
                b = E.var(a.key, 'i' if a.key in N.INTVARS else VARDT.get(a.key))
            elif a.kind == 'pi':
                b = E.PI
            elif a.kind == 'root':
                b = E.sqrt(E.const(a.key))
            else:
                raise Unsupported("poly_to_node " + a.kind)
            f = E.mul(f, E.pow_(b, e))
        t = E.add(t, f)
    return t


VARDT = {}


class Result(object):
    def __init__(self, status, model=None, info=''):
        self.status = status      # 'proved' | 'sat' | 'unknown'
        self.model = model
        self.info = info


class Z(object):
    """Translation of canonical forms to z3 with the facts that define each atom."""

    def __init__(self):
        self.av = {}
        self.lemmas = []
        self.names = {}
        self.keys = []
        self.floors = False

    def fresh(self, a):
        return z3.Real("%s!%d" % (a.kind, a.id))

    def poly(self, p):
        ts = []
        for m, c in sorted(p.items()):
            f = [z3.RealVal(str(c))] if (c != 1 or not m) else []
            for i, e in m:
                v = self.atom(N.AT.list[i])
                if e < 0:
                    v = self.inverse(i, v)
                f.extend([v] * abs(e))
            ts.append(f[0] if len(f) == 1 else z3.Product(f))
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def inverse(self, i, v):
        k = ('inv', i)
        if k not in self.av:
            w = z3.Real("inv!%d" % i)
            self.av[k] = w
            self.lemmas.append(z3.If(v == 0, w == 0, w * v == 1))
            s = N.atom_sign(N.AT.list[i])
            if s == '+':
                self.lemmas.append(w > 0)
        return self.av[k]

    def atom(self, a):
        if a.id in self.av:
            return self.av[a.id]
        k = a.kind
        L = self.lemmas
        if k == 'var':
            v = z3.Int(a.key) if a.key in N.INTVARS else z3.Real(a.key)
            self.names[a.key] = v
            if a.key in N.INTVARS:
                v = z3.ToReal(v)
            elif a.key in N.POSVARS:
                L.append(v > 0)
            self.av[a.id] = v
            return v
        if k == 'ind' and a.key[0] == 'b':
            b = z3.Bool(a.key[1])
            self.names[a.key[1]] = b
            v = z3.If(b, z3.RealVal(1), z3.RealVal(0))
            self.av[a.id] = v
            return v
        v = self.fresh(a)
        self.av[a.id] = v
        P = lambda key: self.poly(dict(key))
        if k == 'pi':
            L.append(v > z3.RealVal("3.1415926535897932"))
            L.append(v < z3.RealVal("3.1415926535897933"))
        elif k == 'root':
            L += [v > 0, v * v == a.key]
        elif k == 'ind':
            x = P(a.key[1])
            c = (x > 0) if a.key[0] == '>' else (x == 0)
            L.append(v == z3.If(c, z3.RealVal(1), z3.RealVal(0)))
        elif k == 'sqrt':
            x = P(a.key)
            L += [v >= 0, z3.Implies(x >= 0, v * v == x)]
        elif k == 'exp':
            x = P(a.key)
            L += [v > 0, z3.Implies(x <= 0, v <= 1), z3.Implies(x >= 0, v >= 1 + x), z3.Implies(x < 0, v < 1)]
            self.pairs('exp', a, v, x, mono=True)
        elif k in ('cos', 'sin'):
            L += [v >= -1, v <= 1]
            o = N.AT.table.get(('sin' if k == 'cos' else 'cos', a.key))
            if o is not None and o.id in self.av:
                L.append(v * v + self.av[o.id] * self.av[o.id] == 1)
        elif k == 'def':
            pass
        elif k in ('pcos', 'psin'):
            L += [v >= -1, v <= 1]
            o = N.AT.table.get(('psin' if k == 'pcos' else 'pcos', a.key))
            if o is not None and o.id in self.av:
                L.append(v * v + self.av[o.id] * self.av[o.id] == 1)
        elif k == 'inv':
            if not a.key:
                L.append(v == 0)
            else:
                x = P(a.key)
                L.append(z3.If(x == 0, v == 0, v * x == 1))
        elif k == 'abs':
            x = P(a.key)
            L.append(v == z3.If(x >= 0, x, -x))
        elif k == 'tanh':
            x = P(a.key)
            L += [v > -1, v < 1, (v > 0) == (x > 0), (v == 0) == (x == 0), z3.Implies(x > 0, v < x), z3.Implies(x < 0, v > x)]
            self.pairs('tanh', a, v, x, mono=True)
        elif k == 'asin':
            x = P(a.key)
            pi = self.atom(N._PI)
            L += [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(2 * v >= -pi, 2 * v <= pi, (v > 0) == (x > 0), (v == 0) == (x == 0),
                  z3.Implies(x >= 0, v >= x), z3.Implies(x <= 0, v <= x)))]
            self.pairs('asin', a, v, x, mono=True)
        elif k == 'acos':
            x = P(a.key)
            pi = self.atom(N._PI)
            L += [v >= 0, v <= pi]
        elif k == 'atan2':
            pi = self.atom(N._PI)
            L += [v > -pi, v <= pi]
        elif k == 'pow':
            b, e = P(a.key[0]), P(a.key[1])
            L += [z3.Implies(b > 0, v > 0), z3.Implies(z3.And(b == 0, e > 0), v == 0), z3.Implies(b >= 0, v >= 0),
                  z3.Implies(e == 0, v == 1), z3.Implies(e == 1, v == b), z3.Implies(e == 2, v == b * b), z3.Implies(b == 1, v == 1)]
        elif k == 'max':
            xs = [P(x) for x in a.key]
            L += [v >= x for x in xs]
            L.append(z3.Or([v == x for x in xs]))
        elif k == 'floor':
            x = P(a.key)
            n = z3.Int("floor_i!%d" % a.id)
            L += [v == z3.ToReal(n), v <= x, x < v + 1]
            self.floor_facts(a, v, n)
        elif k == 'rint':
            x = P(a.key)
            n = z3.Int("rint_i!%d" % a.id)
            L += [v == z3.ToReal(n), v - z3.RealVal("1/2") <= x, x <= v + z3.RealVal("1/2")]
        elif k in ('uf', 'log'):
            pass
        else:
            raise Unsupported("z3 atom " + k)
        return v

    def floor_facts(self, a, v, n):
        """Squared bounds when the argument is p + q*sqrt(r), and the parity of n*n + n."""
        x = dict(a.key)
        roots = [(m, c) for m, c in x.items() if len(m) == 1 and m[0][1] == 1 and N.AT.list[m[0][0]].kind == 'sqrt']
        if len(roots) != 1:
            return
        (m, q), = roots
        rest = {k: c for k, c in x.items() if k != m}
        s = N.AT.list[m[0][0]]
        self.floors = True
        p, r = self.poly(rest), self.poly(dict(s.key))
        sv = self.atom(s)
        q = z3.RealVal(str(q))
        qr = q * q * r
        lo, hi = v - p, v + 1 - p                       # lo <= q*sqrt(r) < hi
        self.lemmas += [z3.Implies(z3.And(r >= 0, q > 0, lo >= 0), lo * lo <= qr), z3.Implies(z3.And(r >= 0, q > 0), z3.And(hi > 0, qr < hi * hi)),
                        z3.Implies(z3.And(r >= 0, q < 0, hi <= 0), hi * hi < qr), z3.Implies(z3.And(r >= 0, q < 0), z3.And(lo <= 0, qr <= lo * lo)),
                        v * v + v == 2 * z3.ToReal(z3.Int("half!%d" % a.id))]
        if N.is_const(rest):
            f = int(N.const_of(rest).__floor__())
            at = z3.And(v == f, v * v == f * f)
            self.lemmas += [z3.Implies(z3.And(r >= 0, q > 0, lo < 0), at), z3.Implies(z3.And(r >= 0, q < 0, hi > 0), at)]

    def pairs(self, kind, a, v, x, mono):
        for (k2, v2, x2) in self.keys:
            if k2 == kind:
                self.lemmas.append(z3.Implies(x < x2, v < v2))
                self.lemmas.append(z3.Implies(x2 < x, v2 < v))
                self.lemmas.append((x == x2) == (v == v2))
                if kind in ('tanh', 'asin'):       # odd
                    self.lemmas.append(z3.Implies(x + x2 < 0, v + v2 < 0))
                    self.lemmas.append(z3.Implies(x + x2 > 0, v + v2 > 0))
                    self.lemmas.append((x + x2 == 0) == (v + v2 == 0))
        self.keys.append((kind, v, x))


def products(formulas):
    """The formulas with every product of unknowns replaced by an unknown."""
    new = {}
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if z3.is_app_of(e, z3.Z3_OP_MUL) and sum(not z3.is_rational_value(c) and not z3.is_int_value(c) for c in e.children()) > 1:
            key = tuple(sorted(c.get_id() for c in e.children()))
            if key not in new:
                new[key] = z3.Const("prod!%d" % len(new), e.sort())
                keep.append(e)
            r = new[key]
        elif e.num_args() == 0:
            r = e
        else:
            cs = [go(c) for c in e.children()]
            r = e.decl()(*cs) if not z3.is_app_of(e, z3.Z3_OP_AND) and not z3.is_app_of(e, z3.Z3_OP_OR) else (z3.And(cs) if z3.is_app_of(e, z3.Z3_OP_AND) else z3.Or(cs))
            if z3.is_app_of(e, z3.Z3_OP_ADD):
                r = z3.Sum(cs)
            elif z3.is_app_of(e, z3.Z3_OP_MUL):
                r = z3.Product(cs)
        memo[k] = r
        keep.append(r)
        return r
    keep = []
    out = []
    for f in formulas:
        g = z3.simplify(f, som=True)
        keep.append(g)
        out.append(go(g))
    return out


def sum_of_squares(n):
    if n.op == 'const':
        return n.val >= 0
    if n.op == 'mul':
        return n.args[0] is n.args[1] or (sum_of_squares(n.args[0]) and sum_of_squares(n.args[1]))
    if n.op in ('add', 'max', 'div'):
        return sum_of_squares(n.args[0]) and sum_of_squares(n.args[1])
    return n.op in ('abs', 'sqrt', 'exp')


def sos_true(n):
    """Comparisons that hold because one side is a sum of squares."""
    if n.op == 'ge':
        return E.isc(n.args[1], 0) and sum_of_squares(n.args[0])
    if n.op == 'or':
        return sos_true(n.args[0]) or sos_true(n.args[1])
    if n.op == 'and':
        return sos_true(n.args[0]) and sos_true(n.args[1])
    if n.op == 'bconst':
        return bool(n.val)
    return False


def extreme(env, lim=1e6):
    return any(isinstance(v, float) and v != 0 and not 1 / lim <= abs(v) <= lim for v in env.values())


class Prover(object):
    def __init__(self, assumptions, dt='f64', timeout=8000):
        self.assumptions = [a for a in assumptions if a is not E.TRUE]
        self.drop = DROP[dt]
        self.scale = Fraction(0)     # size of the compared quantity, if the scenario states it
        self.dt = dt
        self.depth = 0
        self.timeout = timeout
        N.CTX['positive'] = frozenset()
        self.positive = N.CTX['positive'] = self.positives()
        self.norm = self.new()
        self._opaque = None
        self.queries = 0
        self.solver_time = 0.0
        self.unsat = 0

    def new(self, nonzero=()):
        return N.Norm(nonzero, self.positive)

    def positives(self):
        """Canonical forms of the terms the assumptions state to be positive."""
        out = set()
        norm = N.Norm()

        def add(n):
            if n.op == 'and':
                add(n.args[0])
                add(n.args[1])
            elif n.op == 'gt':
                try:
                    p = N.P_add(norm(n.args[0]), norm(n.args[1]), -1)
                except Unsupported:
                    return
                p = self.tol(p, p)
                if len(p) > 1 or any(e % 2 == 0 for m in p for i, e in m):
                    even = tuple((i, e) for i, e in N.mono_content({m: Fraction(1) for m in p})
                                 if e % 2 == 0 and N.AT.list[i].kind in ('var', 'uf'))
                    for i, e in even:
                        out.add(((i, 2),))
                    N.CTX['positive'] = frozenset(out)
                    q = N.pos_common([p])[0]
                    if len(q) > 1:
                        out.add(N.P_key(q))
        for a in self.assumptions:
            add(a)
        return frozenset(out)

    # ------------------------------------------------------------------ z3 plumbing
    def z3bool(self, Z_, n, norm):
        o = n.op
        if o == 'bconst':
            return z3.BoolVal(n.val)
        if o == 'bvar':
            b = z3.Bool(n.val)
            Z_.names[n.val] = b
            return b
        if o == 'not':
            return z3.Not(self.z3bool(Z_, n.args[0], norm))
        if o == 'and':
            return z3.And(self.z3bool(Z_, n.args[0], norm), self.z3bool(Z_, n.args[1], norm))
        if o == 'or':
            return z3.Or(self.z3bool(Z_, n.args[0], norm), self.z3bool(Z_, n.args[1], norm))
        if o == 'bite':
            return z3.If(*[self.z3bool(Z_, a, norm) for a in n.args])
        if o == 'isnan':
            return z3.BoolVal(False)
        if o == 'isfinite':
            return z3.BoolVal(True)
        l, r = norm(n.args[0]), norm(n.args[1])
        d = N.P_add(l, r, -1)
        d = self.tol(d, l, r)
        if o == 'eq':
            return Z_.poly(d) == 0
        d = N.pos_common([d])[0] if d else d
        x = Z_.poly(d)
        return x > 0 if o == 'gt' else x >= 0

    def check(self, formulas, Z_, timeout=None, nl=True):
        if Z_.floors:
            # products as unknowns first: refuted so is refuted
            s = z3.Solver()
            s.set('timeout', min(3000, timeout or self.timeout))
            for f in products(Z_.lemmas + list(formulas)):
                s.add(f)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.unsat:
                self.unsat += 1
                return 'unsat', None
        for s in self._solvers(nl):
            s.set('timeout', timeout or self.timeout)
            for f in Z_.lemmas:
                s.add(f)
            for f in formulas:
                s.add(f)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.unsat:
                self.unsat += 1
                return 'unsat', None
            if r == z3.sat:
                env = self.model(s.model(), Z_)
                if extreme(env, 64.0):
                    # a counterexample of ordinary magnitude, if there is one
                    s.push()
                    s.set('timeout', 2000)
                    for n, v in Z_.names.items():
                        if z3.is_bool(v) or z3.is_int(v):
                            continue
                        s.add(v <= 64, v >= (z3.RealVal("1/64") if n in N.POSVARS else -64))
                    if s.check() == z3.sat:
                        env = self.model(s.model(), Z_)
                return 'sat', env
        return 'unknown', None

    def _solvers(self, nl):
        yield z3.SolverFor('QF_NRA') if nl else z3.Solver()
        yield z3.Solver()

    def model(self, m, Z_):
        env = {}
        for name, v in Z_.names.items():
            x = m.eval(v, model_completion=False)
            if z3.is_bool(v):
                if z3.is_true(x) or z3.is_false(x):
                    env[name] = z3.is_true(x)
                continue
            try:
                if z3.is_int_value(x):
                    env[name] = x.as_long()
                elif z3.is_rational_value(x):
                    env[name] = float(x.as_fraction())
                elif z3.is_algebraic_value(x):
                    env[name] = float(x.approx(20).as_fraction())
            except Exception:
                pass
        return env

    def tol(self, d, *refs):
        """Drop coefficients that are rounding residue of the floating-point constants in the code."""
        if not d:
            return d
        s = max([abs(c) for p in refs for c in p.values()] + [self.scale] or [Fraction(1)])
        lim = s * self.drop
        roots = any(N.AT.list[i].kind == 'root' for m in d for i, e in m)
        if all(abs(c) > lim for c in d.values()) and not roots:
            return d
        d = {m: c for m, c in d.items() if abs(c) > lim}
        if not roots:
            return d
        # numbers times the same product of unknowns: exact roots next to their rounded values
        def parts(m):
            return tuple((i, e) for i, e in m if N.AT.list[i].kind != 'root'), tuple((i, e) for i, e in m if N.AT.list[i].kind == 'root')

        def groups(p):
            out = {}
            for m, c in p.items():
                k, r = parts(m)
                v = Fraction(c)
                for i, e in r:
                    x = Fraction(math.isqrt(int(N.AT.list[i].key) << 200)) / 2 ** 100 if N.AT.list[i].key == int(N.AT.list[i].key) else None
                    if x is None:
                        return None
                    v *= x ** e
                out[k] = out.get(k, 0) + v
            return out
        g = groups(d)
        if g is None:
            return d
        small = {k for k, v in g.items() if abs(v) <= lim}
        return {m: c for m, c in d.items() if parts(m)[0] not in small} if small else d

    # ------------------------------------------------------------------ obligations
    def holds(self, node):
        """Is node (Boolean) implied by the assumptions?"""
        if node is E.TRUE or sos_true(node):
            return self.trivial()
        if self.angles([node]):
            opq = self.opaque()
            p = self.tol(opq(node), N.P_const(1))
            if N.is_const(p) and N.const_of(p) == 1:
                return self.trivial()
            Z_ = Z()
            fs = [self.z3bool(Z_, a, opq) for a in self.assumptions]
            r, m = self.check(fs + [z3.Not(self.z3bool(Z_, node, opq))], Z_, timeout=min(2000, self.timeout))
            if r == 'unsat':
                return Result('proved')
        norm = self.norm
        p = norm(node)
        p = self.tol(p, N.P_const(1))
        if N.is_const(p) and N.const_of(p) == 1:
            return self.trivial()
        if self.linear(p):
            return Result('proved')
        last = None
        for nodes, norm2, extra in self.worlds([node]):
            n2 = nodes[0]
            Z_ = Z()
            fs = [self.z3bool(Z_, a, norm2) for a in self.assumptions]
            fs += [self.z3bool(Z_, a, norm2) for a in extra]
            g = z3.Not(self.z3bool(Z_, n2, norm2))
            bools = not self.depth and any(n.op == 'bvar' for n in E.topo([n2]))
            r, m = self.check(fs + [g], Z_, timeout=min(1500, self.timeout) if bools else None)
            if r == 'unsat':
                continue
            if r == 'unknown' and bools:
                if self.by_cases(n2, extra):
                    continue
                r, m = self.check(fs + [g], Z_)
                if r == 'unsat':
                    continue
            last = Result('sat' if r == 'sat' else 'unknown', m)
            return last
        return Result('proved')

    def linear(self, p):
        """Is the 0/1-valued p (a polynomial in indicators) always 1, reading the compared terms up to constants as unknowns?"""
        if len(p) > 300:
            return False
        atoms = {}
        unk = {}
        budget = [400]

        class Out(Exception):
            pass

        def atom(i):
            if i not in atoms:
                a = N.AT.list[i]
                if a.kind != 'ind':
                    raise Out()
                atoms[i] = z3.Bool('b%d' % i) if a.key[0] == 'b' else rel(a.key[0], dict(a.key[1]))
            return atoms[i]

        def rel(how, q):
            budget[0] -= 1
            if budget[0] < 0:
                raise Out()
            inner = N.inds_of(q)
            if inner:
                i = inner[0]
                return z3.If(atom(i), rel(how, N.P_subst_ind(q, i, 1)), rel(how, N.P_subst_ind(q, i, 0)))
            q = N.cancel_inv(q)
            s = N.poly_sign(q)
            if s == '+' or not q:
                return z3.BoolVal(how == '>' if q else how != '>')
            if N.poly_sign(N.P_neg(q)) is not None and how == '>':
                return z3.BoolVal(False)
            leaves[0] += 1
            ts = []
            for m, c in q.items():
                if m not in unk:
                    unk[m] = z3.Real('x%d' % len(unk)) if m else z3.RealVal(1)
                    sg = N.mono_sign(m) if m else None
                    if sg:
                        facts.append(unk[m] > 0 if sg == '+' else unk[m] >= 0)
                ts.append(z3.RealVal(str(c)) * unk[m])
            v = z3.Sum(ts)
            return v > 0 if how == '>' else v == 0
        leaves = [0]
        facts = []
        try:
            for m in p:
                for i, e in m:
                    atom(i)
        except Out:
            return False
        one, zero = z3.RealVal(1), z3.RealVal(0)
        t = z3.Sum([z3.If(z3.And([atoms[i] for i, e in m] + [z3.BoolVal(True)]), z3.RealVal(str(c)), zero) for m, c in p.items()] + [zero])
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(t != one)
        s.add(*facts)
        t0 = time.time()
        r = s.check()
        self.solver_time += time.time() - t0
        self.queries += 1
        if r == z3.unsat:
            self.unsat += 1
            return True
        return False

    def by_cases(self, node, extra, limit=4):
        """Decide a condition separately for every assignment of its Boolean variables."""
        bs = [n for n in E.topo([node]) if n.op == 'bvar']
        if not bs or len(bs) > limit or self.depth:
            return False
        for vs in itertools.product((True, False), repeat=len(bs)):
            mp = {b.id: E.TRUE if v else E.FALSE for b, v in zip(bs, vs)}
            asm = E.substitute(list(self.assumptions) + list(extra), mp)
            if any(a is E.FALSE for a in asm):
                continue
            sub = Prover(asm, self.dt, self.timeout)
            sub.depth = 1
            try:
                r = sub.holds(E.substitute([node], mp)[0])
            finally:
                N.CTX['positive'] = self.positive
            self.queries += sub.queries
            self.unsat += sub.unsat
            self.solver_time += sub.solver_time
            if r.status != 'proved':
                return False
        return True

    def trivial(self):
        s = z3.Solver()
        s.add(z3.BoolVal(False))
        t = time.time()
        s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        self.unsat += 1
        return Result('proved')

    def equal(self, a, b):
        """a == b for cells."""
        a, b = E.cell(a), E.cell(b)
        if isinstance(a, Node) and a.sort == 'B' and isinstance(b, Node) and b.sort == 'B':
            if self.angles([a, b]):
                opq = self.opaque()
                pa = opq(a)
                if pa == opq(b):
                    return self.poly_query(pa, pa)
            pa, pb = self.norm(a), self.norm(b)
            d = N.P_add(pa, pb, -1)
            if not d:
                return self.poly_query(pa, pb)
            if self.linear(N.P_add(N.P_const(1), N.P_mul(d, d), -1)):
                return Result('proved')
            return self.holds(E.eq(a, b))
        a, b = E.num(a), E.num(b)
        if isinstance(a, Cx) or isinstance(b, Cx):
            a, b = E._cx(a), E._cx(b)
            r = self.equal_real(a.re, b.re)
            if r.status != 'proved':
                return r
            return self.equal_real(a.im, b.im)
        return self.equal_real(a, b)

    def poly_query(self, p, q):
        """Discharge p == q, canonical forms equal up to rounding residue, through the solver."""
        n = len(p) + len(q)
        if n > 400:
            d = N.P_add(p, q, -1)
            p, q = self.tol(d, p, q), {}
        else:
            q = {m: p.get(m, c) if abs(p.get(m, c) - c) <= self.drop * max(abs(c), 1) else c for m, c in q.items()}
            d = N.P_add(p, q, -1)
            if d:
                p = N.P_add(p, d, -1)
        Z_ = Z()
        # atoms are plain variables here: equality of polynomials needs no facts about them
        f = Z_.poly(p) != Z_.poly(q)
        Z_.lemmas = []
        r, m = self.check([f], Z_, nl=False)
        return Result('proved' if r == 'unsat' else 'unknown')

    def equal_real(self, a, b):
        if a is b:
            return self.trivial()
        if self.angles([a, b]):
            # angles as unknowns: decides all cases at once when both sides agree in them
            try:
                opq = self.opaque()
                p, q = opq(a), opq(b)
                d = self.tol(N.P_add(p, q, -1), p, q)
                if d:
                    d2 = N.clear_inv(d)
                    if not d2 or self._residual(d, d2, p, q):
                        p, q, d = d2, {}, {}
                if not d:
                    r = self.poly_query(p, q)
                    if r.status == 'proved':
                        return r
            except Unsupported:
                pass
        for nodes, norm, extra in self.worlds([a, b]):
            r = self._equal_world(nodes[0], nodes[1], norm, extra)
            if r.status != 'proved':
                return r
        return Result('proved')

    def opaque(self):
        if self._opaque is None:
            self._opaque = N.Norm((), self.positive, opaque=True)
        return self._opaque

    def angles(self, nodes):
        cmp = 0
        for n in E.topo(nodes):
            if n.op == 'atan2':
                return True
            if n.op in ('gt', 'ge', 'eq'):
                cmp += 1
                if cmp > 3:
                    return True
        return False

    def worlds(self, nodes):
        """Case split on vanishing radii of the angles atan2(y, x) whose cos/sin occur."""
        norm = self.norm
        norm.polar = {}
        n0 = self.new()
        for n in nodes:
            n0(n)
        pol = list(n0.polar.values())
        if not pol:
            yield nodes, norm, []
            return
        keys = []
        pairs = []
        for a in pol:
            y, x = dict(a.key[0]), dict(a.key[1])
            r2 = N.P_add(N.P_mul(x, x), N.P_mul(y, y))
            s = N.P_sqrt(r2)
            ks = [N.AT.list[i].key for m in s for i, e in m if N.AT.list[i].kind == 'sqrt']
            pairs.append((y, x, ks, N.poly_sign(s) == '+'))
        # world with every radius nonzero
        nz = self.new([k for p in pairs for k in p[2]])
        yield nodes, nz, [self._nonzero_node(y, x) for y, x, ks, _ in pairs if self._nodeable(y, x)]
        pairs = [p for p in pairs if not p[3]]
        if len(pairs) > 4:
            raise Unsupported("too many angles in one obligation (%d)" % len(pairs))
        for size in range(1, len(pairs) + 1):
            for Zs in itertools.combinations(range(len(pairs)), size):
                for w in self._zero_world(nodes, pairs, Zs):
                    yield w

    def _nodeable(self, y, x):
        try:
            poly_to_node(y)
            poly_to_node(x)
            return True
        except Unsupported:
            return False

    def _nonzero_node(self, y, x):
        return E.not_(E.and_(E.eq(poly_to_node(y), E.const(0)), E.eq(poly_to_node(x), E.const(0))))

    def _zero_world(self, nodes, pairs, Zs):
        eqs = []
        for i in Zs:
            eqs += [pairs[i][0], pairs[i][1]]
        eqs = [e for e in eqs if e]
        # quick vacuity test
        Z_ = Z()
        try:
            fs = [self.z3bool(Z_, a, self.norm) for a in self.assumptions]
            fs += [Z_.poly(e) == 0 for e in eqs]
            r, _ = self.check(fs, Z_, timeout=3000)
            if r == 'unsat':
                return
        except Unsupported:
            pass
        subs = {}
        extra = []
        cur = list(nodes)
        asm = list(self.assumptions)
        pend = []
        try:
            pend = [poly_to_node(e) for e in eqs]
        except Unsupported:
            raise Unsupported("angle of a term that may vanish: %s" % N.show_poly(eqs[0], 5))
        while pend:
            e = pend.pop(0)
            p = self.norm(e)
            if not p:
                continue
            v = self._solve_for(p)
            if v is None:
                raise Unsupported("cannot eliminate %s = 0" % N.show_poly(p, 5))
            i, expr = v
            node = E.var(N.AT.list[i].key, VARDT.get(N.AT.list[i].key))
            mp = {node.id: expr}
            cur = E.substitute(cur, mp)
            pend = E.substitute(pend, mp)
            extra.append(E.eq(node, expr))
        others = [j for j in range(len(pairs)) if j not in Zs]
        nz = self.new([k for j in others for k in pairs[j][2]])
        ex = extra + [self._nonzero_node(pairs[j][0], pairs[j][1]) for j in others if self._nodeable(*pairs[j][:2])]
        yield cur, nz, ex

    def _solve_for(self, p):
        cand = {}
        for m, c in p.items():
            for i, e in m:
                a = N.AT.list[i]
                if a.kind == 'var':
                    cand.setdefault(i, []).append((m, c, e))
        for i, occ in sorted(cand.items()):
            if len(occ) != 1 or occ[0][2] != 1:
                continue
            m, c, e = occ[0]
            rest = tuple((j, x) for j, x in m if j != i)
            if any(N.atom_sign(N.AT.list[j]) != '+' for j, x in rest):
                continue
            q = {k: v for k, v in p.items() if k != m}
            sol = N.P_mul(N.P_scale(q, -1 / c), N.P_inv({rest: Fraction(1)}) if rest else N.P_const(1))
            try:
                return i, poly_to_node(sol)
            except Unsupported:
                continue
        return None

    def _equal_world(self, a, b, norm, extra):
        p, q = norm(a), norm(b)
        full = N.P_add(p, q, -1)
        d = self.tol(full, p, q)
        if not d:
            return self.poly_query(p, q)
        s = max(abs(c) for x in (p, q) for c in x.values())
        lim = s * self.drop
        d2 = N.clear_inv(d, drop=None)
        lim2 = max([abs(c) for c in d2.values()] or [0])
        if d2 and self._residual(d, d2, p, q):
            d2 = {}
        if d2 and len(full) != len(d):     # terms too small to matter by themselves may be needed for the cancellation
            d3 = N.clear_inv(full, drop=None)
            if not d3 or self._residual(full, d3, p, q):
                d2 = {}
        if not d2:
            return self.poly_query(d2, {})
        return self.split(d2, norm, extra, 0, [])

    def _residual(self, d, d2, p, q):
        # after clearing denominators, compare with the size of the cleared left side
        cp = N.clear_inv(p)
        if not cp:
            return False
        s = max(abs(c) for c in cp.values())
        return all(abs(c) <= s * self.drop for c in d2.values())

    def split(self, d, norm, extra, depth, conds):
        """d == 0 by case split on indicator atoms, then z3."""
        inds = N.inds_of(d)
        if inds and depth < 7:
            i = inds[0]
            a = N.AT.list[i]
            for v in (1, 0):
                Z_ = Z()
                fs = [self.z3bool(Z_, x, norm) for x in self.assumptions + extra]
                cs = conds + [(a, v)]
                fs += [self.cond(Z_, x, y) for x, y in cs]
                r, _ = self.check(fs, Z_, timeout=2000)
                if r == 'unsat':
                    continue
                dd = N.P_subst_ind(d, i, v)
                if v == 1 and a.key[0] == '==':
                    dd = self.use_equation(dd, dict(a.key[1]))
                if not dd:
                    continue
                res = self.split(dd, norm, extra, depth + 1, cs)
                if res.status != 'proved':
                    return res
            return Result('proved')
        Z_ = Z()
        fs = [self.z3bool(Z_, x, norm) for x in self.assumptions + extra]
        fs += [self.cond(Z_, x, y) for x, y in conds]
        fs.append(Z_.poly(d) != 0)
        r, m = self.check(fs, Z_)
        if r == 'unsat':
            return Result('proved')
        return Result('sat' if r == 'sat' else 'unknown', m, N.show_poly(d, 8))

    def cond(self, Z_, a, v):
        if a.key[0] == 'b':
            b = z3.Bool(a.key[1])
            Z_.names[a.key[1]] = b
            return b if v else z3.Not(b)
        x = Z_.poly(dict(a.key[1]))
        c = (x > 0) if a.key[0] == '>' else (x == 0)
        return c if v else z3.Not(c)

    def use_equation(self, d, p):
        """Reduce d by p == 0 when p is a single atom."""
        s = N.single(p)
        if s is not None and len(s[0]) == 1 and s[0][0][1] == 1:
            i = s[0][0][0]
            return {m: c for m, c in d.items() if not any(j == i and e > 0 for j, e in m)}
        return d

    # ------------------------------------------------------------------ vacuity
    def consistent(self, extra=()):
        Z_ = Z()
        fs = [self.z3bool(Z_, a, self.norm) for a in list(self.assumptions) + list(extra)]
        return self.check(fs, Z_, timeout=4000)


def definedness(roots, base=()):
    """[(guard, condition, text)]: conditions under which every partial operation on the way is defined."""
    order = E.topo(roots)
    guard = {}
    for r in roots:
        guard[r.id] = E.TRUE

    def join(n, g):
        o = guard.get(n.id)
        guard[n.id] = g if o is None else E.or_(o, g)
    out = []
    for n in reversed(order):
        g = guard.get(n.id)
        if g is None:
            continue
        if n.op in ('ite', 'bite'):
            join(n.args[0], g)
            join(n.args[1], E.and_(g, n.args[0]))
            join(n.args[2], E.and_(g, E.not_(n.args[0])))
            continue
        for a in n.args:
            join(a, g)
        if n.op == 'div' and not (E.isc(n.args[1]) and n.args[1].val != 0):
            out.append((g, E.ne(n.args[1], E.const(0)), 'divisor'))
        elif n.op == 'sqrt':
            out.append((g, E.ge(n.args[0], E.const(0)), 'sqrt argument'))
        elif n.op in ('asin', 'acos'):
            if n.args[0].op not in ('cos', 'sin'):
                out.append((g, E.and_(E.ge(n.args[0], E.const(-1)), E.ge(E.const(1), n.args[0])), n.op + ' argument'))
        elif n.op == 'log':
            out.append((g, E.gt(n.args[0], E.const(0)), 'log argument'))
        elif n.op == 'pow':
            out.append((g, E.or_(E.gt(n.args[0], 0), E.and_(E.ge(n.args[0], 0), E.ge(n.args[1], 0))), 'power'))
    return out


# ---------------------------------------------------------------------------------------- floating point

class FP(object):
    """Bit-precise IEEE semantics of terms (round to nearest even)."""
    SORT = {'f32': z3.Float32(), 'f64': z3.Float64()}

    def __init__(self, abstract=False):
        self.v = {}
        self.lem = []
        self.names = {}
        self.k = 0
        self.abstract = abstract      # products replaced by any float consistent with monotone rounding

    def product(self, RM, l, r):
        if not self.abstract or z3.is_fp_value(l) or z3.is_fp_value(r):
            return z3.fpMul(RM, l, r)
        key = ('mul', l.get_id(), r.get_id())
        if key not in self.v:
            self.k += 1
            m = z3.FP("mul?%d" % self.k, l.sort())
            one, zero = z3.FPVal(1.0, l.sort()), z3.FPVal(0.0, l.sort())
            fin = lambda z: z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z)))
            L = z3.fpLEQ
            self.lem += [z3.Implies(z3.And(L(zero, l), L(zero, r), fin(l), fin(r)), L(zero, m)),
                         z3.Implies(z3.And(L(zero, l), L(l, one), L(zero, r), fin(r)), L(m, r)),
                         z3.Implies(z3.And(L(zero, r), L(r, one), L(zero, l), fin(l)), L(m, l)),
                         z3.Implies(z3.And(fin(l), fin(r)), z3.Not(z3.fpIsNaN(m)))]
            self.v[key] = m
        return self.v[key]

    def sort(self, n):
        return self.SORT[n.dt if n.dt in self.SORT else self.default]

    default = 'f32'

    def tr(self, n, want=None):
        """z3 term; real-sorted nodes become FP of sort `want` (for constants) or their own."""
        RM = z3.RNE()
        for x in E.topo([n]):
            if x.id in self.v:
                continue
            self.v[x.id] = self.one(x, RM)
        return self.v[n.id]

    def num(self, a, like):
        v = self.v[a.id]
        if isinstance(v, tuple):      # constant without sort
            c = v[1]
            c = float(c)
            return z3.FPVal(c, like)
        if z3.is_bv(v):
            return z3.fpSignedToFP(z3.RNE(), v, like)
        if v.sort() != like:
            return z3.fpFPToFP(z3.RNE(), v, like)
        return v

    BITS = 32

    def isint(self, a, const=False):
        v = self.v[a.id]
        return const and isinstance(v, tuple) and v[1] == int(v[1]) if isinstance(v, tuple) else z3.is_bv(v)

    def bv(self, a):
        v = self.v[a.id]
        return z3.BitVecVal(int(v[1]), self.BITS) if isinstance(v, tuple) else v

    def pick(self, args):
        ss = [self.v[a.id].sort() for a in args if not isinstance(self.v[a.id], tuple)]
        if any(z3.is_bv(self.v[a.id]) for a in args if not isinstance(self.v[a.id], tuple)):
            return self.SORT['f64']
        if not ss:
            return self.SORT[self.default]
        return max(ss, key=lambda s: s.sbits())

    @staticmethod
    def _zero(v):
        if not z3.is_fp_value(v):
            v = z3.simplify(v)
        return z3.is_fp_value(v) and v.isZero() and not v.isNegative()

    def exact(self, o, l, r, RM):
        """Rewrites that hold for every float, NaN, infinities and signed zeros included."""
        if o not in ('add', 'sub', 'mul'):
            return None
        isop = lambda v, k: z3.is_app(v) and v.decl().kind() == k
        if z3.is_fp_value(l) and z3.is_fp_value(r):
            f = dict(add=z3.fpAdd, sub=z3.fpSub, mul=z3.fpMul)[o]
            return z3.simplify(f(RM, l, r))
        if o == 'sub':
            return l if self._zero(r) else None                                 # x - (+0) = x
        if o == 'mul':
            if isop(l, z3.Z3_OP_FPA_NEG) and isop(r, z3.Z3_OP_FPA_NEG):
                l, r = l.arg(0), r.arg(0)
            elif isop(l, z3.Z3_OP_FPA_NEG) and l.arg(0).eq(r) or isop(r, z3.Z3_OP_FPA_NEG) and r.arg(0).eq(l):
                return None
            if l.get_id() > r.get_id():
                l, r = r, l
            return self.product(RM, l, r)
        square = lambda v: isop(v, z3.Z3_OP_FPA_MUL) and v.arg(1).eq(v.arg(2))
        if self._zero(r) and square(l):                                         # x*x + (+0) = x*x
            return l
        if self._zero(l) and square(r):
            return r
        if l.get_id() > r.get_id():
            l, r = r, l
        return z3.fpAdd(RM, l, r)

    def one(self, x, RM):
        o = x.op
        if o == 'const':
            if x.dt in self.SORT:
                return z3.FPVal(float(x.val), self.SORT[x.dt])
            return ('c', x.val)
        if o == 'bconst':
            return z3.BoolVal(x.val)
        if o == 'bvar':
            b = z3.Bool(x.val)
            self.names[x.val] = b
            return b
        if o == 'pi':
            return ('c', math.pi)
        if o == 'var':
            if x.dt == 'i':            # integers far below the word size
                v = z3.BitVec(x.val, self.BITS)
            else:
                v = z3.FP(x.val, self.SORT[x.dt if x.dt in self.SORT else 'f64'])
            self.names[x.val] = v
            return v
        a = x.args
        if o in ('add', 'sub', 'mul', 'gt', 'ge', 'eq', 'neg') and any(self.isint(z) for z in a) and all(self.isint(z, True) for z in a):
            v = [self.bv(z) for z in a]
            f = dict(add=lambda p, q: p + q, sub=lambda p, q: p - q, mul=lambda p, q: p * q, gt=lambda p, q: p > q, ge=lambda p, q: p >= q,
                     eq=lambda p, q: p == q, neg=lambda p: -p)[o]
            return f(*v)
        if o in ('add', 'sub', 'mul', 'div', 'max', 'gt', 'ge', 'eq'):
            s = self.pick(a)
            l, r = self.num(a[0], s), self.num(a[1], s)
            if o == 'max':
                # TensorFlow / NumPy maximum propagate NaN
                return z3.If(z3.fpIsNaN(l), l, z3.If(z3.fpIsNaN(r), r, z3.If(z3.fpGEQ(l, r), l, r)))
            t = self.exact(o, l, r, RM)
            if t is not None:
                return t
            f = dict(add=lambda p, q: z3.fpAdd(RM, p, q), sub=lambda p, q: z3.fpSub(RM, p, q), mul=lambda p, q: z3.fpMul(RM, p, q),
                     div=lambda p, q: z3.fpDiv(RM, p, q), gt=z3.fpGT, ge=z3.fpGEQ, eq=z3.fpEQ)[o]
            return f(l, r)
        if o == 'cast':
            v = self.v[a[0].id]
            if isinstance(v, tuple):
                return z3.FPVal(float(v[1]), self.SORT[x.dt])
            return z3.fpFPToFP(RM, v, self.SORT[x.dt]) if v.sort() != self.SORT[x.dt] else v
        if o == 'neg':
            v = self.v[a[0].id]
            return ('c', -v[1]) if isinstance(v, tuple) else z3.fpNeg(v)
        if o == 'abs':
            v = self.v[a[0].id]
            return ('c', abs(v[1])) if isinstance(v, tuple) else z3.fpAbs(v)
        if o == 'not':
            return z3.Not(self.v[a[0].id])
        if o == 'and':
            return z3.And(self.v[a[0].id], self.v[a[1].id])
        if o == 'or':
            return z3.Or(self.v[a[0].id], self.v[a[1].id])
        if o == 'bite':
            return z3.If(*[self.v[z.id] for z in a])
        if o == 'ite':
            s = self.pick(a[1:])
            return z3.If(self.v[a[0].id], self.num(a[1], s), self.num(a[2], s))
        if o == 'isnan':
            return z3.fpIsNaN(self.num(a[0], self.pick(a)))
        if o == 'isfinite':
            v = self.num(a[0], self.pick(a))
            return z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))
        s = self.pick(a)
        if o == 'sqrt':
            return z3.fpSqrt(RM, self.num(a[0], s))
        if o == 'floor' and x.dt == 'i':
            return z3.fpToSBV(z3.RTN(), self.num(a[0], s), z3.BitVecSort(self.BITS))
        if o in ('floor', 'rint'):
            return z3.fpRoundToIntegral(z3.RTN() if o == 'floor' else RM, self.num(a[0], s))
        self.k += 1
        v = z3.FP("%s?%d" % (o, self.k), s)
        args = [self.num(z, s) for z in a]
        fin = z3.And([z3.Not(z3.Or(z3.fpIsNaN(z), z3.fpIsInf(z))) for z in args])
        one = z3.FPVal(1.0, s)
        zero = z3.FPVal(0.0, s)
        if o in ('cos', 'sin'):
            self.lem.append(z3.If(fin, z3.And(z3.fpLEQ(v, one), z3.fpGEQ(v, z3.fpNeg(one))), z3.fpIsNaN(v)))
        elif o == 'tanh':
            self.lem.append(z3.Implies(z3.Not(z3.fpIsNaN(args[0])), z3.And(z3.fpLEQ(v, one), z3.fpGEQ(v, z3.fpNeg(one)),
                            z3.Implies(z3.fpIsZero(args[0]), z3.fpIsZero(v)))))
        elif o == 'exp':
            self.lem.append(z3.Implies(z3.Not(z3.fpIsNaN(args[0])), z3.fpGEQ(v, zero)))
        elif o == 'atan2':
            pi = z3.FPVal(3.1415928, s)
            nn = z3.And([z3.Not(z3.fpIsNaN(z)) for z in args])
            self.lem.append(z3.If(nn, z3.And(z3.fpLEQ(v, pi), z3.fpGEQ(v, z3.fpNeg(pi))), z3.fpIsNaN(v)))
        elif o == 'asin':
            self.lem.append(z3.Implies(z3.And(z3.fpLEQ(args[0], one), z3.fpGEQ(args[0], z3.fpNeg(one))),
                            z3.And(z3.fpLEQ(z3.fpAbs(v), z3.FPVal(1.5707964, s)), z3.Implies(z3.fpIsZero(args[0]), z3.fpIsZero(v)))))
        elif o == 'acos':
            self.lem.append(z3.Implies(z3.And(z3.fpLEQ(args[0], one), z3.fpGEQ(args[0], z3.fpNeg(one))),
                            z3.And(z3.fpLEQ(v, z3.FPVal(3.1415928, s)), z3.fpGEQ(v, zero))))
        elif o == 'uf':
            pass
        return v


class FPProver(object):
    def __init__(self, assumptions, default='f32', timeout=60000):
        self.assumptions = [a for a in assumptions if a is not E.TRUE]
        self.default = default
        self.timeout = timeout
        self.queries = self.unsat = 0
        self.solver_time = 0.0

    def holds(self, node):
        # first with products abstracted: enough whenever rounding is only used through its monotonicity
        last = Result('unknown')
        for abstract in (True, False):
            F = FP(abstract)
            F.default = self.default
            fs = [F.tr(a) for a in self.assumptions]
            g = z3.Not(F.tr(node))
            if abstract and not any(isinstance(k, tuple) for k in F.v):
                continue
            s = z3.SolverFor('QF_FPBV' if any(z3.is_bv(v) for v in F.names.values()) else 'QF_FP')
            s.set('timeout', min(self.timeout, 30000) if abstract else self.timeout)
            for f in F.lem + fs + [g]:
                s.add(f)
            t = time.time()
            r = s.check()
            self.solver_time += time.time() - t
            self.queries += 1
            if r == z3.unsat:
                self.unsat += 1
                return Result('proved')
            if r == z3.sat and not abstract:
                m = s.model()
                env = {}
                for n, v in F.names.items():
                    x = m.eval(v, model_completion=True)
                    if z3.is_bool(v):
                        env[n] = z3.is_true(x)
                    elif z3.is_bv(v):
                        env[n] = x.as_signed_long()
                    else:
                        env[n] = fp_to_float(x)
                return Result('sat', env)
        return last

    def equal(self, a, b):
        a, b = E.cell(a), E.cell(b)
        if isinstance(a, Node) and a.sort == 'B' or isinstance(b, Node) and b.sort == 'B':
            return self.holds(E.eq(E.boolean(a), E.boolean(b)))
        out = None
        for x, y in zip(E.flat(E.num(a)), E.flat(E.num(b))):
            out = self.holds(E.eq(x, y))
            if out.status != 'proved':
                return out
        return out

    def consistent(self, extra=()):
        r = self.holds(E.FALSE)
        return ('sat', r.model) if r.status == 'sat' else ('unsat' if r.status == 'proved' else 'unknown', None)


def fp_to_float(x):
    if x.isNaN():
        return float('nan')
    if x.isInf():
        return float('-inf') if x.isNegative() else float('inf')
    if x.isZero():
        return -0.0 if x.isNegative() else 0.0
    sb, eb = x.sort().sbits(), x.sort().ebits()
    sig = x.significand_as_long()
    ex = x.exponent_as_long(True)
    bias = 2 ** (eb - 1) - 1
    if ex == 0:
        v = sig * 2.0 ** (1 - bias - (sb - 1))
    else:
        v = (2 ** (sb - 1) + sig) * 2.0 ** (ex - bias - (sb - 1))
    return -v if x.isNegative() else v
