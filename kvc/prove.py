"""Obligation prover: normalisation, extensionality, inductive coupling of folds, SMT (z3)."""
import os
import time
from fractions import Fraction
import z3
from ir import *
import ir

STATS = dict(z3_calls=0, z3_time=0.0)


class Smt:
    """encoding of terms into z3; binder terms become opaque constants."""

    def __init__(self):
        self.c = {}
        self.terms = {}
        self.facts = []
        self.seen = set()
        self.abstract = False
        self.flits = []

    def zs(self, s):
        k = s[0]
        if k in 'IZE':
            return z3.IntSort()
        if k == 'B':
            return z3.BoolSort()
        if k == 'F':
            return z3.DeclareSort('F%d' % s[1])
        return z3.DeclareSort('S_' + str(abs(hash(s)) % (10 ** 12)))

    def fval(self, r, s):
        self.abstract = True
        return z3.Function('val%d' % s[1], self.zs(s), z3.RealSort())(r)

    def nan(self, r, s):
        self.abstract = True
        return z3.Function('nan%d' % s[1], self.zs(s), z3.BoolSort())(r)

    def fn(self, name, args, s):
        d = z3.Function(name, *([self.zs(a.sort) for a in args] + [self.zs(s)]))
        return d(*[self.t(a) for a in args])

    def t(self, x):
        r = self.c.get(x.id)
        if r is None:
            r = self._t(x)
            self.c[x.id] = r
            if x.sort[0] == 'R':
                self.terms[x.id] = x
            if isint(x.sort) and x.op not in ('int', 'lin'):
                lo, hi = rng(x)
                if lo is not None:
                    self.facts.append(r >= lo)
                if hi is not None:
                    self.facts.append(r <= hi)
                if x.op == 'least' and not x.nb:
                    n = self.t(x.args[0])
                    self.facts.append(z3.And(r >= 0, z3.Or(r <= n, r == 0)))
                if x.sort[0] == 'E' and x.sort[2] and len(x.sort[2]) != x.sort[2][-1] - x.sort[2][0] + 1 and \
                        len(x.sort[2]) < 40:
                    self.facts.append(z3.Or(*[r == v for v in x.sort[2]]))
        return r

    def _t(self, x):
        op = x.op
        A = x.args
        if op == 'int':
            return z3.IntVal(x.pl)
        if op == 'lin':
            r = z3.IntVal(x.pl[0])
            for a, k in zip(A, x.pl[1]):
                r = r + self.t(a) * k
            return r
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'mul':
            r = self.t(A[0]) * self.t(A[1])
            if all((rng(a)[0] or -1) >= 0 or rng(a)[0] == 0 for a in A):
                self.facts.append(r >= 0)
            return r
        if op in ('div', 'mod'):
            a, b = self.t(A[0]), self.t(A[1])
            nn = rng(A[0])[0] is not None and rng(A[0])[0] >= 0 and rng(A[1])[0] is not None and rng(A[1])[0] >= 0
            if nn:
                return a / b if op == 'div' else a % b
            q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
            return q if op == 'div' else a - q * b
        if op == 'wrap':
            w, sg = x.pl
            v = self.t(A[0])
            M = 1 << w
            if sg:
                return (v + M // 2) % M - M // 2
            self.facts.append(z3.Implies(z3.And(v >= 0, v < M), v % M == v))
            return v % M
        if op == 'not':
            return z3.Not(self.t(A[0]))
        if op == 'and':
            return z3.And(*[self.t(a) for a in A])
        if op == 'or':
            return z3.Or(*[self.t(a) for a in A])
        if op == 'ge0':
            return self.t(A[0]) >= 0
        if op == 'eq':
            return self.t(A[0]) == self.t(A[1])
        if op == 'ite':
            return z3.If(self.t(A[0]), self.t(A[1]), self.t(A[2]))
        if op == 'flt':
            r = z3.Const('flt%d!%x' % (x.sort[1], x.pl), self.zs(x.sort))
            v = fltpy(x)
            if v != v:
                self.facts.append(self.nan(r, x.sort))
            else:
                self.facts.append(z3.Not(self.nan(r, x.sort)))
                iv = z3.RealVal(str(Fraction(v)) if abs(v) != float('inf') else ('1' if v > 0 else '-1') + '0' * 310)
                self.facts.append(self.fval(r, x.sort) == iv)
            for (y, ry) in self.flits:
                if y.sort == x.sort and y.pl != x.pl:
                    self.facts.append(r != ry)
            self.flits.append((x, r))
            return r
        if op == 'fneg':
            r = self.fn('fneg%d' % x.sort[1], A, x.sort)
            p = self.t(A[0])
            self.facts.append(self.fval(r, x.sort) == -self.fval(p, x.sort))
            self.facts.append(self.nan(r, x.sort) == self.nan(p, x.sort))
            return r
        if op in ('f<', 'f<=', 'f=='):
            p, q = self.t(A[0]), self.t(A[1])
            sp, sq = A[0].sort, A[1].sort
            vp, vq = self.fval(p, sp), self.fval(q, sq)
            c = vp < vq if op == 'f<' else vp <= vq if op == 'f<=' else vp == vq
            return z3.And(z3.Not(self.nan(p, sp)), z3.Not(self.nan(q, sq)), c)
        if op == 'f2f' and x.sort[1] == 64:
            r = self.fn('f2f64', A, x.sort)
            p = self.t(A[0])
            self.facts.append(self.fval(r, x.sort) == self.fval(p, A[0].sort))
            self.facts.append(self.nan(r, x.sort) == self.nan(p, A[0].sort))
            return r
        if op == 'i2f':
            r = self.fn('i2f%d' % x.sort[1], A, x.sort)
            p = self.t(A[0])
            self.facts.append(z3.Not(self.nan(r, x.sort)))
            M = 1 << (53 if x.sort[1] == 64 else 24)
            lo, hi = rng(A[0])
            ex = self.fval(r, x.sort) == z3.ToReal(p)
            if lo is not None and hi is not None and -M <= lo and hi <= M:
                self.facts.append(ex)
            else:
                self.facts.append(z3.Implies(z3.And(p >= -M, p <= M), ex))
            return r
        if op == 'uf' and x.pl == 'fabs' and A[0].sort[0] == 'F':
            r = self.fn('fabs%d' % x.sort[1], A, x.sort)
            p = self.t(A[0])
            v = self.fval(p, x.sort)
            self.facts.append(self.fval(r, x.sort) == z3.If(v < 0, -v, v))
            self.facts.append(self.nan(r, x.sort) == self.nan(p, x.sort))
            return r
        if op in ('f+', 'f*') and len(A) == 2:
            f = z3.Function(op + str(x.sort[1]), *([self.zs(x.sort)] * 3))
            p, q = self.t(A[0]), self.t(A[1])
            if p is not q:
                self.facts.append(f(p, q) == f(q, p))
            return f(p, q)
        if op == 'var':
            return z3.Const('%s!%d' % (x.pl[0], x.id), self.zs(x.sort))
        if op in ir.BINDERS or op == 'lam' or any(a.op == 'lam' for a in A):
            self.abstract = True
            return z3.Const('abs!%d' % x.id, self.zs(x.sort))
        if not A:
            return z3.Const('%s!%d' % (op, x.id), self.zs(x.sort))
        nm = '%s:%s:%s' % (op, x.pl, abs(hash(tuple('Z' if isint(a.sort) else a.sort for a in A))) % (10 ** 12))
        return self.fn(nm, A, x.sort)


def valid(facts, goal, timeout=4000, want_model=False):
    """'yes' / ('no', model) / 'unknown' for facts |= goal."""
    if goal is TRUE:
        return 'yes'
    s = Smt()
    sol = z3.Solver()
    sol.set('timeout', timeout)
    try:
        for f in facts:
            sol.add(s.t(f))
        sol.add(z3.Not(s.t(goal)))
        # records with equal fields are equal
        terms = [x for x in s.terms.values() if x.sort[0] == 'R']
        recs = [x for x in terms if x.op == 'rec' and x.args]
        if len(recs) * len(terms) <= 400:
            for x in recs:
                for y in terms:
                    if y is not x and y.sort == x.sort and (y.op != 'rec' or y.id < x.id):
                        sol.add(z3.Implies(z3.And(*[s.t(ir.fld(y, f)) == s.t(ir.fld(x, f)) for f, _ in ir.rfields(x.sort)]),
                                           s.t(x) == s.t(y)))
        for f in s.facts:
            sol.add(f)
    except z3.Z3Exception as ex:
        return 'unknown'
    t0 = time.time()
    r = sol.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        return 'yes'
    if r == z3.sat:
        return ('no', s.abstract, str(sol.model())[:1500] if want_model else None)
    return 'unknown'


class Ctx:
    def __init__(self, facts=(), depth=0):
        self.facts = [f for f in facts if f is not TRUE]
        self.depth = depth

    def add(self, *fs):
        return Ctx(self.facts + list(fs), self.depth + 1)

    def dead(self):
        return FALSE in self.facts


class Prover:
    def __init__(self):
        self.fail = None
        self.backend = set()
        self.deadline = None

    def note(self, path, why, a=None, b=None, ctx=None, hard=False):
        if self.fail is None or hard:
            self.fail = dict(path=path, why=why, hard=hard,
                             a=show(a)[:600] if a is not None else None, b=show(b)[:600] if b is not None else None,
                             facts=[show(f)[:int(os.environ.get("FW", 200))] for f in (ctx.facts if ctx else [])][:12])

    # ------------------------------------------------------------ simplification under facts
    def simp(self, ctx, t):
        """replace conditions decided by the facts syntactically."""
        m = []
        for f in ctx.facts:
            for x in (f.args if f.op == 'and' else (f,)):
                if x.op == 'not':
                    m.append((x.args[0], FALSE))
                elif x.op not in ('true', 'false'):
                    m.append((x, TRUE))
                    if x.op == 'ge0':
                        m.append((not_(x), FALSE))
        if m:
            t = replace_many(t, m)
        for f in ctx.facts:
            for x in (f.args if f.op == 'and' else (f,)):
                if x.op == 'forall' and t.size < 20000:
                    t = ir.assume(t, x)
        for f in ctx.facts:
            if f.op == 'eq' and f.args[0].op == 'var' and isint(f.args[0].sort) and f.args[0].id not in f.args[1].fv:
                t = subst(t, {f.args[0]: f.args[1]})
        return t

    def deep(self, ctx, t):
        """replace ite-conditions decided by the facts (z3)."""
        conds = {}
        for x in subterms_nb(t).values():
            if x.op == 'ite':
                for c in atoms_of(x.args[0]):
                    conds[c.id] = c
        m = []
        for c in list(conds.values())[:60]:
            if c.op in ('true', 'false'):
                continue
            if valid(ctx.facts, c, 1000) == 'yes':
                m.append((c, TRUE))
            elif valid(ctx.facts, not_(c), 1000) == 'yes':
                m.append((c, FALSE))
        return replace_many(t, m) if m else t

    # ------------------------------------------------------------ equality
    def eq(self, ctx, a, b, path=''):
        if a is b:
            self.backend.add('normalisation')
            return True
        if ctx.dead():
            return True
        if self.deadline and time.time() > self.deadline:
            self.note(path, 'time limit', a, b, ctx)
            return False
        if ctx.depth > 40:
            self.note(path, 'depth limit', a, b, ctx)
            return False
        a2, b2 = self.simp(ctx, a), self.simp(ctx, b)
        if a2 is b2:
            self.backend.add('normalisation')
            return True
        a, b = a2, b2
        s = a.sort
        k = s[0]
        if k == 'R' and rfields(s):
            ok = True
            for f, _ in rfields(s):
                if not self.eq(ctx, fld(a, f), fld(b, f), path + '.' + f):
                    ok = False
                    break
            return ok
        if k == 'S':
            return self.eq_seq(ctx, a, b, path)
        if k == 'M':
            q = fresh('q', s[1])
            if not self.eq(ctx, mdom(a, q), mdom(b, q), path + '{key}'):
                return False
            if s[2] == UNIT:
                return True
            return self.eq(ctx.add(mdom(a, q)), mval(a, q), mval(b, q), path + '{value}')
        if k == 'OPT' and (a.op in ('some', 'none', 'ite') or b.op in ('some', 'none', 'ite')):
            if not self.eq(ctx, has(a), has(b), path + '?'):
                return False
            if has(a) is FALSE:
                return True
            return self.eq(ctx.add(has(a)), oget(a), oget(b), path + '*')
        if k == 'V' and (a.op in ('inj', 'ite') or b.op in ('inj', 'ite')):
            if not self.eq(ctx, vidx(a), vidx(b), path + '#'):
                return False
            for i in range(len(s[1])):
                c = eq(vidx(a), I(i))
                if c is FALSE:
                    continue
                if not self.eq(ctx.add(c), vget(a, i), vget(b, i), path + '#%d' % i):
                    return False
            return True
        if a.op == 'fold' and b.op == 'fold':
            if self.couple(ctx, a, b, path):
                return True
        if a.op in ('sum', 'forall', 'least') and a.op == b.op:
            if self.binder1(ctx, a, b, path):
                return True
        if isint(s):
            a2, b2 = self.const_sums(ctx, a), self.const_sums(ctx, b)
            if a2 is not a or b2 is not b:
                return self.eq(ctx, a2, b2, path)
        return self.scalar(ctx, a, b, path)

    def const_sums(self, ctx, t):
        """replace sums whose summand is provably one of its constant leaves."""
        for x in [t] if t.op == 'sum' else [x for x in t.args if x.op == 'sum'] if t.op == 'lin' else []:
            vs, b = ir._own(x.args[1])
            lv = set()

            def leaves(y):
                if y.op == 'ite':
                    return leaves(y.args[1]) and leaves(y.args[2])
                lv.add(y)
                return y.op == 'int'
            if b.op == 'ite' and leaves(b):
                k = fresh('k', Z, 0, SIZEMAX)
                bk = inst(x.args[1], [k])
                for c in lv:
                    if valid(list(ctx.facts) + [ge0(k), lt(k, x.args[0])], eq(bk, c)) == 'yes':
                        t = replace(t, x, mul(ir.nonneg(x.args[0]), c))
                        break
        return t

    def binder1(self, ctx, a, b, path):
        sv = self.fail
        if not self.eq(ctx, a.args[0], b.args[0], path + '(n)'):
            self.fail = sv
            return False
        k = fresh('k', Z, 0, SIZEMAX)
        r = self.eq(ctx.add(lt(k, a.args[0])), inst(a.args[1], [k]), inst(b.args[1], [k]), path + '(k)')
        if not r:
            self.fail = sv
        return r

    def eq_seq(self, ctx, a, b, path):
        s = a.sort
        sa, sb = segs(a), segs(b)
        # common prefix / suffix
        while sa and sb and sa[0] is sb[0]:
            sa, sb = sa[1:], sb[1:]
        while sa and sb and sa[-1] is sb[-1]:
            sa, sb = sa[:-1], sb[:-1]
        if not sa and not sb:
            return True
        for u, v in ((sa, sb), (sb, sa)):
            if len(u) == 1 and u[0].op == 'flat' and len(v) == 2 and v[1].op == 'flat' and v[0].op in ('ite', 'unit'):
                if self.peel(ctx, u[0], v[0], v[1], path):
                    return True
        a, b = cat(*sa, sort=s), cat(*sb, sort=s)
        if a.op == 'ite' or b.op == 'ite':
            t = a if a.op == 'ite' else b
            c = t.args[0]
            return self.split(ctx, c, a, b, path)
        for t in sa + sb:
            if t.op == 'ite':
                return self.split(ctx, t.args[0], a, b, path)
        if len(sa) == len(sb) and len(sa) > 1:
            sv = self.fail
            if all(self.eq(ctx, x, y, path + '[seg%d]' % i) for i, (x, y) in enumerate(zip(sa, sb))):
                return True
        if len(sa) == 1 and len(sb) == 1:
            x, y = sa[0], sb[0]
            if x.op == 'flat' and y.op == 'flat':
                if self.binder1(ctx, x, y, path):
                    return True
                # first failing reason
                k = fresh('k', Z, 0, SIZEMAX)
                if self.eq(ctx, x.args[0], y.args[0], path + '(n)'):
                    self.eq(ctx.add(lt(k, x.args[0])), inst(x.args[1], [k]), inst(y.args[1], [k]), path + '(k)')
                return False
            if x.op == 'fold' and y.op == 'fold':
                if self.couple(ctx, x, y, path):
                    return True
        if len(sa) != len(sb):
            # parts that repeat zero times
            here = lambda u: [t for t in u if not (t.op in ('flat', 'tab') and valid(ctx.facts, ge(I(0), t.args[0])) == 'yes')]
            ta, tb = here(sa), here(sb)
            if (len(ta), len(tb)) != (len(sa), len(sb)):
                return self.eq(ctx, cat(*ta, sort=s), cat(*tb, sort=s), path)
        if any(t.op in ('flat', 'fold') for t in sa + sb):
            self.note(path, 'sequence shapes differ', a, b, ctx)
            return False
        # extensional: length and element
        if not self.eq(ctx, seqlen(a), seqlen(b), path + '.length'):
            return False
        j = fresh('j', Z, 0, SIZEMAX)
        c2 = ctx.add(lt(j, seqlen(a)))
        x, y = seqat(a, j), seqat(b, j)
        if x.op == 'seqat' and y.op == 'seqat' and x.args[0] is a and y.args[0] is b:
            return self.scalar(ctx, a, b, path)
        return self.eq(c2, x, y, path + '[j]')

    def peel(self, ctx, f, x, h, path):
        """flat(n, f) == x ++ flat(m, h): x is f(0) and h continues with f(1), ...; the last h may be empty."""
        sv = self.fail
        n, m = f.args[0], h.args[0]
        c0 = ctx.add(lt(I(0), n))
        k = fresh('k', Z, 0, SIZEMAX)
        nil_ = nil(f.sort)
        one = I(1)
        if valid(ctx.facts, lt(I(0), n)) != 'yes':
            e = ctx.add(ge(I(0), n))
            if not self.eq(e, cat(x, h, sort=f.sort), nil_, path):
                self.fail = sv
                return False
        ok = self.eq(c0, inst(f.args[1], [I(0)]), x, path + '[0]')
        if ok and self.eq(c0, m, n, path + '(n)'):
            ok = self.eq(c0, inst(h.args[1], [sub(n, one)]), nil_, path + '(last)')
        elif ok:
            ok = self.eq(c0, m, sub(n, one), path + '(n)')
        ok = ok and self.eq(c0.add(lt(k, sub(n, one))), inst(f.args[1], [add(k, one)]), inst(h.args[1], [k]), path + '(k)')
        if not ok:
            self.fail = sv
        return ok

    def split(self, ctx, c, a, b, path):
        facts = ctx.facts + instances(ctx.facts, c)
        r = valid(facts, c, 1500)
        if r == 'yes':
            return self.eq(ctx.add(c), a, b, path)
        r = valid(facts, not_(c), 1500)
        if r == 'yes':
            return self.eq(ctx.add(not_(c)), a, b, path)
        return self.eq(ctx.add(c), a, b, path) and self.eq(ctx.add(not_(c)), a, b, path)

    def couple(self, ctx, a, b, path):
        """fold(n,i,f) == fold(n,i',f') by simultaneous induction."""
        la, ja = a.pl
        lb, jb = b.pl
        sv = self.fail
        ma, mb = len(la), len(lb)
        na, nb = a.args[0], b.args[0]
        ia, ib = a.args[1:1 + ma], b.args[1:1 + mb]
        fa, fb = a.args[1 + ma:], b.args[1 + mb:]
        if ma != mb:
            return False
        # match components
        perm = None
        import itertools
        if ma <= 4:
            cands = [p for p in itertools.permutations(range(mb)) if p[ja] == jb and
                     all(ia[i].sort == ib[p[i]].sort or isint(ia[i].sort) and isint(ib[p[i]].sort) for i in range(ma))]
        else:
            cands = [tuple(range(ma))] if ja == jb else []
        # prefer permutations with identical inits
        cands.sort(key=lambda p: -sum(1 for i in range(ma) if ia[i] is ib[p[i]]))
        if not self.eq(ctx, na, nb, path + '(count)'):
            return False
        for p in cands[:6]:
            self.fail = sv
            if not all(self.eq(ctx, ia[i], ib[p[i]], path + '(init)') for i in range(ma)):
                continue
            k = fresh('k', Z, 0, SIZEMAX)
            ss = [fresh('s', x.sort) for x in ia]
            sb_ = [None] * mb
            for i in range(ma):
                sb_[p[i]] = ss[i]
            c2 = ctx.add(lt(k, na))
            if all(self.eq(c2, inst(fa[i], [k] + ss), inst(fb[p[i]], [k] + sb_), path + '(step)') for i in range(ma)):
                self.backend.add('induction')
                return True
        return False

    def congruent(self, ctx, a, b, path):
        """same operation on provably equal operands (only worthwhile for large terms)."""
        if a.op != b.op or a.pl != b.pl or a.op not in ('f+', 'f*', 'f/', 'fneg', 'f2f', 'i2f', 'uf', 'ite') or \
                len(a.args) != len(b.args) or a.size + b.size < 60 or ctx.depth > 25:
            return False
        sv = self.fail
        if a.op == 'ite':
            c, x, y = b.args
            if a.args[0] is not c and valid(ctx.facts, eq(a.args[0], c), 1500) != 'yes':
                if valid(ctx.facts, eq(a.args[0], not_(c)), 1500) != 'yes':
                    return False
                x, y = y, x
            c = a.args[0]
            if self.eq(ctx.add(c), a.args[1], x, path) and self.eq(ctx.add(not_(c)), a.args[2], y, path):
                return True
            self.fail = sv
            return False
        orders = [b.args]
        if a.op in ('f+', 'f*'):
            orders = [b.args, b.args[::-1]]
            orders.sort(key=lambda o: -sum(x is y or x.op == y.op for x, y in zip(a.args, o)))
        for o in orders:
            if not any(x is y for x, y in zip(a.args, o)) and len(orders) == 2 and \
                    not all(x.op == y.op for x, y in zip(a.args, o)):
                continue
            if all(self.eq(ctx.add(), x, y, path) for x, y in zip(a.args, o)):
                self.fail = sv
                return True
        self.fail = sv
        return False

    # ------------------------------------------------------------ scalars
    def scalar(self, ctx, a, b, path):
        # unify binder subterms first
        ba, bb = maxbinders(a), maxbinders(b)
        ba = [x for x in ba if x.id not in {y.id for y in bb}]
        bb2 = [x for x in bb if x.id not in {y.id for y in maxbinders(a)}]
        if ba and bb2 and not (a in ba and b in bb2):
            m = []
            for y in bb2:
                for x in ba:
                    if x.sort == y.sort and x.op == y.op or isint(x.sort) and isint(y.sort):
                        sv = self.fail
                        if self.eq(ctx.add(), x, y, path + '~'):
                            m.append((y, x))
                            break
                        self.fail = sv
            if m:
                b = replace_many(b, m)
                if a is b:
                    return True
        if self.congruent(ctx, a, b, path):
            return True
        if a.sort[0] == 'B':
            g = eq(a, b)
        elif isint(a.sort):
            g = eq(a, b)
        else:
            g = raw('eq', (a, b), None, BOOL)
        r = valid(ctx.facts + instances(ctx.facts, g), g, 6000, True)
        if r == 'yes':
            self.backend.add('z3')
            return True
        a3, b3 = self.deep(ctx, a), self.deep(ctx, b)
        if a3 is b3:
            self.backend.add('z3')
            return True
        if (a3 is not a or b3 is not b) and (a3.op not in ('ite',) or b3.op not in ('ite',)):
            return self.eq(ctx.add(), a3, b3, path)
        # case split on a condition
        for t in (a3, b3):
            if t.op == 'ite' and ctx.depth < 12:
                c = t.args[0]
                return self.eq(ctx.add(c), a3, b3, path) and self.eq(ctx.add(not_(c)), a3, b3, path)
        if r == 'unknown':
            self.note(path, 'solver gave no answer', a3, b3, ctx)
        else:
            self.note(path, 'not equal: ' + (r[2] or ''), a3, b3, ctx, hard=not r[1])
        return False

    def holds(self, ctx, g, path=''):
        """prove boolean g under ctx."""
        if g is TRUE or ctx.dead():
            return True
        g = self.simp(ctx, g)
        if g is TRUE:
            self.backend.add('normalisation')
            return True
        if g.op == 'and':
            return all(self.holds(ctx, x, path) for x in g.args)
        if g.op == 'forall':
            k = fresh('k', Z, 0, SIZEMAX)
            return self.holds(ctx.add(lt(k, g.args[0])), inst(g.args[1], [k]), path)
        facts = ctx.facts + instances(ctx.facts, g)
        r = valid(facts, g, 8000, True)
        if r == 'yes':
            self.backend.add('z3')
            return True
        if r == 'unknown':
            self.note(path, 'solver gave no answer', g, None, ctx)
        else:
            self.note(path, 'counterexample: ' + (r[2] or ''), g, None, ctx, hard=not r[1])
        return False


def instances(facts, goal):
    """instantiate forall-facts at integer index terms of the goal and facts."""
    fa = [f for f in facts if f.op == 'forall']
    ga = [d.args[0] for d in (goal.args if goal.op == 'or' else (goal,)) if d.op == 'not' and d.args[0].op == 'forall']
    out = []
    for x in keys_in([goal] + facts):
        m, i = x.args
        out.append(implies(and_(ge0(i), lt(i, ir.msize(m))), inst(m.args[0], [x])))
    for t in [goal] + [f for f in facts if f.op != 'forall']:
        for x in subterms_nb(t).values():
            if x.op == 'seqat' and x.args[0].op == 'flat' and isint(x.sort):
                # a list of positions: each is a position, and one that was asked for
                n, l = x.args[0].args
                vs, b = ir.openlam(l)
                if b.op == 'ite' and b.args[1].op == 'unit' and b.args[1].args[0] is vs[0] and b.args[2].op == 'nil' or \
                        b.op == 'ite' and b.args[2].op == 'unit' and b.args[2].args[0] is vs[0] and b.args[1].op == 'nil':
                    c = b.args[0] if b.args[2].op == 'nil' else ir.not_(b.args[0])
                    i = x.args[1]
                    out.append(implies(and_(ge0(i), lt(i, ir.seqlen(x.args[0]))),
                                       and_(ge0(x), lt(x, n), subst(c, {vs[0]: x}))))
    if not fa and not ga:
        return out
    idx = {}
    for t in [goal] + [f for f in facts if f.op != 'forall']:
        for x in subterms_nb(t).values():
            if x.op == 'seqat':
                idx[x.args[1].id] = x.args[1]
            elif x.op == 'var' and isint(x.sort):
                idx[x.id] = x
    for f in fa:
        for i in list(idx.values())[:30]:
            out.append(implies(and_(ge0(i), lt(i, f.args[0])), inst(f.args[1], [i])))
    for c in list(out):
        # a quantifier inside: instantiated as well
        ds = c.args if c.op == 'or' else (c,)
        for d in ds:
            if d.op == 'forall' and len(idx) <= 8:
                for i in idx.values():
                    out.append(or_(*[x for x in ds if x is not d], implies(and_(ge0(i), lt(i, d.args[0])), inst(d.args[1], [i]))))
    for f in ga:
        for i in list(idx.values())[:30]:
            out.append(implies(f, implies(and_(ge0(i), lt(i, f.args[0])), inst(f.args[1], [i]))))
    return out


def keys_in(ts):
    """the keys of tabulated maps the terms speak about."""
    seen, out, st = set(), [], list(ts)
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'mkey' and x.nb == 0 and x.args[0].op == 'mtab':
            out.append(x)
        st.extend(x.args)
    return out


def subterms_nb(t):
    """subterms not under binders."""
    seen = {}
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen or x.op == 'lam':
            continue
        seen[x.id] = x
        st.extend(x.args)
    return seen


def atoms_of(c):
    if c.op in ('and', 'or', 'not'):
        return [y for x in c.args for y in atoms_of(x)]
    return [c]


def maxbinders(t):
    out = {}
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ir.BINDERS and x.op != 'lam':
            out[x.id] = x
            continue
        if x.hb:
            st.extend(x.args)
    return list(out.values())
