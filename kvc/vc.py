"""Verification-condition driver: runs functions under contract and records obligations."""
import time, traceback
from exe import *
from prove import Prover, Ctx, STATS, valid
import ir


class Obl:
    def __init__(self, fn, label, status, detail=None, backend=(), t=0.0):
        self.fn, self.label, self.status, self.detail, self.backend, self.t = fn, label, status, detail, backend, t


class Result:
    pass


class V:
    """collects obligations for one property."""

    def __init__(self, programs, budget=240):
        self.programs = programs      # name -> Program
        self.obls = []
        self.used_lib, self.inlined, self.assumed = set(), set(), set()
        self.functions = []
        self.covers = 0
        self.errors = []
        self.execs, self.pre = [], []
        self.signed_arith = False
        self.safety = [0, 0]
        self.t0 = time.time()
        self.budget = budget
        self.cur = None

    # ------------------------------------------------------------ running code
    def fn(self, unit, name, **kw):
        return self.programs[unit].find(name, **kw)

    def run(self, unit, f, inputs, this=None, pc=(), contracts=None, mem=None):
        """execute function record f on symbolic inputs {param: term}; returns Result."""
        p = self.programs[unit]
        ex = Exec(p, contracts)
        self.execs.append(ex)
        st = State()
        st.pc = [c for c in pc if c is not TRUE]
        if mem:
            st.mem.update(mem)
        avs = []
        r = Result()
        r.roots = {}
        for q in f['params']:
            v = inputs[q['n']] if q['n'] in inputs else None
            if v is None:
                v = self.sym(p.sort(p.strip(q['t'])), q['n'])
            if p.ts(q['t'])['k'] == 'ref' and not (v.op == 'loc'):
                avs.append(ex.named_root('P_' + q['n'], v, st))
                r.roots[q['n']] = 'P_' + q['n']
            else:
                avs.append(v)
        th = None
        if this is not None:
            th = ex.named_root('P_this', this, st) if this.op != 'loc' else this
            r.roots['this'] = 'P_this'
        if f.get('ctor'):
            r.ret = ex.construct(f, f['cls'], avs, st)
        else:
            r.ret = ex.call(f, th, avs, st)
        r.st, r.ex = st, ex
        r.thr = st.thr
        self.used_lib |= ex.used_lib
        self.inlined |= ex.inlined
        self.assumed |= ex.assumed
        self.signed_arith |= ex.signed_arith
        self.covers += 1
        for label, path, c in ex.side:
            self.prove(label, c, list(pc) + path)
        if FALSE in st.pc and not st.thr:
            self.errors.append('vacuous: no path through %s' % f['n'])
        return r

    def out(self, r, name):
        return r.st.mem[r.roots[name]]

    def retval(self, r):
        v = r.ret
        if v is not None and v.sort == LOC and v.op in ('loc', 'ite'):
            v = r.ex.read(v, r.st)
        return v

    def sym(self, sort, name):
        return var(name, sort)

    # ------------------------------------------------------------ obligations
    def contract(self, fname, body):
        """run body() -- a contract for one function; any Unsupported becomes an undecided obligation."""
        self.cur = fname
        n = len(self.obls)
        t = time.time()
        self.execs, self.pre = [], []
        try:
            body()
            self.undefined()
        except Unsupported as e:
            self.obls.append(Obl(fname, 'extraction', 'undecided', 'outside the supported subset: %s' % e))
        except RecursionError:
            self.obls.append(Obl(fname, 'extraction', 'undecided', 'recursion limit'))
        except Exception as e:
            self.obls.append(Obl(fname, 'extraction', 'undecided', 'internal: %s' % (lambda t: t[-1500:])(traceback.format_exc())))
        else:
            if len(self.obls) == n:
                self.errors.append('no obligation generated for %s' % fname)
            self.functions.append((fname, round(time.time() - t, 2)))

    def called(self, what, seen):
        """the one call noted in seen; none at all breaks the contract."""
        if not seen:
            self.prove(what, FALSE)
        if len(seen) != 1:
            raise Unsupported('%s: %d calls' % (what, len(seen)))
        return seen[0]

    def requires(self, *facts):
        """preconditions of the contract, for the obligations of its body."""
        self.pre += [x for x in facts if x is not TRUE]

    def undefined(self):
        """every access the code makes is to an element that is there (and nothing is divided by zero)."""
        groups = {}
        for ex in self.execs:
            for pc, c, text in ex.obls:
                groups.setdefault(text, []).append((pc, c))
        for text, cs in sorted(groups.items()):
            pr = Prover()
            pr.deadline = time.time() + 30
            t = time.time()
            ok = True
            for pc, c in cs:
                if ok and not pr.holds(Ctx(list(pc) + self.pre), c, ''):
                    ok = False
            self._rec('access: ' + text, ok, pr, time.time() - t)

    def prove_eq(self, label, got, want, facts=()):
        pr = Prover()
        pr.deadline = time.time() + 60
        t = time.time()
        ok = pr.eq(Ctx(list(facts)), got, want, '')
        if not ok:
            ok = self.numbers(pr, label, lambda p, c, m: p.eq(c, ir.numbers(got, m), ir.numbers(want, m), ''), facts, [got, want])
        self._rec(label, ok, pr, time.time() - t)
        return ok

    def prove(self, label, g, facts=()):
        pr = Prover()
        t = time.time()
        ok = pr.holds(Ctx(list(facts)), g, '')
        if not ok:
            ok = self.numbers(pr, label, lambda p, c, m: p.holds(c, ir.numbers(g, m), ''), facts, [g])
        self._rec(label, ok, pr, time.time() - t)
        return ok

    def numbers(self, pr, label, go, facts, ts):
        """second attempt, for numbers only (no NaN, signed zeros not told apart)."""
        m = {}
        fs = [ir.numbers(f, m) for f in facts]
        if all(ir.numbers(t, m) is t for t in ts) and all(a is b for a, b in zip(fs, facts)):
            return False
        p2 = Prover()
        p2.deadline = time.time() + 60
        if not go(p2, Ctx(fs), m):
            return False
        pr.backend |= p2.backend
        self.assumed.add('numbers: no NaN, and -0.0 taken for 0.0, in: %s: %s' % (self.cur, label))
        return True

    def _rec(self, label, ok, pr, t):
        st = 'proved' if ok else ('refuted' if pr.fail and pr.fail.get('hard') else 'undecided')
        self.obls.append(Obl(self.cur, label, st, None if ok else pr.fail, sorted(pr.backend), t))

    def prove_rec(self, label, got, want, facts=()):
        """one obligation per record field."""
        s = got.sort
        if s[0] == 'R' and rfields(s):
            for f, _ in rfields(s):
                self.prove_rec(label + '.' + f.split('::')[-1], fld(got, f), fld(want, f), facts)
        else:
            self.prove_eq(label, got, want, facts)

    def no_throw(self, r, label='does not throw'):
        g = or_(*[x[0] for x in r.thr])
        self.prove(label, not_(g), [c for c in r.st.pc if c is not FALSE and False])


# ---------------------------------------------------------------- specification helpers
def path_of(sort, f):
    """path to field f in a record (searching base-class sub-records)."""
    for n, s in rfields(sort):
        if n == f:
            return [n]
    for n, s in rfields(sort):
        if n.startswith('@') and s[0] == 'R':
            p = path_of(s, f)
            if p:
                return [n] + p
    return None


def g(t, f):
    p = path_of(t.sort, f)
    if p is None:
        raise Unsupported('no field %s' % f)
    for x in p:
        t = fld(t, x)
    return t


def setf(t, **kw):
    for f, v in kw.items():
        p = path_of(t.sort, f)
        if p is None:
            raise Unsupported('no field %s' % f)

        def put(x, p):
            if not p:
                if v.sort[0] == 'F' and x.sort[0] == 'F':
                    return f2f(x.sort[1], v)
                return v
            return upd(x, p[0], put(fld(x, p[0]), p[1:]))
        t = put(t, p)
    return t


def F(x, w=32):
    return fltval(float(x), w)


def promote(a, b):
    """C++ usual arithmetic conversions between float/double/integer operands."""
    fs = [x.sort[1] for x in (a, b) if x.sort[0] == 'F']
    w = max(fs)
    return [f2f(w, x) if x.sort[0] == 'F' else i2f(w, x) for x in (a, b)]


def fadd(a, b):
    return fop('f+', *promote(a, b))


def fsub(a, b):
    return fop('f-', *promote(a, b))


def fmul(a, b):
    return fop('f*', *promote(a, b))


def fdiv(a, b):
    return fop('f/', *promote(a, b))


def flt(a, b):
    return flt_(*promote(a, b))


def fle(a, b):
    return fle_(*promote(a, b))


def fite(c, a, b):
    return ite(c, *promote(a, b))


def u(w, t):
    return wrap(w, False, t)


def mapseq(s, f):
    k = fresh('i', Z, 0, SIZEMAX)
    return tab(seqlen(s), lam([k], f(k, seqat(s, k))), s.sort)


def size_var(name):
    return var(name, U64, 0, SIZEMAX)


def concat_for(n, f, sort):
    k = fresh('i', Z, 0, SIZEMAX)
    return flat(n, lam([k], f(k)), sort)


def foldl(n, init, f, label='acc'):
    k = fresh('i', Z, 0, SIZEMAX)
    s = fresh('s', init.sort)
    return fold(n, [init], [lam([k, s], f(k, s))], [label], 0)


def restrict(t, overrides):
    pass


def negi(t):
    return scale(-1, t)
