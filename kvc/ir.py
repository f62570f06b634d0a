"""Hash-consed term language with binders used by the verifier (kvc).

Every C++ value is a term.  Constructors simplify.  Lambdas are locally nameless
(de Bruijn), so alpha-equivalent terms are the same object.
"""
import itertools, struct, sys
sys.setrecursionlimit(200000)

# ---------------------------------------------------------------- sorts
# ('B',) bool; ('I',w,sg) machine integer value (mathematical int in range);
# ('Z',) unbounded int; ('E',name,(v0,v1..)) enum; ('F',w) float; ('O',name) opaque;
# ('S',elt) sequence; ('M',key,val) map (set: val=UNIT); ('R',key) record (registry);
# ('V',(alts..)) variant; ('OPT',x); ('L',) location; ('FN',name) function value; ('U',) unit
BOOL = ('B',)
Z = ('Z',)
UNIT = ('U',)
LOC = ('L',)
U64 = ('I', 64, False)
U32 = ('I', 32, False)
F32 = ('F', 32)
F64 = ('F', 64)
RECS = {}   # key -> tuple of (field, sort)


def recsort(key, fields):
    if key not in RECS:
        RECS[key] = tuple(fields)
    return ('R', key)


def rfields(sort):
    return RECS[sort[1]]


def isint(s):
    return s[0] in 'IZE'


def srange(s):
    if s[0] == 'I':
        _, w, sg = s
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    if s[0] == 'E' and s[2]:
        return (min(s[2]), max(s[2]))
    return (None, None)


class T:
    __slots__ = ('op', 'args', 'pl', 'sort', 'id', 'fv', 'nb', 'own', 'size', '_rng', 'hb')

    def __repr__(self):
        return show(self)


_tab = {}
_ids = itertools.count(1)
_fresh = itertools.count(1)


_vars = {}


def raw(op, args, pl, sort):
    key = (op, tuple([a.id for a in args]), pl, sort)
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.args = tuple(args)
    t.pl = pl
    t.sort = sort
    t.id = next(_ids)
    t.own = None
    t._rng = None
    if op == 'var':
        t.fv = frozenset([t.id])
        _vars[t.id] = t
    else:
        fv = None
        for a in args:
            if a.fv:
                fv = a.fv if fv is None or fv is a.fv else (fv if a.fv <= fv else (a.fv if fv <= a.fv else fv | a.fv))
        t.fv = fv or frozenset()
    if op == 'bv':
        t.nb = pl[0] + 1
    elif op == 'lam':
        t.nb = max(0, args[0].nb - len(pl))
    else:
        nb = 0
        for a in args:
            if a.nb > nb:
                nb = a.nb
        t.nb = nb
    t.size = 1 + sum(a.size for a in args)
    t.hb = op in BINDERS or any(a.hb for a in args)
    _tab[key] = t
    return t


BINDERS = {'fold', 'tab', 'flat', 'least', 'forall', 'mtab', 'lam', 'exists', 'sum', 'rev'}


def var(name, sort, lo=None, hi=None):
    return raw('var', (), (name, lo, hi), sort)


_vars = {}


def fresh(name, sort, lo=None, hi=None):
    return raw('var', (), ('%s#%d' % (name.split('#')[0], next(_fresh)), lo, hi), sort)


TRUE = raw('true', (), None, BOOL)
FALSE = raw('false', (), None, BOOL)
UNITV = raw('unitv', (), None, UNIT)
NULL = raw('null', (), None, LOC)


def I(n, sort=Z):
    return raw('int', (), int(n), Z)


def B(b):
    return TRUE if b else FALSE


def S(s):
    return raw('str', (), s, ('O', 'string'))


def FLT(w, bits):
    return raw('flt', (), bits, ('F', w))


def fltval(x, w=64):
    if w == 64:
        return FLT(64, struct.unpack('<Q', struct.pack('<d', x))[0])
    return FLT(32, struct.unpack('<I', struct.pack('<f', x))[0])


def fltpy(t):
    if t.sort[1] == 64:
        return struct.unpack('<d', struct.pack('<Q', t.pl))[0]
    return struct.unpack('<f', struct.pack('<I', t.pl))[0]


# ---------------------------------------------------------------- binders
_COMM = {'and', 'or', 'eq', 'mul', 'f+', 'f*', 'f=='}


def rawc(op, args, pl, sort):
    """raw, with the arguments of commutative operators in canonical order."""
    if op in _COMM:
        args = sorted(args, key=lambda x: x.id)
    elif op == 'lin':
        it = sorted(zip(args, pl[1]), key=lambda x: x[0].id)
        args = [a for a, _ in it]
        pl = (pl[0], tuple(k for _, k in it))
    return raw(op, args, pl, sort)


def _close(t, m, depth, cache):
    """Replace vars (id -> position) by bound variables."""
    if t.fv.isdisjoint(m):
        return t
    k = (t.id, depth)
    r = cache.get(k)
    if r is not None:
        return r
    if t.op == 'var':
        r = raw('bv', (), (depth + m[t.id], ), t.sort)
    elif t.op == 'lam':
        r = raw('lam', (_close(t.args[0], m, depth + len(t.pl), cache),), t.pl, t.sort)
    else:
        r = rawc(t.op, [_close(a, m, depth, cache) for a in t.args], t.pl, t.sort)
    cache[k] = r
    return r


def lam(vs, body):
    m = {v.id: i for i, v in enumerate(vs)}
    cb = _close(body, m, 0, {})
    t = raw('lam', (cb,), tuple(v.sort for v in vs), ('LAM', body.sort))
    if t.own is None:
        t.own = (tuple(vs), body)
    return t


def _open(t, vals, depth, n, cache):
    if t.nb <= depth:
        return t
    k = (t.id, depth)
    r = cache.get(k)
    if r is not None:
        return r
    if t.op == 'bv':
        i = t.pl[0]
        if i < depth:
            r = t
        elif i < depth + n:
            r = vals[i - depth]
        else:
            raise RuntimeError('loose bound variable')
    elif t.op == 'lam':
        r = raw('lam', (_open(t.args[0], vals, depth + len(t.pl), n, cache),), t.pl, t.sort)
    else:
        r = rawc(t.op, [_open(a, vals, depth, n, cache) for a in t.args], t.pl, t.sort)
    cache[k] = r
    return r


def openlam(l, hint='k'):
    """Fresh variables and body."""
    ov, ob = l.own
    vs = tuple(fresh(v.pl[0], v.sort, v.pl[1], v.pl[2]) for v in ov)
    return vs, subst(ob, {o: v for o, v in zip(ov, vs)})


def _own(l):
    if l.own is None:
        vs = tuple(fresh('b', s) for s in l.pl)
        l.own = (vs, _open(l.args[0], vs, 0, len(vs), {}))
    ov, ob = l.own
    if any(v.id in l.fv for v in ov):
        vs = tuple(fresh(v.pl[0], v.sort, v.pl[1], v.pl[2]) for v in ov)
        l.own = (vs, _open(l.args[0], vs, 0, len(vs), {}))
    return l.own


def inst(l, vals):
    ov, ob = _own(l)
    return subst(ob, {o: v for o, v in zip(ov, vals)})


def subst(t, m):
    """m: dict var-term -> term.  Rebuilds with simplification."""
    mm = {k.id: v for k, v in m.items() if k is not v}
    if not mm:
        return t
    return _subst(t, mm, frozenset(mm), {})


def _subst(t, m, keys, cache):
    if t.fv.isdisjoint(keys):
        return t
    r = cache.get(t.id)
    if r is not None:
        return r
    if t.op == 'var':
        r = m[t.id]
    elif t.op == 'lam':
        vs, body = _own(t)
        # capture check
        cap = False
        for k in keys:
            if k in t.fv:
                f = m[k].fv
                if any(v.id in f for v in vs):
                    cap = True
        if cap or any(v.id in keys for v in vs):
            nv = tuple(fresh(v.pl[0], v.sort, v.pl[1], v.pl[2]) for v in vs)
            body = _subst(body, {a.id: b for a, b in zip(vs, nv)}, frozenset(a.id for a in vs), {})
            vs = nv
            r = lam(vs, _subst(body, m, keys, {}))
        else:
            r = lam(vs, _subst(body, m, keys, cache))
    else:
        r = build(t.op, [_subst(a, m, keys, cache) for a in t.args], t.pl, t.sort)
    cache[t.id] = r
    return r


def _own_avoid(l, avoid):
    vs, body = _own(l)
    if any(v.id in avoid for v in vs):
        nv = tuple(fresh(v.pl[0], v.sort, v.pl[1], v.pl[2]) for v in vs)
        body = _subst(body, {x.id: y for x, y in zip(vs, nv)}, frozenset(x.id for x in vs), {})
        vs = nv
    return vs, body


def replace(t, a, b):
    """Replace subterm a by b everywhere (capture-avoiding)."""
    return replace_many(t, [(a, b)])


def replace_many(t, pairs):
    """Simultaneous replacement of subterms, pairs: [(a, b)]."""
    mp = {a.id: b for a, b in pairs if a is not b}
    if not mp:
        return t
    avoid = frozenset().union(*[a.fv | b.fv for a, b in pairs])
    minsize = min(a.size for a, b in pairs)
    cache = {}

    def go(x):
        y = mp.get(x.id)
        if y is not None:
            return y
        if not x.args or x.size <= minsize:
            return x
        r = cache.get(x.id)
        if r is None:
            if x.op == 'lam':
                vs, body = _own_avoid(x, avoid)
                r = lam(vs, go(body))
            else:
                na = [go(y) for y in x.args]
                r = build(x.op, na, x.pl, x.sort) if any(p is not q for p, q in zip(na, x.args)) else x
            cache[x.id] = r
        return r
    return go(t)


def subterms(t, seen=None):
    """All subterms (opening binders with their own variables)."""
    seen = {} if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        if x.op == 'lam':
            st.append(_own(x)[1])
        else:
            st.extend(x.args)
    return seen


# ---------------------------------------------------------------- integers (linear normal form)
# 'lin': pl = (const, coeffs), args = atoms sorted by id
def _lin(t):
    if t.op == 'int':
        return t.pl, {}
    if t.op == 'lin':
        return t.pl[0], {a: c for a, c in zip(t.args, t.pl[1])}
    return 0, {t: 1}


def _mklin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    items = sorted(d.items(), key=lambda x: x[0].id)
    return raw('lin', [a for a, _ in items], (c, tuple(k for _, k in items)), Z)


def add(*ts):
    c, d = 0, {}
    for t in ts:
        if t.op == 'ite' and len(ts) > 1 and len(ts) <= 3 and all(x.op == 'int' for x in t.args[1:]) and 0:
            pass
        c1, d1 = _lin(t)
        c += c1
        for a, k in d1.items():
            d[a] = d.get(a, 0) + k
    return _mklin(c, d)


def scale(k, t):
    c, d = _lin(t)
    return _mklin(c * k, {a: k * x for a, x in d.items()})


def sub(a, b):
    return add(a, scale(-1, b))


def mul(a, b):
    if a.op == 'int':
        return scale(a.pl, b)
    if b.op == 'int':
        return scale(b.pl, a)
    if a.op == 'lin' and len(a.args) > 0 and a.size < 40:
        c, d = _lin(a)
        return add(*([mul(scale(k, x), b) if k != 1 else mul(x, b) for x, k in d.items()] + [scale(c, b)])) if len(d) > 1 or c else scale(list(d.values())[0], mul(list(d)[0], b))
    if b.op == 'lin':
        return mul(b, a)
    if b.op == 'ite' and b.args[1].op == 'int' and b.args[2].op == 'int':
        a, b = b, a
    if a.op == 'ite' and a.args[1].op == 'int' and a.args[2].op == 'int':
        return ite(a.args[0], scale(a.args[1].pl, b), scale(a.args[2].pl, b))
    if a.id > b.id:
        a, b = b, a
    return raw('mul', (a, b), None, Z)


def idiv(a, b):
    if b.op == 'int' and b.pl == 1:
        return a
    if a.op == 'int' and b.op == 'int' and b.pl:
        q = abs(a.pl) // abs(b.pl)
        return I(q if (a.pl >= 0) == (b.pl > 0) else -q)
    return raw('div', (a, b), None, Z)


def imod(a, b):
    if a.op == 'int' and b.op == 'int' and b.pl:
        return sub(a, mul(idiv(a, b), b))
    return raw('mod', (a, b), None, Z)


def rng(t):
    """Interval (lo,hi), None = unbounded."""
    r = t._rng
    if r is not None:
        return r
    r = _rng(t)
    t._rng = r
    return r


def _radd(a, b):
    return None if a is None or b is None else a + b


def _rng(t):
    op = t.op
    if op == 'int':
        return (t.pl, t.pl)
    if op == 'lin':
        lo, hi = t.pl[0], t.pl[0]
        for a, k in zip(t.args, t.pl[1]):
            l, h = rng(a)
            if k < 0:
                l, h = h, l
            lo = _radd(lo, None if l is None else l * k)
            hi = _radd(hi, None if h is None else h * k)
        return (lo, hi)
    if op == 'var':
        lo, hi = srange(t.sort)
        if t.pl[1] is not None:
            lo = t.pl[1]
        if t.pl[2] is not None:
            hi = t.pl[2]
        return (lo, hi)
    if op == 'ite':
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op in ('seqlen', 'msize'):
        return (0, SIZEMAX)
    if op == 'wrap':
        return srange(('I',) + t.pl)
    if op == 'mod':
        l, h = rng(t.args[1])
        if l is not None and l > 0 and h is not None and (rng(t.args[0])[0] or -1) >= 0:
            return (0, h - 1)
        if rng(t.args[0])[0] is not None and rng(t.args[0])[0] >= 0 and h is not None and l is not None and l >= 0:
            return (0, max(h - 1, 0))
        return (None, None)
    if op == 'div':
        a, b = rng(t.args[0]), rng(t.args[1])
        if a[0] is not None and a[0] >= 0 and b[0] is not None and b[0] >= 0:
            return (0, a[1])
        return (None, None)
    if op == 'mul':
        a, b = rng(t.args[0]), rng(t.args[1])
        if None not in a and None not in b:
            c = [x * y for x in a for y in b]
            return (min(c), max(c))
        if a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (0, None)
        return (None, None)
    if op == 'sum':
        n, b = rng(t.args[0]), rng(_own(t.args[1])[1])
        if b[0] is not None and b[0] >= 0:
            return (0, n[1] * b[1] if n[1] is not None and n[1] >= 0 and b[1] is not None else None)
        return (None, None)
    if op == 'least':
        return (0, rng(t.args[0])[1])
    return srange(t.sort)


SIZEMAX = (1 << 48)   # assumption: no container holds more than 2^48 elements


def wrap(w, sg, t):
    lo, hi = srange(('I', w, sg))
    a, b = rng(t)
    if a is not None and b is not None and a >= lo and b <= hi:
        return t
    if t.op == 'int':
        v = t.pl & ((1 << w) - 1)
        if sg and v >> (w - 1):
            v -= 1 << w
        return I(v)
    if t.op == 'ite' and t.sort[0] != 'B':
        x, y = t.args[1], t.args[2]
        if x.op == 'int' or y.op == 'int':
            return ite(t.args[0], wrap(w, sg, x), wrap(w, sg, y))
    if t.op == 'wrap' and t.pl[0] >= w:
        return wrap(w, sg, t.args[0])
    if t.op == 'lin':
        # (wrap(x) + y) mod 2^w == (x + y) mod 2^w
        c, d = _lin(t)
        ch = False
        nd = []
        for x, k in d.items():
            if x.op == 'wrap' and x.pl[0] >= w:
                nd.append(scale(k, x.args[0]))
                ch = True
            else:
                nd.append(scale(k, x))
        m = 1 << w
        c2 = c % m
        if c2 >= m // 2:
            c2 -= m
        if ch or c2 != c:
            return wrap(w, sg, add(I(c2), *nd))
    return raw('wrap', (t,), (w, sg), ('I', w, sg))


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'ge0':
        return ge0(sub(I(-1), a.args[0]))
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return raw('not', (a,), None, BOOL)


def _enums(op, s):
    """a value of an enumeration is one of its enumerators: all excluded but one is that one, all excluded is false
    (and dually for disjunctions)."""
    by = {}
    for t in s.values():
        e = t
        if op == 'and':
            if t.op != 'not':
                continue
            e = t.args[0]
        lits = []
        for q in e.args if e.op == 'or' and op == 'and' else (e,):
            if q.op != 'eq':
                break
            a, b = q.args
            if a.op == 'int':
                a, b = b, a
            if a.sort[0] != 'E' or b.op != 'int' or lits and lits[0][0] is not a:
                break
            lits.append((a, b.pl))
        else:
            for a, n in lits:
                by.setdefault(a.id, (a, {}))[1][n] = t
    for a, m in by.values():
        vals = set(a.sort[2])
        left = vals - set(m)
        if not left:
            return None
        if len(left) == 1 and len(m) > 1:
            q = eq(a, I(left.pop()))
            q = q if op == 'and' else not_(q)
            ids = {x.id for x in m.values()}
            out = {i: x for i, x in s.items() if i not in ids}
            out[q.id] = q
            return out
    return s


def _ac(op, ts, zero, one):
    s = {}
    st = list(ts)[::-1]
    while st:
        t = st.pop()
        if t is zero:
            return zero
        if t is one:
            continue
        if t.op == op:
            st.extend(t.args[::-1])
            continue
        s[t.id] = t
    for t in s.values():
        n = not_(t)
        if n.id in s:
            return zero
    if not s:
        return one
    if len(s) > 1:
        s2 = _enums(op, s)
        if s2 is not s:
            return zero if s2 is None else _ac(op, tuple(s2.values()), zero, one)
    # absorption:  a & (a | b) = a ;  a & (~a | b) = a & b
    dual = 'or' if op == 'and' else 'and'
    changed = False
    out = []
    for t in s.values():
        if t.op == dual:
            if any(x.id in s for x in t.args):
                changed = True
                continue
            rest = [x for x in t.args if not_(x).id not in s]
            if len(rest) != len(t.args):
                changed = True
                out.append((or_ if op == 'and' else and_)(*rest))
                continue
        if t.op == 'ite':
            # the condition is decided by another member
            c = t.args[0]
            cs = c.args if c.op in ('and', 'or') else (c,)
            if c.id in s or not_(c).id in s or any(x.id in s or not_(x).id in s for x in cs):
                r = t
                for x in cs if c.op in ('and', 'or') else (c,):
                    if x.id in s:
                        r = simp_under(r, x, op == 'and')
                    elif not_(x).id in s:
                        r = simp_under(r, x, op != 'and')
                if c.id in s:
                    r = t.args[1 if op == 'and' else 2]
                elif not_(c).id in s:
                    r = t.args[2 if op == 'and' else 1]
                if r is not t:
                    changed = True
                    out.append(r)
                    continue
        out.append(t)
    if not changed:
        # resolution:  (a & m) | (a & ~m) = a
        ds = [t for t in out if t.op == dual]
        if 2 <= len(ds) <= 8:
            for i in range(len(ds)):
                for j in range(i):
                    x, y = set(ds[i].args), set(ds[j].args)
                    d1, d2 = x - y, y - x
                    if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) is next(iter(d2)):
                        rest = [t for t in out if t is not ds[i] and t is not ds[j]]
                        return _ac(op, rest + [(and_ if op == 'or' else or_)(*(x & y))], zero, one)
    if changed:
        return _ac(op, out, zero, one)
    # merge interval bounds on the same linear form: ge0(c+e), ge0(d+e)
    if len(out) > 1:
        best = {}
        res = []
        for t in out:
            if t.op == 'ge0':
                c, d = _lin(t.args[0])
                key = tuple(sorted((a.id, k) for a, k in d.items()))
                if key in best:
                    j, c0 = best[key]
                    better = c < c0 if op == 'and' else c > c0
                    if better:
                        res[j] = t
                        best[key] = (j, c)
                    continue
                # opposite form: ge0(c+e) and ge0(d-e): contradiction if c+d<0 (and) ; or: tautology if c+d>=-1
                nk = tuple(sorted((a.id, -k) for a, k in d.items()))
                if nk in best:
                    c0 = best[nk][1]
                    if op == 'and' and c + c0 < 0:
                        return zero
                    if op == 'or' and c + c0 >= -1:
                        return zero
                best[key] = (len(res), c)
            res.append(t)
        out = res
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda x: x.id)
    return raw(op, out, None, BOOL)


def and_(*ts):
    return _ac('and', ts, FALSE, TRUE)


def or_(*ts):
    return _ac('or', ts, TRUE, FALSE)


def implies(a, b):
    return or_(not_(a), b)


def ge0(t):
    lo, hi = rng(t)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    if t.op == 'ite' and (t.args[1].op == 'int' or t.args[2].op == 'int'):
        return ite(t.args[0], ge0(t.args[1]), ge0(t.args[2]))
    if t.op == 'lin':
        for a, k in zip(t.args, t.pl[1]):
            # n * (greatest term) bounds a sum of n terms
            if a.op == 'least':
                # a search does not go beyond its range
                b = add(sub(t, scale(k, a)), scale(k, a.args[0]))
                if k > 0 and (rng(b)[1] if rng(b)[1] is not None else 0) < 0:
                    return FALSE
                if k < 0 and (rng(b)[0] if rng(b)[0] is not None else -1) >= 0:
                    return TRUE
            if a.op == 'sum' and k < 0 and rng(a.args[0])[0] is not None and rng(a.args[0])[0] >= 0:
                h = rng(_own(a.args[1])[1])[1]
                if h is not None:
                    b = add(sub(t, scale(k, a)), scale(k * h, a.args[0]))
                    if (rng(b)[0] or -1) >= 0 or b.op == 'int' and b.pl >= 0:
                        return TRUE
        from math import gcd
        g = 0
        for k in t.pl[1]:
            g = gcd(g, abs(k))
        if g > 1:
            return ge0(_mklin(t.pl[0] // g, {a: k // g for a, k in zip(t.args, t.pl[1])}))
        # the positive part of a number against a constant
        if len(t.args) == 1 and t.args[0].op == 'ite' and t.args[0].args[2].op == 'int' and t.args[0].args[2].pl == 0 \
                and t.args[0].args[0] is ge0(t.args[0].args[1]):
            c, k, x = t.pl[0], t.pl[1][0], t.args[0].args[1]
            # k < 0: c + k*max(x,0) >= 0  iff  c >= 0 and c + k*x >= 0;  k > 0 (and c < 0): iff c + k*x >= 0
            if k > 0 or c >= 0:
                return ge0(add(I(c), scale(k, x)))
            return FALSE
        # split a single ite atom with int arms
        for a, k in zip(t.args, t.pl[1]):
            if a.op == 'ite' and a.args[1].op == 'int' and a.args[2].op == 'int':
                r = sub(t, scale(k, a))
                return ite(a.args[0], ge0(add(r, scale(k, a.args[1]))), ge0(add(r, scale(k, a.args[2]))))
    return raw('ge0', (t,), None, BOOL)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(sub(sub(b, a), I(1)))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def _unfld(t):
    """the record whose only field is t."""
    if t.op == 'fld' and len(rfields(t.args[0].sort)) == 1:
        return t.args[0]
    if t.op == 'ite':
        x, y = _unfld(t.args[1]), _unfld(t.args[2])
        if x is not None and y is not None and x.sort == y.sort:
            return ite(t.args[0], x, y)
    return None


def eq(a, b):
    if a is b:
        return TRUE
    s = a.sort
    if a.op == 'mkey' and b.op == 'mkey' and a.args[0] is b.args[0]:
        # the keys of a map are visited once each
        return eq(a.args[1], b.args[1])
    if a.op == 'fld' and b.op == 'fld' and a.pl == b.pl and a.args[0].sort == b.args[0].sort and \
            len(rfields(a.args[0].sort)) == 1:
        # records of one field
        return eq(a.args[0], b.args[0])
    if a.op == 'ite' or b.op == 'ite':
        x, y = _unfld(a), _unfld(b)
        if x is not None and y is not None and x.sort == y.sort:
            return eq(x, y)
    if isint(s):
        d = sub(a, b)
        lo, hi = rng(d)
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return FALSE
        if d.op == 'int':
            return B(d.pl == 0)
        if (a.sort == VIDX2 or a.op == 'int') and (b.sort == VIDX2 or b.op == 'int') and a.op not in ('ite', 'lin') \
                and b.op not in ('ite', 'lin'):
            # one of two alternatives
            x, y = [B(v.pl == 0) if v.op == 'int' else raw('eq', tuple(sorted((I(0), v), key=lambda z: z.id)), None, BOOL)
                    for v in (a, b)]
            return ite(x, y, not_(y))
        if d.op == 'sum':
            bl = rng(_own(d.args[1])[1])[0]
            if bl is not None and bl >= 0:
                vs, bb = _own(d.args[1])
                return forall_lt(d.args[0], lam(vs, eq(bb, I(0))))
        if d.op == 'ite' and (d.args[1].op == 'int' or d.args[2].op == 'int'):
            return ite(d.args[0], eq(d.args[1], I(0)), eq(d.args[2], I(0)))
        if a.op == 'ite' and b.op == 'int' or b.op == 'ite' and a.op == 'int':
            if b.op == 'ite':
                a, b = b, a
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
        if a.op == 'lin' or b.op == 'lin':
            c, dd = _lin(d)
            items = sorted(dd.items(), key=lambda x: x[0].id)
            if items[0][1] < 0:
                d = scale(-1, d)
                c, dd = _lin(d)
            items = sorted(dd.items(), key=lambda x: x[0].id)
            if len(items) == 1:
                at, k = items[0]
                if (-c) % k:
                    return FALSE
                return eq(at, I(-c // k))
            from math import gcd
            g = 0
            for _, k in items:
                g = gcd(g, abs(k))
            if g > 1:
                if c % g:
                    return FALSE
                d = _mklin(c // g, {x: k // g for x, k in items})
                return eq(d, I(0))
            pos = _mklin(max(c, 0), {x: k for x, k in items if k > 0})
            neg = _mklin(max(-c, 0), {x: -k for x, k in items if k < 0})
            a, b = pos, neg
            if a.id > b.id:
                a, b = b, a
            r = _eq_rewrite(a, b)
            if r is not None:
                return r
            return raw('eq', (a, b), None, BOOL)
        if a.id > b.id:
            a, b = b, a
        r = _eq_rewrite(a, b)
        if r is not None:
            return r
        return raw('eq', (a, b), None, BOOL)
    if s[0] == 'B':
        return ite(a, b, not_(b))
    if a.op == 'int' and b.op == 'int':
        return B(a.pl == b.pl)
    if a.op == 'flt' and b.op == 'flt':
        return B(a.pl == b.pl)   # bit equality; value equality uses feq
    if a.op == 'str' and b.op == 'str':
        return B(a.pl == b.pl)
    if a.op == 'loc' and b.op == 'loc':
        if a.pl[0] != b.pl[0]:
            return FALSE
        if a.pl == b.pl:
            return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
        if len(a.pl[1]) == len(b.pl[1]):
            return FALSE
    if {a.op, b.op} == {'loc', 'null'}:
        return FALSE
    if {a.op, b.op} == {'none', 'some'}:
        return FALSE
    if a.op == 'some' and b.op == 'some':
        return eq(a.args[0], b.args[0])
    if a.op == 'inj' and b.op == 'inj':
        return eq(a.args[0], b.args[0]) if a.pl == b.pl else FALSE
    if a.op == 'rec' and b.op == 'rec' and a.sort == b.sort:
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if s[0] == 'R' and (a.op == 'rec' or b.op == 'rec') and a.sort == b.sort:
        return and_(*[eq(fld(a, f), fld(b, f)) for f, _ in rfields(s)])
    if a.op == 'ite' and s[0] in ('L', 'OPT', 'V'):
        return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == 'ite' and s[0] in ('L', 'OPT', 'V'):
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.id > b.id:
        a, b = b, a
    return raw('eq', (a, b), None, BOOL)


VIDX2 = ('E', 'vidx', (0, 1))
EQ_REWRITES = []   # callables (a,b) -> term or None: injective sequences with a known inverse


def _eq_rewrite(a, b):
    for f in EQ_REWRITES:
        r = f(a, b)
        if r is None:
            r = f(b, a)
        if r is not None:
            return r
    return None


def _mentions_cond(t, c):
    return c.fv <= t.fv and t.size >= c.size


def simp_under(t, c, v, depth=6):
    """Simplify t knowing boolean c has truth v (cheap: only ite-spines and record/seq constructors)."""
    if t is c:
        return TRUE if v else FALSE
    if t.op == 'not' and t.args[0] is c or c.op == 'ge0' and t.op == 'ge0' and t is not_(c):
        return FALSE if v else TRUE
    if depth == 0 or t.size <= c.size and c.op != 'not':
        return t
    if t.op == 'ite':
        cc = t.args[0]
        if cc is c:
            return simp_under(t.args[1] if v else t.args[2], c, v, depth)
        if cc.op == 'not' and cc.args[0] is c or c.op == 'not' and c.args[0] is cc:
            return simp_under(t.args[2] if v else t.args[1], c, v, depth)
        n0 = simp_under(cc, c, v, depth - 1)
        if n0 is not cc:
            return ite(n0, simp_under(t.args[1], c, v, depth - 1), simp_under(t.args[2], c, v, depth - 1))
        a, b = simp_under(t.args[1], c, v, depth - 1), simp_under(t.args[2], c, v, depth - 1)
        if a is not t.args[1] or b is not t.args[2]:
            return ite(cc, a, b)
        return t
    if t.op in ('and', 'or', 'cat', 'some', 'unit', 'store', 'mstore', 'f+', 'f*', 'lin', 'fneg'):
        na = [simp_under(a, c, v, depth - 1) for a in t.args]
        if any(x is not y for x, y in zip(na, t.args)):
            return build(t.op, na, t.pl, t.sort)
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if c.op == 'ge0' and c.args[0].op == 'lin':
        # canonical polarity
        l = c.args[0]
        if l.pl[0] < 0:
            return ite(raw('ge0', (sub(I(-1), l),), None, BOOL), b, a)
    if c.op == 'and' and not_in_pos(c):
        pass
    a = simp_under(a, c, True)
    b = simp_under(b, c, False)
    if a is b:
        return a
    if c.op == 'and':
        for x in c.args:
            a = simp_under(a, x, True, 4)
        if b.op == 'ite' and a is b.args[2] and 0:
            pass
    elif c.op == 'or':
        for x in c.args:
            b = simp_under(b, x, False, 4)
    if a is b:
        return a
    if c.op == 'forall' and (isint(a.sort) or a.sort[0] == 'S') and b.hb and b.size < 3000 and assume(b, c) is a:
        return b
    s = a.sort
    if s[0] == 'B':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return raw('ite', (c, a, b), None, BOOL)
    if s[0] == 'R' and (a.op == 'rec' or b.op == 'rec'):
        return rec(s, [ite(c, fld(a, f), fld(b, f)) for f, _ in rfields(s)])
    if s[0] == 'S':
        r = _ite_seq(c, a, b)
        if r is not None:
            return r
    if s[0] == 'M':
        # mstore(m,k,v) vs m  etc. stays as ite
        pass
    if s[0] == 'OPT' and a.op == 'some' and b.op == 'some':
        return some(ite(c, a.args[0], b.args[0]))
    if a.op == 'inj' and b.op == 'inj' and a.pl == b.pl:
        return inj(a.pl, ite(c, a.args[0], b.args[0]), s)
    if a.op == 'loc' and b.op == 'loc' and a.pl == b.pl:
        return raw('loc', [ite(c, x, y) for x, y in zip(a.args, b.args)], a.pl, LOC)
    if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0]:
        if len(a.args) == 2 or a.args[2] is b.args[2]:
            return raw('vit', (a.args[0], ite(c, a.args[1], b.args[1])) + tuple(a.args[2:]), a.pl, a.sort)
    if isint(s):
        sort = s if s == b.sort else Z
        # integer: pull common linear part when arms differ by a constant
        # collapse nested: ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if b.op == 'ite' and b.args[1] is a:
            return ite(or_(c, b.args[0]), a, b.args[2])
        if a.op == 'ite' and a.args[2] is b:
            return ite(and_(c, a.args[0]), a.args[1], b)
        return raw('ite', (c, a, b), None, sort)
    if b.op == 'ite' and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    return raw('ite', (c, a, b), None, s)


def not_in_pos(c):
    return False


def segs(s):
    if s.op == 'cat':
        return list(s.args)
    if s.op == 'nil':
        return []
    return [s]


def _ite_seq(c, a, b):
    sa, sb = segs(a), segs(b)
    i = 0
    while i < len(sa) and i < len(sb) and sa[i] is sb[i]:
        i += 1
    j = 0
    while j < len(sa) - i and j < len(sb) - i and sa[-1 - j] is sb[-1 - j]:
        j += 1
    if i or j:
        ra, rb = sa[i:len(sa) - j], sb[i:len(sb) - j]
        mid = ite(c, cat(*ra, sort=a.sort), cat(*rb, sort=a.sort))
        return cat(*(sa[:i] + [mid] + sa[len(sa) - j:]), sort=a.sort)
    if a.op == 'unit' and b.op == 'unit':
        return unit(ite(c, a.args[0], b.args[0]), a.sort)
    if a.op == 'tab' and b.op == 'tab' and a.args[0] is b.args[0]:
        k, = _fv1(a)
        return tab(a.args[0], lam([k], ite(c, inst(a.args[1], [k]), inst(b.args[1], [k]))), a.sort)
    if a.op == 'store' and b is a.args[0]:
        return store(b, a.args[1], ite(c, a.args[2], seqat(b, a.args[1])))
    if b.op == 'store' and a is b.args[0]:
        return store(a, b.args[1], ite(c, seqat(a, b.args[1]), b.args[2]))
    if a.op == 'store' and b.op == 'store' and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
        return store(a.args[0], a.args[1], ite(c, a.args[2], b.args[2]))
    return None


def _fv1(t):
    l = t.args[1]
    ov, _ = _own(l)
    return (fresh('j', ov[0].sort, ov[0].pl[1], ov[0].pl[2]),)


# ---------------------------------------------------------------- records / variants / optionals
def rec(sort, vals):
    fs = rfields(sort)
    assert len(fs) == len(vals), (sort, len(vals))
    # eta
    if vals and vals[0].op == 'fld' and vals[0].pl == fs[0][0]:
        x = vals[0].args[0]
        if x.sort == sort and all(v.op == 'fld' and v.pl == f and v.args[0] is x for v, (f, _) in zip(vals, fs)):
            return x
    return raw('rec', vals, None, sort)


def fld(t, f):
    if t.op == 'rec':
        for v, (n, _) in zip(t.args, rfields(t.sort)):
            if n == f:
                return v
        raise KeyError((f, t.sort))
    if t.op == 'ite':
        return ite(t.args[0], fld(t.args[1], f), fld(t.args[2], f))
    if t.op == 'fold':
        r = _fold_fld(t, f)
        if r is not None:
            return r
    for n, s in rfields(t.sort):
        if n == f:
            return raw('fld', (t,), f, s)
    raise KeyError((f, t.sort))


def upd(t, f, v):
    return rec(t.sort, [v if n == f else fld(t, n) for n, _ in rfields(t.sort)])


def some(x):
    return raw('some', (x,), None, ('OPT', x.sort))


def none(s):
    return raw('none', (), None, ('OPT', s))


def has(o):
    if o.op == 'some':
        return TRUE
    if o.op == 'none':
        return FALSE
    if o.op == 'ite':
        return ite(o.args[0], has(o.args[1]), has(o.args[2]))
    return raw('has', (o,), None, BOOL)


def oget(o):
    if o.op == 'some':
        return o.args[0]
    if o.op == 'ite':
        x, y = o.args[1], o.args[2]
        if y.op == 'none':
            return oget(x)
        if x.op == 'none':
            return oget(y)
        return ite(o.args[0], oget(x), oget(y))
    return raw('oget', (o,), None, o.sort[1])


def inj(i, x, sort):
    return raw('inj', (x,), i, sort)


def vidx(v):
    if v.op == 'inj':
        return I(v.pl)
    if v.op == 'ite':
        return ite(v.args[0], vidx(v.args[1]), vidx(v.args[2]))
    return raw('vidx', (v,), None, ('E', 'vidx', tuple(range(len(v.sort[1])))))


def vget(v, i):
    if v.op == 'inj':
        if v.pl == i:
            return v.args[0]
        return raw('vget', (v,), i, v.sort[1][i])
    if v.op == 'ite':
        a, b = v.args[1], v.args[2]
        if a.op == 'inj' and a.pl != i:
            return vget(b, i)
        if b.op == 'inj' and b.pl != i:
            return vget(a, i)
        return ite(v.args[0], vget(a, i), vget(b, i))
    return raw('vget', (v,), i, v.sort[1][i])


# ---------------------------------------------------------------- sequences
def nil(sort):
    return raw('nil', (), None, sort)


def unit(v, sort=None):
    return raw('unit', (v,), None, sort or ('S', v.sort))


def cat(*ss, sort=None):
    out = []
    for s in ss:
        sort = sort or s.sort
        out.extend(segs(s))
    if not out:
        return nil(sort)
    if len(out) == 1:
        return out[0]
    return raw('cat', out, None, sort)


def strip_nonneg(n):
    """iteration counts: max(n, 0) and n give the same iterations."""
    if n.op == 'ite' and n.args[2].op == 'int' and n.args[2].pl == 0 and n.args[0].op == 'ge0' and n.args[0].args[0] is n.args[1]:
        return n.args[1]
    if n.op == 'ite' and n.args[1].op == 'int' and n.args[1].pl == 0 and not_(n.args[0]).op == 'ge0' \
            and not_(n.args[0]).args[0] is n.args[2]:
        return n.args[2]
    return n


def under_bound(n, l):
    """lambda body simplified knowing that its first parameter is below n."""
    vs, b = _own(l)
    k = vs[0]
    c = lt(k, n)
    if c is TRUE or c is FALSE or k.id not in b.fv:
        return l
    cs = c.args if c.op == 'and' else (c,)
    nb = b
    if b.size < 4000:
        for x in list(subterms(b).values()):
            if x.op == 'eq' and k.id in x.fv and not x.nb and isint(x.args[0].sort):
                t = _solve_eq(x, k)
                if t is not None and not any(v.id in t.fv for v in vs) and (ge0(sub(t, n)) is TRUE or ge0(sub(I(-1), t)) is TRUE):
                    nb = replace(nb, x, FALSE)
    for x in cs:
        if k.id in x.fv and x.op == 'ge0' and n.fv <= b.fv:
            nb = replace(nb, x, TRUE)
            if not_(x).op != 'not':
                nb = replace(nb, not_(x), FALSE)
    return l if nb is b else lam(vs, nb)


def tab(n, l, sort=None):
    """sequence of length n with elements l(k)."""
    sort = sort or ('S', l.sort[1])
    n = strip_nonneg(n)
    l = under_bound(n, l)
    if n.op == 'int' and n.pl <= 0:
        return nil(sort)
    if n.op == 'int' and n.pl == 1:
        return unit(inst(l, [I(0)]), sort)
    vs, b = _own(l)
    if b.op == 'seqat' and b.args[1] is vs[0] and vs[0].id not in b.args[0].fv and seqlen(b.args[0]) is n:
        return b.args[0]
    if vs[0].id in b.fv and b.size < 3000:
        fs = [x for x in subterms(b).values() if x.op == 'seqat' and x.args[1] is vs[0] and x.args[0].op in ('flat', 'cat', 'ite')
              and vs[0].id not in x.args[0].fv]
        if len(fs) == 1 and seqlen(fs[0].args[0]) is n:
            v = fresh('e', fs[0].sort)
            bv = replace(b, fs[0], v)
            if vs[0].id not in bv.fv:
                return seqmap(fs[0].args[0], v, bv, sort)
    if b.op == 'ite':
        # a sequence followed by something else
        for x, y, c in ((b.args[1], b.args[2], b.args[0]), (b.args[2], b.args[1], not_(b.args[0]))):
            if y.op == 'seqat' and y.args[1] is vs[0] and vs[0].id not in y.args[0].fv:
                m = seqlen(y.args[0])
                lo = rng(sub(n, m))[0]
                if c is ge(vs[0], m) and lo is not None and lo >= 0:
                    i = fresh('i', Z, 0, None)
                    return cat(y.args[0], tab(sub(n, m), lam([i], subst(x, {vs[0]: add(i, m)})), sort), sort=sort)
    return raw('tab', (n, l), None, sort)


def seqmap(x, v, b, sort):
    """sequence of b(v) for the elements v of x."""
    if x.op == 'nil':
        return nil(sort)
    if x.op == 'unit':
        return unit(subst(b, {v: x.args[0]}), sort)
    if x.op == 'cat':
        return cat(*[seqmap(y, v, b, sort) for y in x.args], sort=sort)
    if x.op == 'ite':
        return ite(x.args[0], seqmap(x.args[1], v, b, sort), seqmap(x.args[2], v, b, sort))
    if x.op in ('flat', 'tab'):
        vs, e = _own_avoid(x.args[1], b.fv)
        if x.op == 'tab':
            return tab(x.args[0], lam(vs, subst(b, {v: e})), sort)
        return flat(x.args[0], lam(vs, seqmap(e, v, b, sort)), sort)
    j = fresh('j', Z, 0, None)
    return tab(seqlen(x), lam([j], subst(b, {v: seqat(x, j)})), sort)


def flat(n, l, sort=None):
    """concatenation of l(0) .. l(n-1)."""
    sort = sort or l.sort[1]
    if n.op == 'int' and n.pl <= 0:
        return nil(sort)
    if n.op == 'int' and n.pl == 1:
        return inst(l, [I(0)])
    n = strip_nonneg(n)
    l = under_bound(n, l)
    vs, b = _own(l)
    if b.op == 'nil':
        return b
    if b.op == 'unit':
        return tab(n, lam(vs, b.args[0]), sort)
    return raw('flat', (n, l), None, sort)


def store(s, i, v):
    if s.op == 'store' and s.args[1] is i:
        return store(s.args[0], i, v)
    if s.op == 'tab':
        k = fresh('j', Z, 0, None)
        return tab(s.args[0], lam([k], ite(eq(k, i), v, inst(s.args[1], [k]))), s.sort)
    if v.op == 'seqat' and v.args[0] is s and v.args[1] is i:
        return s
    if i.op == 'int' and s.op == 'cat' and all(x.op == 'unit' for x in s.args[:i.pl + 1]) and i.pl < len(s.args):
        a = list(s.args)
        a[i.pl] = unit(v, s.sort)
        return cat(*a, sort=s.sort)
    if i.op == 'int' and s.op == 'unit' and i.pl == 0:
        return unit(v, s.sort)
    return raw('store', (s, i, v), None, s.sort)


def lerase(cur, snap, i):
    """list cur without the node that was at position i of the earlier list snap."""
    if cur is snap:
        return cat(slice_(snap, I(0), i), slice_(snap, add(i, I(1)), sub(sub(seqlen(snap), i), I(1))), sort=snap.sort)
    return raw('lerase', (cur, snap, i), None, snap.sort)


def lerase_guard(b, s, init, k):
    """b is an ite-tree over s (kept) and lerase(s, init, k): the condition of erasing, else None."""
    if b is s:
        return FALSE
    if b.op == 'lerase':
        return TRUE if b.args[0] is s and b.args[1] is init and b.args[2] is k else None
    if b.op == 'ite' and s.id not in b.args[0].fv:
        x, y = lerase_guard(b.args[1], s, init, k), lerase_guard(b.args[2], s, init, k)
        return None if x is None or y is None else ite(b.args[0], x, y)
    return None


def seqlen(s):
    op = s.op
    if op == 'nil':
        return I(0)
    if op == 'unit':
        return I(1)
    if op == 'tab':
        return nonneg(s.args[0])
    if op == 'cat':
        return add(*[seqlen(x) for x in s.args])
    if op == 'store':
        return seqlen(s.args[0])
    if op == 'rev':
        return seqlen(s.args[0])
    if op == 'flat':
        vs, b = _own(s.args[1])
        l = seqlen(b)
        if vs[0].id not in l.fv:
            return mul(nonneg(s.args[0]), l)
        return isum(s.args[0], lam(vs, l))
    if op == 'ite':
        return ite(s.args[0], seqlen(s.args[1]), seqlen(s.args[2]))
    if op == 'slice':
        return nonneg(s.args[2])
    if op == 'fold':
        labels, j = s.pl
        m = len(labels)
        vs, b = _own(s.args[1 + m + j])
        if _keeps_len(b, vs[1 + j]):
            return seqlen(s.args[1 + j])
    return raw('seqlen', (s,), None, U64)


def _keeps_len(b, s):
    """b is the sequence s with elements replaced."""
    if b is s:
        return True
    if b.op == 'store':
        return _keeps_len(b.args[0], s)
    if b.op == 'ite':
        return _keeps_len(b.args[1], s) and _keeps_len(b.args[2], s)
    return False


def nonneg(n):
    lo, hi = rng(n)
    if lo is not None and lo >= 0:
        return n
    return ite(ge0(n), n, I(0))


def isum(n, l):
    n = strip_nonneg(n)
    l = under_bound(n, l)
    if n.op == 'int':
        if n.pl <= 0:
            return I(0)
        if n.pl <= 3:
            return add(*[inst(l, [I(i)]) for i in range(n.pl)])
    vs, b = _own(l)
    if vs[0].id not in b.fv:
        return mul(nonneg(n), b)
    return raw('sum', (n, l), None, Z)


def seqat(s, i):
    op = s.op
    if op == 'tab':
        return inst(s.args[1], [i])
    if op == 'unit':
        return s.args[0]
    if op == 'rev':
        return seqat(s.args[0], sub(sub(seqlen(s.args[0]), I(1)), i))
    if op == 'store':
        c = eq(s.args[1], i)
        return ite(c, s.args[2], seqat(s.args[0], i))
    if op == 'cat':
        a = s.args[0]
        n = seqlen(a)
        c = lt(i, n)
        if c is TRUE:
            return seqat(a, i)
        if c is FALSE:
            return seqat(cat(*s.args[1:], sort=s.sort), sub(i, n))
        return ite(c, seqat(a, i), seqat(cat(*s.args[1:], sort=s.sort), sub(i, n)))
    if op == 'ite':
        return ite(s.args[0], seqat(s.args[1], i), seqat(s.args[2], i))
    if op == 'slice':
        return seqat(s.args[0], add(s.args[1], i))
    return raw('seqat', (s, i), None, s.sort[1])


def slice_(s, a, n):
    """n elements of s from a (assumed within bounds)."""
    if a.op == 'int' and a.pl == 0 and n is seqlen(s):
        return s
    if n.op == 'int' and n.pl <= 0:
        return nil(s.sort)
    if s.op == 'cat':
        # drop whole leading segments when provable
        a0 = s.args[0]
        n0 = seqlen(a0)
        if a is n0:
            return slice_(cat(*s.args[1:], sort=s.sort), I(0), n)
        if a.op == 'int' and a.pl == 0 and n is n0:
            return a0
        last = s.args[-1]
        if a.op == 'int' and a.pl == 0 and last.op == 'unit' and n is sub(seqlen(s), I(1)):
            return cat(*s.args[:-1], sort=s.sort)
        if a.op == 'int' and a0.op == 'unit' and a.pl >= 1:
            return slice_(cat(*s.args[1:], sort=s.sort), I(a.pl - 1), n)
    if s.op == 'slice':
        return slice_(s.args[0], add(s.args[1], a), n)
    if s.op == 'tab':
        k = fresh('j', Z, 0, None)
        return tab(n, lam([k], inst(s.args[1], [add(k, a)])), s.sort)
    if n.op == 'int' and n.pl == 1 and s.op in ('unit', 'cat'):
        return unit(seqat(s, a), s.sort)
    return raw('slice', (s, a, n), None, s.sort)


def rev(s):
    if s.op in ('nil', 'unit'):
        return s
    if s.op == 'rev':
        return s.args[0]
    if s.op == 'cat':
        return cat(*[rev(x) for x in reversed(s.args)], sort=s.sort)
    if s.op == 'tab':
        k = fresh('j', Z, 0, None)
        return tab(s.args[0], lam([k], inst(s.args[1], [sub(sub(s.args[0], I(1)), k)])), s.sort)
    return raw('rev', (s,), None, s.sort)


# ---------------------------------------------------------------- maps
def mempty(sort):
    return raw('mempty', (), None, sort)


def mdom(m, k):
    op = m.op
    if op == 'mempty':
        return FALSE
    if op == 'mstore':
        return or_(eq(m.args[1], k), mdom(m.args[0], k))
    if op == 'merase':
        return and_(not_(eq(m.args[1], k)), mdom(m.args[0], k))
    if op == 'ite':
        return ite(m.args[0], mdom(m.args[1], k), mdom(m.args[2], k))
    if op == 'mtab':
        return inst(m.args[0], [k])
    if k.op == 'mkey' and k.args[0] is m:
        return TRUE
    return raw('mdom', (m, k), None, BOOL)


def mval(m, k):
    op = m.op
    if op == 'mstore':
        return ite(eq(m.args[1], k), m.args[2], mval(m.args[0], k))
    if op == 'merase':
        return mval(m.args[0], k)
    if op == 'ite':
        a, b = m.args[1], m.args[2]
        if a.op == 'mempty':
            return mval(b, k)
        if b.op == 'mempty':
            return mval(a, k)
        return ite(m.args[0], mval(a, k), mval(b, k))
    if op == 'mtab':
        return inst(m.args[1], [k])
    return raw('mval', (m, k), None, m.sort[2])


def _unstored(m, k):
    """m with any earlier store to k removed: a map that agrees with m everywhere else."""
    if m.op == 'mstore' and m.args[1] is k:
        return _unstored(m.args[0], k)
    if m.op == 'ite':
        a, b = _unstored(m.args[1], k), _unstored(m.args[2], k)
        return a if a is b else m
    return m


def mstore(m, k, v):
    if m.op == 'ite':
        m = _unstored(m, k)
    if m.op == 'mstore' and m.args[1] is k:
        return mstore(m.args[0], k, v)
    if v.op == 'mval' and v.args[0] is m and v.args[1] is k and mdom(m, k) is TRUE:
        return m
    if m.op == 'mtab':
        q = fresh('q', m.sort[1])
        return mtab(lam([q], or_(eq(q, k), inst(m.args[0], [q]))),
                    lam([q], ite(eq(q, k), v, inst(m.args[1], [q]))), m.sort)
    return raw('mstore', (m, k, v), None, m.sort)


def merase(m, k):
    if m.op == 'mempty':
        return m
    if m.op == 'mstore' and m.args[1] is k:
        return merase(m.args[0], k)
    if m.op == 'merase' and m.args[1] is k:
        return m
    if m.op == 'mtab':
        q = fresh('q', m.sort[1])
        return mtab(lam([q], and_(not_(eq(q, k)), inst(m.args[0], [q]))), m.args[1], m.sort)
    return raw('merase', (m, k), None, m.sort)


def mtab(d, v, sort):
    # what the table holds outside its domain cannot be seen
    ov, od = _own(d)
    b = inst(v, ov)
    if b.op == 'ite' and od.op == 'not' and b.args[0] is od.args[0] and b.args[1].op == 'mval' and b.args[1].args[0].op == 'mempty':
        v = lam(list(ov), b.args[2])
    return raw('mtab', (d, v), None, sort)


def msize(m):
    if m.op == 'mempty':
        return I(0)
    if m.op == 'mstore':
        return add(msize(m.args[0]), ite(mdom(m.args[0], m.args[1]), I(0), I(1)))
    if m.op == 'merase':
        return sub(msize(m.args[0]), ite(mdom(m.args[0], m.args[1]), I(1), I(0)))
    if m.op == 'ite':
        return ite(m.args[0], msize(m.args[1]), msize(m.args[2]))
    return raw('msize', (m,), None, U64)


def mkey(m, i):
    """i-th key in the (unspecified) iteration order."""
    if m.op == 'mstore' and m.args[0].op == 'mempty':
        return m.args[1]
    return raw('mkey', (m, i), None, m.sort[1])


# ---------------------------------------------------------------- folds
# fold: pl=(labels, j, sorts) ; args = (n, init.., lam(k, s1..sm)->body_i ..) ; value: component j after n iterations
_foldmemo = {}


def fold(n, inits, lams, labels, j):
    """inits: list; lams: list of lam(k,s1..sm). Returns component j."""
    key = (n.id, tuple(x.id for x in inits), tuple(x.id for x in lams), tuple(labels), j)
    r = _foldmemo.get(key)
    if r is None:
        r = _fold(n, inits, lams, labels, j)
        _foldmemo[key] = r
    return r


def _fold(n, inits, lams, labels, j):
    m = len(inits)
    n = strip_nonneg(n)
    lams = [under_bound(n, l) for l in lams]
    if n.op == 'int':
        if n.pl <= 0:
            return inits[j]
        if n.pl <= 2:
            st = list(inits)
            for it in range(n.pl):
                st = [inst(l, [I(it)] + st) for l in lams]
            return st[j]
    nh = rng(n)[1]
    k = fresh('k', Z, 0, nh)
    ss = [fresh('s', inits[i].sort) for i in range(m)]
    bodies = [inst(l, [k] + ss) for l in lams]
    alive = list(range(m))
    for i in range(m):
        # iteration k changes only element k of this sequence: there element k is still the initial one
        if inits[i].sort[0] == 'S' and bodies[i] is not ss[i] and _only_at(bodies[i], ss[i], k):
            for a, b in ((seqat(ss[i], k), seqat(inits[i], k)), (seqlen(ss[i]), seqlen(inits[i]))):
                bodies = [replace(x, a, b) for x in bodies]
    while True:
        # unchanged components are replaced by their initial values
        ch = True
        while ch:
            ch = False
            for i in list(alive):
                if bodies[i] is ss[i] or bodies[i] is inits[i] and not any(s.id in bodies[i].fv for s in ss):
                    alive.remove(i)
                    if i == j:
                        return inits[j]
                    bodies = [subst(b, {ss[i]: inits[i]}) for b in bodies]
                    ch = True
        # dependency closure of component j
        need = {j}
        work = [j]
        while work:
            x = work.pop()
            for i in alive:
                if i not in need and ss[i].id in bodies[x].fv:
                    need.add(i)
                    work.append(i)
        alive = [i for i in alive if i in need]
        if len(alive) > 1:
            # solve self-contained components and substitute their closed form into the others
            prog = False
            for i in alive:
                if i == j:
                    continue
                if any(ss[x].id in bodies[i].fv for x in alive if x != i):
                    continue
                r = _fold1(k, inits[i], k2 := fresh('k', Z, 0, nh), ss[i], subst(bodies[i], {k: k2}), labels[i])
                if r is not None and r.op != 'fold':
                    alive.remove(i)
                    bodies = [subst(b, {ss[i]: r}) if x != i else b for x, b in enumerate(bodies)]
                    prog = True
                    break
            if prog:
                continue
        break
    idx = sorted(alive, key=lambda i: labels[i])
    r = _single_index(n, [inits[i] for i in idx], k, [ss[i] for i in idx], [bodies[i] for i in idx], idx.index(j))
    if r is not None:
        return r
    if len(idx) == 1:
        r = _fold1(n, inits[j], k, ss[j], bodies[j], labels[j])
        if r is not None:
            return r
    # record-valued single component is kept whole; split is done on projection
    lams2 = [lam([k] + [ss[i] for i in idx], bodies[i]) for i in idx]
    return raw('fold', [n] + [inits[i] for i in idx] + lams2,
               (('',) if len(idx) == 1 else tuple(labels[i] for i in idx), idx.index(j)), inits[j].sort)


def _only_at(b, s, k):
    if b.op == 'ite':
        return _only_at(b.args[1], s, k) and _only_at(b.args[2], s, k)
    return b is s or b.op == 'store' and b.args[0] is s and b.args[1] is k


def _eq_solutions(bs, k, avoid):
    """(eq term, t) for equations k == t with t independent of k and of the state."""
    out = []
    for x in {x.id: x for b in bs for x in subterms(b).values() if x.op == 'eq'}.values():
        if k.id in x.fv:
            t = _solve_eq(x, k)
            if t is not None and not any(a.id in t.fv for a in avoid):
                out.append((x, t))
    return out


def _single_index(n, inits, k, ss, bodies, j):
    """all components change in at most one iteration (k == t)."""
    if sum(b.size for b in bodies) > 20000:
        return None
    for q, t in _eq_solutions(bodies, k, ss):
        if all(replace(b, q, FALSE) is s for b, s in zip(bodies, ss)):
            m = {k: t}
            m.update({s: i for s, i in zip(ss, inits)})
            g = and_(ge0(t), lt(t, n))
            if g is FALSE:
                return inits[j]
            return ite(g, subst(bodies[j], m), inits[j])
    for q, m, t in _key_equations(bodies, k, n, ss):
        # the keys of a map are enumerated once each
        if all(replace(b, q, FALSE) is s for b, s in zip(bodies, ss)):
            b = subst(replace(replace(bodies[j], q, TRUE), raw('mkey', (m, k), None, m.sort[1]), t), dict(zip(ss, inits)))
            if k.id not in b.fv:
                return ite(mdom(m, t), b, inits[j])
    return None


def _key_equations(bs, k, n, avoid):
    """(eq term, map, t) for equations mkey(map, k) == t with t independent of k and of the state, n = |map|."""
    out = []
    for x in {x.id: x for b in bs for x in subterms(b).values() if x.op == 'eq'}.values():
        if k.id in x.fv:
            for a, t in (x.args, x.args[::-1]):
                if a.op == 'mkey' and a.args[1] is k and k.id not in t.fv and k.id not in a.args[0].fv \
                        and msize(a.args[0]) is n and not any(v.id in t.fv for v in avoid):
                    out.append((x, a.args[0], t))
    return out


def _localize(t, jv, depth=0):
    """under an equation  jv == T  rewrite T to jv (so element accesses become accesses at jv)."""
    if depth > 200 or jv.id not in t.fv:
        return t
    if t.op == 'ite':
        c, x, y = t.args
        for q in (c.args if c.op == 'and' else (c,)):
            if q.op == 'eq' and jv.id in q.fv:
                T = _solve_eq(q, jv)
                if T is not None and T.args:
                    x = replace(x, T, jv)
                elif T is not None and T.op == 'var':
                    x = subst(x, {T: jv})
        x = _localize(x, jv, depth + 1)
        y = _localize(y, jv, depth + 1)
        return ite(c, x, y)
    if t.op == 'rec':
        return rec(t.sort, [_localize(a, jv, depth + 1) for a in t.args])
    return t


def _delta(b, s):
    """what b adds to s, if that does not depend on s."""
    if b.op == 'ite':
        if s.id in b.args[0].fv:
            return None
        x, y = _delta(b.args[1], s), _delta(b.args[2], s)
        return None if x is None or y is None else ite(b.args[0], x, y)
    d = sub(b, s)
    return None if s.id in d.fv else d


def _leaf_types(b, s, ws):
    """is every outcome of b the state s or a value of one machine type (put into ws)?"""
    if b is s:
        return True
    if b.op == 'ite':
        return _leaf_types(b.args[1], s, ws) and _leaf_types(b.args[2], s, ws)
    if b.op == 'wrap':
        ws[b.pl] = 1
        return True
    if b.op == 'fold' and len(b.pl[0]) == 1 and _leaf_types(b.args[1], s, ws):
        (_, x), e = openlam(b.args[2])
        return _leaf_types(e, x, ws)
    return False


def _unwrap_leaves(b, s, ws):
    """b with arms  wrap(s + d)  replaced by  s + d  (conditions must not depend on s); None if not of this form."""
    if b is s:
        return b
    if b.op == 'ite':
        if s.id in b.args[0].fv:
            return None
        x, y = _unwrap_leaves(b.args[1], s, ws), _unwrap_leaves(b.args[2], s, ws)
        return None if x is None or y is None else ite(b.args[0], x, y)
    if b.op == 'wrap':
        d = sub(b.args[0], s)
        if s.id not in d.fv:
            ws[b.pl] = 1
            return b.args[0]
    return None


def _conditions(b, s):
    """conditions of b that depend on s."""
    return [x for x in {y.args[0].id: y.args[0] for y in subterms(b).values() if y.op == 'ite'}.values() if s.id in x.fv]


def _own2(k, s, b):
    k2, s2 = fresh('k', Z, 0, None), fresh('s', s.sort)
    return k2, s2, subst(b, {k: k2, s: s2})


def _one_value(b, s, k):
    """(condition, value) when b is an ite-tree with leaves s and one value free of s and k, conditions free of s."""
    vals = []

    def go(x, d):
        if x is s:
            return FALSE
        if x.op == 'ite' and d < 6 and s.id not in x.args[0].fv:
            p, q = go(x.args[1], d + 1), go(x.args[2], d + 1)
            return None if p is None or q is None else ite(x.args[0], p, q)
        if s.id in x.fv or k.id in x.fv or (vals and vals[0] is not x):
            return None
        vals.append(x)
        return TRUE
    c = go(b, 0)
    return (c, vals[0]) if c is not None and vals else None


def _idempotent(e, s):
    """e(e(s)) is e(s), decided by normal form for every alternative of s."""
    if s.sort[0] == 'V':
        alts = [inj(i, fresh('x', a), s.sort) for i, a in enumerate(s.sort[1])]
    elif s.sort[0] in ('R', 'M'):
        alts = [s]
    else:
        return False
    for a in alts:
        once = subst(e, {s: a})
        if subst(e, {s: once}) is not once:
            return False
    return True


def _fold1(n, init, k, s, b, label):
    """closed forms for a single-component fold."""
    if s.id not in b.fv:
        # last value wins
        return ite(gt(n, I(0)), subst(b, {k: sub(n, I(1))}), init)
    # single-index update: body = ite(k==t, E, s)
    if b.op == 'ite':
        c, x, y = b.args
        hit = None
        if y is s:
            hit = (c, x)
        elif x is s:
            hit = (not_(c), y)
        if hit:
            cc, e = hit
            cj = list(cc.args) if cc.op == 'and' else [cc]
            for q in cj:
                t = _solve_eq(q, k)
                if t is not None and s.id not in t.fv:
                    rest = and_(*[z for z in cj if z is not q])
                    if True:
                        guard = and_(ge(t, I(0)), lt(t, n), subst(rest, {k: t, s: init}))
                        return ite(guard, subst(e, {k: t, s: init}), init)
            if k.id not in b.fv and s.id not in e.fv:
                # constant update under a k-independent condition: idempotent?
                e2 = subst(b, {s: e})
                if e2 is e:
                    return ite(gt(n, I(0)), subst(b, {s: init}), init)
    # the same value assigned under conditions that do not depend on the value
    h = _one_value(b, s, k)
    if h is not None:
        return ite(exists_lt(n, lam([k], h[0])), h[1], init)
    # the same idempotent change made under conditions that do not depend on the value
    if b.op == 'ite' and (b.args[1] is s or b.args[2] is s):
        c, e = (b.args[0], b.args[1]) if b.args[2] is s else (not_(b.args[0]), b.args[2])
        if s.id not in c.fv and k.id not in e.fv and _idempotent(e, s):
            return ite(exists_lt(n, lam([k], c)), subst(e, {s: init}), init)
    if s.sort[0] == 'B':
        # any / all
        if b.op == 'or' and any(a is s for a in b.args):
            rest = or_(*[a for a in b.args if a is not s])
            if s.id not in rest.fv:
                return or_(init, exists_lt(n, lam([k], rest)))
        if b.op == 'and' and any(a is s for a in b.args):
            rest = and_(*[a for a in b.args if a is not s])
            if s.id not in rest.fv:
                return and_(init, forall_lt(n, lam([k], rest)))
        lo, hi = subst(b, {s: FALSE}), subst(b, {s: TRUE})
        if hi is TRUE:
            return or_(init, exists_lt(n, lam([k], lo)))
        if lo is FALSE:
            return and_(init, forall_lt(n, lam([k], hi)))
    if isint(s.sort):
        d = sub(b, s)
        if s.id not in d.fv:
            return add(init, isum(n, lam([k], d)))
        if rng(s) == (None, None):
            # a state which stays within the range of its type, from its initial value on
            ws = {}
            if _leaf_types(b, s, ws) and len(ws) == 1:
                lo, hi = srange(('I',) + list(ws)[0])
                il, ih = rng(init)
                if il is not None and ih is not None and il >= lo and ih <= hi:
                    s2 = fresh('s', s.sort, lo, hi)
                    r = _fold1(n, init, k, s2, subst(b, {s: s2}), label)
                    if r is not None and r.op != 'fold':
                        return r
        ws = {}
        u = _unwrap_leaves(b, s, ws)
        if u is not None and len(ws) == 1 and u is not b:
            r = _fold1(n, init, k, s, u, label)
            (w, sg), = ws
            lo, hi = srange(('I', w, sg))
            il, ih = rng(init)
            if r is not None and r.op != 'fold' and il is not None and ih is not None and il >= lo and ih <= hi:
                return wrap(w, sg, r)
        d = _delta(b, s)
        if d is not None:
            return add(init, isum(n, lam([k], d)))
    if s.sort[0] == 'S':
        c = lerase_guard(b, s, init, k)
        if c is not None:
            return cat(flat(n, lam([k], ite(c, nil(s.sort), unit(seqat(init, k), s.sort))), s.sort),
                       slice_(init, n, sub(seqlen(init), n)), sort=s.sort)
    if s.sort[0] == 'S' and seqlen(b) is seqlen(s):
        jv = fresh('j', Z, 0, None)
        bj = _localize(seqat(b, jv), jv)
        v = fresh('e', s.sort[1])
        bj = replace(bj, raw('seqat', (s, jv), None, s.sort[1]), v)
        bj = replace(bj, seqlen(s), seqlen(init))
        if s.id not in bj.fv:
            return tab(seqlen(init), lam([jv], fold(n, [seqat(init, jv)], [lam([k, v], bj)], [label + '[]'], 0)), s.sort)
    if s.sort[0] == 'V':
        if b.op == 'ite' and (b.args[1] is s or b.args[2] is s) and k.id not in b.args[0].fv and s.id not in b.args[0].fv:
            c, x = (b.args[0], b.args[1]) if b.args[2] is s else (not_(b.args[0]), b.args[2])
            i2 = init
            for q in c.args if c.op == 'and' else (c,):
                i2 = simp_under(i2, q, True)
            return ite(c, fold(n, [i2], [lam([k, s], x)], [label], 0), init)
        if init.op == 'ite' and init.args[1].op in ('inj', 'ite') and init.args[2].op in ('inj', 'ite'):
            c = init.args[0]
            return ite(c, *[fold(n, [i2], [lam([k, s], simp_under(b, c, h))], [label], 0)
                            for i2, h in ((init.args[1], True), (init.args[2], False))])
        if init.op == 'inj':
            # the alternative never changes
            y = fresh('y', init.args[0].sort)
            b2 = subst(b, {s: inj(init.pl, y, s.sort)})
            if vidx(b2) is I(init.pl):
                return inj(init.pl, fold(n, [init.args[0]], [lam([k, y], vget(b2, init.pl))], [label], 0), s.sort)
    if s.sort[0] == 'M':
        r = _fold_map(n, init, k, s, b, label)
        if r is not None:
            return r
    if s.sort[0] == 'S':
        sb = segs(b)
        if sb and sb[0] is s and all(s.id not in x.fv for x in sb[1:]):
            return cat(init, flat(n, lam([k], cat(*sb[1:], sort=s.sort)), s.sort), sort=s.sort)
        # guarded append: a guard on the sequence built so far is decided once its elements are known (induction)
        for c in _conditions(b, s):
            for val in (FALSE, TRUE):
                b2 = replace(b, c, val)
                if s.id in b2.fv and b2 is not s and b2.size < b.size:
                    g = _fold1(k, init, *_own2(k, s, b2), label)
                    if g is not None and not (g.op == 'fold') and subst(c, {s: g}) is val:
                        return _fold1(n, init, k, s, b2, label)
        r = _erase_ascending(n, init, k, s, b)
        if r is not None:
            return r
        if sb and sb[-1] is s and all(s.id not in x.fv for x in sb[:-1]):
            k2 = fresh('k', Z, 0, None)
            body = subst(cat(*sb[:-1], sort=s.sort), {k: sub(sub(n, I(1)), k2)})
            return cat(flat(n, lam([k2], body), s.sort), init, sort=s.sort)
    return None


def ascending(v):
    """v lists, in ascending order, the indexes i < m with c(i): returns (m, c) or None."""
    if v.op == 'tab':
        vs, b = _own(v.args[1])
        return (v.args[0], lam(vs, TRUE)) if b is vs[0] else None
    if v.op == 'flat':
        vs, b = _own(v.args[1])
        if b.op == 'ite':
            for x, y, c in ((b.args[1], b.args[2], b.args[0]), (b.args[2], b.args[1], not_(b.args[0]))):
                if y.op == 'nil' and x.op == 'unit' and x.args[0] is vs[0]:
                    return v.args[0], lam(vs, c)
    return None


def sorted_(v):
    if v.op == 'nil' or ascending(v) is not None:
        return v
    return uf('sorted', [v], v.sort)


def _erase_ascending(n, init, k, s, b):
    """erasing the elements with ascending distinct indexes F[0], F[1], .., one by one, each shifted by the number
    already erased, keeps the elements whose index is not in F."""
    c = None
    if b.op == 'ite' and s.id not in b.args[0].fv:
        if b.args[2] is s:
            c, b = b.args[0], b.args[1]
        elif b.args[1] is s:
            c, b = not_(b.args[0]), b.args[2]
    if b.op != 'cat' or len(b.args) != 2 or b.args[0].op != 'slice' or b.args[0].args[0] is not s:
        return None
    p = b.args[0].args[2]
    if b is not cat(slice_(s, I(0), p), slice_(s, add(p, I(1)), sub(sub(seqlen(s), I(1)), p)), sort=s.sort):
        return None
    if p.op == 'wrap' and p.pl[0] == 64:
        p = p.args[0]
    if c is not None:
        # the list of erased indexes is already unfolded: index k is erased iff c(k)
        i = fresh('i', Z, 0, rng(n)[1])
        if p is not sub(k, isum(k, lam([i], subst(ite(c, I(1), I(0)), {k: i})))):
            return None
        m, cl = n, lam([k], c)
    elif p.op == 'seqat' and p.args[1] is sub(sub(n, k), I(1)) and k.id not in p.args[0].fv and seqlen(p.args[0]) is n:
        # from the last index to the first: nothing is shifted
        a = ascending(p.args[0])
        if a is None:
            return None
        m, cl = a
    else:
        f = add(p, k)
        if f.op != 'seqat' or f.args[1] is not k or k.id in f.args[0].fv or seqlen(f.args[0]) is not n:
            return None
        a = ascending(f.args[0])
        if a is None:
            return None
        m, cl = a
    if ge0(sub(seqlen(init), m)) is not TRUE:
        return None
    vs, c = _own_avoid(cl, init.fv)
    return flat(seqlen(init), lam(vs, ite(and_(lt(vs[0], m), c), nil(s.sort), unit(seqat(init, vs[0]), s.sort))), s.sort)


def _split_keys(t, q):
    """case split on the equations  key == q  so that accesses at key become accesses at q."""
    for _ in range(4):
        sub_ = subterms(t)
        keys = {y.args[1].id: y.args[1] for y in sub_.values() if y.op in ('mdom', 'mval') and y.args[1] is not q}
        for key in keys.values():
            x = eq(key, q)
            if x.id not in sub_ or q.id in key.fv:
                continue
            t2 = ite(x, replace(replace(t, x, TRUE), key, q), replace(t, x, FALSE))
            if t2 is not t:
                t = t2
                break
        else:
            return t
    return t


def assume(t, c, depth=0):
    """simplify t under the truth of c (conjunctions, and universally quantified facts inside binders)."""
    if depth > 12:
        return t
    for a in (c.args if c.op == 'and' else (c,)):
        if a.op == 'forall':
            t = _assume_forall(t, a, depth)
        na = not_(a)
        if a.op == 'or' or na.op == 'and':
            # one of the disjuncts holds; keep the simplification only if every case agrees
            rs = {assume(t, x, depth + 1).id: assume(t, x, depth + 1) for x in (a.args if a.op == 'or' else [not_(x) for x in na.args])}
            if len(rs) == 1:
                t, = rs.values()
                continue
        t = replace(t, a, TRUE)
        t = replace(t, na, FALSE)
    return t


def _assume_forall(t, a, depth):
    n, l = a.args

    def go(x):
        if x.hb is False or x.size < 3:
            return x
        if x.op == 'lam':
            vs, b = _own(x)
            return lam(vs, go(b))
        if x.op in ('tab', 'flat', 'sum', 'fold', 'forall', 'least') and x.args[0] is n:
            na = []
            for y in x.args:
                if y.op == 'lam':
                    vs, b = _own_avoid(y, a.fv)
                    na.append(lam(vs, assume(b, inst(l, [vs[0]]), depth + 1)))
                else:
                    na.append(go(y))
        else:
            na = [go(y) for y in x.args]
        return build(x.op, na, x.pl, x.sort) if any(p is not q for p, q in zip(na, x.args)) else x
    return go(t)


def _guess_neutral(x, c, v):
    """x: new value as a function of old value v; c: value created when there is none.  Guess N with x[v:=N] == c."""
    if x is v:
        return c
    s = v.sort
    if s[0] == 'R':
        out = []
        for f, _ in rfields(s):
            o = raw('fld', (v,), f, dict(rfields(s))[f])
            r = _guess_neutral(fld(x, f), fld(c, f), o)
            if r is None:
                return None
            out.append(r)
        return rec(s, out)
    if x.op == 'ite' and c.op == 'ite' and x.args[0] is c.args[0]:
        if x.args[2] is v:
            return _guess_neutral(x.args[1], c.args[1], v)
        if x.args[1] is v:
            return _guess_neutral(x.args[2], c.args[2], v)
    if x.op == 'ite' and x.args[2] is v:
        return _guess_neutral(x.args[1], c, v)
    if x.op == 'ite' and x.args[1] is v:
        return _guess_neutral(x.args[2], c, v)
    if s[0] == 'S':
        sx = segs(x)
        if sx and (sx[0] is v and cat(*sx[1:], sort=s) is c or sx[-1] is v and cat(*sx[:-1], sort=s) is c):
            return nil(s)
        return None
    if isint(s):
        d = sub(x, v)
        if v.id not in d.fv and not any(y is v for y in subterms(d).values()):
            return sub(c, d)
    return None


def _eta(x):
    return rec(x.sort, [_eta(fld(x, f)) for f, _ in rfields(x.sort)]) if x.sort[0] == 'R' and rfields(x.sort) else x


def _upsert(n, ins, k, dv, vv, d2, v2, label):
    """'update the entry, creating it when missing': value of the entry at the end, if it exists then."""
    if subst(d2, {dv: TRUE}) is not TRUE:
        return None
    e = subst(d2, {dv: FALSE})
    if vv.id in e.fv or e is FALSE:
        return None
    vt, vf = subst(v2, {dv: TRUE}), subst(v2, {dv: FALSE})
    c = assume(vf, e)
    if vv.id in c.fv or assume(vf, not_(e)) is not vv:
        return None
    vte = assume(vt, e)
    nn = _guess_neutral(vte, c, vv)
    if nn is None or k.id in nn.fv or vv.id in nn.fv:
        return None
    at = subst(vt, {vv: nn})
    if _eta(assume(at, e)) is not _eta(assume(c, e)) or assume(at, not_(e)) is not nn:
        return None
    return fold(n, [ite(ins[0], ins[1], nn)], [lam([k, vv], vt)], [label], 0)


def _fold_map(n, init, k, s, b, label):
    """pointwise closed form of a fold over a map."""
    q = fresh('q', s.sort[1])
    d, v = _split_keys(mdom(b, q), q), _split_keys(mval(b, q), q)
    d0, v0 = raw('mdom', (s, q), None, BOOL), raw('mval', (s, q), None, s.sort[2])
    dv, vv = fresh('d', BOOL), fresh('v', s.sort[2])
    d2 = replace(replace(d, v0, vv), d0, dv)
    v2 = replace(replace(v, v0, vv), d0, dv)
    if s.id in d2.fv or s.id in v2.fv:
        return None
    ins = [mdom(init, q), mval(init, q)]
    lams = [lam([k, dv, vv], d2), lam([k, dv, vv], v2)]
    labs = [label + '{dom}', label + '{val}']
    nd = fold(n, ins, lams, labs, 0)
    if s.sort[2] == UNIT:
        return mtab(lam([q], nd), lam([q], UNITV), s.sort)
    r = _upsert(n, ins, k, dv, vv, d2, v2, labs[1])
    if r is not None:
        return mtab(lam([q], nd), lam([q], ite(nd, r, ins[1])), s.sort)
    nv = fold(n, ins, lams, labs, 1)
    return mtab(lam([q], nd), lam([q], nv), s.sort)


def _solve_eq(q, k):
    """q: equation solvable for k (coefficient +-1) -> term"""
    if q.op != 'eq' or not isint(q.args[0].sort):
        return None
    d = sub(q.args[0], q.args[1])
    c, dd = _lin(d)
    kk = dd.pop(k, 0)
    if abs(kk) != 1:
        return None
    rest = _mklin(c, dd)
    if k.id in rest.fv:
        return None
    return scale(-kk, rest)


def _fold_fld(t, f):
    """projection of a record-valued fold component: split per field."""
    labels, j = t.pl
    m = len(labels)
    n, inits, lams = t.args[0], list(t.args[1:1 + m]), list(t.args[1 + m:])
    if t.sort[0] != 'R':
        return None
    k = fresh('k', Z, 0, None)
    ninit, nss, labs, bodies, full = [], [], [], [], []
    pos = None
    for i in range(m):
        s = inits[i].sort
        if s[0] == 'R':
            comps = []
            for fn, fs in rfields(s):
                if i == j and fn == f:
                    pos = len(nss)
                v = fresh('s', fs)
                nss.append(v)
                comps.append(v)
                ninit.append(fld(inits[i], fn))
                labs.append(labels[i] + '.' + fn)
            full.append(rec(s, comps))
        else:
            v = fresh('s', s)
            nss.append(v)
            ninit.append(inits[i])
            labs.append(labels[i])
            full.append(v)
    for i in range(m):
        b = inst(lams[i], [k] + full)
        s = inits[i].sort
        if s[0] == 'R':
            for fn, fs in rfields(s):
                bodies.append(fld(b, fn))
        else:
            bodies.append(b)
    return fold(n, ninit, [lam([k] + nss, b) for b in bodies], labs, pos)


def forall_lt(n, l):
    n = strip_nonneg(n)
    l = under_bound(n, l)
    vs, b = _own(l)
    if b is TRUE:
        return TRUE
    if vs[0].id not in b.fv:
        return or_(le(n, I(0)), b)
    if n.op == 'int' and n.pl <= 4:
        return and_(*[inst(l, [I(i)]) for i in range(n.pl)])
    if n.op == 'msize':
        for q, m, t in _key_equations([b], vs[0], n, ()):
            if replace(b, q, FALSE) is TRUE:
                r = replace(replace(b, q, TRUE), raw('mkey', (m, vs[0]), None, m.sort[1]), t)
                if vs[0].id not in r.fv:
                    return or_(not_(mdom(m, t)), r)
    return raw('forall', (n, l), None, BOOL)


def exists_lt(n, l):
    vs, b = _own(l)
    return not_(forall_lt(n, lam(vs, not_(b))))


def least(n, l):
    """smallest k in [0,n) with l(k), or n."""
    vs, b = _own(l)
    if b is FALSE:
        return nonneg(n)
    if b is TRUE:
        return I(0)
    if vs[0].id not in b.fv:
        return ite(b, I(0), nonneg(n))
    if n.op == 'int' and n.pl <= 4:
        r = I(max(n.pl, 0))
        for i in reversed(range(n.pl)):
            r = ite(inst(l, [I(i)]), I(i), r)
        return r
    if b.op == 'ge0' or b.op == 'and' and all(x.op == 'ge0' for x in b.args):
        # from some number on
        ts = [sub(vs[0], x.args[0]) for x in (b.args if b.op == 'and' else (b,))]
        if not any(vs[0].id in t.fv for t in ts):
            t, n = nonneg(ts[0]), nonneg(n)
            for u in ts[1:]:
                u = nonneg(u)
                t = ite(lt(t, u), u, t)
            return ite(lt(t, n), t, n)
    return raw('least', (n, l), None, Z)


# ---------------------------------------------------------------- floats
def fop(op, *a):
    s = a[0].sort
    if op == 'f-':
        return fop('f+', a[0], fneg(a[1]))
    if op in ('f+', 'f*', 'f/'):
        if all(x.op == 'flt' for x in a):
            try:
                x, y = fltpy(a[0]), fltpy(a[1])
                if op == 'f/' and y == 0:
                    raise ValueError
                r = x + y if op == 'f+' else x * y if op == 'f*' else x / y
                if s[1] == 64 or op in ('f+', 'f*', 'f/'):
                    return fltval(r, s[1])
            except (ValueError, OverflowError):
                pass
        if op == 'f*':
            x, y = a
            neg = False
            if x.op == 'fneg':
                x = x.args[0]
                neg = not neg
            if y.op == 'fneg':
                y = y.args[0]
                neg = not neg
            if x.op == 'flt' and fltpy(x) == 1.0:
                r = y
            elif y.op == 'flt' and fltpy(y) == 1.0:
                r = x
            else:
                if x.id > y.id:
                    x, y = y, x
                r = raw('f*', (x, y), None, s)
            return fneg(r) if neg else r
        if op == 'f/':
            x, y = a
            if x.op == 'fneg':
                return fneg(fop('f/', x.args[0], y))
            if y.op == 'flt' and fltpy(y) == 1.0:
                return x
            return raw('f/', (x, y), None, s)
        x, y = a
        if x.id > y.id:
            x, y = y, x
        return raw('f+', (x, y), None, s)
    raise KeyError(op)


def fneg(a):
    if a.op == 'fneg':
        return a.args[0]
    if a.op == 'flt':
        return FLT(a.sort[1], a.pl ^ (1 << (a.sort[1] - 1)))
    if a.op == 'ite':
        return ite(a.args[0], fneg(a.args[1]), fneg(a.args[2]))
    return raw('fneg', (a,), None, a.sort)


def flt_(a, b):
    if a.op == 'flt' and b.op == 'flt':
        return B(fltpy(a) < fltpy(b))
    if a is b:
        return FALSE
    if a.op == 'fneg' and b.op == 'fneg':
        return flt_(b.args[0], a.args[0])
    return raw('f<', (a, b), None, BOOL)


def fle_(a, b):
    if a.op == 'flt' and b.op == 'flt':
        return B(fltpy(a) <= fltpy(b))
    return raw('f<=', (a, b), None, BOOL)


def feq(a, b):
    if a.op == 'flt' and b.op == 'flt':
        return B(fltpy(a) == fltpy(b))
    if a.id > b.id:
        a, b = b, a
    return raw('f==', (a, b), None, BOOL)


def i2f(w, a, src=None):
    if a.op == 'int':
        try:
            return fltval(float(a.pl), w) if abs(a.pl) < (1 << 24) else FLT(w, _i2fbits(w, a.pl))
        except OverflowError:
            pass
    if a.op == 'ite' and a.args[1].op == 'int' and a.args[2].op == 'int':
        return ite(a.args[0], i2f(w, a.args[1]), i2f(w, a.args[2]))
    return raw('i2f', (a,), w, ('F', w))


def _i2fbits(w, n):
    from fractions import Fraction
    if w == 64:
        return fltval(float(n), 64).pl
    import numpy as np
    return int(np.array([n], dtype=object).astype(np.float32).view(np.uint32)[0]) if False else fltval(_rn32(n), 32).pl


def _rn32(n):
    # round-to-nearest-even int -> float32 value
    s = -1 if n < 0 else 1
    n = abs(n)
    sh = max(0, n.bit_length() - 24)
    q, r = n >> sh, n & ((1 << sh) - 1)
    if sh and (r > (1 << (sh - 1)) or (r == (1 << (sh - 1)) and q & 1)):
        q += 1
    return float(s * (q << sh))


def f2f(w, a):
    if a.sort[1] == w:
        return a
    if a.op == 'flt':
        try:
            return fltval(fltpy(a), w)
        except OverflowError:
            pass
    if a.op == 'f2f' and a.sort[1] == 64 and w == 32 and a.args[0].sort[1] == 32:
        return a.args[0]
    if a.op == 'fneg':
        return fneg(f2f(w, a.args[0]))
    if a.op == 'ite' and (a.args[1].op == 'flt' or a.args[2].op == 'flt'):
        return ite(a.args[0], f2f(w, a.args[1]), f2f(w, a.args[2]))
    return raw('f2f', (a,), w, ('F', w))


def f2i(sort, a):
    if a.op == 'flt':
        return I(int(fltpy(a)))
    if a.op == 'i2f' and a.sort[1] == 64 and rng(a.args[0])[0] is not None and rng(a.args[0])[1] is not None \
            and -(1 << 53) <= rng(a.args[0])[0] and rng(a.args[0])[1] <= (1 << 53):
        return a.args[0]
    return raw('f2i', (a,), sort[1:], sort)


def uf(name, args, sort):
    return raw('uf', args, name, sort)


def loc(root, steps=(), args=()):
    return raw('loc', args, (root, tuple(steps)), LOC)


def numbers(t, cache=None):
    """the same term for numbers only: no NaN (then a <= b is not b < a) and -0.0 taken for 0.0."""
    cache = {} if cache is None else cache
    r = cache.get(t.id)
    if r is not None:
        return r
    if not t.args:
        r = t
    elif t.op == 'lam':
        vs, body = _own(t)
        r = lam(vs, numbers(body, cache))
    else:
        a = [numbers(x, cache) for x in t.args]
        if t.op == 'f<=':
            r = not_(flt_(a[1], a[0]))
        else:
            r = t if all(x is y for x, y in zip(a, t.args)) else build(t.op, a, t.pl, t.sort)
        if r.op == 'ite' and r.sort[0] == 'F':
            c, x, y = r.args
            if c.op == 'not' and c.args[0].op == 'f<':
                c, x, y = c.args[0], y, x
            if c.op == 'f<':
                p, q = c.args
                if (x is p and y is q) or (x is q and y is p):
                    # the smaller / larger of two numbers
                    r = raw('uf', sorted((p, q), key=lambda z: z.id), 'min' if x is p else 'max', r.sort)
    cache[t.id] = r
    return r


# ---------------------------------------------------------------- generic rebuild
def build(op, args, pl, sort):
    f = _B.get(op)
    if f is not None:
        return f(args, pl, sort)
    return raw(op, args, pl, sort)


def _b_lin(args, pl, sort):
    c, ks = pl
    return add(I(c), *[scale(k, a) for k, a in zip(ks, args)])


def _b_fold(args, pl, sort):
    m = len(pl[0])
    return fold(args[0], list(args[1:1 + m]), list(args[1 + m:]), list(pl[0]), pl[1])


_B = {
    'lin': _b_lin,
    'mul': lambda a, p, s: mul(*a),
    'div': lambda a, p, s: idiv(*a),
    'mod': lambda a, p, s: imod(*a),
    'wrap': lambda a, p, s: wrap(p[0], p[1], a[0]),
    'not': lambda a, p, s: not_(a[0]),
    'and': lambda a, p, s: and_(*a),
    'or': lambda a, p, s: or_(*a),
    'ge0': lambda a, p, s: ge0(a[0]),
    'eq': lambda a, p, s: eq(*a),
    'ite': lambda a, p, s: ite(*a),
    'rec': lambda a, p, s: rec(s, a),
    'fld': lambda a, p, s: fld(a[0], p),
    'some': lambda a, p, s: raw('some', a, p, s),
    'has': lambda a, p, s: has(a[0]),
    'oget': lambda a, p, s: oget(a[0]),
    'vidx': lambda a, p, s: vidx(a[0]),
    'vget': lambda a, p, s: vget(a[0], p),
    'cat': lambda a, p, s: cat(*a, sort=s),
    'tab': lambda a, p, s: tab(a[0], a[1], s),
    'flat': lambda a, p, s: flat(a[0], a[1], s),
    'store': lambda a, p, s: store(*a),
    'seqlen': lambda a, p, s: seqlen(a[0]),
    'seqat': lambda a, p, s: seqat(*a),
    'slice': lambda a, p, s: slice_(*a),
    'lerase': lambda a, p, s: lerase(*a),
    'rev': lambda a, p, s: rev(a[0]),
    'mdom': lambda a, p, s: mdom(*a),
    'mval': lambda a, p, s: mval(*a),
    'mstore': lambda a, p, s: mstore(*a),
    'merase': lambda a, p, s: merase(*a),
    'msize': lambda a, p, s: msize(a[0]),
    'mkey': lambda a, p, s: mkey(*a),
    'fold': _b_fold,
    'sum': lambda a, p, s: isum(*a),
    'forall': lambda a, p, s: forall_lt(*a),
    'least': lambda a, p, s: least(*a),
    'f+': lambda a, p, s: fop('f+', *a),
    'f*': lambda a, p, s: fop('f*', *a),
    'f/': lambda a, p, s: fop('f/', *a),
    'fneg': lambda a, p, s: fneg(a[0]),
    'f<': lambda a, p, s: flt_(*a),
    'f<=': lambda a, p, s: fle_(*a),
    'f==': lambda a, p, s: feq(*a),
    'i2f': lambda a, p, s: i2f(p, a[0]),
    'f2f': lambda a, p, s: f2f(p, a[0]),
    'f2i': lambda a, p, s: f2i(s, a[0]),
}


# ---------------------------------------------------------------- printing
def show(t, d=0, maxd=60):
    if d > maxd:
        return '...'
    op = t.op
    A = lambda i: show(t.args[i], d + 1, maxd)
    if op == 'var':
        return t.pl[0]
    if op == 'bv':
        return '$%d' % t.pl[0]
    if op == 'int':
        return str(t.pl)
    if op == 'flt':
        return repr(fltpy(t)) + ('f' if t.sort[1] == 32 else '')
    if op == 'str':
        return repr(t.pl)
    if op in ('true', 'false', 'null', 'nil', 'none', 'mempty', 'unitv'):
        return op
    if op == 'lin':
        out = []
        for a, k in zip(t.args, t.pl[1]):
            out.append(('%s' if k == 1 else '-%s' if k == -1 else '%d*%%s' % k) % show(a, d + 1, maxd))
        if t.pl[0]:
            out.append(str(t.pl[0]))
        return '(' + ' + '.join(out) + ')'
    if op == 'lam':
        vs, b = _own(t)
        return 'λ%s.%s' % (','.join(v.pl[0] for v in vs), show(b, d + 1, maxd))
    if op == 'fld':
        return '%s.%s' % (A(0), t.pl)
    if op == 'rec':
        return '{%s}' % ', '.join('%s=%s' % (f, show(a, d + 1, maxd)) for (f, _), a in zip(rfields(t.sort), t.args))
    if op == 'ge0':
        return '0<=%s' % A(0)
    if op == 'eq':
        return '(%s == %s)' % (A(0), A(1))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % (A(0), A(1), A(2))
    if op in ('and', 'or', 'f+', 'f*', 'f/', 'f<', 'f<=', 'f==', 'mul', 'div', 'mod'):
        return '(' + (' %s ' % op).join(show(a, d + 1, maxd) for a in t.args) + ')'
    if op == 'seqat':
        return '%s[%s]' % (A(0), A(1))
    if op == 'seqlen':
        return '|%s|' % A(0)
    if op == 'loc':
        i = 0
        s = '&' + str(t.pl[0])
        for st in t.pl[1]:
            if st[0] == 'f':
                s += '.' + st[1]
            elif st[0] in 'ik':
                s += '[%s]' % show(t.args[i], d + 1, maxd)
                i += 1
            else:
                s += '<%s>' % (st[1] if len(st) > 1 else st[0])
        return s
    nm = op
    if op in ('uf', 'fold', 'wrap', 'inj', 'vget', 'i2f', 'f2f', 'f2i') and t.pl is not None:
        nm = '%s:%s' % (op, t.pl)
    return nm + '(' + ', '.join(show(a, d + 1, maxd) for a in t.args) + ')'
