"""Assumed contracts of the C++ library functions used by the code under verification.

Every model that is used in a run is recorded in ex.used_lib and reported as trusted.
"""
from ir import *
import re

import ir

ITS = ('IT',)


def vit(l, i):
    return raw('vit', (l, i), None, ITS)


def mit(l, valid, key):
    return raw('mit', (l, valid, key), None, ITS)


def effects(e):
    if isinstance(e, dict):
        if '_eff' not in e:
            e['_eff'] = e.get('k') in ('Call', 'MCall', 'Assign', 'Inc', 'Un', 'Ctor') and (
                e['k'] not in ('Un', 'Ctor') or any(effects(x) for x in e.values())) or \
                any(effects(x) for n, x in e.items() if n != '_eff')
        return e['_eff']
    if isinstance(e, list):
        return any(effects(x) for x in e)
    return False


class Args:
    def __init__(self, ex, f, args, st, fr):
        self.ex, self.f, self.a, self.st, self.fr = ex, f, args, st, fr
        self.c = {}

    def __len__(self):
        return len(self.a)

    def t(self, i):
        return self.ex.p.strip(self.a[i]['t'])

    def v(self, i):
        k = ('v', i)
        if k not in self.c:
            if ('l', i) in self.c:
                self.c[k] = self.ex.read(self.c[('l', i)], self.st)
            elif self.a[i].get('vc') in ('l', 'x') and effects(self.a[i]):
                self.c[k] = self.ex.read(self.l(i), self.st)   # evaluated once only
            else:
                self.c[k] = self.ex.val(self.a[i], self.st, self.fr)
        return self.c[k]

    def l(self, i):
        k = ('l', i)
        if k not in self.c:
            if ('v', i) in self.c and self.a[i].get('vc') not in ('l', 'x'):
                self.c[k] = self.ex.new_root(self.ex.p.sort(self.a[i]['t']), self.c[('v', i)], self.st, 'tmp')
            else:
                self.c[k] = self.ex.lv(self.a[i], self.st, self.fr)
        return self.c[k]

    def prefetch(self):
        """arguments with possible side effects are evaluated before the callee reads its object."""
        for i, a in enumerate(self.a):
            if a.get('vc') == 'p' and effects(a):
                self.v(i)

    def isx(self, i):
        return self.a[i].get('vc') == 'x'


class Lib:
    def __init__(self, ex):
        self.ex = ex

    # ------------------------------------------------------------ entry points
    def call(self, f, this, e, args, st, fr):
        n = f['n']
        m = M.get(n)
        if m is None:
            for pre, h in P:
                if n.startswith(pre):
                    m = h
                    break
        if m is None and 'lib:' + n not in self.ex.contracts:
            from exe import Unsupported
            raise Unsupported('no contract for library function %s' % n)
        self.ex.used_lib.add(n)
        A = Args(self.ex, f, args, st, fr)
        h = self.ex.contracts.get('lib:' + n)
        if h is not None:
            r = h(self.ex, f, this, A, st)
            if r is not NotImplemented:
                return r
        if this is not None and not n.startswith(('std::function', 'std::basic_ostream', 'spdlog')):
            A.prefetch()
        return m(self, f, this, e, A, st)

    def ctor(self, f, e, t, args, st, fr):
        from exe import Unsupported
        ex = self.ex
        s = ex.p.sort(t)
        n = f['n']
        A = Args(ex, f, args, st, fr)
        self.ex.used_lib.add(n)
        args = [a for a in args]
        h = ex.contracts.get('lib:' + n)
        if h is not None:
            return h(ex, f, None, A, st)
        if s[0] == 'S':
            return self.ctor_seq(f, t, s, A, st)
        if s[0] == 'M':
            if not args:
                return mempty(s)
            s0 = ex.p.sort(A.t(0))
            if s0 == s:
                return A.v(0)
            if s0[0] == 'S':
                return self.map_from_seq(s, A.v(0), st)
            if s0 == ITS:
                return self.map_from_seq(s, self.range_val(A.v(0), A.v(1), st), st)
            if s0[0] == 'I' or len(args) == 0:
                return mempty(s)
            raise Unsupported('map constructor')
        if s[0] == 'OPT':
            if not args:
                return none(s[1])
            s0 = ex.p.sort(A.t(0))
            if s0 == s:
                return A.v(0)
            if ex.p.ts(A.t(0)).get('n') == 'std::nullopt_t':
                return none(s[1])
            return raw('some', (self.conv_to(A.v(0), s[1]),), None, s)
        if s[0] == 'V':
            if not args:
                return ex.default(t, st)
            s0 = ex.p.sort(A.t(0))
            if s0 == s:
                return A.v(0)
            for i, a in enumerate(ex.p._pack(t)):
                if ex.p.sort(a) == s0 and ex.p.ts(a)['s'] == ex.p.ts(A.t(0))['s'].replace('const ', ''):
                    return inj(i, A.v(0), s)
            for i, a in enumerate(s[1]):
                if a == s0:
                    return inj(i, A.v(0), s)
            raise Unsupported('variant constructor')
        if s[0] == 'R':
            x = ex.p.ts(t)
            if x['n'] in ('std::pair', 'std::tuple'):
                fs = rfields(s)
                if not args:
                    return ex.default(t, st)
                if len(args) == 1 and len(fs) != 1 or len(args) == 1 and ex.p.sort(A.t(0)) == s:
                    v = A.v(0)
                    if v.sort == s:
                        return v
                    return rec(s, [self.conv_to(fld(v, g), ss) for (g, _), (_, ss) in zip(rfields(v.sort), fs)])
                pt = ex.p._pack(t)
                out = []
                for i, ((_, ss), q) in enumerate(zip(fs, pt)):
                    if ex.p.ts(q)['k'] == 'ref':
                        out.append(A.l(i))
                    else:
                        v = A.v(i)
                        if ss[0] in 'IBEF' and ex.p.strip(A.a[i]['t']) != q:
                            v = ex.conv(v, ex.p.strip(A.a[i]['t']), q, st)
                        out.append(self.conv_to(v, ss))
                return rec(s, out)
            raise Unsupported('constructor %s' % n)
        if s[0] == 'L':
            x = ex.p.ts(t)
            if x['n'] == 'std::reference_wrapper':
                if ex.p.sort(A.t(0)) == LOC and ex.p.ts(A.t(0)).get('n') == 'std::reference_wrapper':
                    return A.v(0)
                return A.l(0)
            if not args:
                return NULL
            return self.upcast(A.v(0), A.t(0), t)
        if s == ITS:
            return A.v(0)
        if s[0] == 'FN':
            if not args or A.t(0) is not None and ex.p.ts(A.t(0)).get('s') in ('std::nullptr_t', 'nullptr_t'):
                return raw('nofn', (), None, s)
            return A.v(0)
        if s == ('O', 'string'):
            if not args:
                return S('')
            if len(args) <= 2 and ex.p.sort(A.t(0)) in (LOC, s):
                v = A.v(0)
                if v.sort == LOC:
                    v = ex.read(v, st)
                return v
            return uf('string', [A.v(i) for i in range(len(args)) if ex.p.sort(A.t(i))[0] in 'IO'], s)
        if s[0] == 'O':
            if args and ex.p.sort(A.t(0)) == s:
                return A.v(0)
            if any(w in n for w in ('lock_guard', 'runtime_error', 'logic_error', 'invalid_argument', 'out_of_range',
                                    'allocator', 'noncopyable', 'exception', 'unique_lock', 'thread_pool')):
                return raw('defobj', (), None, s)
            c = CT.get(n)
            if c:
                return c(self, f, t, A, st)
            if n in ('std::mersenne_twister_engine::mersenne_twister_engine', 'std::random_device::random_device') or \
                    re.match(r'std::uniform_(int|real)_distribution::', n):
                return uf('random:' + n.split('::')[1], [A.v(i) for i in range(len(args))], s)
            if n == 'boost::uuids::basic_name_generator::basic_name_generator':
                # names of a name space
                return uf('names', [A.v(0)], s)
            if not args:
                return raw('defobj', (), None, s)
        raise Unsupported('no contract for constructor %s' % n)

    def conv_to(self, v, s):
        """implicit conversions between library wrappers."""
        if v.sort == s:
            return v
        if s[0] == 'I' and isint(v.sort):
            return wrap(s[1], s[2], v)
        if s[0] == 'F' and (isint(v.sort) or v.sort[0] == 'F'):
            raise self.uns('conversion of a number by a library function')
        if s[0] in 'IBEFZ':
            return v
        if s[0] == 'OPT' and v.sort[0] != 'OPT':
            return raw('some', (self.conv_to(v, s[1]),), None, s)
        if s[0] == 'V' and v.sort[0] != 'V':
            for i, a in enumerate(s[1]):
                if a == v.sort:
                    return inj(i, v, s)
        return v

    def range_of(self, l, t, st):
        """location of the inner vector of a class iterated through begin()/end()."""
        ex = self.ex
        n = ex.p.ts(t)['n']
        for i, f in ex.p.fns.items():
            if f.get('cls') is not None and 'body' in f and f['sn'] == 'begin' and \
                    ex.p.ts(f['cls'])['s'].replace('const ', '') == ex.p.ts(t)['s'].replace('const ', ''):
                s2 = st.copy()
                r = ex.call(f, l, [], s2)
                if r.op == 'vit' and r.args[1] is I(0):
                    return r.args[0]
        return None

    # ------------------------------------------------------------ sequences
    def upcast(self, v, tf, tt):
        """conversion of smart pointers to a base class."""
        ex = self.ex
        x, y = ex.p.ts(tf), ex.p.ts(tt)
        if x['k'] != 'rec' or not x['n'].endswith('_ptr') or not y['n'].endswith('_ptr') or v.op != 'loc':
            return v
        a, b = ex.p.strip(ex.p.ta(tf, 0)), ex.p.strip(ex.p.ta(tt, 0))
        sa, sb = ex.p.sort(a), ex.p.sort(b)
        if sa[0] != 'R' or sb[0] != 'R' or sa == sb:
            return v
        for c in ex.basepath(a, b) or ():
            nm = '@' + ex.p.ts(c)['s']
            if any(f == nm for f, _ in rfields(sa)):
                v = ex.step(v, ('f', nm))
            sa = ex.p.sort(c)
        return v

    def ctor_seq(self, f, t, s, A, st):
        from exe import Unsupported
        ex = self.ex
        x = ex.p.ts(t)
        if x['n'] == 'boost::multi_index::multi_index_container':
            return nil(s) if len(A) == 0 or ex.p.sort(A.t(0)) != s else A.v(0)
        n = len(A)
        if n and ex.p.ts(A.t(n - 1)).get('n') == 'std::allocator':
            n -= 1
        if n == 0:
            return nil(s)
        s0 = ex.p.sort(A.t(0))
        if s0[0] == 'S' and n == 1:
            v = A.v(0)
            return v
        if (s0 == ITS or s0 == LOC and s[1] != LOC) and n == 2 and ex.p.sort(A.t(1)) == s0:
            r = self.range_val(A.v(0), A.v(1), st)
            if r.sort != s:
                k = fresh('j', Z, 0)
                r = self.remap(r, s, ex.p.ta(t, 0), st)
            return r
        if s0[0] == 'I':
            el = ex.p.ta(t, 0)
            cnt = A.v(0)
            d = A.v(1) if n == 2 else ex.default(el, st)
            return tab(cnt, lam([fresh('j', Z, 0)], d), s)
        raise Unsupported('vector constructor')

    def elems(self, r, s):
        """the elements of sequence r as elements of a sequence of sort s."""
        if r.sort == s or r.sort[0] != 'S' or s[0] != 'S' or not (isint(r.sort[1]) and s[1][0] == 'I'):
            return r
        k = fresh('j', Z, 0)
        return tab(seqlen(r), lam([k], wrap(s[1][1], s[1][2], seqat(r, k))), s)

    def remap(self, r, s, elt, st):
        if isint(r.sort[1]) and isint(s[1]):
            k = fresh('j', Z, 0)
            x = self.ex.p.ts(elt)
            return tab(seqlen(r), lam([k], wrap(x['w'], x['sg'], seqat(r, k))), s)
        return r

    def range_val(self, a, b, st):
        """sequence value of iterator range [a,b)."""
        from exe import Unsupported
        ex = self.ex
        if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0] and len(a.args) == 2:
            v = ex.read(a.args[0], st)
            return slice_(v, a.args[1], sub(b.args[1], a.args[1]))
        if a.op == 'vit' and len(a.args) == 3 and a.args[1] is I(0) and b.op == 'mit' and b.args[1] is FALSE:
            m = ex.read(a.args[0], st)
            k = fresh('j', Z, 0)
            if m.sort[2] == UNIT:
                return tab(msize(m), lam([k], mkey(m, k)), ('S', m.sort[1]))
            ps = recsort(('pair', m.sort[1], m.sort[2]), [('first', m.sort[1]), ('second', m.sort[2])])
            return tab(msize(m), lam([k], rec(ps, [mkey(m, k), mval(m, mkey(m, k))])), ('S', ps))
        if a.op == 'loc' and b.op == 'loc' and a.pl == b.pl and a.pl[1] and a.pl[1][-1] == ('i',):
            v = ex.read(loc(a.pl[0], a.pl[1][:-1], a.args[:-1]), st)
            return slice_(v, a.args[-1], sub(b.args[-1], a.args[-1]))
        raise Unsupported('iterator range %s .. %s' % (show(a)[:80], show(b)[:80]))

    def map_from_seq(self, s, v, st):
        """set built from a sequence."""
        q = fresh('q', s[1])
        if s[2] == UNIT:
            return self.set_union(mempty(s), v)
        m = fold_seq(mempty(s), v, lambda acc, x: mstore_new(acc, fld(x, 'first'), fld(x, 'second')))
        return m

    def set_union(self, m, v):
        """insert every element of sequence v."""
        for sg in segs(v):
            if sg.op == 'unit':
                m = mstore(m, sg.args[0], UNITV)
            elif sg.op == 'nil':
                pass
            else:
                k = fresh('k', Z, 0)
                s = fresh('s', m.sort)
                m = fold(seqlen(sg), [m], [lam([k, s], mstore(s, seqat(sg, k), UNITV))], ['set'], 0)
        return m

    # ------------------------------------------------------------ function values
    def call_fnval(self, c, e, args, st, avs=None):
        if '@apply' in self.ex.contracts:
            return self.apply(c, args, st, e['t'])
        raise self.uns('indirect call')

    def uns(self, t):
        from exe import Unsupported
        return Unsupported(t)

    def apply(self, c, avs, st, ret=None, reft=None, at=None):
        """call function value c with locations/values avs; at: where the function object is kept."""
        ex = self.ex
        if c.sort == LOC:
            at = c
            c = ex.read(c, st)
        if c.sort[0] == 'R':
            return self.apply_object(c, avs, st, at)
        if c.op == 'ite':
            return ex.branch(c.args[0], lambda s: self.apply(c.args[1], avs, s, ret),
                             lambda s: self.apply(c.args[2], avs, s, ret), st)
        if c.op in ('clos', 'fnref'):
            return self.apply_closure(c, avs, st, at)
        if '@apply' in ex.contracts:
            return ex.contracts['@apply'](ex, c, avs, st, ret)
        if c.op in ('var', 'fld', 'seqat', 'uf') and ret is not None:
            # unknown callable supplied by the user: an uninterpreted function of the call number and arguments
            n = st.mem.get('ghost:calls', I(0))
            vs = []
            for a in avs:
                vs.append(ex.read(a, st) if a.sort == LOC and a.op == 'loc' else a)
            st.mem['ghost:calls'] = add(n, I(1))
            return uf('call', [c, n] + vs, ex.p.sort(ret)) if ex.p.sort(ret) != UNIT else UNITV
        raise self.uns('call of unknown function object %s' % show(c)[:80])

    def apply_object(self, c, avs, st, at):
        """object of a class with a call operator: its state stays where the object is kept."""
        ex = self.ex
        cands = [f for f in ex.p.fns_all() if 'body' in f and f['sn'] == 'operator()' and f.get('cls') is not None and
                 ex.p.sort(f['cls']) == c.sort and len(f['params']) == len(avs)]
        if len(cands) != 1:
            raise self.uns('call operator of %s' % c.sort[1])
        f, = cands
        if at is None or at.sort != LOC:
            at = ex.new_root(c.sort, c, st, 'functor')
        return ex.call(f, at, self.fit(f, avs, st), st)

    def fit(self, f, avs, st):
        ex = self.ex
        out = []
        for q, a in zip(f['params'], avs):
            if ex.p.ts(q['t'])['k'] == 'ref':
                if a.sort != LOC or a.op not in ('loc', 'ite'):
                    a = ex.new_root(a.sort, a, st, 'arg')
            elif a.sort == LOC and a.op in ('loc', 'ite') and ex.p.sort(q['t']) != LOC:
                a = ex.read(a, st)
            out.append(a)
        return out

    def apply_closure(self, c, avs, st, at=None):
        ex = self.ex
        if c.op == 'fnref':
            f = ex.p.fns[c.pl]
        else:
            cl = ex.p.recs[c.pl]['calls']
            cands = [i for i in cl if 'body' in ex.p.fns[i] and len(ex.p.fns[i]['params']) == len(avs)]
            if len(cands) > 1:
                cands = [i for i in cands if all(self.accepts(q['t'], a, st)
                                                 for q, a in zip(ex.p.fns[i]['params'], avs))]
            if len(cands) != 1:
                raise self.uns('ambiguous closure call (%d)' % len(cands))
            f = ex.p.fns[cands[0]]
        out = []
        for q, a in zip(f['params'], avs):
            isref = ex.p.ts(q['t'])['k'] == 'ref'
            s = ex.p.sort(ex.p.strip(q['t']))
            if isref:
                out.append(a if a.sort == LOC and (s != LOC or a.op == 'loc' and self.holds_loc(a, st)) else
                           ex.new_root(s, a, st, 'arg'))
            else:
                if a.sort == LOC and s != LOC:
                    a = ex.read(a, st)
                elif a.sort == LOC and s == LOC and self.holds_loc(a, st):
                    a = ex.read(a, st)
                out.append(a)
        if c.op == 'fnref':
            return ex.call(f, None, out, st)
        return ex.call_closure(c, f['id'], out, st, at)

    def holds_loc(self, a, st):
        try:
            return self.ex.read(a, st).sort == LOC
        except Exception:
            return False

    def accepts(self, t, a, st):
        ex = self.ex
        s = ex.p.sort(ex.p.strip(t))
        if a.sort == LOC:
            try:
                v = ex.read(a, st)
                return v.sort == s or isint(v.sort) and isint(s)
            except Exception:
                return True
        return a.sort == s


def fold_seq(m, v, f):
    k = fresh('k', Z, 0)
    s = fresh('s', m.sort)
    return fold(seqlen(v), [m], [lam([k, s], f(s, seqat(v, k)))], ['map'], 0)


def mstore_new(m, k, v):
    """insert only if absent."""
    return ite(mdom(m, k), m, mstore(m, k, v))


M = {}
P = []
CT = {'std::chrono::duration::duration': lambda L, f, t, A, st: uf('duration', [L.ex.read(A.v(i), st) if A.v(i).sort == LOC else A.v(i) for i in range(len(A.a))], L.ex.p.sort(t))}


def model(*names):
    def d(fn):
        for n in names:
            M[n] = fn
        return fn
    return d


# ---------------------------------------------------------------- vectors
V = 'std::vector::'


@model('std::vector::size', 'std::array::size', 'std::deque::size', 'std::list::size')
def _(L, f, this, e, A, st):
    return seqlen(L.ex.read(this, st))


@model('std::vector::empty', 'std::deque::empty')
def _(L, f, this, e, A, st):
    return eq(seqlen(L.ex.read(this, st)), I(0))


@model('std::vector::operator[]', 'std::array::operator[]', 'std::deque::operator[]')
def _(L, f, this, e, A, st):
    i = A.v(0)
    v = L.ex.read(this, st)
    L.ex.oblige(st, and_(ge0(i), lt(i, seqlen(v))), 'index within bounds')
    if v.sort == ('S', BOOL) and L.ex.p.sort(f['ret']) == BOOL:
        return seqat(v, i)
    return L.ex.step(this, ('i',), i)


@model('std::_Bit_reference::operator=')
def _(L, f, this, e, A, st):
    v = A.v(0)
    r = L.ex.read(this, st)
    L.ex.write(r, L.ex.read(v, st) if v.sort == LOC else v, st)
    return this


@model('std::_Bit_reference::operator bool')
def _(L, f, this, e, A, st):
    return L.ex.read(L.ex.read(this, st), st)


@model('std::_Bit_reference::flip')
def _(L, f, this, e, A, st):
    r = L.ex.read(this, st)
    L.ex.write(r, not_(L.ex.read(r, st)), st)
    return UNITV


@model('std::vector::at', 'std::array::at')
def _(L, f, this, e, A, st):
    i = A.v(0)
    v = L.ex.read(this, st)
    c = L.ex.simp(and_(ge0(i), lt(i, seqlen(v))), st)
    if c is not TRUE:
        st.thr.append((not_(c), 'std::out_of_range', st.copy()))
        st.pc.append(c)
    return L.ex.step(this, ('i',), i)


@model('std::vector::front')
def _(L, f, this, e, A, st):
    L.ex.oblige(st, lt(I(0), seqlen(L.ex.read(this, st))), 'first element of a sequence that has one')
    return L.ex.step(this, ('i',), I(0))


@model('std::vector::back')
def _(L, f, this, e, A, st):
    L.ex.oblige(st, lt(I(0), seqlen(L.ex.read(this, st))), 'last element of a sequence that has one')
    return L.ex.step(this, ('i',), sub(seqlen(L.ex.read(this, st)), I(1)))


@model('std::vector::begin', 'std::vector::cbegin', 'std::initializer_list::begin', 'std::array::begin',
       'std::deque::begin', 'std::array::cbegin')
def _(L, f, this, e, A, st):
    return vit(this, I(0))


@model('std::vector::end', 'std::vector::cend', 'std::initializer_list::end', 'std::array::end',
       'std::deque::end', 'std::array::cend')
def _(L, f, this, e, A, st):
    return vit(this, seqlen(L.ex.read(this, st)))


# reverse iterators: positions in a copy of the elements in reverse order, which is not written through and is read
# only while the container keeps its value (checked in read)
def reversed_of(L, this, st):
    ex = L.ex
    v = ex.read(this, st)
    key = (this.id, v.id)
    if key not in ex.revs:
        ex.revs[key] = 'rev:%d' % len(ex.revs)
        ex.rev_of[ex.revs[key]] = (this, v)
    r = ex.revs[key]
    if r not in st.mem:
        j = fresh('j', Z, 0, SIZEMAX)
        st.mem[r] = tab(seqlen(v), lam([j], seqat(v, sub(sub(seqlen(v), I(1)), j))), v.sort)
    return ir.loc(r)


@model('std::vector::rbegin', 'std::vector::crbegin', 'std::array::rbegin', 'std::deque::rbegin')
def _(L, f, this, e, A, st):
    return vit(reversed_of(L, this, st), I(0))


@model('std::vector::rend', 'std::vector::crend', 'std::array::rend', 'std::deque::rend')
def _(L, f, this, e, A, st):
    return vit(reversed_of(L, this, st), seqlen(L.ex.read(this, st)))


# lists: an iterator is a position in the enumeration of the nodes at begin()
@model('std::list::begin', 'std::list::cbegin')
def _(L, f, this, e, A, st):
    return raw('vit', (this, I(0), L.ex.read(this, st)), None, ITS)


@model('std::list::end', 'std::list::cend')
def _(L, f, this, e, A, st):
    return raw('lend', (this,), None, ITS)


@model('std::list::erase')
def _(L, f, this, e, A, st):
    i = A.v(0)
    if len(A) != 1 or not (i.op == 'vit' and len(i.args) == 3):
        raise L.uns('list erase')
    L.ex.write(this, lerase(L.ex.read(this, st), i.args[2], i.args[1]), st)
    return raw('vit', (i.args[0], add(i.args[1], I(1)), i.args[2]), None, ITS)


@model('std::_List_iterator::operator*', 'std::_List_const_iterator::operator*', 'std::_List_iterator::operator->',
       'std::_List_const_iterator::operator->')
def _(L, f, this, e, A, st):
    i = L.ex.read(this, st)
    if not (i.op == 'vit' and len(i.args) == 3):
        raise L.uns('list iterator')
    x = seqat(i.args[2], i.args[1])
    return L.ex.new_root(x.sort, x, st, 'RO_')


@model('std::make_move_iterator')
def _(L, f, this, e, A, st):
    return A.v(0)


@model('std::begin', 'std::cbegin')
def _(L, f, this, e, A, st):
    return vit(A.l(0), I(0))


@model('std::end', 'std::cend')
def _(L, f, this, e, A, st):
    return vit(A.l(0), seqlen(L.ex.read(A.l(0), st)))


@model('std::size')
def _(L, f, this, e, A, st):
    v = A.v(0)
    return seqlen(v) if v.sort[0] == 'S' else msize(v)


@model('std::vector::push_back', 'std::deque::push_back', 'std::list::push_back')
def _(L, f, this, e, A, st):
    x = A.v(0)
    v = L.ex.read(this, st)
    L.ex.write(this, cat(v, unit(x, v.sort), sort=v.sort), st)
    if A.a[0].get('vc') == 'x':
        L.ex.moved(A.a[0], x, st, A.fr)
    return UNITV


def build_elem(L, this, A, st):
    """construct an element of the container at `this` from forwarded arguments."""
    ex = L.ex
    v = ex.read(this, st)
    s = v.sort[1] if v.sort[0] == 'S' else v.sort
    return make_value(L, s, A, st)


def make_value(L, s, A, st, first=0):
    ex = L.ex
    n = len(A) - first
    vs = [A.v(first + i) for i in range(n)]
    if n == 1:
        v = vs[0]
        if s == LOC and v.sort != LOC:
            return A.l(first)       # a reference wrapper of the argument
        if v.sort == s or s[0] in 'IEBFLZ' or s == ('O', 'string'):
            if s[0] == 'F' and v.sort != s or s[0] == 'I' and v.sort[0] == 'F':
                raise L.uns('converting emplace')
            return wrap(s[1], s[2], v) if s[0] == 'I' and isint(v.sort) else v
        w = L.conv_to(v, s)
        if w.sort == s:
            return w
    if n == 0:
        return ex.freshval(s, 'value_init') if s[0] == 'R' and not isinstance(s[1], tuple) else \
            {'I': I(0), 'S': nil(s)}.get(s[0], None) or ex.freshval(s, 'vi')
    if s[0] == 'R' and isinstance(s[1], tuple) and len(rfields(s)) == n:
        return rec(s, [L.conv_to(v, ss) for v, (_, ss) in zip(vs, rfields(s))])
    if s[0] == 'R':
        # repo class: constructor with matching arity
        c = [g for g in ex.p.fns.values() if g.get('ctor') and 'body' in g and
             len(g['params']) == n and ex.p.sort(g['cls']) == s]
        if len(c) > 1:
            # overloads that differ in the value category of their parameters
            def fits(g):
                score = 0
                for i, q in enumerate(g['params']):
                    rv = ex.p.ts(q['t'])['s'].endswith('&&')
                    lvalue = A.a[first + i].get('vc') == 'l'
                    if ex.p.sort(ex.p.strip(q['t'])) != vs[i].sort or rv and lvalue:
                        return -1
                    score += rv
                return score
            best = max(map(fits, c))
            c = [g for g in c if fits(g) == best] if best >= 0 else []
        if len(c) == 1:
            g = c[0]
            avs = []
            for i, q in enumerate(g['params']):
                avs.append(A.l(first + i) if ex.p.ts(q['t'])['k'] == 'ref' else vs[i])
            return ex.construct(g, g['cls'], avs, st)
        if not c and [x for _, x in rfields(s)] == [v.sort for v in vs]:
            return rec(s, vs)
    raise L.uns('emplace of %s from %d arguments' % (s, n))


@model('std::list::emplace_back', 'std::vector::emplace_back', 'std::deque::emplace_back')
def _(L, f, this, e, A, st):
    ex = L.ex
    v0 = ex.read(this, st)
    x = make_value(L, v0.sort[1], A, st)
    v = ex.read(this, st)
    ex.write(this, cat(v, unit(x, v.sort), sort=v.sort), st)
    return ex.step(this, ('i',), seqlen(v))


@model('std::vector::pop_back')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    L.ex.oblige(st, lt(I(0), seqlen(v)), 'last element of a sequence that has one')
    L.ex.write(this, slice_(v, I(0), sub(seqlen(v), I(1))), st)
    return UNITV


@model('std::vector::clear', 'std::deque::clear')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    L.ex.write(this, nil(v.sort), st)
    return UNITV


@model('std::vector::reserve', 'std::unordered_set::reserve', 'std::unordered_map::reserve',
       'std::vector::shrink_to_fit', 'std::basic_string::reserve')
def _(L, f, this, e, A, st):
    for i in range(len(A)):
        A.v(i)
    return UNITV


@model('std::chrono::duration::count')
def _(L, f, this, e, A, st):
    return uf('count', [L.ex.read(this, st)], L.ex.p.sort(f['ret']))


@model('std::this_thread::sleep_for')
def _(L, f, this, e, A, st):
    for i in range(len(A)):
        A.v(i)
    return UNITV


@model('std::vector::resize')
def _(L, f, this, e, A, st):
    ex = L.ex
    v = ex.read(this, st)
    n = A.v(0)
    el = ex.p.ta(ex.p.strip(e['obj']['t']) if 'obj' in e else f['cls'], 0)
    d = A.v(1) if len(A) > 1 else None
    dd = d if d is not None else ex.default(el, st)
    k = fresh('j', Z, 0)
    grow = cat(v, tab(sub(n, seqlen(v)), lam([k], dd), v.sort), sort=v.sort)
    ex.write(this, ite(le(n, seqlen(v)), slice_(v, I(0), n), grow) if v.op != 'nil' else tab(n, lam([k], dd), v.sort), st)
    return UNITV


@model('std::vector::assign')
def _(L, f, this, e, A, st):
    ex = L.ex
    v = ex.read(this, st)
    if ex.p.sort(A.t(0)) == ITS:
        ex.write(this, L.elems(L.range_val(A.v(0), A.v(1), st), v.sort), st)
    else:
        d = A.v(1)
        ex.write(this, tab(A.v(0), lam([fresh('j', Z, 0)], d), v.sort), st)
    return UNITV


@model('std::vector::operator=', 'std::unordered_map::operator=', 'std::unordered_set::operator=', 'std::map::operator=',
       'std::optional::operator=', 'std::shared_ptr::operator=', 'std::variant::operator=', 'std::basic_string::operator=',
       'std::function::operator=', 'std::tuple::operator=', 'std::pair::operator=', 'std::unique_ptr::operator=',
       'std::weak_ptr::operator=', '__gnu_cxx::__normal_iterator::operator=', 'std::set::operator=',
       'boost::uuids::uuid::operator=', 'std::_List_iterator::operator=', 'std::_List_const_iterator::operator=', 'std::_Rb_tree_iterator::operator=', 'std::_Rb_tree_const_iterator::operator=',
       'std::__detail::_Node_iterator::operator=', 'std::__detail::_Node_const_iterator::operator=', 'std::reference_wrapper::operator=',
       'boost::multi_index::multi_index_container::operator=', 'std::deque::operator=', 'std::any::operator=')
def _(L, f, this, e, A, st):
    v = A.v(0)
    ex = L.ex
    old = ex.read(this, st)
    ex.write(this, L.conv_to(v, old.sort), st)
    if A.isx(0):
        ex.moved(A.a[0], v, st, A.fr)
    return this


@model('std::vector::erase')
def _(L, f, this, e, A, st):
    ex = L.ex
    v = ex.read(this, st)
    a = A.v(0)
    if len(A) == 1:
        b = vit(a.args[0], add(a.args[1], I(1)))
    else:
        b = A.v(1)
    if a.op == 'ite' or b.op == 'ite':
        raise L.uns('conditional iterator')
    n = seqlen(v)
    r = cat(slice_(v, I(0), a.args[1]), slice_(v, b.args[1], sub(n, b.args[1])), sort=v.sort)
    ex.write(this, r, st)
    return vit(this, a.args[1])


@model('std::vector::insert')
def _(L, f, this, e, A, st):
    ex = L.ex
    v = ex.read(this, st)
    pos = A.v(0).args[1]
    if len(A) == 3 and isint(A.v(1).sort):
        x = A.v(2)
        r = tab(A.v(1), lam([fresh('i', Z)], x), v.sort)
    elif len(A) == 3:
        r = L.elems(L.range_val(A.v(1), A.v(2), st), v.sort)
    else:
        r = unit(A.v(1), v.sort) if A.v(1).sort[0] != 'S' or v.sort[1][0] == 'S' else A.v(1)
    n = seqlen(v)
    ex.write(this, cat(slice_(v, I(0), pos), r, slice_(v, pos, sub(n, pos)), sort=v.sort), st)
    return vit(this, pos)


@model('std::vector::data')
def _(L, f, this, e, A, st):
    return L.ex.step(this, ('i',), I(0))


# ---------------------------------------------------------------- iterators
def pointing(L, i, st):
    """the condition that iterator i points to an element; None if it always does."""
    if i.op == 'ite':
        a, b = pointing(L, i.args[1], st), pointing(L, i.args[2], st)
        return None if a is None and b is None else ite(i.args[0], TRUE if a is None else a, TRUE if b is None else b)
    if i.op == 'vit' and len(i.args) == 2:
        q = L.ex.read(i.args[0], st)
        if q.sort[0] != 'S':
            return None
        x, n = i.args[1], seqlen(q)
        return not_(eq(x, n)) if x.op == 'least' and x.args[0] is n else and_(ge0(x), lt(x, n))
    if i.op == 'mit':
        return i.args[1]
    return None


@model('__gnu_cxx::__normal_iterator::operator*', 'std::reverse_iterator::operator*', 'std::_Bit_iterator::operator*',
       'boost::multi_index::detail::hashed_index_iterator::operator*')
def _(L, f, this, e, A, st):
    i = L.ex.read(this, st)
    return deref(L, i, st)


def deref(L, i, st=None):
    if st is not None:
        c = pointing(L, i, st)
        if c is not None:
            L.ex.oblige(st, c, 'iterator within its container')
    if i.op == 'ite':
        return ite(i.args[0], deref(L, i.args[1]), deref(L, i.args[2]))
    if i.op == 'vit' and len(i.args) == 3:
        return L.ex.step(i.args[0], ('p',), mkey(i.args[2], i.args[1]))
    if i.op == 'vit':
        return L.ex.step(i.args[0], ('i',), i.args[1])
    if i.op == 'mit':
        return L.ex.step(i.args[0], ('p',), i.args[2])
    if i.op == 'eqit':
        # element of an equal_range of a multi-index container
        return i.args[0]
    raise L.uns('dereference of %s' % show(i)[:60])


@model('__gnu_cxx::__normal_iterator::operator->', 'std::reverse_iterator::operator->',
       'boost::multi_index::detail::hashed_index_iterator::operator->', 'boost::operators_impl::dereferenceable::operator->')
def _(L, f, this, e, A, st):
    return deref(L, L.ex.read(this, st), st)


@model('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--',
       'std::_Bit_iterator::operator++', 'std::_Bit_const_iterator::operator++',
       'std::reverse_iterator::operator++', 'std::reverse_iterator::operator--',
       'boost::multi_index::detail::hashed_index_iterator::operator++', 'boost::operators_impl::incrementable::operator++')
def _(L, f, this, e, A, st):
    ex = L.ex
    i = ex.read(this, st)
    d = 1 if f['sn'].endswith('++') else -1
    n = vit(i.args[0], add(i.args[1], I(d)))
    ex.write(this, n, st)
    return i if len(f['params']) == 1 else this


@model('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def _(L, f, this, e, A, st):
    i = L.ex.read(this, st)
    d = A.v(0)
    return vit(i.args[0], add(i.args[1], d) if f['sn'].endswith('+') else sub(i.args[1], d))


@model('__gnu_cxx::__normal_iterator::operator[]')
def _(L, f, this, e, A, st):
    i = L.ex.read(this, st)
    if i.op != 'vit' or len(i.args) != 2:
        raise L.uns('index at %s' % show(i)[:60])
    return deref(L, vit(i.args[0], add(i.args[1], A.v(0))), st)


@model('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def _(L, f, this, e, A, st):
    i = L.ex.read(this, st)
    d = A.v(0)
    L.ex.write(this, vit(i.args[0], add(i.args[1], d) if '+' in f['sn'] else sub(i.args[1], d)), st)
    return this


@model('__gnu_cxx::operator-')
def _(L, f, this, e, A, st):
    a, b = A.v(0), A.v(1)
    if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0]:
        return sub(a.args[1], b.args[1])
    raise L.uns('iterator difference')


def iteq(L, a, b):
    if a.op == 'ite':
        return ite(a.args[0], iteq(L, a.args[1], b), iteq(L, a.args[2], b))
    if b.op == 'ite':
        return ite(b.args[0], iteq(L, a, b.args[1]), iteq(L, a, b.args[2]))
    if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0]:
        return eq(a.args[1], b.args[1])
    if b.op == 'vit' and a.op in ('mit', 'lend'):
        a, b = b, a
    if a.op == 'vit' and len(a.args) == 3 and b.op == 'lend' and a.args[0] is b.args[0]:
        return eq(a.args[1], seqlen(a.args[2]))
    if a.op == 'vit' and len(a.args) == 3 and b.op == 'mit':
        n = msize(a.args[2])
        if b.args[1] is FALSE:
            return eq(a.args[1], n)
        return ite(b.args[1], and_(lt(a.args[1], n), eq(mkey(a.args[2], a.args[1]), b.args[2])), eq(a.args[1], n))
    if a.op == 'mit' and b.op == 'mit':
        va, vb = a.args[1], b.args[1]
        return or_(and_(not_(va), not_(vb)), and_(va, vb, eq(a.args[2], b.args[2])))
    raise L.uns('iterator comparison %s %s' % (a.op, b.op))


@model('__gnu_cxx::operator==', 'std::operator==', 'std::__detail::operator==', 'boost::operators_impl::operator==',
       'boost::multi_index::detail::operator==')
def _(L, f, this, e, A, st):
    a, b = A.v(0), A.v(1)
    if a.sort == ITS:
        return iteq(L, a, b)
    return eq_vals(L, a, b, A, st)


@model('__gnu_cxx::operator!=', 'std::operator!=', 'std::__detail::operator!=', 'boost::operators_impl::operator!=')
def _(L, f, this, e, A, st):
    a, b = A.v(0), A.v(1)
    if a.sort == ITS:
        return not_(iteq(L, a, b))
    return not_(eq_vals(L, a, b, A, st))


def eq_vals(L, a, b, A, st):
    s = a.sort
    if s[0] in 'IEBZ' or s == ('O', 'string') or s == LOC:
        if s == LOC and b.sort == ('O', 'string'):
            a = L.ex.read(a, st)
        if b.sort == LOC and s == ('O', 'string'):
            b = L.ex.read(b, st)
        return eq(a, b)
    if s[0] in 'SROV':
        return eq(a, b)
    raise L.uns('library ==')


@model('__gnu_cxx::operator<')
def _(L, f, this, e, A, st):
    return lt(A.v(0).args[1], A.v(1).args[1])


@model('std::next', 'std::prev')
def _(L, f, this, e, A, st):
    i = A.v(0)
    d = A.v(1) if len(A) > 1 else I(1)
    return vit(i.args[0], add(i.args[1], d) if f['sn'] == 'next' else sub(i.args[1], d))


@model('std::advance')
def _(L, f, this, e, A, st):
    l = A.l(0)
    i = L.ex.read(l, st)
    L.ex.write(l, vit(i.args[0], add(i.args[1], A.v(1))), st)
    return UNITV


@model('std::distance')
def _(L, f, this, e, A, st):
    a, b = A.v(0), A.v(1)
    if a.op == 'vit' and b.op == 'vit':
        return sub(b.args[1], a.args[1])
    raise L.uns('distance')


# ---------------------------------------------------------------- algorithms
def need1(outs, L):
    if len(outs) != 1 or outs[0][0] != 'normal':
        raise L.uns('algorithm callback outcome')
    return outs[0][2]


def run_each(L, a, b, st, fn):
    """for each element location of [a,b) run fn(el, state); updates st in place."""
    ex = L.ex

    def body(el, s):
        n = len(s.thr)
        fn(el, s)
        outs = []
        g = ex.drain(s, n, outs, TRUE)
        if outs:
            raise L.uns('throw inside algorithm callback')
        return [('normal', TRUE, s, None)]
    if a.op == 'vit' and b.op == 'vit' and a.args[0] is b.args[0]:
        l = a.args[0]
        lo = a.args[1]
        n = sub(b.args[1], lo)
        v = ex.read(l, st)
        if lo is I(0) and n is seqlen(v):
            outs = ex.foreach(l, body, st)
        else:
            outs = ex.foreach(l, body, st, lo=lo, n=n)
    elif a.op == 'vit' and len(a.args) == 3 and a.args[1] is I(0) and b.op == 'mit' and b.args[1] is FALSE:
        outs = ex.foreach(a.args[0], body, st)
    else:
        raise L.uns('algorithm over %s' % a.op)
    r = need1(outs, L)
    st.mem, st.pc, st.thr = r.mem, r.pc, r.thr


def asval(L, r, st, f=None):
    return L.ex.read(r, st) if r is not None and r.sort == LOC and r.op in ('loc', 'ite') else r


def closure_ret_is_ref(L, c):
    ex = L.ex
    if c.op == 'clos':
        for i in ex.p.recs[c.pl]['calls']:
            f = ex.p.fns[i]
            if 'body' in f:
                return ex.p.ts(f['ret'])['k'] == 'ref'
    return False


@model('std::for_each')
def _(L, f, this, e, A, st):
    a, b, fn = A.v(0), A.v(1), A.v(2)
    run_each(L, a, b, st, lambda el, s: L.apply(fn, [el], s))
    return fn


@model('std::transform', 'std::copy', 'std::copy_if', 'std::move_range')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b = A.v(0), A.v(1)
    out = A.v(2)
    fn = A.v(3) if len(A) > 3 else None
    nm = f['sn']
    if nm == 'copy' and out.op == 'vit' and len(out.args) == 2 and a.op != 'mit':
        from exe import Unsupported
        # a whole range written over as many elements of another sequence
        d = ex.read(out.args[0], st)
        p = out.args[1]
        if not (a.op in ('vit', 'loc') and a.args and a.args[0] is out.args[0]):
            try:
                src = L.range_val(a, b, st)
            except Unsupported:
                src = None
            if src is not None and src.sort == d.sort:
                n = seqlen(src)
                ex.oblige(st, le(add(p, n), seqlen(d)), 'copied elements fit the destination')
                ex.write(out.args[0], cat(slice_(d, I(0), p), src, slice_(d, add(p, n), sub(seqlen(d), add(p, n))), sort=d.sort), st)
                return vit(out.args[0], add(p, n))
    if out.op == 'vit':
        pos = ex.new_root(Z, out.args[1], st, 'outpos')

    def step(el, s):
        if nm == 'transform':
            x = L.apply(fn, [el], s)
            if x.sort == LOC and closure_ret_is_ref(L, fn):
                x = ex.read(x, s)
        else:
            x = ex.read(el, s)
        if nm == 'copy_if':
            c = L.apply(fn, [el], s)
            if out.op != 'bins':
                raise L.uns('copy_if target')
            v = ex.read(out.args[0], s)
            ex.write(out.args[0], ite(c, cat(v, unit(x, v.sort), sort=v.sort), v), s)
            return
        if out.op == 'bins':
            v = ex.read(out.args[0], s)
            ex.write(out.args[0], cat(v, unit(L.conv_to(x, v.sort[1]), v.sort), sort=v.sort), s)
        elif out.op == 'sins':
            m = ex.read(out.args[0], s)
            if m.sort[2] == UNIT:
                ex.write(out.args[0], mstore(m, L.conv_to(x, m.sort[1]), UNITV), s)
            else:
                ex.write(out.args[0], mstore_new(m, fld(x, 'first'), fld(x, 'second')), s)
        elif out.op == 'vit':
            p = ex.read(pos, s)
            ex.write(ex.step(out.args[0], ('i',), p), L.conv_to(x, ex.read(out.args[0], s).sort[1]), s)
            ex.write(pos, add(p, I(1)), s)
        else:
            raise L.uns('output iterator %s' % out.op)
    run_each(L, a, b, st, step)
    if out.op == 'vit':
        return vit(out.args[0], ex.read(pos, st))
    return out


@model('std::back_inserter')
def _(L, f, this, e, A, st):
    return raw('bins', (A.l(0),), None, ITS)


@model('std::inserter')
def _(L, f, this, e, A, st):
    l = A.l(0)
    v = L.ex.read(l, st)
    if v.sort[0] == 'S':
        raise L.uns('sequence inserter')
    return raw('sins', (l,), None, ITS)


@model('std::remove_if')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b, fn = A.v(0), A.v(1), A.v(2)
    if not (a.op == 'vit' and b.op == 'vit'):
        raise L.uns('remove_if range')
    l = a.args[0]
    v0 = ex.read(l, st)
    if a.args[1] is not I(0) or b.args[1] is not seqlen(v0):
        raise L.uns('remove_if on part of a container')
    kept = ex.new_root(v0.sort, nil(v0.sort), st, 'kept')
    boolt = [i for i, t in enumerate(ex.p.types) if t['k'] == 'bool']

    def step(el, s):
        c = L.apply(fn, [el], s, ret=boolt[0] if boolt else None)
        x = ex.read(el, s)
        v = ex.read(kept, s)
        ex.write(kept, ite(c, v, cat(v, unit(x, v.sort), sort=v.sort)), s)
    run_each(L, a, b, st, step)
    k = ex.read(kept, st)
    junk = fresh('moved_from', v0.sort)
    ex.write(l, cat(k, slice_(junk, I(0), sub(seqlen(v0), seqlen(k))), sort=v0.sort), st)
    return vit(l, seqlen(k))


@model('std::find_if', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find', 'std::count_if', 'std::count')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b = A.v(0), A.v(1)
    nm = f['sn']
    fn = A.v(2)
    if a.op == 'mib':
        m = ex.read(a.args[0], st)
        raise L.uns('%s over map' % nm)
    l, lo, n = a.args[0], a.args[1], sub(b.args[1], a.args[1])
    k = fresh('k', Z, 0, SIZEMAX)
    s2 = st.copy()
    s2.pc.append(lt(k, n))
    mem0 = dict(s2.mem)
    el = ex.step(l, ('i',), add(lo, k))
    if nm in ('find', 'count'):
        c = eq_vals(L, ex.read(el, s2), fn, A, s2)
    else:
        c = L.apply(fn, [el], s2)
    if any(s2.mem[r] is not mem0[r] for r in mem0) or len(s2.thr) > len(st.thr):
        raise L.uns('%s callback with effects' % nm)
    if nm in ('find_if', 'find'):
        return vit(l, add(lo, least(n, lam([k], c))))
    if nm == 'any_of':
        return exists_lt(n, lam([k], c))
    if nm == 'none_of':
        return not_(exists_lt(n, lam([k], c)))
    if nm == 'all_of':
        return forall_lt(n, lam([k], c))
    return isum(n, lam([k], ite(c, I(1), I(0))))


@model('std::equal_range')
def _(L, f, this, e, A, st):
    s = L.ex.p.sort(f['ret'])
    return rec(s, [bound_of(L, nm, f, A, st) for nm in ('lower_bound', 'upper_bound')])


@model('std::lower_bound', 'std::upper_bound')
def _(L, f, this, e, A, st):
    return bound_of(L, f['sn'], f, A, st)


def bound_of(L, nm, f, A, st):
    ex = L.ex
    a, b = A.v(0), A.v(1)
    if a.op != 'vit':
        raise L.uns('%s over this range' % nm)
    l, lo, n = a.args[0], a.args[1], sub(b.args[1], a.args[1])
    k = fresh('k', Z, 0, SIZEMAX)
    s2 = st.copy()
    s2.pc.append(lt(k, n))
    mem0 = dict(s2.mem)
    el = ex.step(l, ('i',), add(lo, k))
    if len(A) > 3:
        arg = A.l(2)
        c = L.apply(A.v(3), [el, arg] if nm == 'lower_bound' else [arg, el], s2)
    else:
        x, v = ex.read(el, s2), A.v(2)
        if x.sort[0] not in 'IZF':
            raise L.uns('%s of this type' % nm)
        c = ex.compare('<', x, v, A.t(2)) if nm == 'lower_bound' else ex.compare('<', v, x, A.t(2))
    if any(s2.mem[r] is not mem0[r] for r in mem0) or len(s2.thr) > len(st.thr):
        raise L.uns('%s callback with effects' % nm)
    before = c if nm == 'lower_bound' else not_(c)   # elements before the bound satisfy it
    # the range has to be partitioned: otherwise the result is unspecified
    i = fresh('i', Z, 0, SIZEMAX)
    ex.side.append(('%s: the range is partitioned' % nm, list(st.pc),
                    forall_lt(n, lam([k], forall_lt(k, lam([i], implies(before, subst(before, {k: i}))))))))
    return vit(l, add(lo, least(n, lam([k], not_(before)))))


@model('std::accumulate', 'std::reduce')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b = A.v(0), A.v(1)
    acc = ex.new_root(ex.p.sort(A.t(2)), A.v(2), st, 'acc')
    fn = A.v(3) if len(A) > 3 else None
    t = A.t(2)

    def step(el, s):
        if fn is not None:
            x = L.apply(fn, [ex.read(acc, s), el], s)
        else:
            et = ex.p.types.index
            x = ex.arith('+', ex.read(acc, s), ex.read(el, s), t, s)
        ex.write(acc, x, s)
    run_each(L, a, b, st, step)
    return ex.read(acc, st)


@model('std::fill')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b, x = A.v(0), A.v(1), A.v(2)
    run_each(L, a, b, st, lambda el, s: ex.write(el, x, s))
    return UNITV


@model('std::iota')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b, x = A.v(0), A.v(1), A.v(2)
    c = ex.new_root(Z, x, st, 'iota')

    def step(el, s):
        v = ex.read(c, s)
        ex.write(el, v, s)
        ex.write(c, add(v, I(1)), s)
    run_each(L, a, b, st, step)
    return UNITV


@model('std::sort', 'std::stable_sort')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b = A.v(0), A.v(1)
    if not (a.op == 'vit' and a.args[1] is I(0)):
        raise L.uns('sort of part of a container')
    v = ex.read(a.args[0], st)
    if b.op != 'vit' or b.args[0] is not a.args[0] or ex.simp(eq(b.args[1], seqlen(v)), st) is not TRUE:
        raise L.uns('sort of part of a container')
    if len(A) > 2 or not isint(v.sort[1]):
        # some rearrangement in which no element comes before an earlier one (pairs of neighbours or not)
        es = v.sort[1]

        def before(x, y):
            if len(A) < 3:
                if es != ('O', 'string'):
                    raise L.uns('sort of this type')
                return uf('text before', [x, y], BOOL)
            s2 = st.copy()
            locs = [ex.new_root(es, z, s2, 'el') for z in (x, y)]
            mem0 = dict(s2.mem)
            c = L.apply(A.v(2), locs, s2)
            if any(s2.mem[q] is not mem0[q] for q in mem0) or len(s2.thr) > len(st.thr):
                raise L.uns('sort: comparison with effects')
            return c
        x, y, z = fresh('x', es), fresh('y', es), fresh('z', es)
        if len(A) > 2:
            ex.side.append(('sort: the comparison is a strict weak order', list(st.pc), and_(
                implies(before(x, y), not_(before(y, x))),
                implies(and_(not_(before(x, y)), not_(before(y, z))), not_(before(x, z))))))
        r, facts = rearranged(ex, v, I(0), seqlen(v), 'sorted')
        i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
        facts.append(forall_lt(seqlen(v), lam([i], forall_lt(i, lam([j], not_(before(seqat(r, i), seqat(r, j))))))))
        st.pc.extend(facts)
        ex.write(a.args[0], r, st)
        return UNITV
    ex.write(a.args[0], sorted_(v), st)
    return UNITV


def rearranged(ex, v, lo, hi, tag):
    """an arbitrary rearrangement of the elements [lo, hi) of a sequence, and what is known of it."""
    n = seqlen(v)
    p = fresh(tag, ('S', ('I', 64, False)))
    i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    x = seqat(p, i)
    inside = and_(le(lo, i), lt(i, hi))
    facts = [eq(seqlen(p), n), forall_lt(n, lam([i], lt(x, n))),
             forall_lt(n, lam([i], forall_lt(i, lam([j], not_(eq(x, seqat(p, j)))))))]
    if lo is not I(0) or hi is not n:
        facts.append(forall_lt(n, lam([i], ite(inside, and_(le(lo, x), lt(x, hi)), eq(x, i)))))
    ex.known.append((tag, p, n, lo, hi, facts))
    return tab(n, lam([i], seqat(v, x)), v.sort), facts


@model('std::shuffle')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b = A.v(0), A.v(1)
    if a.op != 'vit' or b.op != 'vit' or a.args[0] is not b.args[0]:
        raise L.uns('shuffle of this range')
    v = ex.read(a.args[0], st)
    r, facts = rearranged(ex, v, a.args[1], b.args[1], 'shuffled')
    st.pc.extend(facts)
    ex.write(a.args[0], r, st)
    return UNITV


@model('std::swap')
def _(L, f, this, e, A, st):
    ex = L.ex
    a, b = A.l(0), A.l(1)
    x, y = ex.read(a, st), ex.read(b, st)
    ex.write(a, y, st)
    ex.write(b, x, st)
    return UNITV


@model('std::vector::swap', 'std::basic_string::swap', 'std::unique_ptr::swap')
def _(L, f, this, e, A, st):
    ex = L.ex
    b = A.l(0)
    x, y = ex.read(this, st), ex.read(b, st)
    ex.write(this, y, st)
    ex.write(b, x, st)
    return UNITV


@model('std::max_element', 'std::min_element')
def _(L, f, this, e, A, st):
    raise L.uns(f['n'])


# ---------------------------------------------------------------- scalars
@model('std::min', 'std::max')
def _(L, f, this, e, A, st):
    ex = L.ex
    if len(A) == 1:
        raise L.uns('min over list')
    a, b = A.v(0), A.v(1)
    t = A.t(0)
    if f['sn'] == 'min':
        c = ex.compare('<', b, a, t)
    else:
        c = ex.compare('<', a, b, t)
    r = ite(c, b, a)
    return ex.new_root(ex.p.sort(t), r, st, 'mm')


@model('std::clamp')
def _(L, f, this, e, A, st):
    ex = L.ex
    v, lo, hi = A.v(0), A.v(1), A.v(2)
    t = A.t(0)
    r = ite(ex.compare('<', v, lo, t), lo, ite(ex.compare('<', hi, v, t), hi, v))
    return ex.new_root(ex.p.sort(t), r, st, 'cl')


@model('std::abs', 'std::labs', 'abs')
def _(L, f, this, e, A, st):
    v = A.v(0)
    if isint(v.sort) or v.sort[0] == 'I':
        return ite(ge0(v), v, scale(-1, v))
    return uf('fabs', [v], v.sort)


@model('std::fabs', 'fabs', 'std::exp', 'std::pow', 'std::round', 'std::sqrt', 'std::log', 'std::floor', 'std::ceil',
       'std::ceilf', 'std::roundf', 'exp', 'std::isnan', 'std::signbit', 'std::lround', 'log', 'sqrt', 'pow', 'round')
def _(L, f, this, e, A, st):
    ex = L.ex
    rt = ex.p.sort(f['ret'])
    vs = []
    for i in range(len(A)):
        v = A.v(i)
        X = ex.p.ts(A.t(i))
        if X['k'] == 'int':
            v = i2f(64, v)
        elif rt == ('F', 64) and v.sort == ('F', 32):
            v = f2f(64, v)
        vs.append(v)
    return uf(f['sn'], vs, rt)


@model('std::isfinite', 'std::isinf')
def _(L, f, this, e, A, st):
    return uf(f['sn'], [A.v(0)], BOOL)


@model('std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest',
       'std::numeric_limits::epsilon', 'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN')
def _(L, f, this, e, A, st):
    s = L.ex.p.sort(f['ret'])
    nm = f['sn']
    if s[0] == 'I':
        lo, hi = srange(s)
        return I(hi if nm == 'max' else lo)
    import sys
    if s[0] == 'F':
        if s[1] == 64:
            v = {'max': sys.float_info.max, 'min': sys.float_info.min, 'lowest': -sys.float_info.max,
                 'epsilon': sys.float_info.epsilon, 'infinity': float('inf'), 'quiet_NaN': float('nan')}[nm]
        else:
            v = {'max': 3.4028234663852886e38, 'min': 1.1754943508222875e-38, 'lowest': -3.4028234663852886e38,
                 'epsilon': 1.1920928955078125e-07, 'infinity': float('inf'), 'quiet_NaN': float('nan')}[nm]
        return fltval(v, s[1])
    raise L.uns(f['n'])


# ---------------------------------------------------------------- references, pairs, tuples, variants, optionals
@model('std::move', 'std::forward', 'std::as_const', 'std::ref', 'std::cref', 'std::addressof', 'std::move_if_noexcept')
def _(L, f, this, e, A, st):
    if f['sn'] == 'move' and len(A) == 3:
        r = M['std::copy'](L, dict(f, sn='copy'), this, e, A, st)
        a, b = A.v(0), A.v(1)
        if a.op == 'vit' and b.op == 'vit':
            # what was moved from is unspecified afterwards
            ex = L.ex
            v = ex.read(a.args[0], st)
            if v.sort[1][0] in 'RSMV':
                lo, n = a.args[1], sub(b.args[1], a.args[1])
                k = fresh('k', Z, 0, SIZEMAX)
                junk = fresh('moved_from', v.sort)
                ex.write(a.args[0], cat(slice_(v, I(0), lo), tab(n, lam([k], seqat(junk, k)), v.sort),
                                        slice_(v, add(lo, n), sub(seqlen(v), add(lo, n))), sort=v.sort), st)
        return r
    if f['sn'] in ('ref', 'cref') and L.ex.p.ts(A.t(0)).get('n') == 'std::reference_wrapper':
        return A.v(0)
    return A.l(0)


@model('std::get')
def _(L, f, this, e, A, st):
    ex = L.ex
    l = A.l(0)
    x = ex.p.ts(A.t(0))
    s = ex.p.sort(A.t(0))
    ta = f['ta'][0]
    if s[0] == 'V':
        if 'i' in ta:
            i = int(ta['i'])
        else:
            want = ex.p.ts(ta['t'])['s'].replace('const ', '')
            i = [ex.p.ts(a)['s'].replace('const ', '') for a in ex.p._pack(A.t(0))].index(want)
        v = ex.read(l, st)
        c = ex.simp(eq(vidx(v), I(i)), st)
        if c is not TRUE:
            st.thr.append((not_(c), 'std::bad_variant_access', st.copy()))
            st.pc.append(c)
        return ex.step(l, ('v', i))
    if s[0] == 'R':
        pk = ex.p._pack(A.t(0))
        if 'i' in ta:
            i = int(ta['i'])
        else:
            want = ex.p.ts(ta['t'])['s'].replace('const ', '')
            i = [ex.p.ts(a)['s'].replace('const ', '') for a in pk].index(want)
        nm = rfields(s)[i][0]
        r = ex.step(l, ('f', nm))
        if ex.p.ts(pk[i])['k'] == 'ref':
            return ex.read(r, st)
        return r
    if s[0] == 'S':
        return ex.step(l, ('i',), I(int(ta['i'])))
    raise L.uns('std::get on %s' % x['s'][:60])


@model('std::get_if')
def _(L, f, this, e, A, st):
    ex = L.ex
    l = A.v(0)
    v = ex.read(l, st)
    t = ex.p.strip(A.a[0]['t'])
    vt = ex.p.ts(t)['to']
    ta = f['ta'][0]
    if 'i' in ta:
        i = int(ta['i'])
    else:
        want = ex.p.ts(ta['t'])['s'].replace('const ', '')
        i = [ex.p.ts(a)['s'].replace('const ', '') for a in ex.p._pack(vt)].index(want)
    return ite(eq(vidx(v), I(i)), ex.step(l, ('v', i)), NULL)


@model('std::holds_alternative')
def _(L, f, this, e, A, st):
    ex = L.ex
    v = A.v(0)
    want = ex.p.ts(f['ta'][0]['t'])['s'].replace('const ', '')
    i = [ex.p.ts(a)['s'].replace('const ', '') for a in ex.p._pack(A.t(0))].index(want)
    return eq(vidx(v), I(i))


@model('std::variant::index')
def _(L, f, this, e, A, st):
    return vidx(L.ex.read(this, st))


@model('std::type_info::operator==')
def _(L, f, this, e, A, st):
    return eq(L.ex.read(this, st), A.v(0))


@model('std::type_info::operator!=')
def _(L, f, this, e, A, st):
    return not_(eq(L.ex.read(this, st), A.v(0)))


@model('boost::mp11::mp_for_each')
def _(L, f, this, e, A, st):
    """the function is called once for each type of the list, in order."""
    ts = L.ex.p.types[f['ta'][0]['t']]['s']
    head = 'boost::mp11::mp_list<'
    if not ts.startswith(head):
        raise Unsupported('mp_for_each over ' + ts)
    fn = A.v(0)
    for t in toplevel(ts[len(head):-1]):
        L.apply(fn, [uf('value', [], ('O', t))], st)
    return fn


def toplevel(s):
    """split at top-level commas."""
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '<(' 
        d -= ch in '>)'
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


@model('std::integral_constant::operator value_type')
@model('std::integral_constant::operator unsigned long')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st) if this.sort == LOC else this
    return I(int(v.sort[1][:-1].rsplit(',', 1)[1]))


@model('std::visit')
def _(L, f, this, e, A, st):
    ex = L.ex
    fn = A.v(0)
    locs = [A.l(i) for i in range(1, len(A))]

    def go(i, chosen, s):
        if i == len(locs):
            return apply_visit(L, fn, chosen, s)
        v = ex.read(locs[i], s)
        n = len(v.sort[1])

        def alt(j, s2):
            vi = vidx(ex.read(locs[i], s2))
            c = ex.simp(eq(vi, I(j)), s2)
            if j == n - 1:
                return go(i + 1, chosen + [ex.step(locs[i], ('v', j))], s2)
            if c is TRUE:
                return go(i + 1, chosen + [ex.step(locs[i], ('v', j))], s2)
            if c is FALSE:
                return alt(j + 1, s2)
            return ex.branch(c, lambda a: go(i + 1, chosen + [ex.step(locs[i], ('v', j))], a),
                             lambda b: alt(j + 1, b), s2)
        return alt(0, s)
    return go(0, [], st)


def apply_visit(L, fn, locs, st):
    ex = L.ex
    r = L.apply(fn, locs, st)
    return r


@model('std::optional::has_value', 'std::optional::operator bool')
def _(L, f, this, e, A, st):
    return has(L.ex.read(this, st))


@model('std::optional::value')
def _(L, f, this, e, A, st):
    ex = L.ex
    c = ex.simp(has(ex.read(this, st)), st)
    if c is not TRUE:
        st.thr.append((not_(c), 'std::bad_optional_access', st.copy()))
        st.pc.append(c)
    return ex.step(this, ('o',))


@model('std::optional::operator*', 'std::optional::operator->')
def _(L, f, this, e, A, st):
    L.ex.oblige(st, has(L.ex.read(this, st)), 'value of an optional that has one')
    return L.ex.step(this, ('o',))


@model('std::optional::value_or')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    return ite(has(v), oget(v), A.v(0))


@model('std::optional::reset')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    L.ex.write(this, none(v.sort[1]), st)
    return UNITV


@model('std::optional::emplace')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    L.ex.write(this, some(make_value(L, v.sort[1], A, st)), st)
    return L.ex.step(this, ('o',))


@model('std::make_optional')
def _(L, f, this, e, A, st):
    return raw('some', (L.conv_to(A.v(0), L.ex.p.sort(f['ret'])[1]),), None, L.ex.p.sort(f['ret']))


@model('std::make_pair', 'std::make_tuple')
def _(L, f, this, e, A, st):
    s = L.ex.p.sort(f['ret'])
    return rec(s, [L.conv_to(A.v(i), ss) for i, (_, ss) in enumerate(rfields(s))])


@model('std::tie', 'std::forward_as_tuple')
def _(L, f, this, e, A, st):
    s = L.ex.p.sort(f['ret'])
    return rec(s, [A.l(i) for i in range(len(A))])


@model('std::operator<')
def _(L, f, this, e, A, st):
    a, b = A.v(0), A.v(1)
    if a.sort != b.sort or a.sort[0] != 'R' or 'tuple' not in a.sort[1] and 'pair' not in a.sort[1]:
        raise L.uns('operator< of this type')

    def val(x):
        return L.ex.read(x, st) if x.sort == LOC else x
    r = FALSE
    for n, _ in reversed(rfields(a.sort)):
        x, y = val(fld(a, n)), val(fld(b, n))
        if not isint(x.sort) or not isint(y.sort):
            raise L.uns('operator< of this type')
        r = or_(lt(x, y), and_(eq(x, y), r))
    return r


@model('std::reference_wrapper::get', 'std::reference_wrapper::operator type-parameter-0-0 &',
       'std::shared_ptr::get', 'std::unique_ptr::get', 'std::__shared_ptr::get', 'std::unique_ptr::operator*',
       'std::unique_ptr::operator->', 'std::__shared_ptr_access::operator->', 'std::__shared_ptr_access::operator*')
def _(L, f, this, e, A, st):
    return L.ex.read(this, st)


@model('std::weak_ptr::lock')
def _(L, f, this, e, A, st):
    def lock(l):
        if l.op == 'ite':
            return ite(l.args[0], lock(l.args[1]), lock(l.args[2]))
        if l.op == 'loc' and 'expired:' + l.pl[0] in st.mem:
            # element i of this ghost sequence tells whether the object behind location i has been destroyed
            return ite(seqat(st.mem['expired:' + l.pl[0]], l.args[0]), NULL, l)
        return l
    return lock(L.ex.read(this, st))


P.append(('std::reference_wrapper::operator', lambda L, f, this, e, A, st: L.ex.read(this, st)))


@model('std::__shared_ptr::operator bool', 'std::unique_ptr::operator bool')
def _(L, f, this, e, A, st):
    return not_(eq(L.ex.read(this, st), NULL))


@model('std::queue::push', 'std::queue::emplace')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    L.ex.write(this, cat(v, unit(A.v(0), v.sort), sort=v.sort), st)
    return UNITV


@model('std::queue::front')
def _(L, f, this, e, A, st):
    return L.ex.step(this, ('i',), I(0))


@model('std::queue::pop')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    L.ex.write(this, slice_(v, I(1), sub(seqlen(v), I(1))), st)
    return UNITV


@model('std::queue::empty')
def _(L, f, this, e, A, st):
    return eq(seqlen(L.ex.read(this, st)), I(0))


@model('std::queue::size')
def _(L, f, this, e, A, st):
    return seqlen(L.ex.read(this, st))


@model('std::condition_variable::notify_one', 'std::condition_variable::notify_all')
def _(L, f, this, e, A, st):
    return UNITV


@model('std::condition_variable::wait', 'boost::asio::post', 'boost::asio::thread_pool::join')
def _(L, f, this, e, A, st):
    raise L.uns('%s outside of a contract' % f['n'])


@model('std::unique_lock::lock', 'std::unique_lock::unlock')
def _(L, f, this, e, A, st):
    ex = L.ex
    if '@lock' not in ex.contracts:
        return UNITV
    own = 'ghost:lock:' + this.pl[0]
    up = f['sn'] == 'lock'
    if st.mem.get(own) is not (FALSE if up else TRUE):
        raise L.uns('%s of a lock in another state' % f['sn'])
    ex.contracts['@' + f['sn']](ex, ex.locks.get(this.pl[0]) or ex.contracts['@mutex'], st)
    st.mem[own] = B(up)
    return UNITV


@model('std::shared_ptr::reset', 'std::unique_ptr::reset', 'std::__shared_ptr::reset')
def _(L, f, this, e, A, st):
    if len(A):
        raise L.uns('reset to another object')
    L.ex.write(this, NULL, st)
    return UNITV


@model('std::allocate_shared')
def _(L, f, this, e, A, st):
    s = L.ex.p.sort(f['ta'][0]['t'])
    return L.ex.new_root(s, make_value(L, s, A, st, 1), st, 'heap')


@model('std::bind')
def _(L, f, this, e, A, st):
    return uf('bind', [A.v(i) for i in range(len(A))], L.ex.p.sort(f['ret']))


@model('std::make_shared', 'std::make_unique')
def _(L, f, this, e, A, st):
    ex = L.ex
    t = f['ta'][0]['t']
    s = ex.p.sort(t)
    if len(A) == 0:
        v = ex.default(t, st)
    else:
        v = make_value(L, s, A, st)
    return ex.new_root(s, v, st, 'heap')


# ---------------------------------------------------------------- maps and sets
def bound_key(L, this, i):
    """an iterator of an ordered container as a bound on keys: (first key not before it,), () at the end, None if unknown."""
    if i.op == 'mge' and i.args[0] is this:
        return (i.args[1],)
    if i.op == 'mit' and i.args[0] is this and i.args[1] is FALSE:
        return ()
    return None


@model('std::set::lower_bound', 'std::set::upper_bound', 'std::map::lower_bound', 'std::map::upper_bound')
def _(L, f, this, e, A, st):
    m, k = L.ex.read(this, st), A.v(0)
    if not isint(m.sort[1]):
        raise L.uns('bound of keys of this type')
    return raw('mge', (this, k if f['sn'] == 'lower_bound' else add(k, I(1))), None, ITS)


for _c in ('unordered_map', 'map', 'unordered_set', 'set'):
    def _mk(c):
        @model('std::%s::find' % c)
        def _(L, f, this, e, A, st):
            m = L.ex.read(this, st)
            k = A.v(0)
            return mit(this, mdom(m, k), k)

        @model('std::%s::end' % c, 'std::%s::cend' % c)
        def _(L, f, this, e, A, st):
            m = L.ex.read(this, st)
            return mit(this, FALSE, raw('anykey', (), None, m.sort[1]))

        @model('std::%s::begin' % c, 'std::%s::cbegin' % c)
        def _(L, f, this, e, A, st):
            m = L.ex.read(this, st)
            return raw('vit', (this, I(0), m), None, ITS)

        @model('std::%s::size' % c)
        def _(L, f, this, e, A, st):
            return msize(L.ex.read(this, st))

        @model('std::%s::empty' % c)
        def _(L, f, this, e, A, st):
            return eq(msize(L.ex.read(this, st)), I(0))

        @model('std::%s::count' % c)
        def _(L, f, this, e, A, st):
            return ite(mdom(L.ex.read(this, st), A.v(0)), I(1), I(0))

        @model('std::%s::contains' % c)
        def _(L, f, this, e, A, st):
            return mdom(L.ex.read(this, st), A.v(0))

        @model('std::%s::clear' % c)
        def _(L, f, this, e, A, st):
            m = L.ex.read(this, st)
            L.ex.write(this, mempty(m.sort), st)
            return UNITV

        @model('std::%s::at' % c)
        def _(L, f, this, e, A, st):
            m = L.ex.read(this, st)
            k = A.v(0)
            d = L.ex.simp(mdom(m, k), st)
            if d is not TRUE:
                st.thr.append((not_(d), 'std::out_of_range', st.copy()))
                st.pc.append(d)
            return L.ex.step(this, ('k',), k)

        @model('std::%s::operator[]' % c)
        def _(L, f, this, e, A, st):
            ex = L.ex
            m = ex.read(this, st)
            k = A.v(0)
            if k.sort == LOC and m.sort[1] == ('O', 'string'):
                k = ex.read(k, st)
            d = mdom(m, k)
            if ex.simp(d, st) is not TRUE:
                mt = ex.p.ta(f['cls'], 1)
                dv = ex.default(mt, st)
                ex.write(this, ite(d, m, mstore(m, k, dv)), st)
            return ex.step(this, ('k',), k)

        @model('std::%s::erase' % c)
        def _(L, f, this, e, A, st):
            ex = L.ex
            m = ex.read(this, st)
            a = A.v(0)
            if a.sort == ITS:
                if len(A) == 2:
                    lo, hi = [bound_key(L, this, A.v(i)) for i in range(2)]
                    if lo is not None and hi is not None:
                        k = fresh('k', m.sort[1])
                        gone = and_(le(lo[0], k) if lo else TRUE, lt(k, hi[0]) if hi else TRUE)
                        if lo and hi:
                            ex.oblige(st, le(lo[0], hi[0]), 'erase of a valid range')
                        ex.write(this, mtab(lam([k], and_(mdom(m, k), not_(gone))), lam([k], mval(m, k)), m.sort), st)
                        return A.v(1)
                    raise L.uns('map range erase')
                if a.op == 'vit' and len(a.args) == 3:
                    # node-based container: iterators are positions in the enumeration of the keys at begin()
                    ex.write(this, merase(m, mkey(a.args[2], a.args[1])), st)
                    return raw('vit', (a.args[0], add(a.args[1], I(1)), a.args[2]), None, ITS)
                if a.op != 'mit':
                    raise L.uns('map erase')
                ex.oblige(st, a.args[1], 'erase of a valid iterator')
                ex.write(this, merase(m, a.args[2]), st)
                return raw('mit_after_erase', (a,), None, ITS)
            ex.write(this, merase(m, a), st)
            return ite(mdom(m, a), I(1), I(0))

        @model('std::%s::insert' % c, 'std::%s::emplace' % c, 'std::%s::try_emplace' % c,
               'std::%s::insert_or_assign' % c)
        def _(L, f, this, e, A, st):
            ex = L.ex
            m = ex.read(this, st)
            nm = f['sn']
            if nm == 'insert' and len(A) == 2 and ex.p.sort(A.t(0)) == ITS:
                r = L.range_val(A.v(0), A.v(1), st)
                if m.sort[2] == UNIT:
                    ex.write(this, L.set_union(m, r), st)
                else:
                    ex.write(this, fold_seq(m, r, lambda acc, x: mstore_new(acc, fld(x, 'first'), fld(x, 'second'))), st)
                return UNITV
            if m.sort[2] == UNIT:
                k, v = make_value(L, m.sort[1], A, st), UNITV
            elif len(A) == 1:
                x = A.v(0)
                k, v = fld(x, 'first'), L.conv_to(fld(x, 'second'), m.sort[2])
            elif len(A) == 2:
                k, v = A.v(0), L.conv_to(A.v(1), m.sort[2])
                if v.sort != m.sort[2] and not isint(v.sort):
                    v = make_value(L, m.sort[2], A, st, 1)
            else:
                raise L.uns('map emplace')
            m = ex.read(this, st)
            d = mdom(m, k)
            if nm == 'insert_or_assign' or m.sort[2] == UNIT:
                ex.write(this, mstore(m, k, v), st)
            else:
                ex.write(this, ite(d, m, mstore(m, k, v)), st)
            rs = ex.p.sort(f['ret'])
            if rs[0] == 'R':
                return rec(rs, [mit(this, TRUE, k), not_(d)])
            return UNITV
    _mk(_c)


@model('std::_List_iterator::operator++', 'std::_List_const_iterator::operator++', 'std::_Rb_tree_iterator::operator++', 'std::_Rb_tree_const_iterator::operator++',
       'std::__detail::_Node_iterator::operator++', 'std::__detail::_Node_const_iterator::operator++')
def _(L, f, this, e, A, st):
    i = L.ex.read(this, st)
    if not (i.op == 'vit' and len(i.args) == 3):
        raise L.uns('increment of a map iterator')
    n = raw('vit', (i.args[0], add(i.args[1], I(1)), i.args[2]), None, ITS)
    L.ex.write(this, n, st)
    return i if len(f['params']) == 1 else this


@model('std::_Rb_tree_iterator::operator*', 'std::_Rb_tree_iterator::operator->', 'std::_Rb_tree_const_iterator::operator*',
       'std::_Rb_tree_const_iterator::operator->', 'std::__detail::_Node_iterator::operator*',
       'std::__detail::_Node_iterator::operator->', 'std::__detail::_Node_const_iterator::operator*',
       'std::__detail::_Node_const_iterator::operator->')
def _(L, f, this, e, A, st):
    return deref(L, L.ex.read(this, st), st)


# ---------------------------------------------------------------- functions
@model('std::function::operator()')
def _(L, f, this, e, A, st):
    ex = L.ex
    c = ex.read(this, st)
    avs = []
    for i, q in enumerate(f['params']):
        avs.append(A.l(i) if ex.p.ts(q['t'])['k'] == 'ref' else A.v(i))
    return L.apply(c, avs, st, ret=f['ret'], at=this)


@model('std::unordered_multimap::insert')
def _(L, f, this, e, A, st):
    # the new entry takes some place among the others; the position is never observed by the contracts
    ex = L.ex
    v = ex.read(this, st)
    ex.write(this, cat(v, unit(A.v(0), v.sort)), st)
    return vit(this, seqlen(v))


@model('std::random_device::operator()')
def _(L, f, this, e, A, st):
    return fresh('entropy', L.ex.p.sort(f['ret']))


@model('std::uniform_real_distribution::operator()', 'std::uniform_int_distribution::operator()')
def _(L, f, this, e, A, st):
    # the k-th random number drawn: an uninterpreted function of the distribution and k
    n = st.mem.get('ghost:draws', I(0))
    st.mem['ghost:draws'] = add(n, I(1))
    return uf('draw', [L.ex.read(this, st), n], L.ex.p.sort(f['ret']))


@model('std::function::operator bool')
def _(L, f, this, e, A, st):
    c = L.ex.read(this, st)
    if c.op != 'nofn' and '@apply' in L.ex.contracts:
        return not_(uf('empty_function', [c], BOOL))
    return FALSE if c.op == 'nofn' else TRUE


@model('std::invoke')
def _(L, f, this, e, A, st):
    return L.apply(A.v(0), [A.l(i) for i in range(1, len(A))], st)


# ---------------------------------------------------------------- misc
@model('std::this_thread::sleep_for', 'std::mutex::lock', 'std::mutex::unlock', 'std::terminate')
def _(L, f, this, e, A, st):
    return UNITV


@model('boost::uuids::operator==')
def _(L, f, this, e, A, st):
    return eq(A.v(0), A.v(1))


@model('boost::uuids::operator!=')
def _(L, f, this, e, A, st):
    return not_(eq(A.v(0), A.v(1)))


@model('boost::uuids::operator<')
def _(L, f, this, e, A, st):
    return uf('uuid<', [A.v(0), A.v(1)], BOOL)


@model('boost::uuids::basic_name_generator::operator()')
def _(L, f, this, e, A, st):
    # the same identifier for the same name, whenever it is asked for
    x = A.v(0)
    return uf('uuid of name', [L.ex.read(this, st), L.ex.read(x, st) if x.sort == LOC else x], L.ex.p.sort(f['ret']))


@model('boost::uuids::nil_uuid')
def _(L, f, this, e, A, st):
    return raw('nil_uuid', (), None, L.ex.p.sort(f['ret']))


@model('boost::uuids::uuid::is_nil')
def _(L, f, this, e, A, st):
    v = L.ex.read(this, st)
    return eq(v, raw('nil_uuid', (), None, v.sort))


@model('boost::uuids::random_generator_pure::operator()')
def _(L, f, this, e, A, st):
    return fresh('random_uuid', L.ex.p.sort(f['ret']))


@model('std::any_cast')
def _(L, f, this, e, A, st):
    ex = L.ex
    l = A.l(0)
    return uf('any_cast', [ex.read(l, st)], ex.p.sort(f['ret']))


# ---------------------------------------------------------------- strings (uninterpreted)
@model('std::operator+')
def _(L, f, this, e, A, st):
    ex = L.ex
    vs = []
    for i in range(2):
        v = A.v(i)
        if v.sort == LOC:
            v = ex.read(v, st)
        vs.append(v)
    return uf('str+', vs, ('O', 'string'))


@model('std::to_string')
def _(L, f, this, e, A, st):
    return uf('to_string', [A.v(0)], ('O', 'string'))


@model('std::basic_string::empty')
def _(L, f, this, e, A, st):
    return eq(L.ex.read(this, st), S(''))


@model('std::basic_string::c_str')
def _(L, f, this, e, A, st):
    return this


# ---------------------------------------------------------------- boost::multi_index (sequence of elements in insertion order)
def mi_indices(L, t):
    """[(unique, tag, member)] of the container type."""
    import re
    s = L.ex.p.ts(t)['s']
    return [(u == 'unique', tag, m) for u, tag, m in
            re.findall(r'hashed_(unique|non_unique)<boost::multi_index::tag<([^,>]*)[^&]*&.*?::(\w+)>,', s)]


def mi_loc(this):
    return this.args[0] if this.op == 'mix' else this


@model('boost::multi_index::multi_index_container::get')
def _(L, f, this, e, A, st):
    ixs = mi_indices(L, f['cls'])
    tag = L.ex.p.ts(f['ta'][0]['t'])['s']
    for i, (un, tg, m) in enumerate(ixs):
        if tg.strip() == tag:
            return raw('mix', (this,), (i, un, m), LOC)
    raise L.uns('multi_index tag %s' % tag)


@model('boost::multi_index::detail::hashed_index::clear')
def _(L, f, this, e, A, st):
    l = mi_loc(this)
    L.ex.write(l, nil(L.ex.read(l, st).sort), st)
    return UNITV


def mi_all(L, f):
    t = f['cls']
    for i, x in enumerate(L.ex.p.types):
        if x.get('n') == 'boost::multi_index::multi_index_container' and x['s'].split('<', 1)[1][:200] in L.ex.p.ts(t)['s']:
            return mi_indices(L, i)
    raise L.uns('multi_index container type')


@model('boost::multi_index::detail::hashed_index::insert')
def _(L, f, this, e, A, st):
    ex = L.ex
    l = mi_loc(this)
    v = ex.read(l, st)
    x = A.v(0)
    g = FALSE
    for un, tg, m in mi_all(L, f):
        if un:
            i = fresh('i', Z, 0)
            g = or_(g, exists_lt(seqlen(v), lam([i], eq(fld(seqat(v, i), m), fld(x, m)))))
    ex.write(l, ite(g, v, cat(v, unit(x, v.sort), sort=v.sort)), st)
    return UNITV


@model('boost::multi_index::detail::hashed_index::equal_range')
def _(L, f, this, e, A, st):
    ex = L.ex
    if this.op != 'mix':
        raise L.uns('equal_range on %s' % this.op)
    v = ex.read(this.args[0], st)
    m = this.pl[2]
    i = fresh('i', Z, 0)
    x = A.v(0)
    r = flat(seqlen(v), lam([i], ite(eq(fld(seqat(v, i), m), x), unit(seqat(v, i), v.sort), nil(v.sort))), v.sort)
    l = ex.new_root(v.sort, r, st, 'range')
    return rec(recsort(('pair', ITS, ITS), [('first', ITS), ('second', ITS)]), [vit(l, I(0)), vit(l, seqlen(r))])


@model('boost::multi_index::detail::hashed_index::erase')
def _(L, f, this, e, A, st):
    ex = L.ex
    l = mi_loc(this)
    v = ex.read(l, st)
    if len(A) != 1 or A.v(0).op == 'vit':
        raise L.uns('multi_index erase by iterator')
    ixs = mi_all(L, f)
    m = this.pl[2] if this.op == 'mix' else ixs[0][2]
    i = fresh('i', Z, 0)
    x = A.v(0)
    r = flat(seqlen(v), lam([i], ite(eq(fld(seqat(v, i), m), x), nil(v.sort), unit(seqat(v, i), v.sort))), v.sort)
    ex.write(l, r, st)
    return sub(seqlen(v), seqlen(r))


# ---------------------------------------------------------------- atomics (one thread at a time)
@model('std::atomic::operator bool', 'std::__atomic_base::operator __int_type', 'std::atomic::load', 'std::__atomic_base::load')
def _(L, f, this, e, A, st):
    return L.ex.read(this, st)


@model('std::atomic::operator=', 'std::atomic::store', 'std::__atomic_base::store', 'std::__atomic_base::operator=')
def _(L, f, this, e, A, st):
    v = A.v(0)
    L.ex.write(this, v, st)
    return v
