"""B03: the network a backend holds: loading, learning locks, iteration."""
from vc import *
import ir
import lib

CLS = {'st': 'knp::backends::single_threaded_cpu::SingleThreadedCPUBackend::',
       'mt': 'knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend::'}


def b03(V):
    for u, cls in CLS.items():
        p = V.programs[u]
        for n, at in (('load_populations', 'populations_'), ('load_projections', 'projections_'),
                      ('load_all_populations', 'populations_'), ('load_all_projections', 'projections_')):
            load(V, u, p, V.fn(u, cls + n), at)
        for n in ('start_learning', 'stop_learning'):
            learning(V, u, p, V.fn(u, cls + n), n == 'stop_learning')
        ranges(V, u, p, cls)
        for it, at in (('PopulationValueIterator', 'populations_'), ('ProjectionValueIterator', 'projections_')):
            iterator(V, u, p, cls, it, at)
        supported(V, u, p, cls)


def arms(v, f):
    """f(i, payload) of the alternative v holds."""
    n = len(v.sort[1])
    t = f(n - 1, vget(v, n - 1))
    for i in range(n - 1):
        t = ite(eq(vidx(v), I(i)), f(i, vget(v, i)), t)
    return t


def load(V, u, p, f, at):
    def body():
        me = var('backend', p.sort(f['cls']))
        old = g(me, at)
        given = var('given', p.sort(p.strip(f['params'][0]['t'])))
        es, gs = old.sort[1], given.sort[1]
        wrapped = es[0] == 'R'
        vs = dict(rfields(es))['arg_'] if wrapped else es
        r = V.run(u, f, {f['params'][0]['n']: given}, this=me)
        i = fresh('i', Z, 0, SIZEMAX)
        x = seqat(given, i)
        known = [k for k in range(len(gs[1])) if gs[1][k] in vs[1]]
        bad = or_(*[eq(vidx(x), I(k)) for k in range(len(gs[1])) if k not in known])
        n = seqlen(given)
        end, facts = n, []
        got = V.out(r, 'this')
        thr = or_(*[c for c, _, _ in r.st.thr])
        if bad is not FALSE:
            # end: the first unsupported one, or the number given
            ends = {t for t in ir.subterms(thr).values() if t.op == 'least'}
            if len(ends) != 1:
                raise Unsupported('%d loops' % len(ends))
            e, = ends
            (j,), stop = openlam(e.args[1])
            V.prove_eq('looks at all of them', e.args[0], n)
            V.prove_eq('stops at a type the backend does not support', stop, subst(bad, {i: j}), [lt(j, n)])
            end = fresh('end', Z, 0, SIZEMAX)
            facts = [le(end, n), implies(lt(end, n), subst(bad, {i: end})), forall_lt(end, lam([i], not_(bad)))]
            thr, got = replace(thr, e, end), replace(got, e, end)
        V.prove_eq('throws exactly on a type the backend does not support', thr, lt(end, n), facts)
        facts = [replace(x, end, n) for x in facts]
        got = replace(got, end, n)

        def conv(k, y):
            y = inj(vs[1].index(y.sort) if y.sort in vs[1] else 0, y if y.sort in vs[1] else vget(fresh('z', vs), 0), vs)
            if not wrapped:
                return y
            return rec(es, [y if n == 'arg_' else empty(s) for n, s in rfields(es)])
        new = g(got, at)
        V.prove_eq('as many as given', seqlen(new), n, facts)
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('each is the one given, in order, with nothing pending', seqat(new, k), arms(seqat(given, k), conv),
                   facts + [lt(k, n)])
        V.prove_eq('nothing else changes', setf(got, **{at: old}), me, facts)
        V.prove_eq('the given network is unchanged', V.out(r, f['params'][0]['n']), given)
    V.contract(f['n'], body)


def empty(s):
    if s[0] == 'M':
        q = fresh('q', s[1])
        return ir.mempty(s)
    return nil(s)


def learning(V, u, p, f, locked):
    def body():
        me = var('backend', p.sort(f['cls']))
        r = V.run(u, f, {}, this=me)
        got, old = V.out(r, 'this'), g(me, 'projections_')
        new = g(got, 'projections_')
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('as many projections', seqlen(new), seqlen(old))
        V.prove_eq('every projection is %slocked and keeps everything else' % ('' if locked else 'un'), seqat(new, k),
                   setf(seqat(old, k), arg_=arms(g(seqat(old, k), 'arg_'), lambda i, x: inj(i, setf(x, is_locked_=TRUE if locked else FALSE), g(seqat(old, k), 'arg_').sort))), [lt(k, seqlen(old))])
        V.prove_eq('nothing else changes', setf(got, projections_=old), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def vit(root, at, k):
    return lib.vit(ir.loc(root, (('f', at),)), k)


def ranges(V, u, p, cls):
    """iteration starts at the first element and ends behind the last one."""
    f = V.fn(u, cls + 'get_network_data')
    me = var('backend', p.sort(f['cls']))
    for what in ('populations', 'projections'):
        for end in (False, True):
            for f in [f for f in p.fns_all() if f['n'] == '%s%s_%s' % (cls, 'end' if end else 'begin', what) and 'body' in f]:
                def body(f=f, what=what, end=end):
                    r = V.run(u, f, {}, this=me)
                    at = what + '_'
                    V.prove_eq('the position', V.retval(r), vit(r.roots['this'], at, seqlen(g(me, at)) if end else I(0)))
                    V.prove_eq('the backend is unchanged', V.out(r, 'this'), me)
                    V.no_throw(r)
                V.contract('%s [%s]' % (f['n'], 'const' if f.get('const') else 'mutable'), body)
    f = V.fn(u, cls + 'get_network_data')

    def body():
        r = V.run(u, f, {}, this=me)
        ret = V.retval(r)
        for rng, at in (('population_range', 'populations_'), ('projection_range', 'projections_')):
            pair = fld(ret, rng)
            for end, x in ((False, fld(pair, 'first')), (True, fld(pair, 'second'))):
                if x.op != 'loc':
                    raise Unsupported('iterator object')
                obj = r.ex.read(x, r.st)
                V.prove_eq('%s %s' % (rng, 'end' if end else 'begin'), g(obj, 'iter_'),
                           vit(r.roots['this'], at, seqlen(g(me, at)) if end else I(0)))
        V.prove_eq('the backend is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def iterator(V, u, p, cls, it, at):
    ns = cls.rsplit('::', 2)[0] + '::'
    me = var('backend', p.sort(V.fn(u, cls + 'get_network_data')['cls']))
    fs = {n: V.fn(u, ns + it + '::operator' + n) for n in ('*', '++', '==')}
    s = p.sort(fs['*']['cls'])
    k, m = var('k', Z, 0, SIZEMAX), var('m', Z, 0, SIZEMAX)

    def at_(i):
        return rec(s, [vit('BACK', at, i)])

    def body():
        V.requires(lt(k, seqlen(g(me, at))))
        r = V.run(u, fs['*'], {}, this=at_(k), mem={'BACK': me})
        x = seqat(g(me, at), k)
        if at == 'projections_':
            x = g(x, 'arg_')
        got = V.retval(r)

        def same(i, y):
            return inj([str(t) for t in got.sort[1]].index(str(y.sort)), y, got.sort)
        V.prove_eq('the current element, as it is', got, arms(x, same), [lt(k, seqlen(g(me, at)))])
        V.prove_eq('reading keeps the position', V.out(r, 'this'), at_(k))
        V.no_throw(r)
        r = V.run(u, fs['++'], {}, this=at_(k), mem={'BACK': me})
        V.prove_eq('advances by one', V.out(r, 'this'), at_(add(k, I(1))))
        r = V.run(u, fs['=='], {'rhs': at_(m)}, this=at_(k), mem={'BACK': me})
        V.prove_eq('equal exactly at the same position', V.retval(r), eq(k, m))
    V.contract(ns + it, body)


def supported(V, u, p, cls):
    """the advertised types are those that load."""
    def types(n):
        return p.sort(p.strip(V.fn(u, cls + n)['params'][0]['t']))[1]

    def body():
        for what, all_, own in (('population', types('load_all_populations'), types('load_populations')),
                                ('projection', types('load_all_projections'), types('load_projections'))):
            idx = [all_[1].index(t) for t in own[1]]
            r = V.run(u, V.fn(u, cls + 'get_supported_%s_indexes' % what), {})
            V.prove_eq('indexes of the %s types that load' % what, V.retval(r), cat(*[unit(I(i), ('S', Z)) for i in idx], sort=V.retval(r).sort))
            r = V.run(u, V.fn(u, cls + 'get_supported_' + ('neurons' if what == 'population' else 'synapses')), {})
            got = V.retval(r)
            want = [short(t) for t in own[1]]
            V.prove_eq('names of the %s types that load' % what, got, cat(*[unit(S(x), got.sort) for x in want], sort=got.sort))
            V.no_throw(r)
    V.contract(cls + 'get_supported_*', body)


def short(s):
    """the documented name of the neuron or synapse type of a population or projection."""
    t = s[1] if s[0] == 'R' else str(s)
    base = t.rsplit('>', 1)[0].replace('>', '').split('<')[-1].split(',')[-1].split('::')[-1].strip()
    if 'SynapticResourceSTDPNeuron' in t:
        return 'SynapticResourceSTDP' + base + ('' if base.endswith('Neuron') else 'Neuron')
    return ('AdditiveSTDP' if 'STDPAdditiveRule' in t else 'SynapticResourceSTDP' if 'STDPSynapticResourceRule' in t else '') + base
