"""F09: normalization changes exactly the values it is asked to change."""
from vc import *
import ir
from loading import arms

NS = 'knp::framework::'


def f09(V):
    p = V.programs['eval']
    for f in p.fns_all():
        n = f['n'][len(NS):]
        if not n.startswith('kvc_') or 'body' not in f:
            continue
        kind = 'float' if ('F', 32) in [p.sort(p.strip(q['t'])) for q in f['params']] else 'double'
        if n.startswith('kvc_normali'):
            V.contract(('normalized copy of a network: ' if 'normalized' in n else 'normalizing a network: ') + n.split('_')[-1], lambda: whole(V, p, f, n))
        elif n == 'kvc_rescale':
            V.contract('Rescaler::operator() [%s]' % kind, lambda: rescale(V, p, f))
        elif n == 'kvc_rescaler':
            V.contract('Rescaler::Rescaler [%s]' % kind, lambda: rescaler(V, p, f))


def conv(x, s):
    if x.sort == s:
        return x
    if x.sort[0] == 'F' == s[0]:
        return ir.f2f(s[1], x)
    if s[0] == 'F':
        return ir.i2f(s[1], x)
    return ir.f2i(s, x)


def change(x, name, corrected):
    """x with the named field, its own or of a base class, corrected."""
    fs = dict(rfields(x.sort))
    if name in fs:
        return setf(x, **{name: corrected(g(x, name))})
    for b in fs:
        if b.startswith('@'):
            y = change(g(x, b), name, corrected)
            if y is not None:
                return setf(x, **{b: y})
    return None


def whole(V, p, f, n):
    net = var('network', p.sort(p.strip(f['params'][0]['t'])))
    c = var('corrector', p.sort(p.strip(f['params'][1]['t'])))
    at, inner, name = ('projections_', 'parameters_', 'weight_') if 'synapses' in n else ('populations_', 'neurons_', 'potential_')
    vs = ('F', 32 if 'synapses' in n else 64)
    corrected = lambda x: conv(uf('corrected', [conv(x, vs)], vs), x.sort)

    def apply(ex, k, avs, st, ret):
        if k is not c:
            raise Unsupported('calls something else than the function given')
        v = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
        if v.sort != p.sort(ret):
            raise Unsupported('a function of values of another type')
        return uf('corrected', [v], v.sort)
    r = V.run('eval', f, {f['params'][0]['n']: ir.loc('ghost:net', (), ()), f['params'][1]['n']: c}, contracts={'@apply': apply}, mem={'ghost:net': net})
    V.no_throw(r)
    V.assumed.add('the function that corrects values has no state')
    copy = 'normalized' in n
    out = V.retval(r) if copy else r.st.mem['ghost:net']
    old, new = g(net, at), g(out, at)
    k, j = fresh('k', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)

    def arm(i, x):
        seq = g(x, inner)
        e = seqat(seq, j)
        want = change(e, name, corrected) if 'synapses' not in n else setf(e, **{'0': change(g(e, '0'), name, corrected)})
        return inj(i, setf(x, **{inner: tab(seqlen(seq), lam([j], want), seq.sort)}), seqat(old, k).sort)
    V.prove_eq('every element keeps everything but the corrected value', new, tab(seqlen(old), lam([k], arms(seqat(old, k), arm)), old.sort))
    V.prove_eq('nothing else of the network changes', setf(out, **{at: old}), net)
    if copy:
        V.prove_eq('the original stays as it was', r.st.mem['ghost:net'], net)


def rescaler(V, p, f):
    a, b, c, d = xs = [var(q['n'], p.sort(q['t'])) for q in f['params']]
    r = V.run('eval', f, {q['n']: x for q, x in zip(f['params'], xs)})
    V.no_throw(r)
    out = V.retval(r)
    for fl, x in (('in_interval_start_', a), ('in_interval_end_', b), ('out_interval_start_', c), ('out_interval_end_', d)):
        V.prove_eq('keeps ' + fl.strip('_').replace('_', ' '), g(out, fl), x)
    V.prove_eq('the scale is the ratio of the intervals', g(out, 'intervals_rescaler_'), ir.fop('f/', ir.fop('f-', d, c), ir.fop('f-', b, a)))


def rescale(V, p, f):
    me, x = var('rescaler', p.sort(p.strip(f['params'][0]['t']))), var('value', p.sort(f['params'][1]['t']))
    r = V.run('eval', f, {f['params'][0]['n']: ir.loc('ghost:r', (), ()), f['params'][1]['n']: x}, mem={'ghost:r': me})
    V.no_throw(r)
    V.prove_eq('the value moves from the one interval into the other', V.retval(r), ir.fop(
        'f+', g(me, 'out_interval_start_'), ir.fop('f*', ir.fop('f-', x, g(me, 'in_interval_start_')), g(me, 'intervals_rescaler_'))))
    V.prove_eq('and the rescaler stays as it was', r.st.mem['ghost:r'], me)
