"""F02: connection patterns and population creators."""
from vc import *
import ir
from containers import gen_seq, CALLS, tup
from framework import result_of, every_pair, ends_of, generated
from backend import iff

CR = 'knp::framework::projection::creators::'
PC = 'knp::framework::population::creators::'
DRAWS = 'ghost:draws'


class Make:
    """one creator run on arbitrary arguments."""

    def __init__(self, V, f, pc=None):
        self.V, self.f = V, f
        self.p = V.programs['make']
        self.ins = {q['n']: var(q['n'], self.p.sort(self.p.strip(q['t']))) for q in f['params']}
        self.mem = dict(CALLS)
        self.mem[DRAWS] = I(0)
        self.pc = pc(self.ins) if pc else []
        self.r = V.run('make', f, self.ins, pc=self.pc, mem=self.mem)
        self.out = V.retval(self.r)

    def ends(self, facts=()):
        V, ins = self.V, self.ins
        V.prove_eq('comes from the population given', g(self.out, 'presynaptic_uid_'), ins['presynaptic_uid'], self.pc + list(facts))
        V.prove_eq('goes to the population given', g(self.out, 'postsynaptic_uid_'), ins['postsynaptic_uid'], self.pc + list(facts))

    @property
    def syn(self):
        return g(self.out, 'parameters_')


def small(*names):
    def pc(ins):
        t = I(1)
        out = []
        for n in names:
            t = mul(t, ins[n])
            out.append(le(ins[n], I(SIZEMAX)))
        return out + [le(t, I(SIZEMAX))]
    return pc


N, M = 'presynaptic_pop_size', 'postsynaptic_pop_size'


def f02(V):
    p = V.programs['make']
    parameters(V)
    for f in p.fns_all():
        if 'body' not in f:
            continue
        for pre in (CR, PC):
            if f['n'].startswith(pre):
                n = f['n'][len(pre):]
                spec = globals().get(('prj_' if pre is CR else 'pop_') + n)
                if spec:
                    def body(f=f, spec=spec):
                        spec(V, f)
                    ret = p.types[f['ret']]['s'].replace('knp::', '')
                    V.contract('%s -> %s' % (f['n'], ret), body)


def parameters(V):
    p = V.programs['make']
    pre = 'knp::framework::projection::parameters_generators::'
    for f in p.fns_all():
        if 'body' not in f or not f['n'].startswith(pre) or '(unnamed)' in f['n']:
            continue
        if f['sn'].startswith('default_synapse_gen_'):
            def made(f=f):
                r = V.run('make', f, {})
                V.prove_rec('newly made parameters', V.retval(r), r.ex.default(p.strip(f['ret']), State()))
                V.no_throw(r)
            V.contract('%s -> %s' % (f['n'], p.types[f['ret']]['s'].replace('knp::', '')), made)
        elif f['n'].endswith('CopySynapseGen::operator()'):
            def copied(f=f):
                this = var('generator', p.sort(f['cls']))
                r = V.run('make', f, {}, this=this)
                V.prove_rec('the parameters it was made with', V.retval(r), g(this, 'base_synapse_'))
                V.prove_rec('the generator is unchanged', V.out(r, 'this'), this)
                V.no_throw(r)
            V.contract('%s -> %s' % (f['n'], p.types[f['ret']]['s'].replace('knp::', '')), copied)
        elif f.get('ctor') and f['sn'] == 'CopySynapseGen' and len(f['params']) == 1 and f['params'][0]['n'] == 'base_synapse':
            def kept_(f=f):
                base = var('base', p.sort(p.strip(f['params'][0]['t'])))
                r = V.run('make', f, {'base_synapse': base})
                V.prove_rec('keeps the parameters given', g(V.retval(r), 'base_synapse_'), base)
                V.no_throw(r)
            V.contract('%s(%s)' % (f['n'], p.types[p.strip(f['params'][0]['t'])]['s'].replace('knp::', '')), kept_)


def prj_all_to_all(V, f):
    x = Make(V, f, small(N, M))
    x.ends()
    every_pair(V, x.syn, x.ins[N], x.ins[M], x.ins['syn_gen'], x.pc)
    V.no_throw(x.r)


def prj_one_to_one(V, f):
    x = Make(V, f)
    x.ends()
    n = x.ins['population_size']
    V.prove_eq('one synapse per neuron', seqlen(x.syn), n)
    k = fresh('k', Z, 0, SIZEMAX)
    a, b = ends_of(x.syn, k)
    V.prove_eq('from the neuron with this number', a, k, [lt(k, n)])
    V.prove_eq('to the neuron with the same number', b, k, [lt(k, n)])
    V.prove_eq('with the parameters given for it', tup(seqat(x.syn, k), 0), uf('call', [x.ins['syn_gen'], k, k], tup(seqat(x.syn, k), 0).sort), [lt(k, n)])
    V.no_throw(x.r)


def params(x, k):
    return tup(seqat(x.syn, k), 0)


def prj_aligned(V, f):
    for wide in (True, False):
        big, lit = (N, M) if wide else (M, N)
        x = Make(V, f, lambda ins: small(N, M)(ins) + [le(I(1), ins[lit]), (le if wide else lt)(ins[lit], ins[big])])
        n, m = x.ins[big], x.ins[lit]
        tag = 'presynaptic population not smaller: ' if wide else 'postsynaptic population larger: '
        x.ends()
        V.prove_eq(tag + 'one synapse per neuron of the larger population', seqlen(x.syn), n, x.pc)
        k = fresh('k', Z, 0, SIZEMAX)
        at = x.pc + [lt(k, n)]
        a, b = ends_of(x.syn, k)
        if not wide:
            a, b = b, a
        V.prove_eq(tag + 'every neuron of the larger population is connected, in order', a, k, at)
        V.prove(tag + 'to a neuron of the smaller population', and_(le(I(0), b), lt(b, m)), at)
        V.prove(tag + 'in order, spread evenly', and_(le(mul(b, n), mul(k, m)), lt(mul(k, m), mul(add(b, I(1)), n))), at)
        a, b = ends_of(x.syn, k)
        V.prove_eq(tag + 'with the parameters given for the pair', params(x, k), uf('call', [x.ins['syn_gen'], k, a, b], params(x, k).sort), at)
        V.no_throw(x.r)


def prj_exclusive(V, f):
    x = Make(V, f, lambda ins: [le(ins['pops_size'], I(1 << 24)), le(I(1), ins['pops_size'])])
    n = x.ins['pops_size']
    x.ends()
    count = mul(n, sub(n, I(1)))
    V.prove_eq('as many synapses as ordered pairs of different neurons', seqlen(x.syn), count, x.pc)
    k, l = fresh('k', Z, 0, SIZEMAX), fresh('l', Z, 0, SIZEMAX)
    at = x.pc + [lt(k, count)]
    a, b = ends_of(x.syn, k)
    c, d = ends_of(x.syn, l)
    V.prove('every source is a neuron of the population', and_(le(I(0), a), lt(a, n)), at)
    V.prove('every target is a neuron of the population', and_(le(I(0), b), lt(b, n)), at)
    V.prove('no neuron is connected to itself', not_(eq(a, b)), at)
    V.prove('no pair is connected twice', implies(and_(eq(a, c), eq(b, d)), eq(k, l)), at + [lt(l, count)])
    V.prove_eq('with the parameters given for the pair', params(x, k), uf('call', [x.ins['syn_gen'], k, a, b], params(x, k).sort), at)
    V.no_throw(x.r)


def prj_from_container(V, f):
    x = Make(V, f)
    x.ends()
    V.prove_eq('its synapses are those of the container, in order', x.syn, x.ins['container'])
    V.no_throw(x.r)


def prj_from_map(V, f):
    x = Make(V, f)
    x.ends()
    m = x.ins['synapses_map']
    V.prove_eq('as many synapses as entries', seqlen(x.syn), ir.msize(m))
    k = fresh('k', Z, 0, SIZEMAX)
    at = [lt(k, ir.msize(m))]
    key = ir.mkey(m, k)
    a, b = ends_of(x.syn, k)
    V.prove_eq('from the neuron the key names', a, tup(key, 0), at)
    V.prove_eq('to the neuron the key names', b, tup(key, 1), at)
    V.prove_eq('with the parameters of the entry', params(x, k), ir.mval(m, key), at)
    V.no_throw(x.r)


def sieve(V, x, count, pick):
    """synapses of the pairs (k % n, k / n), k < count, for which pick(k, a, b) gives parameters, in order."""
    n = x.ins[N]
    k = fresh('k', Z, 0, SIZEMAX)
    a, b = imod(k, n), idiv(k, n)
    there, par = pick(k, a, b)
    el = rec(x.syn.sort[1], [par, a, b])
    V.prove_eq('one synapse for every pair chosen, in order, with the parameters given for it', x.syn,
               flat(count, lam([k], ite(there, unit(el, x.syn.sort), nil(x.syn.sort))), x.syn.sort), x.pc)
    at = x.pc + [lt(k, count)]
    V.prove('every source is a neuron of the presynaptic population', lt(a, n), at)
    V.prove('every target is a neuron of the postsynaptic population', lt(b, x.ins[M]), at)
    l = fresh('l', Z, 0, SIZEMAX)
    V.prove('no pair is considered twice', implies(and_(eq(a, imod(l, n)), eq(b, idiv(l, n))), eq(k, l)), at + [lt(l, count)])


def prj_index_based(V, f):
    x = Make(V, f, small(N, M))
    x.ends()
    par = x.syn.sort[1]

    def pick(k, a, b):
        o = uf('call', [x.ins['syn_gen'], k, a, b], ('OPT', dict(rfields(par))['0']))
        return has(o), oget(o)
    sieve(V, x, mul(x.ins[N], x.ins[M]), pick)
    V.no_throw(x.r)


def drawn(k, kind, *limits):
    """the k-th random number drawn from a distribution."""
    p = U64 if kind == 'int' else ('F', 64)
    d = uf('random:uniform_%s_distribution' % kind, list(limits), ('O', 'std::uniform_%s_distribution<%s>' % (kind, NAMES[p])))
    return uf('draw', [d, k], p)


NAMES = {('F', 64): 'double', U64: 'unsigned long'}


def prj_fixed_probability(V, f):
    x = Make(V, f, small(N, M))
    p = x.ins['connection_probability']
    bad = or_(flt(F(1, 64), p), flt(p, F(0, 64)))
    V.prove('a probability outside [0, 1] is rejected', iff(or_(*[c for c, _, _ in x.r.thr]), bad), x.pc)
    x.pc = x.pc + [not_(bad)]
    x.ends()
    par = x.syn.sort[1]
    j = fresh('j', Z, 0, SIZEMAX)

    def chosen(k):
        return flt(drawn(k, 'real', F(0, 64), F(1, 64)), p)

    def pick(k, a, b):
        before = isum(k, lam([j], ite(chosen(j), I(1), I(0))))
        return chosen(k), uf('call', [x.ins['syn_gen'], before, a, b], dict(rfields(par))['0'])
    sieve(V, x, mul(x.ins[N], x.ins[M]), pick)


def prj_fixed_number_post(V, f):
    fixed(V, f, N, M, 1)


def prj_fixed_number_pre(V, f):
    fixed(V, f, M, N, 0)


def fixed(V, f, mine, other, at_random):
    x = Make(V, f, lambda ins: small(mine, 'neurons_count')(ins) + [le(I(1), ins[other])])
    x.ends()
    n, m, count = x.ins[mine], x.ins[other], x.ins['neurons_count']
    V.prove_eq('the number asked for, per neuron', seqlen(x.syn), mul(n, count), x.pc)
    k = fresh('k', Z, 0, SIZEMAX)
    at = x.pc + [lt(k, mul(n, count))]
    e = ends_of(x.syn, k)
    a, b = e[1 - at_random], e[at_random]
    V.prove_eq('the neurons take turns', a, imod(k, n), at)
    d = drawn(k, 'int', I(0), sub(m, I(1)))
    V.prove_eq('the other end is drawn from all neurons of the other population', b, d, at)
    V.prove('the other end is a neuron of the other population', lt(b, m), at + [le(I(0), d), le(d, sub(m, I(1)))])
    V.prove_eq('with the parameters given for the pair', params(x, k), uf('call', [x.ins['syn_gen'], k, e[0], e[1]], params(x, k).sort), at)
    V.no_throw(x.r)


def prj_clone_projection(V, f):
    x = Make(V, f)
    src = x.ins['source_proj']
    for end, at in (('presynaptic_uid', 'presynaptic_uid_'), ('postsynaptic_uid', 'postsynaptic_uid_')):
        given = x.ins[end]
        V.prove_eq('%s: the one given, or that of the source' % end, g(x.out, at), ite(has(given), oget(given), g(src, at)))
    V.prove_eq('as many synapses as the source', seqlen(x.syn), seqlen(g(src, 'parameters_')))
    k = fresh('k', Z, 0, SIZEMAX)
    at = [lt(k, seqlen(g(src, 'parameters_')))]
    for i, (a, b) in enumerate(zip(ends_of(x.syn, k), ends_of(g(src, 'parameters_'), k))):
        V.prove_eq('the same %s neuron' % ('source', 'target')[i], a, b, at)
    V.prove_eq('with the parameters given for it', params(x, k), uf('call', [x.ins['syn_gen'], k, k], params(x, k).sort), at)
    V.prove_eq('the source is unchanged', V.out(x.r, 'source_proj'), src)
    V.no_throw(x.r)


def pop_from_container(V, f):
    x = Make(V, f)
    V.prove_eq('its neurons are those of the container, in order', g(x.out, 'neurons_'), x.ins['container'])
    V.no_throw(x.r)


def pop_make_clone(V, f):
    x = Make(V, f)
    n = x.ins['neuron_count']
    k = fresh('k', Z, 0, SIZEMAX)
    V.prove_eq('as many neurons as asked for', seqlen(g(x.out, 'neurons_')), n)
    V.prove_eq('every neuron is a copy of the one given', seqat(g(x.out, 'neurons_'), k), x.ins['source_neuron'], [lt(k, n)])
    V.no_throw(x.r)


def pop_make_default(V, f):
    x = Make(V, f)
    n = x.ins['neuron_count']
    k, l = fresh('k', Z, 0, SIZEMAX), fresh('l', Z, 0, SIZEMAX)
    V.prove_eq('as many neurons as asked for', seqlen(g(x.out, 'neurons_')), n)
    V.prove_eq('every neuron is a newly made one', seqat(g(x.out, 'neurons_'), k), fresh_made(V, x, f), [lt(k, n)])
    V.no_throw(x.r)


def type_of(p, want):
    for t in range(len(p.types)):
        if p.ts(t)['k'] == 'rec' and p.sort(t) == want and not p.ts(t)['s'].startswith('const'):
            return t
    raise Unsupported('type of %s' % (want,))


def fresh_made(V, x, f):
    """what value initialisation of the neuron parameters makes."""
    return x.r.ex.default(type_of(x.p, g(x.out, 'neurons_').sort[1]), State())
