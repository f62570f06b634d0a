"""N01-N03: single-step dynamics of the neuron models (contracts on the population-level functions)."""
from vc import *

PN = 'knp::backends::cpu::populations::'
EXC, INH, COND, DOPA, BLOCK = 0, 1, 2, 3, 4
I64MAX = (1 << 63) - 1


def messages(ex_prog, sort, types, name='msgs'):
    """all impact-message vectors whose synapse types lie in `types`."""
    ms = var(name, sort)
    msort = sort[1]
    k = fresh('m', Z, 0, SIZEMAX)
    m = seqat(ms, k)
    imps = g(m, 'impacts_')
    j = fresh('i', Z, 0, SIZEMAX)
    im = seqat(imps, j)
    tsort = dict(rfields(im.sort))['synapse_type_']
    im2 = setf(im, synapse_type_=uf('kind', [k, j], ('E', tsort[1], tuple(types))))
    imps2 = tab(seqlen(imps), lam([j], im2), imps.sort)
    m2 = setf(m, impacts_=imps2)
    return tab(seqlen(ms), lam([k], m2), sort)


def pre_contract(V, neuron, cls, spec):
    def body():
        f = V.fn('cpu', PN + 'calculate_pre_impact_population_state', pred=lambda f: ta0(V, f) == cls)
        p = V.programs['cpu']
        pop = var('pop', p.sort(p.strip(f['params'][0]['t'])))
        start, cnt = size_var('start'), size_var('count')
        nm = [q['n'] for q in f['params']]
        V.requires(le(add(start, cnt), seqlen(g(pop, 'neurons_'))))
        r = V.run('cpu', f, {nm[0]: pop, nm[1]: start, nm[2]: add(start, cnt)})
        old = g(pop, 'neurons_')
        want = mapseq(old, lambda i, n: ite(and_(le(start, i), lt(i, add(start, cnt))), spec(n), n))
        got = V.out(r, nm[0])
        V.prove_eq('population identity and tags unchanged', setf(got, neurons_=old), pop)
        per_neuron(V, g(got, 'neurons_'), want)
        V.no_throw(r)
    V.contract('%s [%s]' % (PN + 'calculate_pre_impact_population_state', neuron), body)


def per_neuron(V, got, want):
    V.prove_eq('number of neurons unchanged', seqlen(got), seqlen(want))
    j = fresh('j', Z, 0, SIZEMAX)
    V.prove_rec('neuron[j]', seqat(got, j), seqat(want, j), [lt(j, seqlen(want))])


def ta0(V, f):
    p = V.programs['cpu']
    return p.types[f['ta'][0]['t']]['s']


def impact_contract(V, neuron, cls, types, spec):
    def body():
        f = V.fn('cpu', PN + 'impact_population', pred=lambda f: ta0(V, f) == cls)
        p = V.programs['cpu']
        pop = var('pop', p.sort(p.strip(f['params'][0]['t'])))
        nm = [q['n'] for q in f['params']]
        ms = messages(p, p.sort(p.strip(f['params'][1]['t'])), types)
        old = g(pop, 'neurons_')
        k, q = fresh('k', Z, 0, SIZEMAX), fresh('q', Z, 0, SIZEMAX)
        imps = lambda k: g(seqat(ms, k), 'impacts_')
        V.requires(forall_lt(seqlen(ms), lam([k], forall_lt(seqlen(imps(k)), lam([q], lt(
            g(seqat(imps(k), q), 'postsynaptic_neuron_index_'), seqlen(old)))))))
        r = V.run('cpu', f, {nm[0]: pop, nm[1]: ms})

        def one(i, n):
            def msg(k, s):
                m = seqat(ms, k)
                imps = g(m, 'impacts_')

                def imp(q, s2):
                    im = seqat(imps, q)
                    return ite(eq(g(im, 'postsynaptic_neuron_index_'), i), spec(s2, im, g(m, 'is_forcing_')), s2)
                return foldl(seqlen(imps), s, imp)
            return foldl(seqlen(ms), n, msg)
        want = mapseq(old, one)
        got = V.out(r, nm[0])
        V.prove_eq('population identity and tags unchanged', setf(got, neurons_=old), pop)
        V.prove_eq('number of neurons unchanged', seqlen(g(got, 'neurons_')), seqlen(old))
        V.prove_eq('every impact is applied, in order, to exactly its target neuron', g(got, 'neurons_'), want)
        V.prove_eq('messages unchanged', V.out(r, nm[1]), ms)
        V.no_throw(r)
    V.contract('%s [%s]' % (PN + 'impact_population', neuron), body)


def post_contract(V, neuron, cls, spec):
    """spec(n) -> (new neuron, spike condition)."""
    def body():
        f = V.fn('cpu', PN + 'calculate_post_impact_population_state', pred=lambda f: ta0(V, f) == cls)
        p = V.programs['cpu']
        pop = var('pop', p.sort(p.strip(f['params'][0]['t'])))
        nm = [q['n'] for q in f['params']]
        msg = var('msg', p.sort(p.strip(f['params'][1]['t'])))
        start = var('start', U64, 0, 1 << 31)
        cnt = var('count', U64, 0, 1 << 31)
        V.requires(le(add(start, cnt), seqlen(g(pop, 'neurons_'))))
        r = V.run('cpu', f, {nm[0]: pop, nm[1]: msg, nm[2]: start, nm[3]: add(start, cnt)})
        old = g(pop, 'neurons_')
        want = mapseq(old, lambda i, n: ite(and_(le(start, i), lt(i, add(start, cnt))), spec(n)[0], n))
        got = V.out(r, nm[0])
        V.prove_eq('population identity and tags unchanged', setf(got, neurons_=old), pop)
        per_neuron(V, g(got, 'neurons_'), want)
        ix = g(msg, 'neuron_indexes_')
        spikes = concat_for(cnt, lambda k: ite(spec(seqat(old, add(start, k)))[1],
                                               unit(u(32, add(start, k)), ix.sort), nil(ix.sort)), ix.sort)
        gm = V.out(r, nm[1])
        V.prove_eq('spiking neurons are appended in ascending order', g(gm, 'neuron_indexes_'),
                   cat(ix, spikes, sort=ix.sort))
        V.prove_eq('message header unchanged', setf(gm, neuron_indexes_=ix), msg)
        V.no_throw(r)
    V.contract('%s [%s]' % (PN + 'calculate_post_impact_population_state', neuron), body)


# ------------------------------------------------------------------ BLIFAT
def blifat_pre(stdp):
    def spec(n):
        pot = fmul(g(n, 'potential_'), g(n, 'potential_decay_'))
        ph = g(n, 'bursting_phase_')
        burst = eq(ph, I(1))
        pot = ite(burst, fadd(pot, g(n, 'reflexive_weight_')), pot)
        r = setf(n,
                 n_time_steps_since_last_firing_=u(64, add(g(n, 'n_time_steps_since_last_firing_'), I(1))),
                 dynamic_threshold_=fmul(g(n, 'dynamic_threshold_'), g(n, 'threshold_decay_')),
                 postsynaptic_trace_=fmul(g(n, 'postsynaptic_trace_'), g(n, 'postsynaptic_trace_decay_')),
                 inhibitory_conductance_=fmul(g(n, 'inhibitory_conductance_'), g(n, 'inhibitory_conductance_decay_')),
                 potential_=pot, pre_impact_potential_=pot,
                 bursting_phase_=ite(gt(ph, I(0)), sub(ph, I(1)), ph))
        if stdp:
            r = setf(r, dopamine_value_=F(0), is_being_forced_=FALSE)
        return r
    return spec


def blifat_impact(stdp):
    def spec(n, im, forcing):
        ty, v = g(im, 'synapse_type_'), g(im, 'impact_value_')
        is_ = lambda k: eq(ty, I(k))
        r = setf(n,
                 potential_=ite(is_(EXC), fadd(g(n, 'potential_'), v),
                                ite(is_(INH), fsub(g(n, 'potential_'), v), g(n, 'potential_'))),
                 inhibitory_conductance_=ite(is_(COND), fadd(g(n, 'inhibitory_conductance_'), v),
                                             g(n, 'inhibitory_conductance_')),
                 dopamine_value_=ite(is_(DOPA), fadd(g(n, 'dopamine_value_'), v), g(n, 'dopamine_value_')),
                 total_blocking_period_=ite(is_(BLOCK), f2i(('I', 64, True), v), g(n, 'total_blocking_period_')))
        if stdp:
            r = setf(r, is_being_forced_=ite(is_(EXC), or_(g(n, 'is_being_forced_'), forcing), g(n, 'is_being_forced_')))
        return r
    return spec


def blifat_post(n):
    b = g(n, 'total_blocking_period_')
    pot = ite(le(b, I(0)), g(n, 'pre_impact_potential_'), g(n, 'potential_'))
    b2 = ite(lt(b, I(-1)), add(b, I(1)), ite(eq(b, I(-1)), I(I64MAX), ite(gt(b, I(0)), sub(b, I(1)), b)))
    c = g(n, 'inhibitory_conductance_')
    rev = g(n, 'reversal_inhibitory_potential_')
    pot = ite(flt(c, F(1)), fsub(pot, fmul(fsub(pot, rev), c)), rev)
    thr = fadd(fadd(g(n, 'activation_threshold_'), g(n, 'dynamic_threshold_')), g(n, 'additional_threshold_'))
    spike = and_(gt(g(n, 'n_time_steps_since_last_firing_'), g(n, 'absolute_refractory_period_')), fle(thr, pot))
    pot = ite(spike, g(n, 'potential_reset_value_'), pot)
    mn = g(n, 'min_potential_')
    pot = ite(flt(pot, mn), mn, pot)
    r = setf(n, total_blocking_period_=b2, potential_=pot,
             dynamic_threshold_=ite(spike, fadd(g(n, 'dynamic_threshold_'), g(n, 'threshold_increment_')),
                                    g(n, 'dynamic_threshold_')),
             postsynaptic_trace_=ite(spike, fadd(g(n, 'postsynaptic_trace_'), g(n, 'postsynaptic_trace_increment_')),
                                     g(n, 'postsynaptic_trace_')),
             bursting_phase_=ite(spike, g(n, 'bursting_period_'), g(n, 'bursting_phase_')),
             n_time_steps_since_last_firing_=ite(spike, I(0), g(n, 'n_time_steps_since_last_firing_')))
    return r, spike


NT = 'knp::neuron_traits::'
STDP = NT + 'SynapticResourceSTDPNeuron<%s>'


def n01(V):
    for name, cls, st in (('BLIFAT', NT + 'BLIFATNeuron', False), ('STDP BLIFAT', STDP % (NT + 'BLIFATNeuron'), True)):
        pre_contract(V, name, cls, blifat_pre(st))
        impact_contract(V, name, cls, (EXC, INH, COND, DOPA, BLOCK), blifat_impact(st))
        post_contract(V, name, cls, blifat_post)


# ------------------------------------------------------------------ AltAI
I16 = ('I', 16, True)


def altai_pre(stdp):
    def spec(n):
        pot = ite(g(n, 'do_not_save_'), i2f(32, g(n, 'potential_reset_value_')),
                  uf('round', [g(n, 'potential_')], F32))
        r = setf(n, potential_=pot, pre_impact_potential_=pot)
        if stdp:
            r = setf(r, dopamine_value_=F(0), is_being_forced_=FALSE)
        return r
    return spec


def altai_impact(stdp):
    def spec(n, im, forcing):
        ty, v = g(im, 'synapse_type_'), g(im, 'impact_value_')
        is_ = lambda k: eq(ty, I(k))
        act = g(n, 'activity_time_')
        neg = lambda x: uf('signbit', [x], BOOL)
        mag = ite(ge(act, I(0)), act, negi(act))
        replace = or_(not_(eq(neg(i2f(64, act)), neg(f2f(64, v)))), fle(mag, uf('fabs', [v], F32)))
        r = setf(n,
                 potential_=ite(is_(EXC), fadd(g(n, 'potential_'), v),
                                ite(is_(INH), fsub(g(n, 'potential_'), v), g(n, 'potential_'))),
                 dopamine_value_=fite(is_(DOPA), fadd(g(n, 'dopamine_value_'), v), g(n, 'dopamine_value_')),
                 activity_time_=ite(and_(is_(BLOCK), replace), f2i(('I', 64, True), v), act))
        if stdp:
            r = setf(r, is_being_forced_=ite(is_(EXC), or_(g(n, 'is_being_forced_'), forcing), g(n, 'is_being_forced_')))
        return r
    return spec


def altai_post(n):
    pot0 = g(n, 'potential_')
    leak = g(n, 'potential_leak_')
    sign = ite(and_(g(n, 'leak_rev_'), flt(pot0, F(0, 32))), I(-1), I(1))
    pot = fadd(pot0, ite(eq(sign, I(1)), leak, negi(leak)))
    act = g(n, 'activity_time_')
    a1 = ite(gt(act, I(0)), sub(act, I(1)), ite(lt(act, I(0)), add(act, I(1)), act))
    a1 = ite(eq(a1, I(0)), I(I64MAX), a1)
    thr = fadd(g(n, 'activation_threshold_'), g(n, 'additional_threshold_'))
    reset_v = g(n, 'potential_reset_value_')
    diff, rst, sat = g(n, 'is_diff_'), g(n, 'is_reset_'), g(n, 'saturate_')
    over = fle(thr, pot)
    spike = and_(over, gt(a1, I(0)))
    p2 = ite(and_(over, diff), f2f(32, fsub(pot, thr)), pot)
    p2 = ite(and_(over, rst), i2f(32, reset_v), p2)
    nthr = g(n, 'negative_activation_threshold_')
    floor_ = fneg(i2f(32, nthr))
    under = and_(fle(p2, floor_), not_(and_(over, rst)))
    p3 = ite(sat, floor_, ite(rst, i2f(32, negi(reset_v)), ite(diff, fadd(p2, nthr), p2)))
    return setf(n, potential_=ite(under, p3, p2), activity_time_=a1), spike


def n02(V):
    for name, cls, st in (('AltAI-1', NT + 'AltAILIF', False), ('STDP AltAI-1', STDP % (NT + 'AltAILIF'), True)):
        pre_contract(V, name, cls, altai_pre(st))
        impact_contract(V, name, cls, (EXC, INH, DOPA, BLOCK), altai_impact(st))
        post_contract(V, name, cls, altai_post)


# ------------------------------------------------------------------ LIF
def lif_pre(n):
    return setf(n, potential_=ite(eq(g(n, 'refract_counter_'), I(0)),
                                  fmul(g(n, 'potential_'), g(n, 'leak_coefficient_')), g(n, 'potential_')))


def lif_impact(n, im, forcing):
    v = g(im, 'impact_value_')
    p = g(n, 'potential_')
    return setf(n, potential_=ite(eq(g(n, 'refract_counter_'), I(0)),
                                  ite(eq(g(im, 'synapse_type_'), I(EXC)), fadd(p, v), fsub(p, v)), p))


def lif_post(n):
    c = g(n, 'refract_counter_')
    spike = and_(eq(c, I(0)), flt(g(n, 'activation_threshold_'), g(n, 'potential_')))
    return setf(n, potential_=ite(spike, g(n, 'potential_reset_value_'), g(n, 'potential_')),
                refract_counter_=ite(spike, g(n, 'refract_period_'), ite(gt(c, I(0)), sub(c, I(1)), c))), spike


def n03(V):
    cls = NT + 'LIFNeuron'
    pre_contract(V, 'LIF', cls, lif_pre)
    impact_contract(V, 'LIF', cls, (EXC, INH), lif_impact)
    post_contract(V, 'LIF', cls, lif_post)
