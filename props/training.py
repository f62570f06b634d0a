"""S02: synaptic-resource STDP training of populations (BLIFAT and AltAI-1 LIF neurons)."""
from vc import *
import ir
from projections import found, c_find, tup, settup, CACHE

ST = 'knp::backends::cpu::populations::impl::training::stdp::'
NAMES = {'blifat': 'BLIFAT', 'altai': 'AltAI'}


def pick(V, name, which):
    """the instantiation / overload of a function for the given neuron type."""
    p = V.programs['cpu']

    def of(f):
        if f['n'].startswith('knp::backends::cpu::populations::impl::' + which + '::'):
            return True
        txt = ' '.join(p.types[t['t']]['s'] for t in (f['ta'] or []) if 't' in t)
        txt += ' '.join(p.types[q['t']]['s'] for q in f['params'])
        return NAMES[which].lower() in txt.lower()
    fs = [f for f in p.fns_all() if f['n'] == name and 'body' in f and of(f)]
    if len(fs) != 1:
        raise Unsupported('%d functions %s for %s' % (len(fs), name, which))
    return fs[0]


SYNROOT = 'SYN'


def rows_sort(V, which='blifat'):
    p = V.programs['cpu']
    f = p.find(ST + 'recalculate_synapse_weights')
    refs = p.types[p.strip(f['params'][0]['t'])]
    return refs


def syn_sort(V):
    """sort of the parameters of a resource-STDP synapse."""
    p = V.programs['cpu']
    f = pick(V, ST + 'renormalize_resource', 'blifat')
    ref = p.ts(p.ta(p.strip(f['params'][0]['t']), 0))
    prj = p.sort(p.ta(p.strip(f['params'][0]['t']), 0) if False else [i for i, t in enumerate(p.types)
                 if t['k'] == 'rec' and t['s'] == ''][0]) if False else None
    for f in p.fns_all():
        if f['n'].endswith('stdp::init_synapse') and 'body' in f:
            s = p.sort(p.strip(f['params'][0]['t']))
            r = dict(rfields(s)).get('rule_')
            if r and 'synaptic_resource_' in dict(rfields(r)):
                return s
    raise Unsupported('resource STDP synapse type not found')


def c_rows(ex, f, this, avs, st):
    ex.assumed.add('contract assumed at call sites: the synapses connected to a neuron are listed once each (proved '
                   'below), and synapses of different neurons are different objects')
    n = avs[1]
    rows = st.mem[SYNROOT]
    k = fresh('k', Z, 0, SIZEMAX)
    l = ir.loc(SYNROOT, (('i',), ('i',)), (n, k))
    return tab(seqlen(seqat(rows, n)), lam([k], l), ('S', LOC))


C = {'@' + ST + 'get_all_connected_synapses': c_rows}


def update_isi_spec(n, step, E):
    started, cont, forced, notin = E['period_started'], E['period_continued'], E['is_forced'], E['not_in_period']
    s = g(n, 'isi_status_')
    gap = u(64, sub(step, g(n, 'last_step_')))
    near = lt(gap, g(n, 'isi_max_'))
    begin = or_(eq(s, notin), eq(s, forced))
    restart = and_(eq(s, cont), or_(not_(near), not_(ir.feq(*promote(g(n, 'dopamine_value_'), F(0, 64))))))
    goes_on = and_(eq(s, started), near)
    new = ite(or_(begin, restart), started, ite(goes_on, cont, s))
    first = ite(or_(begin, restart), step, g(n, 'first_isi_spike_'))
    fb = g(n, 'is_being_forced_')
    return setf(n, isi_status_=ite(fb, forced, new), first_isi_spike_=ite(fb, g(n, 'first_isi_spike_'), first),
                last_step_=ite(fb, g(n, 'last_step_'), step))


def weight_of(rule):
    w = fite(flt(g(rule, 'synaptic_resource_'), F(0)), F(0), g(rule, 'synaptic_resource_'))
    d = fsub(g(rule, 'w_max_'), g(rule, 'w_min_'))
    return fadd(g(rule, 'w_min_'), fdiv(fmul(d, w), fadd(d, w)))


def s02(V):
    for which in ('blifat', 'altai'):
        c_isi(V, which)
        c_spike(V, which)
        run_training(V, which, 'knp::backends::cpu::populations::impl::%s::do_dopamine_plasticity_impl' % which, dopamine(which))
        run_training(V, which, ST + 'renormalize_resource', renorm)
        c_train(V, which)
    c_weights(V)
    c_connected(V)


ISI = dict(is_forced=0, period_started=1, period_continued=2, not_in_period=3)


def enum(sort):
    if sort[0] != 'E' or tuple(sort[2]) != (0, 1, 2, 3):
        raise Unsupported('ISI status is not the four-valued enumeration')
    return {k: I(v, sort) for k, v in ISI.items()}


def c_isi(V, which):
    def body():
        f = pick(V, ST + 'update_isi', which)
        p = V.programs['cpu']
        n = var('neuron', p.sort(p.strip(f['params'][0]['t'])))
        nm = [q['n'] for q in f['params']]
        step = var('step', U64, 0, 1 << 62)
        r = V.run('cpu', f, {nm[0]: n, nm[1]: step})
        E = enum(g(n, 'isi_status_').sort)
        want = update_isi_spec(n, step, E)
        V.prove_rec(which + ': neuron', V.out(r, nm[0]), want)
        V.prove_eq(which + ': returns the new status', V.retval(r), g(want, 'isi_status_'))
        s = g(n, 'isi_status_')
        V.prove(which + ': only an unknown status is rejected', not_(and_(or_(*[x[0] for x in r.thr]),
                or_(*[eq(s, e) for e in E.values()]))))
    V.contract(ST + 'update_isi [%s]' % which, body)


def pop_setup(V, which, fname):
    p = V.programs['cpu']
    f = pick(V, fname, which)
    nm = [q['n'] for q in f['params']]
    pop = var('population', p.sort(p.strip([q['t'] for q in f['params'] if 'Population' in p.types[q['t']]['s'] or q['n'] == 'population'][0])))
    return p, f, nm, pop


def had_spike(syn, step):
    rule = g(syn, 'rule_')
    b = u(64, sub(step, g(rule, 'dopamine_plasticity_period_')))
    at = u(64, add(g(rule, 'last_spike_step_'), g(syn, 'delay_'), I(-1)))
    lo, hi = ite(lt(step, b), step, b), ite(lt(step, b), b, step)
    return and_(le(lo, at), le(at, hi))


def setrule(s, **kw):
    return setf(s, rule_=setf(g(s, 'rule_'), **kw))


def reward(neuron, base):
    """base scaled down by the stability: min(2^-stability, 1)."""
    st = fneg(g(neuron, 'stability_'))
    pw = uf('pow', [fltval(2.0, 64), f2f(64, st)], ('F', 64))
    x = f2f(32, pw)
    return f2f(32, fmul(base, fite(flt(F(1), x), F(1), x)))


def on_spike(neuron, row, step, m):
    """(neuron', synapse k -> synapse') after one spike; row has m synapses."""
    E = enum(g(neuron, 'isi_status_').sort)
    n1 = update_isi_spec(setf(neuron, last_spike_step_=step), step, E)
    status = g(n1, 'isi_status_')
    n1 = setf(n1, stability_=fite(eq(status, E['period_started']), fsub(g(n1, 'stability_'), g(n1, 'stability_change_at_isi_')),
                                  g(n1, 'stability_')))

    def thr(k, acc):
        w = g(seqat(row, k), 'weight_')
        return fadd(acc, fmul(w, i2f(32, ite(flt(F(0), w), I(1), I(0)))))
    asort = g(n1, 'additional_threshold_').sort
    total = foldl(m, f2f(asort[1], F(0)), lambda k, a: f2f(asort[1], thr(k, a)))
    n1 = setf(n1, additional_threshold_=f2f(asort[1], fmul(total, g(n1, 'synapse_sum_threshold_coefficient_'))))
    cont = eq(status, E['period_continued'])
    forced = eq(status, E['is_forced'])

    def contributed(s):
        hs = had_spike(s, step)
        return ite(or_(not_(cont), hs), hs, g(g(s, 'rule_'), 'has_contributed_'))

    def hebb(s):
        return and_(contributed(s), or_(not_(cont), not_(g(g(s, 'rule_'), 'had_hebbian_update_'))))
    dh = reward(n1, g(n1, 'd_h_'))

    def syn(s):
        r = g(s, 'rule_')
        updated = and_(not_(forced), hebb(s))
        res = fsub(g(r, 'synaptic_resource_'), g(r, 'd_u_'))
        res = fite(forced, g(r, 'synaptic_resource_'), fite(hebb(s), fadd(res, dh), res))
        r2 = setf(r, has_contributed_=contributed(s), synaptic_resource_=res,
                  had_hebbian_update_=or_(updated, and_(cont, g(r, 'had_hebbian_update_'))))
        return setf(s, rule_=r2, weight_=weight_of(r2))

    def free(k, acc):
        s = seqat(row, k)
        a = fadd(acc, g(g(s, 'rule_'), 'd_u_'))
        return fite(hebb(s), fsub(a, dh), a)
    fr = g(n1, 'free_synaptic_resource_')
    n2 = setf(n1, free_synaptic_resource_=fite(forced, fr, foldl(m, fr, free)))
    return n2, syn


def fold2(n, a0, b0, f):
    k = fresh('k', Z, 0, SIZEMAX)
    a, b = fresh('a', a0.sort), fresh('b', b0.sort)
    x, y = f(k, a, b)
    ls = [lam([k, a, b], x), lam([k, a, b], y)]
    return [fold(n, [a0, b0], ls, ['a', 'b'], j) for j in (0, 1)]


def c_spike(V, which):
    def body():
        p, f, nm, pop = pop_setup(V, which, 'knp::backends::cpu::populations::impl::%s::process_spiking_neurons_impl' % which)
        byname = {}
        msg = var('message', p.sort(p.strip(f['params'][0]['t'])))
        step = var('step', U64, 0, 1 << 62)
        ss = syn_sort(V)
        rows = var('synapses', ('S', ('S', ss)))
        ix = g(msg, 'neuron_indexes_')
        k = fresh('k', Z, 0, SIZEMAX)
        V.requires(forall_lt(seqlen(ix), lam([k], lt(seqat(ix, k), seqlen(g(pop, 'neurons_'))))))
        r = V.run('cpu', f, {nm[0]: msg, nm[2]: pop, nm[3]: step}, mem={SYNROOT: rows}, contracts=C)

        def one(k, rows_, ns):
            n = seqat(ix, k)
            row = seqat(rows_, n)
            n2, syn = on_spike(seqat(ns, n), row, step, seqlen(row))
            return store(rows_, n, mapseq(row, lambda q, s: syn(s))), store(ns, n, n2)
        rows2, pop2 = fold2(seqlen(ix), rows, g(pop, 'neurons_'), one)
        out = V.out(r, nm[2])
        V.prove_eq(which + ': spiking neurons', g(out, 'neurons_'), pop2)
        V.prove_eq(which + ': their synapses', r.st.mem[SYNROOT], rows2)
        V.prove_eq(which + ': rest of the population', setf(out, neurons_=g(pop, 'neurons_')), pop)
        V.no_throw(r)
    V.contract('process_spiking_neurons_impl [%s]' % which, body)


def run_training(V, which, fname, one, pre=None):
    """every neuron of the population in turn: one(neuron, row, step) -> (neuron', synapse map or None, condition)."""
    def body():
        p, f, nm, pop = pop_setup(V, which, fname)
        byt = {}
        for q in f['params']:
            byt['pop' if q['n'] == 'population' else 'step' if q['n'] == 'step' else 'prj'] = q['n']
        step = var('step', U64, 0, 1 << 62)
        ss = syn_sort(V)
        rows = var('synapses', ('S', ('S', ss)))
        r = V.run('cpu', f, {byt['pop']: pop, byt['step']: step}, mem={SYNROOT: rows}, contracts=C)

        def it(k, rows_, ns):
            row = seqat(rows_, k)
            n2, c, syn = one(seqat(ns, k), row, step, seqlen(row))
            return ite(c, store(rows_, k, mapseq(row, lambda q, s: syn(s))), rows_), store(ns, k, n2)
        rows2, pop2 = fold2(seqlen(g(pop, 'neurons_')), rows, g(pop, 'neurons_'), it)
        out = V.out(r, byt['pop'])
        lab = which + ': '
        V.prove_eq(lab + 'neurons', g(out, 'neurons_'), pop2)
        V.prove_eq(lab + 'synapses', r.st.mem[SYNROOT], rows2)
        V.prove_eq(lab + 'rest of the population', setf(out, neurons_=g(pop, 'neurons_')), pop)
        V.no_throw(r)
    V.contract('%s [%s]' % (fname.split('::')[-1], which), body)


def dopamine(which):
    def one(n, row, step, m):
        E = enum(g(n, 'isi_status_').sort)
        d = g(n, 'dopamine_value_')
        forced = eq(g(n, 'isi_status_'), E['is_forced'])
        on = or_(flt(F(0), d), and_(flt(d, F(0)), not_(forced)))
        recent = le(u(64, sub(step, g(n, 'last_spike_step_'))), g(n, 'dopamine_plasticity_time_'))
        dr = reward(n, d)

        def hit(s):
            return and_(recent, g(g(s, 'rule_'), 'has_contributed_'))

        def syn(s):
            r = g(s, 'rule_')
            r2 = setf(r, synaptic_resource_=fite(hit(s), fadd(g(r, 'synaptic_resource_'), dr), g(r, 'synaptic_resource_')))
            return setf(s, rule_=r2, weight_=weight_of(r2))
        free = foldl(m, g(n, 'free_synaptic_resource_'), lambda k, a: fite(hit(seqat(row, k)), fsub(a, dr), a))
        st, par = g(n, 'stability_'), g(n, 'stability_change_parameter_')
        low = f2f(32, fsub(st, fmul(d, par)))
        low = fite(flt(low, F(0)), F(0), low)
        isi = g(n, 'isi_max_')
        dist = uf('fabs', [fsub(i2f(64, u(64, sub(step, g(n, 'first_isi_spike_')))), i2f(64, isi))], ('F', 64))
        dist = fsub(F(2, 64), fdiv(dist, i2f(64, isi)))
        dist = fite(flt(dist, F(-1, 64)), F(-1, 64), dist)
        up = f2f(32, fadd(f2f(64, st), fmul(fmul(par, d), dist)))
        bad = or_(g(n, 'is_being_forced_'), flt(d, F(0)))
        n2 = setf(n, free_synaptic_resource_=free, stability_=fite(bad, low, up))
        return ite(on, n2, n), on, syn
    return one


def renorm(n, row, step, m):
    E = enum(g(n, 'isi_status_').sort)
    inside = and_(le(u(64, sub(step, g(n, 'last_step_'))), g(n, 'isi_max_')), not_(eq(g(n, 'isi_status_'), E['is_forced'])))
    fr = g(n, 'free_synaptic_resource_')
    small = flt(uf('fabs', [fr], ('F', 32)), g(n, 'synaptic_resource_threshold_'))
    on = and_(not_(inside), not_(small))
    share = fdiv(fr, i2f(32, u(64, add(m, g(n, 'resource_drain_coefficient_')))))

    def syn(s):
        r = g(s, 'rule_')
        r2 = setf(r, synaptic_resource_=fadd(g(r, 'synaptic_resource_'), share))
        return setf(s, rule_=r2, weight_=weight_of(r2))
    return ite(on, setf(n, free_synaptic_resource_=F(0)), n), on, syn


def c_connected(V):
    def body():
        p = V.programs['cpu']
        f = p.find(ST + 'get_all_connected_synapses')
        nm = [q['n'] for q in f['params']]
        pf = [x for x in p.fns_all() if x['n'] == 'knp::core::Projection::find_synapses' and 'body' in x]
        ss = syn_sort(V)
        ps = [p.sort(x['cls']) for x in pf]
        ps = [x for x in ps if rfields(dict(rfields(x))['parameters_'][1])[0][1] == ss]
        if not ps:
            raise Unsupported('projection type not found')
        prj = var('projections', ('S', ps[0]))
        i = fresh('i', Z, 0, SIZEMAX)
        refs = tab(seqlen(prj), lam([i], ir.loc('PRJ', (('i',),), (i,))), ('S', LOC))
        n = var('neuron_index', U64)
        r = V.run('cpu', f, {nm[0]: refs, nm[1]: n}, mem={'PRJ': prj}, contracts={'@knp::core::Projection::find_synapses': c_find})
        got = V.retval(r)
        elt = ps[0]

        def of(i):
            fs = found(g(seqat(prj, i), 'parameters_'), n, True)
            return mapseq_loc(fs, i)
        fname = [x for x, _ in rfields(dict(rfields(elt))['parameters_'][1])][0]

        def mapseq_loc(fs, i):
            j = fresh('j', Z, 0, SIZEMAX)
            params = g(seqat(prj, i), 'parameters_')
            q = fresh('q', Z, 0, SIZEMAX)
            l = ir.loc('PRJ', (('i',), ('f', 'parameters_'), ('i',), ('f', fname)), (i, q))
            c = eq(tup(seqat(params, q), 2), n)
            return flat(seqlen(params), lam([q], ite(c, unit(l, ('S', LOC)), nil(('S', LOC)))), ('S', LOC))
        V.prove_eq('each synapse of each projection that ends at the neuron, once, in order', got,
                   concat_for(seqlen(prj), of, ('S', LOC)))
        V.prove_eq('projections unchanged but for the search cache', mapseq(r.st.mem['PRJ'], lambda k, x: setf(
            x, **{c: g(seqat(prj, k), c) for c in CACHE})), prj)
        V.no_throw(r)
    V.contract(ST + 'get_all_connected_synapses', body)


def c_train(V, which):
    """the training step calls its three parts in order; each part changes the population and the synapses."""
    base = 'knp::backends::cpu::populations::impl::%s::' % which

    def body():
        p, f, nm, pop = pop_setup(V, which, 'knp::backends::cpu::populations::train_population')
        msg = var('message', p.sort(p.strip([q['t'] for q in f['params'] if q['n'] == nm[2]][0])))
        step = var('step', U64, 0, 1 << 62)
        rows = var('synapses', ('S', ('S', syn_sort(V))))

        def part(name, *extra):
            def c(ex, f2, this, avs, st):
                args = {q['n']: a for q, a in zip(f2['params'], avs)}
                lp = [a for a in avs if a.sort == LOC and ex.read(a, st).sort == pop.sort][0]
                others = [ex.read(a, st) if a.sort == LOC else a for a in avs]
                others = [a for a in others if a.sort == msg.sort] + [a for a in others if a.sort == step.sort]
                st0 = [ex.read(lp, st), st.mem[SYNROOT]] + others
                ex.write(lp, uf(name + ':population', st0, pop.sort), st)
                st.mem[SYNROOT] = uf(name + ':synapses', st0, rows.sort)
                return UNITV
            return c
        cs = {'@' + base + 'process_spiking_neurons_impl': part('spikes'),
              '@' + base + 'do_dopamine_plasticity_impl': part('dopamine'),
              '@' + ST + 'renormalize_resource': part('renormalize')}
        r = V.run('cpu', f, {nm[0]: pop, nm[2]: msg, nm[3]: step}, mem={SYNROOT: rows}, contracts=cs)

        def do(name, c, s, *extra):
            a = list(s) + list(extra)
            return [ite(c, uf(name + ':population', a, pop.sort), s[0]), ite(c, uf(name + ':synapses', a, rows.sort), s[1])]
        s = do('spikes', lt(I(0), seqlen(g(msg, 'neuron_indexes_'))), [pop, rows], msg, step)
        s = do('dopamine', TRUE, s, step)
        s = do('renormalize', TRUE, s, step)
        V.prove_eq(which + ': population', V.out(r, nm[0]), s[0])
        V.prove_eq(which + ': synapses', r.st.mem[SYNROOT], s[1])
        V.no_throw(r)
    V.contract('train_population [%s]' % which, body)


def c_weights(V):
    def body():
        p = V.programs['cpu']
        f = p.find(ST + 'recalculate_synapse_weights')
        ss = syn_sort(V)
        row = var('synapses', ('S', ss))
        k = fresh('k', Z, 0, SIZEMAX)
        refs = tab(seqlen(row), lam([k], ir.loc('ROW', (('i',),), (k,))), ('S', LOC))
        r = V.run('cpu', f, {'synapse_params': refs}, mem={'ROW': row})
        out = r.st.mem['ROW']
        q = fresh('q', Z, 0, SIZEMAX)
        V.prove_eq('same number of synapses', seqlen(out), seqlen(row))
        s = seqat(row, q)
        V.prove_rec('synapse[q]', seqat(out, q), setf(s, weight_=weight_of(g(s, 'rule_'))), [lt(q, seqlen(row))])
        V.no_throw(r)
    V.contract(ST + 'recalculate_synapse_weights', body)
