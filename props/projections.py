"""S01-S03: synapse projections (contracts on the projection-level functions of the CPU library)."""
from vc import *
import ir

PJ = 'knp::backends::cpu::projections::'
SYN = 'knp::synapse_traits::'
DELTA = SYN + 'DeltaSynapse'
RSTDP = SYN + 'STDP<knp::synapse_traits::STDPSynapticResourceRule, knp::synapse_traits::DeltaSynapse>'
ASTDP = SYN + 'STDP<knp::synapse_traits::STDPAdditiveRule, knp::synapse_traits::DeltaSynapse>'
SHORT = {DELTA: 'Delta', RSTDP: 'SynapticResourceSTDPDelta', ASTDP: 'AdditiveSTDPDelta'}
CACHE = ('index_', 'is_index_updated_')


def ta0(V, f, i=0):
    p = V.programs['cpu']
    return p.types[f['ta'][i]['t']]['s'] if 't' in f['ta'][i] else None


def tup(t, i):
    """i-th component of a tuple-sorted record."""
    return fld(t, rfields(t.sort)[i][0])


def settup(t, i, v):
    return upd(t, rfields(t.sort)[i][0], v)


def found(params, neuron, post):
    """contract of find_synapses: indexes of the synapses from/to the neuron."""
    i = fresh('i', Z, 0, SIZEMAX)
    c = eq(tup(seqat(params, i), 2 if post else 1), neuron)
    ss = ('S', ('I', 64, False))
    return flat(seqlen(params), lam([i], ite(c, unit(i, ss), nil(ss))), ss)


def c_find(ex, f, this, avs, st):
    ex.assumed.add('contract assumed at call sites: the synapse search returns exactly the indexes of the synapses of '
                   'the neuron, in ascending order, and changes only the search cache (established by P01)')
    params = g(ex.read(this, st), 'parameters_')
    mode = avs[1]
    if mode.op != 'int':
        return NotImplemented
    n = avs[0]
    return found(params, n, mode.pl == 1)


SENT = 'ghost:sent'


def c_unload(ex, f, this, avs, st):
    ex.assumed.add('contract assumed at call sites: unloading messages for a receiver returns its pending messages and '
                   'removes them (established by M01)')
    rs = ex.p.sort(f['ret'])
    uid = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
    key = 'ghost:unloaded:' + str(hash(rs))
    if key in st.mem:
        raise Unsupported('messages unloaded twice')
    st.mem[key] = uid
    return uf('inbox', [uid], rs)


def c_send(ex, f, this, avs, st):
    v = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
    st.mem[SENT] = cat(st.mem[SENT], unit(v, st.mem[SENT].sort), sort=st.mem[SENT].sort)
    return UNITV


CONTRACTS = {'@knp::core::Projection::find_synapses': c_find,
             '@knp::core::MessageEndpoint::unload_messages': c_unload,
             '@knp::core::MessageEndpoint::send_message': c_send}


def impact(sort, proj_syn, i):
    """impact produced by synapse i."""
    data = tup(proj_syn, 0)
    base = {f: None for f, _ in rfields(sort)}
    vals = dict(connection_index_=i, impact_value_=g(data, 'weight_'), synapse_type_=g(data, 'output_type_'),
                presynaptic_neuron_index_=u(32, tup(proj_syn, 1)), postsynaptic_neuron_index_=u(32, tup(proj_syn, 2)))
    return rec(sort, [vals[f] for f, _ in rfields(sort)])


def proj_input(V, f):
    p = V.programs['cpu']
    s = p.sort(p.strip(f['params'][0]['t']))
    proj = var('projection', s)
    # every delay is at least one step
    params = g(proj, 'parameters_')
    k = fresh('i', Z, 0, SIZEMAX)
    syn = seqat(params, k)
    data = tup(syn, 0)
    d = uf('delay', [k], ('I', 32, False))
    d = add(I(1), d) if False else d
    return proj


def serial(V, cls, forced, touch, mute=None, extra=None):
    def body():
        p = V.programs['cpu']
        f = V.fn('cpu', PJ + 'calculate_projection', pred=lambda f: ta0(V, f) == cls)
        nm = [q['n'] for q in f['params']]
        proj = proj_input(V, f)
        ep = var('endpoint', p.sort(p.strip(f['params'][1]['t'])))
        fut = var('future', p.sort(p.strip(f['params'][2]['t'])))
        step = var('step', U64, 1, 1 << 62)
        msort = fut.sort[2]
        vsort = p.sort(p.strip(V.fn('cpu', 'knp::core::MessageEndpoint::send_message')['params'][0]['t']))
        r = V.run('cpu', f, {nm[0]: proj, nm[1]: ep, nm[2]: fut, nm[3]: step}, contracts=dict(CONTRACTS, **(extra or {})),
                  mem={SENT: nil(('S', vsort))})
        msgs_sort = None
        uid = fld(g(proj, 'base_'), 'uid_')
        inbox = [t for t in ir.subterms(r.st.mem[SENT]).values() if t.op == 'uf' and t.pl == 'inbox']
        inbox += [t for t in ir.subterms(V.out(r, nm[2])).values() if t.op == 'uf' and t.pl == 'inbox']
        V.inbox = inbox[0] if inbox else None
        if V.inbox is None:
            raise Unsupported('no messages unloaded')
        ib = uf('inbox', [uid], inbox[0].sort)
        params = g(proj, 'parameters_')
        # --- specification
        imps_sort = dict(rfields(msort))['impacts_']
        isort = imps_sort[1]

        def per_spike(init, fn):
            """fold fn over every (spike, synapse of the spiking neuron) pair."""
            def m(k, s):
                ix = g(seqat(ib, k), 'neuron_indexes_')

                def nrn(q, s2):
                    n = seqat(ix, q)

                    def syn(i, s3):
                        return ite(eq(tup(seqat(params, i), 1), n), fn(i, s3), s3)
                    return foldl(seqlen(params), s2, syn)
                inner = foldl(seqlen(ix), s, nrn)
                return ite(mute(proj, seqat(ib, k)), s, inner) if mute else inner
            return foldl(seqlen(ib), init, m)

        def key_of(i):
            return u(64, add(g(tup(seqat(params, i), 0), 'delay_'), step, I(-1)))

        def new_message():
            m = {}
            hs = dict(rfields(msort))['header_']
            hd = rec(hs, [dict(sender_uid_=uid, send_time_=step)[f] for f, _ in rfields(hs)])
            vals = dict(header_=hd, presynaptic_population_uid_=g(proj, 'presynaptic_uid_'),
                        postsynaptic_population_uid_=g(proj, 'postsynaptic_uid_'), is_forcing_=B(forced),
                        impacts_=nil(imps_sort))
            return rec(msort, [vals[f] for f, _ in rfields(msort)])

        q = fresh('q', U64, 0, (1 << 64) - 1)
        d0, v0 = mdom(fut, q), mval(fut, q)
        dom = per_spike(d0, lambda i, s: or_(s, eq(key_of(i), q)))
        # the queued message for step q: the old one or a fresh one, with the new impacts appended
        seqs = per_spike(ite(d0, g(v0, 'impacts_'), nil(imps_sort)),
                         lambda i, s: ite(eq(key_of(i), q), cat(s, unit(impact(isort, seqat(params, i), i), imps_sort),
                                                                sort=imps_sort), s))
        val = setf(ite(d0, v0, new_message()), impacts_=seqs)
        got = V.out(r, nm[2])
        V.prove_eq('a message is queued for a later step iff some impact is due then', mdom(got, q), dom,
                   [not_(eq(q, step))])
        V.prove('nothing stays queued for this step', not_(mdom(got, step)))
        V.prove_rec('queued message', mval(got, q), val, [dom, not_(eq(q, step))])
        sent = r.st.mem[SENT]
        d_now = ir.subst(dom, {q: step})
        v_now = ir.subst(val, {q: step})
        V.prove_eq('exactly one message leaves iff impacts are due in this step', seqlen(sent), ite(d_now, I(1), I(0)))
        s0 = seqat(sent, I(0))
        nalt = len(vsort[1])
        alt = [i for i in range(nalt) if vsort[1][i] == msort][0]
        V.prove_eq('it is an impact message', vidx(s0), I(alt), [d_now])
        V.prove_rec('sent message', vget(s0, alt), v_now, [d_now])
        got_p = V.out(r, nm[0])
        k = fresh('k', Z, 0, SIZEMAX)
        gp = g(got_p, 'parameters_')
        V.prove_eq('number of synapses unchanged', seqlen(gp), seqlen(params))
        want = touch(V, proj, ib, per_spike, params, k, step)
        V.prove_rec('synapse[k]', seqat(gp, k), want, [lt(k, seqlen(params))])
        rest = setf(got_p, parameters_=params, **{c: g(proj, c) for c in CACHE})
        V.prove_eq('nothing else in the projection changes', rest, proj)
        V.no_throw(r)
    V.contract(PJ + 'calculate_projection [%s]' % SHORT[cls], body)


def touch_none(V, proj, ib, per_spike, params, k, step):
    return seqat(params, k)


def touch_last(V, proj, ib, per_spike, params, k, step):
    s = seqat(params, k)
    data = tup(s, 0)
    rule = g(data, 'rule_')
    last = per_spike(g(rule, 'last_spike_step_'),
                     lambda i, v: ite(eq(i, k), step, v))
    return settup(s, 0, setf(data, rule_=setf(rule, last_spike_step_=last)))


def parallel(V, cls, forced, touch):
    """one partition of the multi-threaded update: synapses [start, start+size) of the projection."""
    def body():
        p = V.programs['cpu']
        f = V.fn('cpu', PJ + 'calculate_projection_multithreaded', pred=lambda f: ta0(V, f) == cls)
        nm = [q['n'] for q in f['params']]
        proj = proj_input(V, f)
        cnt = var('spikes', p.sort(p.strip(f['params'][1]['t'])))
        fut = var('future', p.sort(p.strip(f['params'][2]['t'])))
        step = var('step', U64, 1, 1 << 62)
        start, size = size_var('start'), size_var('size')
        msort = fut.sort[2]
        # parts run concurrently: the queue is only touched under the lock, others may have changed it before (giving
        # `fut`) and may change it again afterwards
        root, mutex, held = 'P_' + nm[2], ir.loc('P_' + nm[6]), []
        early, late = var('early', fut.sort), var('late', fut.sort)

        def lock(ex, m, st):
            if m is not mutex:
                raise Unsupported('another mutex')
            if held or st.mem[root] is not early:
                raise Unsupported('the queue is changed without the lock')
            st.mem[root] = fut
            held.append(None)

        def unlock(ex, m, st):
            held[0] = st.mem[root]
            st.mem[root] = late
        r = V.run('cpu', f, {nm[0]: proj, nm[1]: cnt, nm[2]: early, nm[3]: step, nm[4]: start, nm[5]: size},
                  contracts={'@lock': lock, '@unlock': unlock})
        if not held or held[0] is None:
            raise Unsupported('the queue is never locked')
        V.prove_eq('the queue is left alone once unlocked', r.st.mem[root], late)
        params = g(proj, 'parameters_')
        imps_sort = dict(rfields(msort))['impacts_']
        isort = imps_sort[1]
        uid = fld(g(proj, 'base_'), 'uid_')
        n = seqlen(params)
        end = ite(lt(n, add(start, size)), n, add(start, size))

        def src(i):
            return tup(seqat(params, i), 1)

        def per_synapse(init, fn):
            return foldl(sub(end, start), init,
                         lambda k, s: ite(mdom(cnt, src(add(start, k))), fn(add(start, k), s), s))

        def key_of(i):
            return u(64, add(g(tup(seqat(params, i), 0), 'delay_'), step, I(-1)))

        def imp(i):
            x = impact(isort, seqat(params, i), i)
            w = g(x, 'impact_value_')
            return setf(x, impact_value_=fmul(w, mval(cnt, src(i))))
        hs = dict(rfields(msort))['header_']
        vals = dict(header_=rec(hs, [dict(sender_uid_=uid, send_time_=step)[x] for x, _ in rfields(hs)]),
                    presynaptic_population_uid_=g(proj, 'presynaptic_uid_'),
                    postsynaptic_population_uid_=g(proj, 'postsynaptic_uid_'), is_forcing_=B(forced),
                    impacts_=nil(imps_sort))
        new = rec(msort, [vals[x] for x, _ in rfields(msort)])
        q = fresh('q', U64, 0, (1 << 64) - 1)
        d0, v0 = mdom(fut, q), mval(fut, q)
        dom = per_synapse(d0, lambda i, s: or_(s, eq(key_of(i), q)))
        seqs = per_synapse(ite(d0, g(v0, 'impacts_'), nil(imps_sort)),
                           lambda i, s: ite(eq(key_of(i), q), cat(s, unit(imp(i), imps_sort), sort=imps_sort), s))
        got = held[0]
        pre = [le(start, n)]
        V.prove_eq('a message is queued for a step iff some impact is due then', mdom(got, q), dom, pre)
        V.prove_rec('queued message', mval(got, q), setf(ite(d0, v0, new), impacts_=seqs), pre + [dom])
        gp = g(V.out(r, nm[0]), 'parameters_')
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('number of synapses unchanged', seqlen(gp), n)
        hit = and_(le(start, k), lt(k, end), mdom(cnt, src(k)))
        V.prove_rec('synapse[k]', seqat(gp, k), touch(seqat(params, k), hit, step), pre + [lt(k, n)])
        rest = setf(V.out(r, nm[0]), parameters_=params, **{c: g(proj, c) for c in CACHE})
        V.prove_eq('nothing else in the projection changes', rest, proj)
        V.no_throw(r)
    V.contract(PJ + 'calculate_projection_multithreaded [%s]' % SHORT[cls], body)


def touch_mt_none(s, hit, step):
    return s


def touch_mt_last(s, hit, step):
    data = tup(s, 0)
    rule = g(data, 'rule_')
    return ite(hit, settup(s, 0, setf(data, rule_=setf(rule, last_spike_step_=step))), s)


def s01(V):
    serial(V, DELTA, True, touch_none)
    serial(V, RSTDP, False, touch_last)
    parallel(V, DELTA, True, touch_mt_none)
    parallel(V, RSTDP, False, touch_mt_last)


# ---------------------------------------------------------------------------------------------------- S03
ADD = PJ + 'impl::training::stdp::'
STDP_ONLY, STDP_AND_SPIKE = 0, 1


def pair_weight(tp, tm, ap, am, x):
    """W(x) of Zhang et al. 1998."""
    return ite(flt(F(0), x), fmul(ap, uf('exp', [fdiv(fneg(x), tp)], ('F', 32))),
               fmul(am, uf('exp', [fdiv(x, tm)], ('F', 32))))


def delta_w(tp, tm, ap, am, pre, post):
    """sum of W(t_post - t_pre) over all pairs, presynaptic spikes outermost."""
    def outer(j, s):
        def inner(k, s2):
            x = ir.i2f(32, ir.wrap(64, True, sub(seqat(post, k), seqat(pre, j))))
            return fadd(s2, pair_weight(tp, tm, ap, am, x))
        return foldl(seqlen(post), s, inner)
    return foldl(seqlen(pre), F(0), outer)


def c_formula(ex, f, this, avs, st):
    ex.assumed.add('contract of stdp_delta_w at its call site (proved separately)')
    v = [ex.read(a, st) if a.sort == LOC else a for a in avs]
    t = ex.read(this, st) if this.sort == LOC else this
    return uf('stdp_delta_w', [g(t, x) for x in ('tau_plus_', 'tau_minus_', 'a_plus_', 'a_minus_')] + v, ('F', 32))


def registered(proj, msg, kinds):
    pops = g(g(proj, 'shared_parameters_'), 'stdp_populations_')
    uid = g(g(msg, 'header_'), 'sender_uid_')
    return and_(mdom(pops, uid), or_(*[eq(mval(pops, uid), I(x)) for x in kinds]))


def mute_additive(proj, msg):
    return registered(proj, msg, [STDP_ONLY])


def touch_additive(V, proj, ib, per_spike, params, k, step):
    s = seqat(params, k)
    data = tup(s, 0)
    rule = g(data, 'rule_')
    tp, tm = g(rule, 'tau_plus_'), g(rule, 'tau_minus_')

    def history(field, end, kinds):
        h0 = g(rule, field)

        def m(j, h):
            msg = seqat(ib, j)
            ix = g(msg, 'neuron_indexes_')

            def spike(q, h2):
                room = flt(ir.i2f(32, seqlen(h2)), fadd(tm, tp))
                return ite(and_(eq(seqat(ix, q), end), room),
                           cat(h2, unit(g(g(msg, 'header_'), 'send_time_'), h2.sort), sort=h2.sort), h2)
            return ite(registered(proj, msg, kinds), foldl(seqlen(ix), h, spike), h)
        return foldl(seqlen(ib), h0, m)
    post = history('postsynaptic_spike_times_', tup(s, 2), [STDP_ONLY, STDP_AND_SPIKE])
    pre = history('presynaptic_spike_times_', tup(s, 1), [STDP_AND_SPIKE])
    period = fadd(tp, tm)
    full = and_(fle(period, ir.i2f(32, seqlen(pre))), fle(period, ir.i2f(32, seqlen(post))))
    dw = uf('stdp_delta_w', [tp, tm, F(1), F(1), pre, post], ('F', 32))
    w = g(data, 'weight_')
    new = setf(data, weight_=ite(full, fadd(w, dw), w),
               rule_=setf(rule, presynaptic_spike_times_=ite(full, nil(pre.sort), pre),
                          postsynaptic_spike_times_=ite(full, nil(post.sort), post)))
    return settup(s, 0, new)


def s03(V):
    p = V.programs['cpu']

    def body_w():
        f = V.fn('cpu', ADD + 'STDPFormula::stdp_delta_w')
        nm = [q['n'] for q in f['params']]
        pre = var('pre', p.sort(p.strip(f['params'][0]['t'])))
        post = var('post', p.sort(p.strip(f['params'][1]['t'])))
        me = var('formula', p.sort(f['cls']))
        r = V.run('cpu', f, {nm[0]: pre, nm[1]: post}, this=me)
        c = [g(me, x) for x in ('tau_plus_', 'tau_minus_', 'a_plus_', 'a_minus_')]
        V.prove_eq('sum of W over all pairs of spikes', V.retval(r), delta_w(*c, pre, post))
        V.no_throw(r)
    V.contract(ADD + 'STDPFormula::stdp_delta_w', body_w)
    serial(V, ASTDP, False, touch_additive, mute_additive, {'@' + ADD + 'STDPFormula::stdp_delta_w': c_formula})
