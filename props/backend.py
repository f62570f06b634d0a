"""B01: one step of the single-threaded backend (population and projection glue, order of the phases)."""
from vc import *
import ir

CPU = 'knp::backends::cpu::'
ST = 'knp::backends::single_threaded_cpu::SingleThreadedCPUBackend::'
SENT, SUBS, TRACE, TRAINED = 'ghost:sent', 'ghost:subs', 'ghost:trace', 'ghost:trained'


def val(ex, a, st):
    return ex.read(a, st) if a.sort == LOC else a


def after(name, pop, args):
    """the population after a phase: only its neurons change."""
    return setf(pop, neurons_=uf(name, [pop] + args, g(pop, 'neurons_').sort))


def phase(name, extra):
    """contract of a population phase: an arbitrary function of the population and the listed arguments."""
    def c(ex, f, this, avs, st):
        ex.assumed.add('phase functions of a population at call sites: functions of the population and the arguments '
                       '(their meaning is established by N01, N02, N03 and S02)')
        pop = ex.read(avs[0], st)
        args = [val(ex, avs[i], st) for i in extra]
        ex.write(avs[0], after(name, pop, args), st)
        if name == 'post':
            m = ex.read(avs[1], st)
            ix = g(m, 'neuron_indexes_')
            sp = uf('spikes', [pop] + args, ix.sort)
            ex.write(avs[1], setf(m, neuron_indexes_=cat(ix, sp, sort=ix.sort)), st)
        return UNITV
    return c


def c_unload(ex, f, this, avs, st):
    ex.assumed.add('contract assumed at call sites: unloading messages for a receiver returns its pending messages and '
                   'removes them (established by M01)')
    rs = ex.p.sort(f['ret'])
    key = 'ghost:unloaded:' + str(hash(rs))
    if key in st.mem:
        raise Unsupported('messages unloaded twice')
    uid = val(ex, avs[0], st)
    st.mem[key] = uid
    return uf('inbox', [uid], rs)


def c_send(ex, f, this, avs, st):
    v = val(ex, avs[0], st)
    st.mem[SENT] = cat(st.mem[SENT], unit(v, st.mem[SENT].sort), sort=st.mem[SENT].sort)
    return UNITV


def c_train(ex, f, this, avs, st):
    ex.assumed.add('training of a population at call sites: a function of the population, the given projections, the '
                   'spikes and the step (S02)')
    pop = ex.read(avs[0], st)
    lst, msg, step = val(ex, avs[1], st), val(ex, avs[2], st), avs[3]
    st.mem[TRAINED] = cat(st.mem[TRAINED], unit(step, st.mem[TRAINED].sort), sort=st.mem[TRAINED].sort)
    st.mem['ghost:list'] = lst
    st.mem['ghost:with'] = msg
    ex.write(avs[0], after('trained', pop, [msg, step]), st)
    return UNITV


PHASES = {'@' + CPU + 'populations::calculate_pre_impact_population_state': phase('pre', (1, 2)),
          '@' + CPU + 'populations::impact_population': phase('impact', (1,)),
          '@' + CPU + 'populations::calculate_post_impact_population_state': phase('post', (2, 3)),
          '@' + CPU + 'populations::train_population': c_train,
          '@knp::core::MessageEndpoint::unload_messages': c_unload,
          '@knp::core::MessageEndpoint::send_message': c_send}


def picks(V, name, unit_='st'):
    return [f for f in V.programs[unit_].fns_all() if f['n'] == name and 'body' in f]


def neuron_name(V, f):
    s = V.programs['st'].ts(V.programs['st'].strip(f['params'][0]['t']))['s']
    return ''.join(x for x in s.split('Population<')[-1] if x.isalnum() or x in '<,:').replace('knp::neuron_traits::', '')[:40]


def projections_of(V, f, what):
    p = V.programs['st']
    i = [i for i, q in enumerate(f['params']) if q['n'] == what][0]
    return var(what, p.sort(p.strip(f['params'][i]['t'])))


def population_step(V, f, train):
    p = V.programs['st']
    nm = [q['n'] for q in f['params']]
    short = f['n'].split('::')[-1]

    def body():
        pop = var('pop', p.sort(p.strip(f['params'][0]['t'])))
        step = var('step', U64, 0, 1 << 62)
        vs = p.sort(p.strip([x for x in p.fns_all() if x['n'] == 'knp::core::MessageEndpoint::send_message'][0]['params'][0]['t']))
        inp, me = {nm[0]: pop, nm[-1]: step}, None
        if f['n'].startswith(ST):
            me = var('backend', p.sort(f['cls']))
            inp, step, cont = {nm[0]: pop}, g(me, 'step_'), g(me, 'projections_')
        elif train:
            inp['container'] = cont = projections_of(V, f, 'container')
        r = V.run('st', f, inp, this=me, contracts=PHASES, mem={SENT: nil(('S', vs)), TRAINED: nil(('S', U64))})
        got = V.out(r, nm[0])
        uid = g(g(pop, 'base_'), 'uid_')
        boxes = [t for x in (got, r.st.mem[SENT]) for t in ir.subterms(x).values() if t.op == 'uf' and t.pl == 'inbox']
        if not boxes:
            raise Unsupported('the population unloads no messages')
        box = uf('inbox', [uid], boxes[0].sort)
        n = seqlen(g(pop, 'neurons_'))
        p1 = after('pre', pop, [I(0), n])
        n1 = seqlen(g(p1, 'neurons_'))
        p2 = after('impact', p1, [box])
        n2 = seqlen(g(p2, 'neurons_'))
        p3 = after('post', p2, [I(0), n2])
        same = [eq(n1, n), eq(n2, n)]        # phases keep the number of neurons (N01-N03)
        V.assumed.add('phases keep the number of neurons of a population (established by N01-N03)')
        ret = V.retval(r)
        msg = oget(ret)
        mid = uf('spikes', [p2, I(0), n2], g(msg, 'neuron_indexes_').sort)
        hs = dict(rfields(msg.sort))['header_']
        hd = rec(hs, [dict(sender_uid_=uid, send_time_=step)[x] for x, _ in rfields(hs)])
        want = rec(msg.sort, [dict(header_=hd, neuron_indexes_=mid)[x] for x, _ in rfields(msg.sort)])
        V.prove('a message is returned', has(ret), same)
        V.prove_rec('returned spikes', msg, want, same)
        V.prove_eq('the population goes through the phases, over all its neurons', got,
                   after('trained', p3, [want, step]) if train else p3, same)
        sent = r.st.mem[SENT]
        some_ = lt(I(0), seqlen(mid))
        V.prove_eq('one spike message leaves iff a neuron spiked', seqlen(sent), ite(some_, I(1), I(0)), same)
        alt = [i for i in range(len(vs[1])) if vs[1][i] == msg.sort][0]
        V.prove_eq('it is a spike message', vidx(seqat(sent, I(0))), I(alt), same + [some_])
        V.prove_rec('sent spikes', vget(seqat(sent, I(0)), alt), want, same + [some_])
        if train:
            V.prove_eq('the population is trained once', r.st.mem[TRAINED], unit(step, ('S', U64)), same)
            V.prove_rec('it is trained with its spikes', r.st.mem['ghost:with'], want, same)
            V.prove_eq('it is trained with its unlocked projections', r.st.mem['ghost:list'],
                       incoming(V, cont, uid, TRUE, r.roots['this' if me else 'container'],
                                (('f', 'projections_'),) if me else ()), same)
        if me:
            V.prove_eq('the backend itself is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract('%s [%s]' % (f['n'], neuron_name(V, f)), body)


def projection_step(V, f):
    p = V.programs['st']

    def c(ex, f, this, avs, st):
        if avs[1].op != 'loc' or avs[1].pl[0] != ('P_endpoint' if 'endpoint' in [q['n'] for q in F_['params']] else 'P_this'):
            raise Unsupported('another endpoint')
        prj, q = ex.read(avs[0], st), ex.read(avs[2], st)
        st.mem[TRAINED] = cat(st.mem[TRAINED], unit(avs[3], ('S', U64)), sort=('S', U64))
        ex.write(avs[0], uf('calculated', [prj, q, avs[3]], prj.sort), st)
        ex.write(avs[2], uf('queued', [prj, q, avs[3]], q.sort), st)
        return UNITV
    F_ = f

    def body():
        nm = [q['n'] for q in f['params']]
        prj = var('projection', p.sort(p.strip(f['params'][0]['t'])))
        member = f['n'].startswith(ST)
        q = var('queue', p.sort(p.strip(f['params'][1 if member else 2]['t'])))
        step, me = var('step', U64), None
        inp = {nm[0]: prj, nm[1 if member else 2]: q}
        if member:
            me = var('backend', p.sort(f['cls']))
            step = g(me, 'step_')
        else:
            inp[nm[-1]] = step
        r = V.run('st', f, inp, this=me, contracts={'@' + CPU + 'projections::calculate_projection': c},
                  mem={TRAINED: nil(('S', U64))})
        V.prove_eq('the projection is calculated once, for the current step', r.st.mem[TRAINED], unit(step, ('S', U64)))
        V.prove_eq('with its queue (projection)', V.out(r, nm[0]), uf('calculated', [prj, q, step], prj.sort))
        V.prove_eq('with its queue (queue)', V.out(r, nm[1 if member else 2]), uf('queued', [prj, q, step], q.sort))
        if me:
            V.prove_eq('the backend itself is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    s = p.ts(p.strip(f['params'][0]['t']))['s']
    V.contract('%s [%s]' % (f['n'], 'resource STDP' if 'Resource' in s else 'additive STDP' if 'Additive' in s else 'delta'), body)


def resource_alt(V):
    """index of resource-STDP projections among the projection alternatives."""
    p = V.programs['st']
    f = picks(V, CPU + 'find_projection_by_type_and_postsynaptic')[0]
    es = p.sort(p.strip(f['params'][0]['t']))[1]
    vs = dict(rfields(es))['arg_']
    alts = [i for i in range(len(vs[1])) if 'STDPSynapticResourceRule' in str(vs[1][i])]
    if len(alts) != 1:
        raise Unsupported('resource projection alternative')
    return alts[0]


def incoming(V, cont, uid, excl, root, at=()):
    """references to the (unlocked) resource projections of the container that target `uid`, in order."""
    a = resource_alt(V)
    i = fresh('i', Z, 0, SIZEMAX)
    v = g(seqat(cont, i), 'arg_')
    prj = vget(v, a)
    c = and_(eq(vidx(v), I(a)), not_(and_(g(prj, 'is_locked_'), excl)), eq(g(prj, 'postsynaptic_uid_'), uid))
    l = ir.loc(root, at + (('i',), ('f', 'arg_'), ('v', a)), (i,))
    ls = ('S', LOC)
    return flat(seqlen(cont), lam([i], ite(c, unit(l, ls), nil(ls))), ls)


def find_projections(V):
    f, = picks(V, CPU + 'find_projection_by_type_and_postsynaptic')
    p = V.programs['st']

    def body():
        cont = projections_of(V, f, 'projections')
        uid = var('uid', p.sort(p.strip(f['params'][1]['t'])))
        excl = var('exclude_locked', BOOL)
        nm = [q['n'] for q in f['params']]
        r = V.run('st', f, {nm[0]: cont, nm[1]: uid, nm[2]: excl})
        V.prove_eq('the matching projections, once each, in order', V.retval(r), incoming(V, cont, uid, excl, r.roots[nm[0]]))
        V.prove_eq('projections unchanged', V.out(r, nm[0]), cont)
        V.no_throw(r)
    V.contract(f['n'], body)


def event(k, loc):
    """trace entry for the k-th kind of call on the element of the container a reference points into."""
    root, steps, args = loc.pl[0] if isinstance(loc.pl[0], str) else loc.pl, loc.pl, loc.args
    return add(scale(4, args[0]), I(k))


def tr(ex, st, x):
    st.mem[TRACE] = cat(st.mem[TRACE], unit(x, ('S', Z)), sort=('S', Z))


ROUTE, RECEIVE, POP, PROJ = 0, 1, 2, 3


def c_calc(k, name):
    def c(ex, f, this, avs, st):
        ex.assumed.add('steps of one population / projection at call sites of the backend step: a function of it and of '
                       'the step (proved separately)')
        l = avs[0]
        if l.op != 'loc' or len(l.args) != 1:
            raise Unsupported('calculation of something else than one element of the container')
        tr(ex, st, event(k, l))
        x = ex.read(l, st)
        me = ex.read(this, st)
        ex.write(l, uf(name, [x, g(me, 'step_')], x.sort), st)
        if k == PROJ:
            q = ex.read(avs[1], st)
            if avs[1].op != 'loc' or len(avs[1].args) != 1:
                raise Unsupported('queue of another projection')
            V_same = eq(avs[1].args[0], l.args[0])
            if V_same is not TRUE:
                raise Unsupported('queue of another projection')
            ex.write(avs[1], uf('queue', [q, g(me, 'step_')], q.sort), st)
            return UNITV
        return fresh('message', ex.p.sort(f['ret']))
    return c


def c_route(ex, f, this, avs, st):
    tr(ex, st, I(ROUTE))
    return fresh('routed', ex.p.sort(f['ret']))


def c_receive(ex, f, this, avs, st):
    tr(ex, st, I(RECEIVE))
    return fresh('received', ex.p.sort(f['ret']))


def step(V):
    f = V.fn('st', ST + '_step')
    p = V.programs['st']

    def body():
        me = var('backend', p.sort(f['cls']))
        r = V.run('st', f, {}, this=me, pc=[lt(g(me, 'step_'), I(1 << 62))], contracts={
            '@' + ST + 'calculate_population': c_calc(POP, 'stepped'), '@' + ST + 'calculate_projection': c_calc(PROJ, 'stepped'),
            '@knp::core::MessageBus::route_messages': c_route, '@knp::core::MessageEndpoint::receive_all_messages': c_receive},
            mem={TRACE: nil(('S', Z))})
        got = V.out(r, 'this')
        i = fresh('i', Z, 0, SIZEMAX)
        sz = ('S', Z)
        s2 = g(me, 'step_')
        rr = [unit(I(ROUTE), sz), unit(I(RECEIVE), sz)]
        pops, prjs = g(me, 'populations_'), g(me, 'projections_')

        def each(s, k):
            return flat(seqlen(s), lam([i], unit(add(scale(4, i), I(k)), sz)), sz)
        V.prove_eq('messages are routed and received, every population is stepped, again routed and received, every '
                   'projection, and again', r.st.mem[TRACE], cat(*rr, each(pops, POP), *rr, each(prjs, PROJ), *rr, sort=sz))
        V.prove_eq('the step counter advances by one', g(got, 'step_'), add(s2, I(1)), [lt(s2, I(1 << 62))])

        def alts(v):
            t = inj(len(v.sort[1]) - 1, uf('stepped', [vget(v, len(v.sort[1]) - 1), s2], v.sort[1][-1]), v.sort)
            for a in range(len(v.sort[1]) - 1):
                t = ite(eq(vidx(v), I(a)), inj(a, uf('stepped', [vget(v, a), s2], v.sort[1][a]), v.sort), t)
            return t
        gp = g(got, 'populations_')
        V.prove_eq('no population comes or goes', seqlen(gp), seqlen(pops))
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('population[k] is stepped', seqat(gp, k), alts(seqat(pops, k)), [lt(k, seqlen(pops))])
        gj = g(got, 'projections_')
        V.prove_eq('no projection comes or goes', seqlen(gj), seqlen(prjs))
        V.prove_eq('projection[k] is stepped', g(seqat(gj, k), 'arg_'), alts(g(seqat(prjs, k), 'arg_')), [lt(k, seqlen(prjs))])
        V.prove_eq('with its queue of pending impacts', g(seqat(gj, k), 'messages_'),
                   uf('queue', [g(seqat(prjs, k), 'messages_'), s2], g(seqat(prjs, k), 'messages_').sort), [lt(k, seqlen(prjs))])
        V.prove_eq('nothing else changes', setf(got, populations_=pops, projections_=prjs, step_=s2), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def b01(V):
    for f in picks(V, CPU + 'calculate_any_population'):
        population_step(V, f, False)
    for n in ('calculate_blifat_population', 'calculate_lif_population'):
        for f in picks(V, CPU + n):
            population_step(V, f, False)
    for f in picks(V, CPU + 'calculate_resource_stdp_population'):
        population_step(V, f, True)
    for f in picks(V, ST + 'calculate_population'):
        population_step(V, f, 'SynapticResource' in neuron_name(V, f))
    for f in picks(V, ST + 'calculate_projection') + picks(V, CPU + 'calculate_delta_synapse_projection'):
        projection_step(V, f)
    find_projections(V)
    init(V)
    step(V)


def c_subscribe(ex, f, this, avs, st):
    ex.assumed.add('contract assumed at call sites: subscribing (established by M01)')
    t = ex.p.types[f['ta'][0]['t']]['s']
    kind = 0 if 'SpikeMessage' in t else 1 if 'SynapticImpactMessage' in t else None
    if kind is None:
        raise Unsupported('subscription to %s' % t)
    r, s = val(ex, avs[0], st), val(ex, avs[1], st)
    st.mem[SUBS] = cat(st.mem[SUBS], unit(subscription(kind, r, s), st.mem[SUBS].sort), sort=st.mem[SUBS].sort)
    return ir.loc('ghost:subscription')


def sub_sort(us):
    ir.RECS['subscription'] = (('kind', Z), ('receiver', us), ('senders', ('S', us)))
    return ('R', 'subscription')


def subscription(kind, r, s):
    return rec(sub_sort(r.sort), [I(kind), r, s])


def init(V):
    for f in picks(V, CPU + 'init') + picks(V, ST + '_init'):
        init1(V, f)


def init1(V, f, unit_='st'):
    p = V.programs[unit_]
    member = f.get('cls') is not None

    def body():
        me = var('backend', p.sort(f['cls'])) if member else None
        cont = g(me, 'projections_') if member else projections_of(V, f, 'projections')
        nm = [q['n'] for q in f['params']]
        us = g(vget(g(seqat(cont, I(0)), 'arg_'), 0), 'presynaptic_uid_').sort
        ss = ('S', sub_sort(us))
        r = V.run(unit_, f, {} if member else {nm[0]: cont}, this=me,
                  contracts={'@knp::core::MessageEndpoint::subscribe': c_subscribe}, mem={SUBS: nil(ss)})
        i = fresh('i', Z, 0, SIZEMAX)
        v = g(seqat(cont, i), 'arg_')
        n = len(v.sort[1])

        def sel(fn):
            """fn applied to the projection, whatever its type."""
            t = fn(vget(v, n - 1))
            for a in range(n - 1):
                t = ite(eq(vidx(v), I(a)), fn(vget(v, a)), t)
            return t

        def some_(u_, x):
            nl = eq(fld(u_, 'tag'), raw('nil_uuid', (), None, fld(u_, 'tag').sort))
            return ite(nl, nil(ss), unit(x, ss))

        def one(x):
            return unit(x, ('S', us))

        def trained(prj):
            uid = g(g(prj, 'base_'), 'uid_')
            if path_of(prj.sort, 'shared_parameters_') is None or path_of(g(prj, 'shared_parameters_').sort, 'stdp_populations_') is None:
                return nil(ss)
            m = g(g(prj, 'shared_parameters_'), 'stdp_populations_')
            j = fresh('j', Z, 0, SIZEMAX)
            k = mkey(m, j)
            return flat(msize(m), lam([j], some_(k, subscription(0, uid, one(k)))), ss)

        uid = sel(lambda q: g(g(q, 'base_'), 'uid_'))
        pre, post = sel(lambda q: g(q, 'presynaptic_uid_')), sel(lambda q: g(q, 'postsynaptic_uid_'))
        want = flat(seqlen(cont), lam([i], cat(
            sel(trained), some_(pre, subscription(0, uid, one(pre))), some_(post, subscription(1, post, one(uid))), sort=ss)), ss)
        V.prove_eq('spikes of the presynaptic and training populations reach every projection, its impacts reach the '
                   'postsynaptic population', r.st.mem[SUBS], want)
        if member:
            V.prove_eq('the backend is unchanged', V.out(r, 'this'), me)
        else:
            V.prove_eq('projections unchanged', V.out(r, nm[0]), cont)
        V.no_throw(r)
    V.contract(f['n'], body)


# ------------------------------------------------------------------------------------------ B02
CB = 'knp::core::Backend::'
E_INIT, E_STEP, E_PRE, E_POST = 0, 1, 2, 3


def log(st, k, s):
    st.mem[TRACE] = cat(st.mem[TRACE], unit(add(scale(4, s), I(k)), ('S', Z)), sort=('S', Z))


def member(ex, this, st, name):
    return g(ex.read(this, st), name)


class Life:
    """a backend in any state whose initialisation, steps and predicates do anything a user may write; somebody stops it
    after `limit` steps at the latest (every run that ends is covered by some limit)."""

    def __init__(self, V):
        p = self.p = V.programs['st']
        self.f = V.fn('st', CB + 'stop')
        self.me = var('backend', p.sort(self.f['cls']))
        self.limit = var('limit', Z, 1, 1 << 60)
        self.s0 = g(self.me, 'step_')
        self.pc = [lt(self.s0, I(1 << 61))]
        self.on = TRUE

    def done(self, st):
        return sub(g(st.mem[self.root], 'step_'), self.s0)

    def throw(self, st, c):
        t = st.copy()
        st.thr.append((c, 'user', t))
        st.pc.append(not_(c))

    def running(self, ex, f, this, avs, st):
        ex.assumed.add('another thread may stop the backend only between steps; the number of steps of a run is finite')
        self.root = this.pl[0]
        return and_(member(ex, this, st, 'started_'), lt(self.done(st), self.limit))

    def init(self, ex, f, this, avs, st):
        self.root = this.pl[0]
        log(st, E_INIT, g(ex.read(this, st), 'step_'))
        self.throw(st, var('init_throws', BOOL))
        return UNITV

    def step(self, ex, f, this, avs, st):
        me = ex.read(this, st)
        s = g(me, 'step_')
        log(st, E_STEP, s)
        self.throw(st, uf('step_throws', [s], BOOL))
        ex.write(this, setf(me, step_=add(s, I(1)), started_=self.keeps(s)), st)
        return UNITV

    def keeps(self, s):
        return uf('keeps_running', [s], BOOL)

    def apply(self, ex, c, avs, st, ret):
        k = E_POST if c is self.post else E_PRE
        s = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
        log(st, k, s)
        self.throw(st, uf('predicate_throws', [c, s], BOOL))
        return uf('predicate', [c, s], BOOL)

    def contracts(self):
        return {'@' + CB + 'running': self.running, '@' + CB + '_init': self.init, '@' + CB + '_step': self.step,
                '@apply': self.apply}


def b02(V):
    L = Life(V)
    for f in picks(V, CB + 'start'):
        start(V, L, f)
    simple(V, L)


def start(V, L, f):
    """runs steps exactly while running and the predicates hold; throws reach the caller with the backend stopped."""
    nm = [q['n'] for q in f['params']]
    label = '%s(%s)' % (f['n'], ', '.join(nm))

    def body():
        if len(nm) > 2:
            raise Unsupported('more than two predicates')
        fs = {q['n']: var(q['n'], L.p.sort(L.p.strip(q['t']))) for q in f['params']}
        L.post = fs[nm[1]] if len(nm) == 2 else None
        r = V.run('st', f, fs, this=L.me, pc=L.pc, contracts=L.contracts(), mem={TRACE: nil(('S', Z))})
        me, s0, sz = L.me, L.s0, ('S', Z)
        pre = fs[nm[0]] if nm else None
        post = L.post

        def ask(q, s, name):
            """a predicate's answer; (asked, throws, refuses) at step s; a single predicate is always asked."""
            if q is None:
                return FALSE, FALSE, FALSE
            a = TRUE if len(nm) == 1 else not_(uf('empty_function', [q], BOOL))
            return a, and_(a, uf('predicate_throws', [q, s], BOOL)), and_(a, not_(uf('predicate', [q, s], BOOL)))

        def entry(c, k, s):
            return ite(c, unit(add(scale(4, s), I(k)), sz), nil(sz))

        def it(k):
            s = add(s0, k)
            s1 = add(s, I(1))
            a, at, ar = ask(pre, s, 'pre')
            b, bt, br = ask(post, s1, 'post')
            off = and_(lt(I(0), k), not_(L.keeps(sub(s, I(1)))))
            st_ = uf('step_throws', [s], BOOL)
            go = and_(not_(off), not_(at), not_(ar))
            return dict(off=off, at=at, ar=ar, st=st_, bt=bt, br=br, go=go, s=s,
                        stop=or_(off, at, ar, st_, bt, br), fails=and_(not_(off), or_(at, and_(not_(ar), or_(st_, bt)))),
                        done=and_(go, not_(st_)), a=a, b=b,
                        part=cat(entry(and_(not_(off), a), E_PRE, s), entry(go, E_STEP, s),
                                 entry(and_(go, not_(st_), b), E_POST, s1), sort=sz))
        k = fresh('k', Z, 0, SIZEMAX)
        ends = {t for m in [r.st] + [x[2] for x in r.st.thr] for v in m.mem.values() for t in ir.subterms(v).values()
                if t.op == 'least' and t.args[0] is L.limit}
        if len(ends) != 1:
            raise Unsupported('%d loops' % len(ends))
        e, = ends
        (j,), stop = openlam(e.args[1])
        # the first iteration in which something ends the run; a loop may notice a refusal of the second predicate only
        # when it is about to begin the next iteration
        def late(n):
            y = it(n)
            return and_(y['done'], not_(y['bt']), y['br'])
        y = it(j)
        here = or_(y['off'], y['at'], y['ar'], y['st'], y['bt'])
        next_ = and_(lt(I(0), j), late(sub(j, I(1))))
        fc = L.pc + [ge(j, I(0)), lt(j, L.limit)]
        # no earlier iteration ended the run
        before = [implies(lt(I(0), j), not_(subst(t_, {j: sub(j, I(1))}))) for t_ in (stop, here)]
        shifted = post is not None and valid(fc, iff(stop, y['stop'])) != 'yes' and \
            valid(fc + before, iff(stop, or_(next_, here))) == 'yes'
        if shifted:
            fc = fc + before
        V.prove('the run ends when the backend is stopped, a predicate refuses, or something throws',
                iff(stop, or_(next_, here) if shifted else y['stop']), fc)
        end = fresh('end', Z, 0, SIZEMAX)
        # definition of `end`: the least number below the limit that satisfies it, or the limit
        least_ = [implies(lt(end, L.limit), it(end)['stop']), le(end, L.limit),
                  implies(lt(I(0), end), not_(it(sub(end, I(1)))['stop'])), forall_lt(end, lam([k], not_(it(k)['stop'])))]
        some_ = lt(end, L.limit)
        cases = [(add(end, I(1)), [some_, late(end)]), (end, [or_(not_(some_), not_(late(end)))])] if shifted else [(end, [])]
        x = it(end)
        was = g(me, 'started_')
        fails0 = and_(not_(was), not_(g(me, 'initialized_')), var('init_throws', BOOL))
        s = add(s0, k)
        full = cat(entry(it(k)['a'], E_PRE, s), unit(add(scale(4, s), I(E_STEP)), sz), entry(it(k)['b'], E_POST, add(s, I(1))), sort=sz)
        trace = cat(entry(and_(not_(was), not_(g(me, 'initialized_'))), E_INIT, s0), flat(end, lam([k], full), sz),
                    ite(some_, x['part'], nil(sz)), sort=sz)
        trace = ite(fails0, unit(add(scale(4, s0), I(E_INIT)), sz), trace)
        steps = add(s0, end, ite(and_(some_, x['done']), I(1), I(0)))
        steps = ite(fails0, s0, steps)
        fail = or_(fails0, and_(not_(fails0), some_, x['fails']))
        thr = or_(*[c for c, _, _ in r.st.thr])
        for at, cond in cases:
            def of(t):
                t = replace(t, e, at)
                for y in list(ir.subterms(t).values()):
                    if at is not end and y.op == 'flat' and y.args[0] is at:
                        t = replace(t, y, cat(flat(end, y.args[1], y.sort), inst(y.args[1], [end]), sort=y.sort))
                return t
            V.prove('an exception leaves exactly when the initialisation, a step or a predicate throws', iff(of(thr), fail),
                    L.pc + least_[:3] + cond)

            def outcome(name, st, pc, failed):
                out, pc = of(st.mem[r.roots['this']]), L.pc + least_ + cond + [of(x) for x in pc]
                V.prove_eq('%s: initialised before the first step of a stopped backend, once; every step is preceded and '
                           'followed by its predicate, with the step counter' % name, of(st.mem[TRACE]), trace, pc)
                V.prove_eq('%s: the step counter tells the steps run' % name, g(out, 'step_'), steps, pc)
                V.prove_eq('%s: initialised unless the initialisation failed' % name, g(out, 'initialized_'),
                           or_(g(me, 'initialized_'), and_(not_(was), not_(fails0))), pc)
                if failed:
                    V.prove('%s: not running afterwards' % name, not_(g(out, 'started_')), pc)
                V.prove_eq('%s: nothing else changes' % name, setf(out, step_=s0, initialized_=g(me, 'initialized_'), started_=was),
                           me, pc)
            outcome('return', r.st, [not_(thr)], False)
            for i, (c, ty, t) in enumerate(r.st.thr):
                outcome('exception %d' % i, t, [c], True)
    V.contract(label, body)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def simple(V, L):
    def run(name, want):
        f = V.fn('st', CB + name)

        def body():
            r = V.run('st', f, {}, this=L.me)
            V.prove_eq('resulting state', V.out(r, 'this'), want)
            V.no_throw(r)
            return r
        V.contract(f['n'], body)
    me = L.me
    run('stop', setf(me, started_=FALSE))
    ini = g(me, 'initialized_')
    run('_uninit', setf(me, initialized_=FALSE, started_=and_(g(me, 'started_'), not_(ini))))

    def body():
        f = V.fn('st', CB + 'gad_step')
        r = V.run('st', f, {}, this=me, pc=L.pc)
        V.prove_eq('returns the step', V.retval(r), L.s0, L.pc)
        V.prove_eq('advances by one', V.out(r, 'this'), setf(me, step_=add(L.s0, I(1))), L.pc)
        for n, x in (('get_step', 'step_'), ('running', 'started_')):
            r = V.run('st', V.fn('st', CB + n), {}, this=me)
            V.prove_eq(n, V.retval(r), g(me, x))
            V.prove_eq(n + ' changes nothing', V.out(r, 'this'), me)
    V.contract(CB + 'gad_step, get_step, running', body)
