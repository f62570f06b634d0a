"""B04: one step of the multi-threaded backend (tasks, barriers, merging, order of the phases)."""
from vc import *
import ir
from backend import CPU, SENT, TRACE, val, c_unload, c_send, picks, init1

MT = 'knp::backends::multi_threaded_cpu::MultiThreadedCPUBackend::'
KINDS = ('pre', 'impact', 'post', 'train', 'projection', 'join')
TASK = ('task_kind', 'task_object', 'task_from', 'task_to')
ir.RECS['task'] = tuple((x, Z) for x in TASK)
TS = ('R', 'task')


def task(kind, obj=I(0), a=I(0), b=I(0)):
    return rec(TS, [I(KINDS.index(kind)), obj, a, b])


def log(st, t):
    st.mem[TRACE] = cat(st.mem[TRACE], unit(t, ('S', TS)), sort=('S', TS))


def element(l, what):
    """index of the element of the container a reference points to."""
    if l.op != 'loc' or len(l.args) != 1:
        raise Unsupported('task on something else than one %s' % what)
    return l.args[0]


GIVEN, LISTS, WITH, STEPS = 'ghost:given', 'ghost:lists', 'ghost:with', 'ghost:steps'


def append(st, root, v):
    st.mem[root] = cat(st.mem[root], unit(v, st.mem[root].sort), sort=st.mem[root].sort)


class Pool:
    """Contract of the thread pool: a posted task runs once, some time before the next join returns, concurrently with
    the other tasks. It is executed here on a copy of the state in which it may only do what the phase contracts log,
    and change a shared object under the lock, which others may have changed before it is taken and change again after
    it is released."""

    def __init__(self, V, me):
        self.V, self.me = V, me
        self.merged = None      # root of the messages tasks merge into
        self.task = None
        self.checks = {}
        self.reserved = {}      # root of a vector -> capacity reserved
        self.refs = {}          # root of a vector tasks refer to elements of
        self.queues = None

    def check(self, label, got, want):
        self.checks[label, got.id, want.id] = (label, got, want)

    # ---------------------------------------------------------------- inside a task
    def phase(self, kind):
        def c(ex, f, this, avs, st):
            if self.task is None:
                raise Unsupported('%s outside of a task' % kind)
            getattr(self, kind)(ex, avs, st)
            return UNITV
        return c

    def pre(self, ex, avs, st):
        log(st, task('pre', element(avs[0], 'population'), avs[1], avs[2]))

    def impact(self, ex, avs, st):
        log(st, task('impact', element(avs[0], 'population')))
        append(st, GIVEN, val(ex, avs[1], st))

    def post(self, ex, avs, st):
        i = element(avs[0], 'population')
        log(st, task('post', i, avs[2], avs[3]))
        m = ex.read(avs[1], st)
        ix = g(m, 'neuron_indexes_')
        self.task['spikes'] = (i, uf('part_spikes', [i, avs[2], avs[3]], ix.sort))
        ex.write(avs[1], setf(m, neuron_indexes_=cat(ix, self.task['spikes'][1], sort=ix.sort)), st)

    def train(self, ex, avs, st):
        log(st, task('train', element(avs[0], 'population')))
        append(st, LISTS, val(ex, avs[1], st))
        append(st, WITH, val(ex, avs[2], st))
        append(st, STEPS, avs[3])

    def projection(self, ex, avs, st):
        i = element(avs[0], 'projection')
        if element(avs[2], 'queue') is not i or avs[0].pl[0] != avs[2].pl[0]:
            raise Unsupported('queue of another projection')
        self.is_mutex(avs[6])
        log(st, task('projection', i, avs[4], avs[5]))
        append(st, GIVEN, val(ex, avs[1], st))
        append(st, STEPS, avs[3])
        if avs[1].op != 'loc' or avs[1].pl[1] != (('i',),):
            raise Unsupported('spikes of a task are not kept in a list: %s' % show(avs[1]))
        self.refs[avs[1].pl[0]] = True
        self.queues = avs[2]

    def is_mutex(self, l):
        if l is not ir.loc('P_this', (('f', 'ep_mutex_'),)):
            raise Unsupported('tasks synchronise with different mutexes: %s' % show(l))

    def lock(self, ex, m, st):
        self.is_mutex(m)
        if self.task is None or self.task.get('shared') is None or 'lock' in self.task:
            raise Unsupported('lock')
        l = self.task['shared']
        if st.mem[l.pl[0]] is not self.task['before']:
            raise Unsupported('a task changes a shared message without the lock')
        old = ex.read(l, st)
        self.task['lock'] = ex.freshval(old.sort, 'shared')
        ex.write(l, self.task['lock'], st)

    def unlock(self, ex, m, st):
        l = self.task['shared']
        self.task['after'] = ex.read(l, st)
        self.task['later'] = ex.freshval(self.task['lock'].sort, 'shared')
        ex.write(l, self.task['later'], st)

    # ---------------------------------------------------------------- the pool
    def c_post(self, ex, f, this, avs, st):
        ex.assumed.add('thread pool at call sites: a posted task runs exactly once before the next join returns, '
                       'concurrently with other tasks (established by T01)')
        t = st.copy()
        t.thr = []
        self.task = {}
        msgs = [a for a in avs[1:] if a.sort == LOC and a.op == 'loc' and a.pl[0] != 'P_this' and len(a.args) == 1 and
                ex.read(a, st).sort[0] == 'R' and path_of(ex.read(a, st).sort, 'neuron_indexes_')]
        if len(msgs) == 1:
            self.task['shared'], self.task['before'] = msgs[0], st.mem[msgs[0].pl[0]]
        ex.lib.apply(avs[0], avs[1:], t)
        if t.thr:
            raise Unsupported('task may throw')
        if 'lock' in self.task:
            l, H, A = self.task['shared'], self.task['lock'], self.task['after']
            i, s = self.task['spikes']
            ix = g(H, 'neuron_indexes_')
            self.check('a task adds its spikes to the message under the lock', A,
                            setf(H, neuron_indexes_=cat(ix, s, sort=ix.sort)))
            self.check('and leaves the message alone afterwards', ex.read(l, t), self.task['later'])
            self.check('it is the message of its population', l.args[0], i)
            t.mem[l.pl[0]] = st.mem[l.pl[0]]
            self.merged = ir.loc(l.pl[0])
        elif 'spikes' in self.task:
            raise Unsupported('spikes of a task are lost')
        self.task = None
        for r in st.mem:
            if not r.startswith('ghost:') and t.mem[r] is not st.mem[r]:
                raise Unsupported('task changes %s' % r)
            st.mem[r] = t.mem[r]
        return UNITV

    def c_join(self, ex, f, this, avs, st):
        log(st, task('join'))
        if self.merged is not None:
            v = ex.read(self.merged, st)
            ex.write(self.merged, mapseq(v, lambda k, m: setf(m, neuron_indexes_=uf('gathered', [k], g(m, 'neuron_indexes_').sort))), st)
            self.merged = None
        if self.queues is not None:
            ex.write(this_projections(), mapseq(ex.read(this_projections(), st), lambda k, w: setf(
                w, messages_=uf('queued', [k], g(w, 'messages_').sort))), st)
            self.queues = None
        return UNITV

    def reserve(self, ex, f, this, A, st):
        self.reserved[this.pl[0]] = A.v(0)
        return NotImplemented

    def convert(self, ex, f, this, avs, st):
        ex.assumed.add('convert_spikes at call sites: a function of the messages (proved separately)')
        return uf('converted', [val(ex, avs[0], st)], ex.p.sort(f['ret']))

    def contracts(self):
        po = CPU + 'populations::'
        ps = '@knp::backends::cpu_executors::ThreadPool::'
        return {'lib:std::vector::reserve': self.reserve, '@knp::backends::multi_threaded_cpu::convert_spikes': self.convert,
                ps + 'post': self.c_post, ps + 'join': self.c_join, '@lock': self.lock, '@unlock': self.unlock,
                '@' + po + 'calculate_pre_impact_population_state': self.phase('pre'),
                '@' + po + 'impact_population': self.phase('impact'),
                '@' + po + 'calculate_post_impact_population_state': self.phase('post'),
                '@' + po + 'train_population': self.phase('train'),
                '@' + CPU + 'projections::calculate_projection_multithreaded': self.phase('projection'),
                '@knp::core::MessageEndpoint::unload_messages': c_unload,
                '@knp::core::MessageEndpoint::send_message': c_send}


def this_projections():
    return ir.loc('P_this', (('f', 'projections_'),))


def backend(V, f):
    p = V.programs['mt']
    me = var('backend', p.sort(f['cls']))
    part = var('population_part', U64, 1, 1 << 47)
    ppart = var('projection_part', U64, 1, 1 << 47)
    return setf(me, population_part_size_=part, projection_part_size_=ppart), part, ppart


def ghosts(V):
    p = V.programs['mt']
    fs = {f['n']: f for f in p.fns_all()}
    m = [f for f in p.fns_all() if f['n'] == 'knp::core::MessageEndpoint::send_message'][0]
    vs = p.sort(p.strip(m['params'][0]['t']))
    spike = [s for s in vs[1] if path_of(s, 'neuron_indexes_')][0]
    return {TRACE: nil(('S', TS)), LISTS: nil(('S', ('S', LOC))), WITH: nil(('S', spike)), STEPS: nil(('S', U64)),
            SENT: nil(('S', vs))}, spike, vs


def inbox_sort(V, what):
    p = V.programs['mt']
    return [p.sort(f['ret']) for f in p.fns_all() if f['n'] == 'knp::core::MessageEndpoint::unload_messages' and
            what in p.ts(f['ret'])['s']][0]


def run(V, f, me, extra={}, **kw):
    gh = ghosts(V)[0]
    gh.update(extra)
    pool = Pool(V, me)
    r = V.run('mt', f, kw, this=me, contracts=pool.contracts(), mem=gh)
    for c in pool.checks.values():
        V.prove_eq(*c)
    r.pool = pool
    return r


def sel(v, fn):
    """fn applied to a population or projection, whatever its type."""
    n = len(v.sort[1])
    t = fn(vget(v, n - 1))
    for a in range(n - 1):
        t = ite(eq(vidx(v), I(a)), fn(vget(v, a)), t)
    return t


def uid_of(v):
    return sel(v, lambda q: g(g(q, 'base_'), 'uid_'))


def parts(n, part):
    """number of parts."""
    return idiv(add(n, sub(part, I(1))), part)


def index():
    return fresh('i', Z, 0, SIZEMAX)


def each(s, fn, sort):
    i = index()
    return flat(seqlen(s), lam([i], fn(i)), sort)


def tasks(kind, pops, size, part, end):
    tsq = ('S', TS)

    def one(i):
        k = index()
        a = mul(k, part)
        return tab(parts(size(i), part), lam([k], task(kind, i, a, end(a, size(i)))), tsq)
    return each(pops, one, tsq)


JOIN = unit(task('join'), ('S', TS))


def tiling(V):
    """the parts cover every index exactly once: the first starts at 0, each ends where the next starts, the last ends
    at the size, and none is empty."""
    def body():
        n, p = size_var('n'), var('part', U64, 1, 1 << 47)
        c, k = parts(n, p), fresh('k', Z, 0, SIZEMAX)
        x = add(n, sub(p, I(1)))
        # division: c * p <= n + p - 1 < (c + 1) * p
        d = [le(mul(c, p), x), lt(x, add(mul(c, p), p)), lt(k, c)]

        def end(k):
            e = add(mul(k, p), p)
            return ite(lt(e, n), e, n)
        mono = [le(mul(add(k, I(1)), p), mul(c, p))]      # k + 1 <= c
        V.prove('k + 1 <= c implies (k + 1) * p <= c * p', mono[0], d)
        V.prove_eq('there are parts iff there are elements', B(True), eq(lt(I(0), c), lt(I(0), n)),
                   d[:2] + [implies(lt(I(0), c), le(p, mul(c, p))), implies(le(c, I(0)), le(mul(c, p), I(0)))])
        V.prove('a part is not empty', lt(mul(k, p), end(k)), d + mono)
        V.prove('a part ends where the next one starts', eq(end(k), mul(add(k, I(1)), p)),
                d + [le(mul(add(k, I(2)), p), mul(c, p))])
        V.prove('the last part ends at the size', eq(end(sub(c, I(1))), n), d[:2])
    V.contract('partition into parts (lemma)', body)


def pre(V):
    f = V.fn('mt', MT + 'calculate_populations_pre_impact')

    def body():
        me, part, _ = backend(V, f)
        r = run(V, f, me)
        pops = g(me, 'populations_')
        n = lambda i: sel(seqat(pops, i), lambda q: seqlen(g(q, 'neurons_')))
        V.prove_eq('every part of every population is computed once, and waited for', r.st.mem[TRACE], cat(
            tasks('pre', pops, n, part, lambda a, s: ite(lt(s, add(a, part)), s, add(a, part))), JOIN, sort=('S', TS)))
        V.prove_eq('nothing else is touched', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def impact(V):
    f = V.fn('mt', MT + 'calculate_populations_impact')

    def body():
        me, part, _ = backend(V, f)
        bs = inbox_sort(V, 'SynapticImpact')
        r = run(V, f, me, {GIVEN: nil(('S', bs))})
        pops = g(me, 'populations_')
        V.prove_eq('every population gets one task, and is waited for', r.st.mem[TRACE], cat(
            each(pops, lambda i: unit(task('impact', i), ('S', TS)), ('S', TS)), JOIN, sort=('S', TS)))
        V.prove_eq('with the impacts pending for it', r.st.mem[GIVEN],
                   mapseq_to(pops, lambda k, v: uf('inbox', [uid_of(v)], bs), ('S', bs)))
        V.prove_eq('nothing else is touched', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def mapseq_to(s, fn, sort):
    k = index()
    return tab(seqlen(s), lam([k], fn(k, seqat(s, k))), sort)


def message(spike, uid, step, ix):
    hs = dict(rfields(spike))['header_']
    hd = rec(hs, [dict(sender_uid_=uid, send_time_=step)[x] for x, _ in rfields(hs)])
    return rec(spike, [dict(header_=hd, neuron_indexes_=ix)[x] for x, _ in rfields(spike)])


def post(V):
    f = V.fn('mt', MT + 'calculate_populations_post_impact')

    def body():
        me, part, _ = backend(V, f)
        _, spike, _ = ghosts(V)
        r = run(V, f, me)
        pops, prjs = g(me, 'populations_'), g(me, 'projections_')
        n = lambda i: sel(seqat(pops, i), lambda q: seqlen(g(q, 'neurons_')))
        step = g(me, 'step_')
        V.prove_eq('every part of every population is computed once and waited for, then every population is trained '
                   'and waited for', r.st.mem[TRACE], cat(
                       tasks('post', pops, n, part, lambda a, s: ite(lt(s, add(a, part)), s, add(a, part))), JOIN,
                       each(pops, lambda i: unit(task('train', i), ('S', TS)), ('S', TS)), JOIN, sort=('S', TS)))
        want = mapseq_to(pops, lambda k, v: message(spike, uid_of(v), step, uf('gathered', [k], dict(rfields(spike))['neuron_indexes_'])),
                         ('S', spike))
        V.prove_eq('the spikes of every population are returned', V.retval(r), want)
        V.prove_eq('it is trained with its spikes', r.st.mem[WITH], want)
        V.prove_eq('in the current step', r.st.mem[STEPS], mapseq_to(pops, lambda k, v: step, ('S', U64)))
        V.prove_eq('and its unlocked projections', r.st.mem[LISTS], mapseq_to(
            pops, lambda k, v: incoming(prjs, uid_of(v)), ('S', ('S', LOC))))
        V.prove_eq('nothing else is touched', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def incoming(cont, uid):
    es = cont.sort[1]
    vs = dict(rfields(es))['arg_']
    alts = [i for i in range(len(vs[1])) if 'STDPSynapticResourceRule' in str(vs[1][i])]
    if len(alts) != 1:
        raise Unsupported('resource projection alternative')
    a, i = alts[0], index()
    v = g(seqat(cont, i), 'arg_')
    prj = vget(v, a)
    c = and_(eq(vidx(v), I(a)), not_(g(prj, 'is_locked_')), eq(g(prj, 'postsynaptic_uid_'), uid))
    l = ir.loc('P_this', (('f', 'projections_'), ('i',), ('f', 'arg_'), ('v', a)), (i,))
    ls = ('S', LOC)
    return flat(seqlen(cont), lam([i], ite(c, unit(l, ls), nil(ls))), ls)


def calculate_populations(V):
    f = V.fn('mt', MT + 'calculate_populations')

    def body():
        me, part, _ = backend(V, f)
        gh, spike, vs = ghosts(V)
        msgs = var('messages', ('S', spike))

        def c(kind):
            def h(ex, f, this, avs, st):
                if this.pl[0] != 'P_this':
                    raise Unsupported('another backend')
                log(st, task(kind))
                return msgs if kind == 'post' else UNITV
            return h
        r = V.run('mt', f, {}, this=me, mem=gh, contracts={
            '@' + MT + 'calculate_populations_pre_impact': c('pre'), '@' + MT + 'calculate_populations_impact': c('impact'),
            '@' + MT + 'calculate_populations_post_impact': c('post'), '@knp::core::MessageEndpoint::send_message': c_send})
        ts = ('S', TS)
        V.prove_eq('the phases run one after another', r.st.mem[TRACE], cat(*[unit(task(x), ts) for x in ('pre', 'impact', 'post')], sort=ts))
        alt = [i for i in range(len(vs[1])) if vs[1][i] == spike][0]
        i = index()
        m = seqat(msgs, i)
        V.prove_eq('the spikes of every population that has some are sent, in order', r.st.mem[SENT], flat(
            seqlen(msgs), lam([i], ite(lt(I(0), seqlen(g(m, 'neuron_indexes_'))), unit(inj(alt, m, vs), ('S', vs)), nil(('S', vs)))), ('S', vs)))
        V.prove_eq('nothing else is touched', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(f['n'], body)


def convert(V):
    f = V.fn('mt', 'knp::backends::multi_threaded_cpu::convert_spikes')
    p = V.programs['mt']

    def body():
        msgs = var('messages', p.sort(p.strip(f['params'][0]['t'])))
        r = V.run('mt', f, {f['params'][0]['n']: msgs})
        got = V.retval(r)
        q = fresh('q', U64, 0, (1 << 64) - 1)
        ix = lambda i: g(seqat(msgs, i), 'neuron_indexes_')
        hit = lambda i, j: eq(seqat(ix(i), j), q)

        def before(i, j):
            """q occurs before position j of message i."""
            a, b, c = index(), index(), index()
            return or_(not_(forall_lt(i, lam([a], forall_lt(seqlen(ix(a)), lam([b], not_(hit(a, b))))))),
                       not_(forall_lt(j, lam([c], not_(hit(i, c))))))
        V.prove_eq('a neuron is listed iff it spiked', mdom(got, q), before(seqlen(msgs), I(0)))
        # occurrence by occurrence: the first one counts 1, the others one more
        want = foldl(seqlen(msgs), mval(ir.mempty(got.sort), q), lambda i, s: foldl(seqlen(ix(i)), s, lambda j, t: ite(
            hit(i, j), u(64, add(ite(before(i, j), t, I(0)), I(1))), t)))
        V.prove_eq('with the number of its spikes', mval(got, q), want, [mdom(got, q)])
        d, e, t, c = var('listed', BOOL), var('occurs', BOOL), var('value', U64), var('count', Z, 0, SIZEMAX)
        inv = [implies(d, eq(t, c)), implies(not_(d), eq(c, I(0)))]
        t2, c2, d2 = ite(e, u(64, add(ite(d, t, I(0)), I(1))), t), add(c, ite(e, I(1), I(0))), or_(d, e)
        V.prove('which is what counting one by one gives (step of the induction)',
                and_(implies(d2, eq(t2, c2)), implies(not_(d2), eq(c2, I(0)))), inv)
        V.prove_eq('messages unchanged', V.out(r, f['params'][0]['n']), msgs)
        V.no_throw(r)
    V.contract(f['n'], body)


def calculate_projections(V):
    f = V.fn('mt', MT + 'calculate_projections')
    p = V.programs['mt']

    def body():
        me, _, part = backend(V, f)
        gh, spike, vs = ghosts(V)
        bs = inbox_sort(V, 'SpikeMessage')
        cs = [p.sort(x['ret']) for x in p.fns_all() if x['n'] == 'knp::backends::multi_threaded_cpu::convert_spikes'][0]
        r = run(V, f, me, {GIVEN: nil(('S', cs))})
        ts, prjs = ('S', TS), g(me, 'projections_')
        box = lambda i: uf('inbox', [uid_of(g(seqat(prjs, i), 'arg_'))], bs)
        n = lambda i: sel(g(seqat(prjs, i), 'arg_'), lambda q: seqlen(g(q, 'parameters_')))

        def per_part(fn, sort):
            """what every part of every projection with pending spikes contributes."""
            def one(i):
                k = index()
                return ite(eq(seqlen(box(i)), I(0)), nil(sort), tab(parts(n(i), part), lam([k], fn(i, k)), sort))
            return each(prjs, one, sort)
        V.prove_eq('every part of every projection with pending spikes is computed once, and waited for', r.st.mem[TRACE],
                   cat(per_part(lambda i, k: task('projection', i, mul(k, part), part), ts), JOIN, sort=ts))
        V.prove_eq('with its pending spikes', r.st.mem[GIVEN], per_part(lambda i, k: uf('converted', [box(i)], cs), ('S', cs)))
        V.prove_eq('for the current step', r.st.mem[STEPS], per_part(lambda i, k: g(me, 'step_'), ('S', U64)))
        for root in r.pool.refs:
            cap = r.pool.reserved.get(root)
            V.prove('spikes given to a task stay in place until it is done',
                    FALSE if cap is None else le(seqlen(r.st.mem[root]), cap))
        i = index()
        step = g(me, 'step_')
        q = uf('queued', [i], g(seqat(prjs, i), 'messages_').sort)
        alt = [a for a in range(len(vs[1])) if vs[1][a] == q.sort[2]][0]
        V.prove_eq('the impacts due in this step are sent, in order', r.st.mem[SENT], flat(
            seqlen(prjs), lam([i], ite(mdom(q, step), unit(inj(alt, mval(q, step), vs), ('S', vs)), nil(('S', vs)))), ('S', vs)))
        V.prove_eq('and leave the queue', V.out(r, 'this'), setf(me, projections_=mapseq(prjs, lambda k, w: setf(
            w, messages_=(lambda m: ite(mdom(m, step), merase(m, step), m))(uf('queued', [k], q.sort))))))
        V.no_throw(r)
    V.contract(f['n'], body)


def step(V):
    f = V.fn('mt', MT + '_step')
    p = V.programs['mt']

    def body():
        me = var('backend', p.sort(f['cls']))

        def c(k, must=True):
            def h(ex, f, this, avs, st):
                if must and this is not ir.loc('P_this'):
                    raise Unsupported('another backend')
                st.mem[TRACE] = cat(st.mem[TRACE], unit(I(k), ('S', Z)), sort=('S', Z))
                if k >= 2:
                    ex.write(this, uf('after', [ex.read(this, st), I(k)], me.sort), st)
                    return UNITV
                return fresh('n', ex.p.sort(f['ret']))
            return h
        r = V.run('mt', f, {}, this=me, mem={TRACE: nil(('S', Z))}, contracts={
            '@' + MT + 'calculate_populations': c(2), '@' + MT + 'calculate_projections': c(3),
            '@knp::core::MessageBus::route_messages': c(0, False), '@knp::core::MessageEndpoint::receive_all_messages': c(1, False)})
        V.prove_eq('populations, delivery, projections, delivery', r.st.mem[TRACE],
                   cat(*[unit(I(k), ('S', Z)) for k in (2, 0, 1, 3, 0, 1)], sort=('S', Z)))
        b = uf('after', [uf('after', [me, I(2)], me.sort), I(3)], me.sort)
        V.prove_eq('the step counter advances by one, nothing else is touched', V.out(r, 'this'),
                   setf(b, step_=u(64, add(g(b, 'step_'), I(1)))))
        V.no_throw(r)
    V.contract(f['n'], body)


def b04(V):
    tiling(V)
    pre(V)
    impact(V)
    post(V)
    calculate_populations(V)
    convert(V)
    calculate_projections(V)
    step(V)
    for f in picks(V, MT + '_init', 'mt'):
        init1(V, f, 'mt')
