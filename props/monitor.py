"""F11: logs record exactly what happened."""
from vc import *
import ir

from projections import tup as tupat
from datasets import induction
from handlers import fold_of
from loading import arms

MON = 'knp::framework::monitoring::model::'
Z0 = I(0)
LOGS = 'ghost:log'
TEXT = ('O', 'string')
SEQ = ('S', TEXT)


def f11(V):
    p = V.programs['watch']
    for f in p.fns_all():
        if not f['n'].startswith(MON) or 'body' not in f or '(unnamed)' in f['n']:
            continue
        n = f['n'][len(MON):]
        if n in WHAT:
            V.contract(n, lambda: WHAT[n](V, p, f))


def word(x):
    return x if x.sort == TEXT else uf('text', [x], TEXT)


class Log:
    """an output stream: what was written to it, in order."""

    def __init__(self, V):
        self.V = V
        self.before = var('log', SEQ)
        self.mem = {LOGS: self.before}
        V.assumed.add('an output stream that is good keeps what is written to it, in order')

    def here(self, ex, this, st):
        if this.sort != LOC or LOGS not in ir.show(this):
            raise Unsupported('another stream')

    def put(self, st, x):
        st.mem[LOGS] = cat(st.mem[LOGS], unit(x, SEQ), sort=SEQ)

    def write(self, ex, f, this, A, st):
        i = 0
        if this is None:
            this, i = A.l(0), 1
        self.here(ex, this, st)
        x = A.v(i)
        if x.sort == LOC:
            x = ex.read(x, st)
        if x.sort[0] == 'FN' or x.op == 'fnref':
            x = S('\n')
        self.put(st, word(x))
        return this

    def contracts(self):
        return {'lib:std::basic_ostream::operator<<': self.write, 'lib:std::operator<<': self.write,
                'lib:std::basic_ostream::flush': lambda ex, f, this, A, st: this,
                'lib:std::basic_ios::good': lambda ex, f, this, A, st: TRUE,
                'lib:knp::core::Backend::get_network_data': self.network,
                'lib:knp::core::Backend::BaseValueIterator::operator==': lambda ex, f, this, A, st: eq(ex.read(this, st), ex.read(A.l(0), st)),
                'lib:knp::core::Backend::BaseValueIterator::operator*': self.element,
                'lib:knp::core::Backend::BaseValueIterator::operator++': self.advance,
                '@' + MON + 'process_projection_weights': lambda ex, f, this, avs, st: self.rows(avs[0], st, ex),
                '@knp::framework::ModelExecutor::get_backend': lambda ex, f, this, avs, st: uf('backend', [], ex.p.sort(f['ret'])),
                'lib:knp::core::Backend::get_step': lambda ex, f, this, A, st: var('step', U64), '@knp::core::Backend::get_step': lambda ex, f, this, A, st: var('step', U64)}

    def element(self, ex, f, this, A, st):
        k = ex.read(this, st)
        ex.side.append(('an iterator is read within its range', list(st.pc), lt(k, seqlen(self.projections))))
        return seqat(self.projections, k)

    def advance(self, ex, f, this, A, st):
        ex.write(this, add(ex.read(this, st), I(1)), st)
        return this

    def network(self, ex, f, this, A, st):
        rec_ = lambda s, vs: ir.rec(s, vs)
        s = ex.p.sort(f['ret'])
        self.projections = var('projections', ('S', self.variant))
        st.mem['ghost:first'], st.mem['ghost:last'] = Z0, seqlen(self.projections)
        pair = dict(rfields(s))
        nul = lambda q: ir.loc('ghost:elsewhere', (), ())
        def pick(name, sub):
            return rec_(sub, [ir.loc('ghost:' + ('first' if name.startswith('proj') and e == 'first' else 'last' if name.startswith('proj') else 'elsewhere'), (), ())
                              for e, _ in rfields(sub)])
        return rec_(s, [pick(n, q) for n, q in rfields(s)])

    def run(self, p, f, ins, extra=None, **kw):
        at = [q['n'] for q in f['params'] if p.sort(p.strip(q['t']))[0] == 'O' and 'ostream' in p.sort(p.strip(q['t']))[1]]
        ins = dict(ins, **{a: ir.loc(LOGS, (), ()) for a in at})
        return self.V.run('watch', f, ins, contracts=dict(self.contracts(), **(extra or {})), mem=self.mem, **kw)


def lines(s, vals):
    """a line of the aggregated log after its first word."""
    k = fresh('k', Z, 0, SIZEMAX)
    return cat(flat(ir.msize(vals), lam([k], cat(unit(S(', '), SEQ), unit(word(mval(vals, ir.mkey(vals, k))), SEQ), sort=SEQ)), SEQ),
               unit(S('\n'), SEQ), sort=SEQ)


def row(V, p, f):
    L = Log(V)
    vals, i = var('values', p.sort(p.strip(f['params'][1]['t']))), var('index', U64)
    r = L.run(p, f, {'values': vals, 'index': i})
    V.no_throw(r)
    V.prove_eq('a line: the step and the values in the order of their names', r.st.mem[LOGS],
               cat(L.before, unit(word(i), SEQ), lines(SEQ, vals), sort=SEQ))


def header(V, p, f):
    L = Log(V)
    names = var('names', p.sort(p.strip(f['params'][1]['t'])))
    r = L.run(p, f, {'senders_names': names})
    V.no_throw(r)
    known = [x for x in r.ex.known if x[0] == 'sorted']
    if len(known) != 1:
        raise Unsupported('names are not sorted once')
    _, at, n, lo, hi, facts = known[0]
    V.assumed.add('std::sort of texts leaves a rearrangement of them in their order')
    k, j = fresh('k', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    name = lambda k: mval(names, ir.mkey(names, seqat(at, k)))
    V.prove('names are in order', not_(uf('text before', [name(k), name(j)], BOOL)), [lt(k, ir.msize(names)), lt(j, k)] + [
        open2(q, k, j) for q in facts if q.op == 'forall' and openlam(q.args[1])[1].op == 'forall'])
    V.prove_eq('all names are sorted', n, ir.msize(names))
    V.prove_eq('from the first', lo, Z0)
    V.prove_eq('to the last', hi, n)
    V.prove_eq('the header: a word and the names in order', r.st.mem[LOGS], cat(
        L.before, unit(S('Index'), SEQ),
        flat(ir.msize(names), lam([k], cat(unit(S(', '), SEQ), unit(mval(names, ir.mkey(names, seqat(at, k))), SEQ), sort=SEQ)), SEQ),
        unit(S('\n'), SEQ), sort=SEQ), facts)


MSG = ('R', 'knp::core::messaging::SpikeMessage')


def sender(msgs, k):
    return g(g(seqat(msgs, k), 'header_'), 'sender_uid_')


def observed(V, p, f, L, r, st, msgs, pre):
    st.mem['ghost:messages'] = msgs
    st.pc += pre
    n = len(st.thr)
    r.ex.lib.apply(V.retval(r), [ir.loc('ghost:messages', (), ())], st, None)
    V.prove('and does not fail', not_(or_(*[c for c, _, _ in st.thr])), pre)
    return st.mem[LOGS]


def spikes(V, p, f):
    L = Log(V)
    names = var('names', p.sort(p.strip(f['params'][1]['t'])))
    r = L.run(p, f, {'senders_names': names})
    V.no_throw(r)
    V.prove_eq('making it writes nothing', r.st.mem[LOGS], L.before)
    msgs = var('messages', ('S', MSG))
    k, j = fresh('k', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    pre = [forall_lt(seqlen(msgs), lam([k], mdom(names, sender(msgs, k))))]
    V.requires(*pre)
    out = observed(V, p, f, L, r, r.st.copy(), msgs, pre)
    w = lambda *xs: [unit(word(x), SEQ) for x in xs]
    m = seqat(msgs, k)
    ix = g(m, 'neuron_indexes_')
    V.prove_eq('every message in order: its step, the name of its sender and its spikes in order', out, cat(L.before, flat(seqlen(msgs), lam([k], cat(
        *w(S('Step: '), g(g(m, 'header_'), 'send_time_'), S('\nSender: '), mval(names, sender(msgs, k)), S('\n')),
        flat(seqlen(ix), lam([j], cat(*w(seqat(ix, j), S(' ')), sort=SEQ)), SEQ), *w(S('\n')), sort=SEQ)), SEQ), sort=SEQ), pre)


def sums(V, p, f):
    L = Log(V)
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    names, period = ins['sender_names'], ins['period']
    pre = [lt(Z0, period)]
    V.requires(*pre)
    r = L.run(p, f, ins, pc=pre)
    V.no_throw(r)
    V.prove_eq('making it writes nothing', r.st.mem[LOGS], L.before)
    acc0 = r.st.mem['P_accumulator']
    k = fresh('k', Z, 0, SIZEMAX)
    q = fresh('q', TEXT)
    name_of = lambda k: mval(names, ir.mkey(names, k))
    named = lambda q: not_(forall_lt(ir.msize(names), lam([k], not_(eq(q, name_of(k))))))
    V.prove_eq('at the start there is a number for every name', mdom(acc0, q), named(q))
    V.prove_eq('which is zero', mval(acc0, q), Z0, [mdom(acc0, q)])
    # at any step: some numbers for the names
    acc = ir.mtab(lam([q], named(q)), lam([q], uf('count', [q], U64)), acc0.sort)
    st = r.st.copy()
    st.mem['P_accumulator'] = acc
    msgs = var('messages', ('S', MSG))
    out = observed(V, p, f, L, r, st, msgs, pre)
    step = var('step', U64)
    due = eq(imod(step, period), Z0)
    V.prove_eq('a line at the steps that are multiples of the period, with the numbers up to now', out,
               cat(L.before, unit(word(step), SEQ), lines(SEQ, acc), sort=SEQ), pre + [due])
    V.prove_eq('nothing at others', out, L.before, pre + [not_(due)])
    new = st.mem['P_accumulator']
    fits = lambda k: and_(mdom(names, sender(msgs, k)), eq(mval(names, sender(msgs, k)), q))
    # every entry of a map is met when going over the map
    x = sender(msgs, k)
    rank = uf('rank', [names, x], Z)
    V.assumed.add('going over a map meets each of its keys')
    met = implies(mdom(names, x), and_(le(Z0, rank), lt(rank, ir.msize(names)), eq(ir.mkey(names, rank), x)))
    unnamed = lambda y: not_(eq(q, mval(names, ir.mkey(names, y))))
    V.prove('lemma: a known sender has one of the names', not_(fits(k)), [not_(named(q)), met, implies(and_(le(Z0, rank), lt(rank, ir.msize(names)), not_(named(q))), unnamed(rank))])
    lemma = or_(named(q), forall_lt(seqlen(msgs), lam([k], not_(fits(k)))))
    V.prove_eq('there is still a number for every name', mdom(new, q), named(q), pre + [lemma])
    total = lambda b: foldl(seqlen(msgs), b, lambda k, s: ite(fits(k), u(64, add(s, seqlen(g(seqat(msgs, k), 'neuron_indexes_')))), s))
    V.prove_eq('spikes are added to the number of their name', mval(new, q), total(uf('count', [q], U64)), pre + [named(q), not_(due), lemma])
    V.prove_eq('which starts anew after a line', mval(new, q), total(Z0), pre + [named(q), due, lemma])


PRJ = 'knp::core::Projection<knp::synapse_traits::STDP<knp::synapse_traits::STDPSynapticResourceRule, knp::synapse_traits::DeltaSynapse>>'


def rows(V, p, f):
    """what is logged of a projection: one row per synapse, by receivers and then senders."""
    vs = p.sort(p.strip(f['params'][0]['t']))
    x = var('proj_variant', vs)
    i = [t[1] for t in vs[1]].index(PRJ)
    pre = [eq(ir.vidx(x), I(i))]
    V.requires(*pre)
    r = V.run('watch', f, {'proj_variant': x}, pc=pre)
    V.no_throw(r)
    known = [q for q in r.ex.known if q[0] == 'sorted']
    if len(known) != 1:
        raise Unsupported('rows are not sorted once')
    _, at, n, lo, hi, facts = known[0]
    out = V.retval(r)
    syn = g(ir.vget(x, i), 'parameters_')
    k, j = fresh('k', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    V.prove_eq('all synapses are put in order', n, seqlen(syn))
    V.prove_eq('from the first', lo, Z0)
    V.prove_eq('to the last', hi, n)
    s = seqat(syn, seqat(at, k))
    rule = g(tupat(s, 0), 'rule_')
    V.prove_eq('a row for each synapse', seqlen(out), seqlen(syn))
    row = seqat(out, k)
    for what, want in (('receiver_', tupat(s, 2)), ('sender_', tupat(s, 1)), ('weight_', g(rule, 'synaptic_resource_')), ('update_step_', g(rule, 'last_spike_step_'))):
        V.prove_eq('with its ' + what.strip('_').replace('_', ' '), g(row, what), want, [lt(k, seqlen(syn))] + facts)
    key = lambda i, w: tupat(seqat(syn, seqat(at, i)), w)
    V.prove('in order of receivers and senders', or_(lt(key(j, 2), key(k, 2)), and_(eq(key(j, 2), key(k, 2)), le(key(j, 1), key(k, 1)))),
            [lt(k, seqlen(syn)), lt(j, k)] + [open2(q, k, j) for q in facts if q.op == 'forall' and openlam(q.args[1])[1].op == 'forall'])


def open2(q, i, j):
    """an instance of `for all i below n, for all j below i`."""
    (x,), e = openlam(q.args[1])
    e = subst(e, {x: i})
    (y,), e2 = openlam(e.args[1])
    return implies(and_(lt(i, q.args[0]), lt(j, e.args[0])), subst(e2, {y: j}))


def weights(V, p, f):
    L = Log(V)
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    period = ins['period']
    pre = [lt(Z0, period)]
    V.requires(*pre)
    r = L.run(p, f, ins, pc=pre)
    V.no_throw(r)
    V.prove_eq('making it writes nothing', r.st.mem[LOGS], L.before)
    st = r.st.copy()
    st.mem['ghost:messages'] = var('messages', ('S', MSG))
    vs = [q for q in p.fns_all() if q['n'] == MON + 'process_projection_weights'][0]
    rs, vs = p.sort(vs['ret']), p.sort(p.strip(vs['params'][0]['t']))
    projs = var('projections', ('S', vs))
    i = [t[1] for t in vs[1]].index(PRJ)
    rows_of = lambda x: uf('rows', [x], rs)
    ex = r.ex
    L.variant = vs
    L.rows = lambda x, st, ex: rows_of(ex.read(x, st) if x.sort == LOC else x)
    ex.lib.apply(V.retval(r), [ir.loc('ghost:messages', (), ())], st, None)
    k = fresh('k', Z, 0, SIZEMAX)
    uid_of = lambda x: arms(x, lambda i, y: g(g(y, 'base_'), 'uid_'))
    wanted = lambda k: eq(uid_of(seqat(projs, k)), ins['uid'])
    at = least(seqlen(projs), lam([k], wanted(k)))
    ds = list({y for y in ir.subterms(st.mem[LOGS]).values() if y.op == 'least' and not y.nb})
    if len(ds) == 1:
        V.prove_eq('looks at all projections', ds[0].args[0], seqlen(projs))
        V.prove_eq('for the one wanted', inst(ds[0].args[1], [k]), wanted(k))
        at = ds[0]
    x = seqat(projs, at)
    step = var('step', U64)
    due = eq(imod(step, period), Z0)
    is_it = eq(uid_of(x), ins['uid'])
    there = [due, lt(at, seqlen(projs)), not_(eq(at, seqlen(projs))), is_it]
    pre = pre + [implies(lt(at, seqlen(projs)), is_it)]
    w = lambda *xs: [unit(word(y), SEQ) for y in xs]
    start = cat(L.before, *w(S('Step: '), step, S('\n')), sort=SEQ)
    R = rows_of(x)
    n = seqlen(R)
    who = lambda i: g(seqat(R, i), 'receiver_')
    one = lambda k: cat(ite(or_(eq(k, Z0), not_(eq(who(add(k, I(-1))), who(k)))), cat(*w(S('\n'), S('Neuron '), who(k), S('\n')), sort=SEQ), nil(SEQ)),
                        *w(g(seqat(R, k), 'weight_'), S('|'), g(seqat(R, k), 'update_step_'), S(' ')), sort=SEQ)
    q = fresh('q', Z, 0, SIZEMAX)
    upto = lambda m: cat(start, flat(m, lam([q], one(q)), SEQ), sort=SEQ)
    V.assumed.add('rows have the numbers of neurons (32 bits), as proved of process_projection_weights')
    small = lambda i: lt(who(i), I(1 << 32))
    log = st.mem[LOGS]
    V.prove_eq('nothing at other steps', log, L.before, pre + [not_(due)])
    V.prove_eq('only the step without such a projection', log, start, pre + [due, eq(at, seqlen(projs))])
    log = Prover().simp(Ctx(pre + there), log)
    folds = [y for y in ir.subterms(log).values() if y.op == 'fold' and not y.nb]
    if folds:
        m, ini, steps, labels, j = fold_of(folds[0])
        if any(fold_of(y)[:4] != (m, ini, steps, labels) for y in folds):
            raise Unsupported('another loop')
        lg = [i for i, y in enumerate(ini) if y.sort == SEQ]
        if len(lg) != 1 or any(y.sort[0] not in 'ZIB' for i, y in enumerate(ini) if i != lg[0]):
            raise Unsupported('another loop')
        lg = lg[0]
        V.prove_eq('goes over the rows', m, n, pre + there)
        k = fresh('k', Z, 0, SIZEMAX)
        # after k rows: their text, the receiver of the last of them, and whether there was one
        states = range(len(ini))
        inv = lambda k: [upto(k) if i == lg else ite(eq(k, Z0), ini[i], not_(ini[i]) if ini[i].sort == BOOL else who(add(k, I(-1)))) for i in states]
        here = [le(Z0, k), lt(k, n), small(k), small(add(k, I(-1)))]
        V.prove_eq('the text of the rows, at the start', ini[lg], upto(Z0))
        V.prove_eq('the text of the rows, after one more', inst(steps[lg], [k] + inv(k)), cat(upto(k), one(k), sort=SEQ), here)
        for i in states:
            if i != lg:
                V.prove_eq('what is kept of the last row (%d)' % i, inst(steps[i], [k] + inv(k)), not_(ini[i]) if ini[i].sort == BOOL else who(k), here)
        for y in folds:
            log = replace(log, y, inv(n)[fold_of(y)[4]])
    V.prove_eq('the step, and every row under its receiver', log, cat(upto(n), *w(S('\n')), sort=SEQ), pre + there)


def logger(V, p, f):
    """makes one observer, of the arguments, for the senders."""
    L = Log(V)
    n = f['n'][len(MON):]
    maker = {'add_spikes_logger': 'make_spikes_observer_function', 'add_aggregated_spikes_logger': 'make_aggregated_spikes_observer_function',
             'add_projection_weights_logger': 'make_projection_weights_observer_function'}[n]
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    made, added, heads = [], [], []

    def make(ex, g_, this, avs, st):
        made.append((list(st.pc), avs))
        return uf('observer', [], ex.p.sort(g_['ret']))

    def add_observer(ex, g_, this, avs, st):
        added.append((list(st.pc), this, [ex.read(x, st) if x.sort == LOC else x for x in avs]))
        return UNITV

    def head(ex, g_, this, avs, st):
        heads.append((list(st.pc), avs))
        return UNITV
    extra = {'@' + MON + maker: make, '@knp::framework::ModelExecutor::add_observer': add_observer, '@' + MON + 'write_aggregated_spikes_logger_header': head}
    r = L.run(p, f, ins, extra=extra)
    V.no_throw(r)
    V.called('an observer is added, once', [x for x in added])
    V.called('of a function made once', made)
    V.prove('in every case', and_(*added[0][0], *made[0][0]))
    names = ins.get('senders_names')
    senders = added[0][2][1]
    k = fresh('k', Z, 0, SIZEMAX)
    V.prove_eq('the observer added is the one made', added[0][2][0], uf('observer', [], added[0][2][0].sort))
    V.prove_eq('to the executor given', added[0][1], ir.loc('P_model_executor', (), ()))
    V.prove_eq('for all senders' if names is not None else 'for no sender', senders,
               tab(ir.msize(names), lam([k], ir.mkey(names, k)), senders.sort) if names is not None else nil(senders.sort))
    mf = [q for q in p.fns_all() if q['n'] == MON + maker][0]
    same = {'log_stream': 'log_stream', 'sender_names': 'senders_names', 'senders_names': 'senders_names', 'period': 'logging_period', 'accumulator': 'spike_accumulator'}
    for q, x in zip(mf['params'], made[0][1]):
        arg = same.get(q['n'], q['n'])
        if 'ostream' in str(p.sort(p.strip(q['t']))):
            V.prove_eq('writing to the stream given', x, ir.loc(LOGS, (), ()))
        elif x.sort == LOC and x is ir.loc('P_' + arg, (), ()):
            V.prove_eq('made of the ' + q['n'], x, ir.loc('P_' + arg, (), ()))
        else:
            V.prove_eq('made of the ' + q['n'], r.ex.read(x, r.st) if x.sort == LOC and ins[arg].sort != LOC else x, ins[arg])
    if n == 'add_aggregated_spikes_logger':
        V.called('the header is written, once', heads)
        V.prove('with a header in every case', and_(*heads[0][0]))
        V.prove_eq('to the stream given', heads[0][1][0], ir.loc(LOGS, (), ()))
        x = heads[0][1][1]
        V.prove_eq('for the names given', r.ex.read(x, r.st) if x.sort == LOC else x, names)
    else:
        V.prove_eq('nothing is written', r.st.mem[LOGS], L.before)
        if heads:
            raise Unsupported('another header')


WHAT = dict(add_spikes_logger=logger, add_aggregated_spikes_logger=logger, add_projection_weights_logger=logger,
            make_projection_weights_observer_function=weights, process_projection_weights=rows, write_aggregated_spikes_logger_header=header, save_aggregated_spikes_log=row, make_spikes_observer_function=spikes,
            make_aggregated_spikes_observer_function=sums)
