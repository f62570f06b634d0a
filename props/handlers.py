"""F05: the handlers which choose the spikes passed on (winner-take-all, union)."""
from vc import *
import ir
from prove import valid, Prover, Ctx
from containers import CALLS
from framework import run

MO = 'knp::framework::modifier::'
DRAWS = 'ghost:draws'
Z0, ONE = I(0), I(1)


def folds(t, n=None):
    return [x for x in ir.subterms(t).values() if x.op == 'fold']


def fold_of(x):
    """count, initial values, steps, labels, component."""
    labels, j = x.pl
    m = len(labels)
    return x.args[0], x.args[1:1 + m], x.args[1 + m:], labels, j


def positions(p, n, tag=''):
    """p lists different positions below n."""
    i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    return [eq(seqlen(p), n),
            forall_lt(n, lam([i], and_(le(Z0, seqat(p, i)), lt(seqat(p, i), n)))),
            forall_lt(n, lam([i], forall_lt(i, lam([j], not_(eq(seqat(p, i), seqat(p, j)))))))]


def at(s, p, n):
    i = fresh('i', Z, 0, SIZEMAX)
    return tab(n, lam([i], seqat(s, seqat(p, i))), s.sort)


def last_of(s, p, n, k):
    """the elements of s at the last k positions, backwards."""
    i = fresh('i', Z, 0, SIZEMAX)
    return tab(k, lam([i], seqat(s, seqat(p, sub(sub(n, ONE), i)))), s.sort)


def exact(t, facts):
    """machine arithmetic that stays in range (shown by the solver) is arithmetic."""
    for x in sorted(ir.subterms(t).values(), key=lambda x: x.size):
        if x.op == 'wrap' and x.nb == 0 and valid(facts, eq(x, x.args[0])) == 'yes':
            t = replace(t, x, x.args[0])
    return t


def f05(V):
    p = V.programs['base']
    for f in p.fns_all():
        if f['n'] == 'knp::framework::projection::add_wta_handlers' and 'body' in f:
            V.contract('projection::add_wta_handlers', lambda: adding(V, p, f))
    for f in p.fns_all():
        if f['n'].startswith(MO) and 'body' in f:
            spec = globals().get('h_' + f['n'][len(MO):].split('::')[0] + ('' if f['n'].endswith('operator()') or '::' not in f['n'][len(MO):] else '_ctor'))
            if spec and '(unnamed)' not in f['n'] and '(lambda' not in f['n']:
                V.contract('modifier::' + f['n'][len(MO):], lambda: spec(V, p, f))


def h_select_random_n(V, p, f):
    s = var('input', p.sort(p.strip(f['params'][0]['t'])))
    n = var('n', U64, 0, SIZEMAX)
    r = run(V, f, {'input': s, 'n': n}, mem={**CALLS, DRAWS: Z0})
    out = V.retval(r)
    size = seqlen(s)
    few = le(size, n)
    V.prove_eq('passes everything when there are at most n', out, s, [few])
    V.prove_eq('and leaves it as it was then', V.out(r, 'input'), s, [few])
    more = [not_(few)]
    pr = Prover()
    t = pr.simp(Ctx(more), out)
    if t.op != 'fold':
        raise Unsupported('the choice is not made by one loop')
    cnt, ini, steps, labels, j = fold_of(t)
    V.prove_eq('chooses n', cnt, n, more)
    S = s.sort
    ins = [i for i in range(len(ini)) if ini[i] is s]
    if len(ins) != 1:
        raise Unsupported('no single working copy of the input')
    a = ins[0]
    k = fresh('k', Z, 0, SIZEMAX)
    pp = fresh('p', ('S', U64))
    inv = positions(pp, size)
    here = more + [lt(k, n)]
    st = [fresh('s', x.sort) for x in ini]
    st[a] = at(s, pp, size)
    st[j] = last_of(s, pp, size, k)
    # the state before the first step: every position in place
    i = fresh('i', Z, 0, SIZEMAX)
    p0 = tab(size, lam([i], i), ('S', U64))
    V.prove_eq('starts with the input', ini[a], at(s, p0, size), more)
    V.prove_eq('starts with nothing chosen', ini[j], last_of(s, p0, size, Z0), more)
    for q, fact in enumerate(positions(p0, size)):
        V.prove('starts with every position once (%d)' % q, fact, more)
    # one step: the spike chosen is exchanged with the last one left
    nr = inst(steps[j], [k] + [st[x] if x in (a, j) else var('s%d' % x, ini[x].sort) for x in range(len(ini))])
    ns = inst(steps[a], [k] + [st[x] if x in (a, j) else var('s%d' % x, ini[x].sort) for x in range(len(ini))])
    c = fresh('cur', S)
    probe = inst(steps[j], [k] + [c if x == a else (st[x] if x == j else var('s%d' % x, ini[x].sort)) for x in range(len(ini))])
    probe = subst(probe, {})
    ds = [x.args[1] for x in ir.subterms(probe).values() if x.op == 'seqat' and x.args[0] is c]
    if len(ds) != 1:
        raise Unsupported('not one spike chosen in a step')
    d = subst(ds[0], {seqlen(c): size}) if seqlen(c).op == 'var' else replace(ds[0], seqlen(c), size)
    left = sub(size, k)
    last = sub(left, ONE)
    V.prove('chooses among the spikes left', and_(le(Z0, d), lt(d, left)), here)
    drawn = [x for x in ir.subterms(d).values() if x.op == 'uf' and x.pl == 'draw']
    q = fresh('q', U64, 0, SIZEMAX)
    V.prove_eq('can choose each of the spikes left', replace(d, drawn[0], q) if len(drawn) == 1 else d, q, here + [lt(q, left)])
    dd = fresh('d', Z, 0, SIZEMAX)
    d = exact(d, here)
    dfacts = [le(Z0, last), eq(dd, d), le(Z0, dd), lt(dd, left)]
    p1 = store(store(pp, dd, seqat(pp, last)), last, seqat(pp, dd))
    nr, ns = [replace(exact(x, here), d, dd) for x in (nr, ns)]
    facts = here + inv + dfacts
    V.prove_eq('adds the spike at a position not chosen before', nr, last_of(s, p1, size, add(k, ONE)), facts)
    V.prove_eq('exchanges it with the last one left', ns, at(s, p1, size), facts)
    for q, fact in enumerate(positions(p1, size)):
        V.prove('keeps every position once (%d)' % q, fact, facts)


class Chosen:
    """the contract of select_random_n for its callers: which spikes of a list are chosen, and in which order the rest is left."""

    def __init__(self, p):
        self.f = [f for f in p.fns_all() if f['n'] == MO + 'select_random_n'][0]
        self.calls = {'@' + MO + 'select_random_n': self.call}

    def value(self, s, n, draws):
        return ite(le(seqlen(s), n), s, uf('chosen', [s, n, draws], s.sort))

    def after(self, s, n, draws):
        return uf('draws_after', [s, n, draws], Z)

    def call(self, ex, f, this, avs, st):
        ref, n = avs[0], avs[1]
        s = ex.read(ref, st)
        d = st.mem[DRAWS]
        st.mem[DRAWS] = self.after(s, n, d)
        ex.write(ref, uf('rearranged', [s, n, d], s.sort), st)
        ex.assumed.add('select_random_n: min(n, size) of the spikes at different positions (proved in this property)')
        return self.value(s, n, d)


def message_indexes(p, f):
    ms = var('messages', p.sort(p.strip(f['params'][0]['t'])))
    return ms, g(seqat(ms, Z0), 'neuron_indexes_')


def h_KWtaRandomHandler(V, p, f):
    me = var('me', p.sort(f['cls']))
    ms, s = message_indexes(p, f)
    ch = Chosen(p)
    r = run(V, f, {'messages': ms}, this=me, mem={**CALLS, DRAWS: Z0}, contracts=ch.calls)
    out = V.retval(r)
    none = le(seqlen(ms), Z0)
    n = g(me, 'num_winners_')
    V.prove_eq('without a message there are no spikes', out, nil(s.sort), [none])
    some = [not_(none)]
    V.prove_eq('fewer spikes than winners: all of them', out, s, some + [lt(seqlen(s), n)])
    V.prove_eq('otherwise the chosen spikes of the first message', out, ch.value(s, n, Z0), some + [le(n, seqlen(s))])
    V.prove_eq('keeps the number of winners', g(V.out(r, 'this'), 'num_winners_'), n)
    V.no_throw(r)


def group_of(borders, x):
    """how many borders are not above x (the borders are sorted)."""
    k = fresh('k', Z, 0, SIZEMAX)
    return least(seqlen(borders), lam([k], lt(x, seqat(borders, k))))


def sorted_borders(b):
    i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    return forall_lt(seqlen(b), lam([i], forall_lt(i, lam([j], le(seqat(b, j), seqat(b, i))))))


def group(borders, s, k):
    i = fresh('i', Z, 0, SIZEMAX)
    x = seqat(s, i)
    return flat(seqlen(s), lam([i], ite(eq(group_of(borders, x), k), unit(x, s.sort), nil(s.sort))), s.sort)


def h_KWtaPerGroup(V, p, f):
    me = var('me', p.sort(f['cls']))
    ms, s = message_indexes(p, f)
    ch = Chosen(p)
    b, n = g(me, 'group_borders_'), g(me, 'winners_per_group_')
    r = run(V, f, {'messages': ms}, this=me, mem={**CALLS, DRAWS: Z0}, contracts=ch.calls, pc=[sorted_borders(b)])
    out = V.retval(r)
    none = le(seqlen(ms), Z0)
    V.prove_eq('without a message there are no spikes', out, nil(s.sort), [none])
    k, acc, d = fresh('k', Z, 0, SIZEMAX), fresh('acc', s.sort), fresh('draws', Z)
    gk = group(b, s, k)
    want = ir.fold(add(seqlen(b), ONE), [nil(s.sort), Z0],
                   [lam([k, acc, d], cat(acc, ch.value(gk, n, d))), lam([k, acc, d], ch.after(gk, n, d))], ['acc', 'draws'], 0)
    V.prove_eq('the chosen spikes of every group, group by group', out, want, [not_(none), sorted_borders(b), lt(Z0, seqlen(s))])
    V.prove_eq('nothing from an empty message', out, nil(s.sort), [not_(none), eq(seqlen(s), Z0)])
    V.prove_eq('keeps the groups', g(V.out(r, 'this'), 'group_borders_'), b)
    V.no_throw(r)


def h_SpikeUnionHandler(V, p, f):
    ms = var('messages', p.sort(p.strip(f['params'][0]['t'])))
    r = run(V, f, {'messages': ms}, mem=dict(CALLS), this=var('me', p.sort(f['cls'])))
    out = V.retval(r)
    es = out.sort[1]
    x, k, i = fresh('x', es), fresh('k', Z, 0, SIZEMAX), fresh('i', Z, 0, SIZEMAX)
    s = g(seqat(ms, k), 'neuron_indexes_')
    spiked = exists_lt(seqlen(ms), lam([k], exists_lt(seqlen(s), lam([i], eq(x, seqat(s, i))))))
    # the elements of the set, each once
    d = ir.mtab(lam([x], spiked), lam([x], UNITV), ('M', es, UNIT))
    V.prove_eq('every neuron that spiked in a message, once', out, tab(ir.msize(d), lam([k], ir.raw('mkey', (d, k), None, es)), out.sort))
    V.no_throw(r)


def h_GroupWtaRandomHandler(V, p, f):
    me = var('me', p.sort(f['cls']))
    ms, s = message_indexes(p, f)
    b, n = g(me, 'group_borders_'), g(me, 'num_winners_')
    r = run(V, f, {'messages': ms}, this=me, mem={**CALLS, DRAWS: Z0}, pc=[sorted_borders(b)])
    out = V.retval(r)
    none = or_(le(seqlen(ms), Z0), eq(n, Z0))
    size = add(seqlen(b), ONE)
    V.prove_eq('without a message or winners there are no spikes', out, nil(s.sort), [none])
    V.prove_eq('nothing from an empty message', seqlen(out), Z0, [not_(none), eq(seqlen(s), Z0)])
    V.prove_eq('more winners than borders: all of them', out, s, [not_(none), lt(seqlen(b), n)])
    V.prove_eq('keeps the groups', g(V.out(r, 'this'), 'group_borders_'), b)
    V.prove_eq('keeps the number of winners', g(V.out(r, 'this'), 'num_winners_'), n)
    V.no_throw(r)
    known = {x[0]: x[1:] for x in r.ex.known}
    if sorted(known) != ['shuffled', 'sorted'] or len(r.ex.known) != 2:
        raise Unsupported('the groups are not sorted once and shuffled once')
    sp, sn, _, _, sfacts = known['sorted']
    hp, hn, lo, hi, hfacts = known['shuffled']
    facts = [not_(none), sorted_borders(b), lt(Z0, seqlen(s)), le(ONE, n), le(n, seqlen(b))]
    lo, hi = exact(lo, facts), exact(hi, facts)
    hfacts = [exact(x, facts) for x in hfacts]
    V.prove_eq('sorts all groups', sn, size, facts)
    V.prove_eq('shuffles among all groups', hn, size, facts)
    q = fresh('q', Z, 0, SIZEMAX)
    place = lambda x: seqat(sp, seqat(hp, x))
    V.prove_eq('all spikes of the winning groups', out,
               flat(n, lam([q], group(b, s, place(q))), s.sort), facts)
    # why the winners are winners
    count = lambda x: seqlen(group(b, s, seqat(sp, x)))
    last = count(sub(n, ONE))
    lo_, hi_ = fresh('lo', Z, 0, SIZEMAX), fresh('hi', Z, 0, SIZEMAX)
    cut = []
    for x, t, cond in ((lo_, lo, lambda k: le(count(k), last)), (hi_, hi, lambda k: lt(count(k), last))):
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('ties: the groups with as many spikes as the last winner', t, least(size, lam([k], cond(k))), facts + sfacts[:3])
        cut += [le(x, size), implies(lt(x, size), cond(x)), forall_lt(x, lam([k], not_(cond(k))))]
    j = fresh('j', Z, 0, SIZEMAX)
    k = fresh('k', Z, 0, SIZEMAX)
    down = forall_lt(size, lam([k], forall_lt(k, lam([j], le(count(k), count(j))))))
    V.prove('more spikes come first', down, facts + sfacts)
    downf = lambda x, y: implies(and_(le(Z0, y), le(y, x), lt(x, size)), le(count(x), count(y)))
    w = sub(n, ONE)
    at_ = lambda x: [implies(lt(x, lo_), lt(last, count(x))), implies(lt(x, hi_), le(last, count(x))), downf(x, lo_), downf(lo_, x), downf(x, hi_), downf(hi_, x)]
    base = facts + cut + [downf(w, lo_), downf(lo_, w), downf(w, hi_), downf(hi_, w), implies(lt(w, lo_), not_(le(count(w), last))), implies(lt(w, hi_), not_(lt(count(w), last)))]
    V.prove('the last winner is among the ties', and_(le(lo_, w), lt(w, hi_)), base + at_(w))
    base += [le(lo_, w), lt(w, hi_)]
    x = fresh('x', Z, 0, SIZEMAX)
    V.prove('before the ties: more spikes', implies(lt(x, lo_), lt(last, count(x))), base)
    V.prove('the ties', implies(and_(le(lo_, x), lt(x, hi_)), eq(last, count(x))), base + [lt(x, size)] + at_(x))
    V.prove('after the ties: fewer spikes', implies(le(hi_, x), lt(count(x), last)), base + [lt(x, size)] + at_(x))
    tie = lambda x: [implies(lt(x, lo_), lt(last, count(x))), implies(and_(le(lo_, x), lt(x, hi_)), eq(last, count(x))), implies(le(hi_, x), lt(count(x), last))]
    a, z = fresh('winner', Z, 0, SIZEMAX), fresh('loser', Z, 0, SIZEMAX)
    moved = [replace(replace(f_, lo, lo_), hi, hi_) for f_ in hfacts]
    two = base + [lt(a, n), le(n, z), lt(z, size)] + moved
    ha, hz = seqat(hp, a), seqat(hp, z)
    V.prove('no loser has more spikes than a winner', le(count(hz), count(ha)), two + tie(ha) + tie(hz))
    V.prove('winners are existing groups', and_(le(Z0, place(a)), lt(place(a), size)), two + sfacts)
    c = fresh('other', Z, 0, SIZEMAX)
    V.prove('winners are different groups', not_(eq(place(a), place(c))), two + sfacts + [lt(c, a)])


def fields(V, p, f, want):
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    r = run(V, f, ins, mem=dict(CALLS))
    out = r.ret
    for at, x in want(ins):
        V.prove_eq(at, g(out, at), x)
    V.no_throw(r)


def h_KWtaRandomHandler_ctor(V, p, f):
    fields(V, p, f, lambda i: [('num_winners_', i['winners_number'])])


def h_GroupWtaRandomHandler_ctor(V, p, f):
    fields(V, p, f, lambda i: [('num_winners_', i['num_winning_groups']), ('group_borders_', sorted_(i['group_borders']))])


def h_KWtaPerGroup_ctor(V, p, f):
    fields(V, p, f, lambda i: [('winners_per_group_', i['winners_per_group']), ('group_borders_', sorted_(i['group_borders']))])


def adding(V, p, f):
    """add_wta_handlers: one handler for each pair of senders and receivers."""
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    add_ = [x for x in p.fns_all() if x['n'] == 'knp::framework::ModelExecutor::add_spike_message_handler'][0]
    srt = {q['n']: p.sort(p.strip(q['t'])) for q in add_['params']}
    names = [q['n'] for q in add_['params']]
    ir.RECS[('handler',)] = tuple((n, srt[n]) for n in names)
    ev = ('R', ('handler',))
    ADD = 'ghost:added'

    def adds(ex, f, this, avs, st):
        vals = [ex.read(a, st) if a.sort == LOC else a for a in avs]
        st.mem[ADD] = cat(st.mem[ADD], unit(rec(ev, vals), ('S', ev)), sort=('S', ev))
        return UNITV
    r = run(V, f, ins, {'@' + add_['n']: adds}, mem={**CALLS, DRAWS: Z0, ADD: nil(('S', ev))})
    added, out, data = r.st.mem[ADD], V.retval(r), ins['wta_data']
    V.prove_eq('one handler for each pair', seqlen(added), seqlen(data))
    V.prove_eq('one identity for each pair', seqlen(out), seqlen(data))
    k = fresh('k', Z, 0, SIZEMAX)
    here = [lt(k, seqlen(data))]
    h = seqat(added, k)
    fn = fld(h, names[0])
    V.prove_eq('listens to the senders of the pair', fld(h, 'senders'), fld(seqat(data, k), 'first'), here)
    V.prove_eq('speaks to the receivers of the pair', fld(h, 'receivers'), fld(seqat(data, k), 'second'), here)
    V.prove_eq('chooses in the groups between the borders', g(fn, 'group_borders_'), sorted_(ins['borders']), here)
    V.prove_eq('chooses the number of winners', g(fn, 'winners_per_group_'), ins['winners_amount'], here)
    V.prove_eq('has the identity returned', fld(h, 'uid'), seqat(out, k), here)
    V.no_throw(r)
