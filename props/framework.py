"""F01: the network container."""
from vc import *
import ir
import lib
from loading import arms, vit
from backend import iff
from containers import gen_seq, CALLS, tup

NW = 'knp::framework::Network::'


def uid_of(v):
    """identity of the object a variant holds."""
    return arms(v, lambda i, x: g(g(x, 'base_'), 'uid_'))


class First:
    """the first element of a sequence that satisfies a condition: `at`, or the length if there is none."""

    def __init__(self, V, seq, match, terms):
        n = seqlen(seq)
        self.at = fresh('first', Z, 0, SIZEMAX)
        k = fresh('k', Z, 0, SIZEMAX)
        want = match(seqat(seq, k))
        self.found = lt(self.at, n)
        self.subs = {}
        for t in terms:
            for e in ir.subterms(t).values():
                if e.op == 'forall' and e not in self.subs:
                    # none of them matches
                    (j,), pred = openlam(e.args[1])
                    V.prove_eq('searches all of them', e.args[0], n)
                    V.prove('searches for the right one', iff(not_(pred), subst(want, {k: j})), [lt(j, n), ge(j, I(0))])
                    self.subs[e] = not_(self.found)
                if e.op != 'least' or e in self.subs:
                    continue
                (j,), pred = openlam(e.args[1])
                V.prove_eq('searches all of them', e.args[0], n)
                V.prove('searches for the right one', iff(pred, subst(want, {k: j})), [lt(j, n), ge(j, I(0))])
                self.subs[e] = self.at
        self.facts = [le(self.at, n), implies(self.found, subst(want, {k: self.at})),
                      forall_lt(self.at, lam([k], not_(want)))]
        self.seq = seq

    def __call__(self, t):
        for e, x in self.subs.items():
            t = replace(t, e, x)
        return t


def text(ex, f, this, avs, st):
    """the textual form of an identity (used in messages only)."""
    return uf('text', [ex.read(this, st)], ex.p.sort(f['ret']))


def run(V, f, ins, contracts=None, **kw):
    return V.run('base', f, ins, contracts=dict({'@knp::core::UID::operator basic_string': text}, **(contracts or {})), **kw)


def cond_thrown(r):
    return or_(*[c for c, _, _ in r.st.thr])


def f01(V):
    p = V.programs['base']
    fs = [f for f in p.fns_all() if f['n'].startswith(NW) and 'body' in f]
    for what, at in (('population', 'populations_'), ('projection', 'projections_')):
        for f in fs:
            n = f['n'][len(NW):]
            if n == 'is_%s_exists' % what:
                exists(V, p, f, at)
            elif n == 'get_' + what:
                get(V, p, f, at)
            elif n == 'remove_' + what:
                remove(V, p, f, at)
            elif n == 'add_' + what:
                add_(V, p, f, at, what)
            elif n == '%ss_count' % what or n == 'get_%ss' % what:
                whole(V, p, f, at)
            elif n in ('begin_%ss' % what, 'end_%ss' % what):
                ends(V, p, f, at)
            elif n == 'connect_populations' and what == 'projection':
                connect(V, p, f)
    identity(V, p, [f for f in fs if f['n'] in (NW + 'Network', NW + 'get_uid')])


def name(p, f):
    return '%s(%s)%s' % (f['n'], ', '.join(p.types[q['t']]['s'].replace('knp::', '') for q in f['params']), ' const' if f.get('const') else '')


def setup(p, f):
    me = var('network', p.sort(f['cls']))
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    return me, ins


def exists(V, p, f, at):
    def body():
        me, ins = setup(p, f)
        uid, = ins.values()
        r = run(V, f, ins, this=me)
        x = First(V, g(me, at), lambda v: eq(uid_of(v), uid), [r.ret])
        V.prove_eq('exactly when an object with this identity is held', x(V.retval(r)), x.found, x.facts)
        V.prove_eq('the network is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(name(p, f), body)


def payload_sort(p, f):
    return p.sort(p.strip(f['ret']))


def get(V, p, f, at):
    """a reference to the (first) object with this identity; refused if there is none or it is of another type."""
    def body():
        me, ins = setup(p, f)
        uid, = ins.values()
        r = run(V, f, ins, this=me)
        seq = g(me, at)
        want = payload_sort(p, f)
        vs = seq.sort[1]
        x = First(V, seq, lambda v: eq(uid_of(v), uid), [cond_thrown(r), r.ret])
        el = seqat(seq, x.at)
        typed = want != vs
        i = vs[1].index(want) if typed else None
        ok = and_(x.found, eq(vidx(el), I(i))) if typed else x.found
        V.prove('refused exactly when there is none%s' % (' of this type' if typed else ''), iff(x(cond_thrown(r)), not_(ok)), x.facts)
        steps = (('f', at), ('i', 0)) + ((('v', i),) if typed else ())
        V.prove_eq('the value', x(V.retval(r)), vget(el, i) if typed else el, x.facts + [ok])
        ret = x(r.ret)
        # the reference designates the object in the network: writing through it changes exactly this object
        if ret.sort == LOC:
            st = r.st.copy()
            st.mem = {k: x(v) for k, v in st.mem.items()}
            new = var('new_value', want)
            r.ex.write(ret, new, st)
            V.prove_eq('refers to the object held by the network', g(st.mem['P_this'], at),
                       store(seq, x.at, inj(i, new, vs) if typed else new), x.facts + [ok])
        V.prove_eq('the network is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def remove(V, p, f, at):
    def body():
        me, ins = setup(p, f)
        uid, = ins.values()
        r = run(V, f, ins, this=me)
        seq = g(me, at)
        out = V.out(r, 'this')
        x = First(V, seq, lambda v: eq(uid_of(v), uid), [cond_thrown(r), out])
        V.prove('refused exactly when there is none', iff(x(cond_thrown(r)), not_(x.found)), x.facts)
        V.prove_eq('exactly this one is gone, the others keep their order', x(g(out, at)),
                   cat(slice_(seq, I(0), x.at), slice_(seq, add(x.at, I(1)), sub(seqlen(seq), add(x.at, I(1)))), sort=seq.sort), x.facts + [x.found])
        V.prove_eq('nothing else changes', setf(out, **{at: seq}), me)
        for c, _, st in r.st.thr:
            V.prove_eq('unchanged when refused', x(st.mem['P_this']), me, x.facts)
    V.contract(name(p, f), body)


def add_(V, p, f, at, what):
    def body():
        me, ins = setup(p, f)
        seq = g(me, at)
        vs = seq.sort[1]
        r = run(V, f, ins, this=me, mem=dict(CALLS))
        out = V.out(r, 'this')
        if len(ins) == 1:
            given, = ins.values()
            new = inj(vs[1].index(given.sort), given, vs) if given.sort != vs else given
        else:
            new = None
        checked = new is None or given.sort != vs
        if checked:
            uid = uid_of(new) if new is not None else ins['%s_uid' % what]
            x = First(V, seq, lambda v: eq(uid_of(v), uid), [cond_thrown(r), out])
            V.prove('refused exactly when the identity is taken', iff(x(cond_thrown(r)), x.found), x.facts)
            for c, _, st in r.st.thr:
                V.prove_eq('unchanged when refused', x(st.mem['P_this']), me, x.facts)
            ok = x.facts + [not_(x.found)]
            out = x(out)
        else:
            V.no_throw(r)
            ok = []
        V.prove_eq('one object more', seqlen(g(out, at)), add(seqlen(seq), I(1)), ok)
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('those held before stay in place', seqat(g(out, at), k), seqat(seq, k), ok + [lt(k, seqlen(seq))])
        last = seqat(g(out, at), seqlen(seq))
        if new is not None:
            V.prove_eq('the object added comes last, unchanged', last, new, ok)
        else:
            made(V, f, ins, last, ok)
        V.prove_eq('nothing else changes', setf(out, **{at: seq}), me, ok)
    V.contract(name(p, f), body)


def result_of(p, t):
    """sort of the values a std::function of type t returns."""
    t = p.strip(t)
    for x in p.fns_all():
        if x['n'] == 'std::function::operator()' and x.get('cls') is not None and p.types[x['cls']]['s'] == p.types[t]['s']:
            return p.sort(x['ret'])
    raise Unsupported('no call of the generator')


def generated(V, prj, gen, n, facts=()):
    """the synapses of a projection are what the generator gives for 0, 1, .., n-1."""
    ps = g(prj, 'parameters_')
    V.prove_eq('its synapses are those the generator gives for 0, 1, ..', ps, gen_seq(gen, n, ('OPT', ps.sort[1])), facts)


def made(V, f, ins, last, ok):
    """a projection made from a generator."""
    os = result_of(V.programs['base'], [q['t'] for q in f['params'] if q['n'] == 'generator'][0])
    i = [dict(rfields(s))['parameters_'][1] for s in last.sort[1]].index(os[1])
    V.prove('is a projection of the type asked for', eq(vidx(last), I(i)), ok)
    x = vget(last, i)
    ok = ok + [eq(vidx(last), I(i))]
    V.prove_eq('has the identity given', g(g(x, 'base_'), 'uid_'), ins['projection_uid'], ok)
    V.prove_eq('comes from the population given', g(x, 'presynaptic_uid_'), ins['pre_population_uid'], ok)
    V.prove_eq('goes to the population given', g(x, 'postsynaptic_uid_'), ins['post_population_uid'], ok)
    generated(V, x, ins['generator'], [t for t in ins.values() if isint(t.sort)][0], ok)


def whole(V, p, f, at):
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, this=me)
        want = seqlen(g(me, at)) if f['n'].endswith('_count') else g(me, at)
        V.prove_eq('all objects held', V.retval(r), want)
        V.prove_eq('the network is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(name(p, f), body)


def ends(V, p, f, at):
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, this=me)
        V.prove_eq('the position', V.retval(r), vit(r.roots['this'], at, I(0) if '::begin_' in f['n'] else seqlen(g(me, at))))
        V.prove_eq('the network is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(name(p, f), body)


def size_of(x):
    return seqlen(g(x, 'neurons_parameters_' if 'neurons_parameters_' in dict(rfields(x.sort)) else 'neurons_'))


def ends_of(ps, k):
    x = seqat(ps, k)
    return tup(x, 1), tup(x, 2)


def every_pair(V, ps, n, m, gen, facts=()):
    """one synapse for every pair (source, target), made from what the generator gives for this pair."""
    facts = list(facts)
    V.prove_eq('as many synapses as pairs', seqlen(ps), mul(n, m), facts)
    k, l = fresh('k', Z, 0, SIZEMAX), fresh('l', Z, 0, SIZEMAX)
    a, b = ends_of(ps, k)
    c, d = ends_of(ps, l)
    at = facts + [lt(k, mul(n, m))]
    V.prove('every source is a neuron of the presynaptic population', and_(le(I(0), a), lt(a, n)), at)
    V.prove('every target is a neuron of the postsynaptic population', and_(le(I(0), b), lt(b, m)), at)
    V.prove('no pair is connected twice', implies(and_(eq(a, c), eq(b, d)), eq(k, l)), at + [lt(l, mul(n, m))])
    V.prove_eq('its parameters are those given for the pair', tup(seqat(ps, k), 0), uf('call', [gen, k, a, b], tup(seqat(ps, k), 0).sort), at)


def connect(V, p, f):
    def body():
        me, ins = setup(p, f)
        seq, pops = g(me, 'projections_'), g(me, 'populations_')
        src, dst = (ins[q['n']] for q in f['params'][:2])
        a, b = (g(g(x, 'base_'), 'uid_') for x in (src, dst))
        n, m = (seqlen(g(x, 'neurons_')) for x in (src, dst))
        pc = [le(mul(n, m), I(SIZEMAX))]
        r = run(V, f, ins, {'@' + NW + 'is_population_exists': held}, this=me, pc=pc, mem=dict(CALLS))
        out = V.out(r, 'this')
        ok = and_(*[uf('held', [pops, x], BOOL) for x in (a, b)])
        V.prove('refused exactly when one of the populations is not in the network', iff(cond_thrown(r), not_(ok)), pc)
        for c, _, st in r.st.thr:
            V.prove_eq('unchanged when refused', st.mem['P_this'], me)
        facts = pc + [ok]
        V.prove_eq('one projection more', seqlen(g(out, 'projections_')), add(seqlen(seq), I(1)), facts)
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('those held before stay in place', seqat(g(out, 'projections_'), k), seqat(seq, k), facts + [lt(k, seqlen(seq))])
        V.prove_eq('nothing else changes', setf(out, projections_=seq), me, facts)
        last = seqat(g(out, 'projections_'), seqlen(seq))
        gen = ins[f['params'][2]['n']]
        os = result_of(p, f['params'][2]['t'])
        ts = [dict(rfields(s))['parameters_'][1] for s in last.sort[1]]
        i = [j for j, t in enumerate(ts) if os == ('OPT', t) or os == dict(rfields(t)).get('0', dict(rfields(t)).get(0))]
        if len(i) != 1:
            raise Unsupported('type of the projection')
        V.prove('is a projection of the type asked for', eq(vidx(last), I(i[0])), facts)
        x = vget(last, i[0])
        facts.append(eq(vidx(last), I(i[0])))
        V.prove_eq('its identity is returned', V.retval(r), g(g(x, 'base_'), 'uid_'), facts)
        V.prove_eq('comes from the first population', g(x, 'presynaptic_uid_'), a, facts)
        V.prove_eq('goes to the second population', g(x, 'postsynaptic_uid_'), b, facts)
        if len(f['params']) == 3:
            every_pair(V, g(x, 'parameters_'), n, m, gen, facts)
        else:
            generated(V, x, gen, ins[f['params'][3]['n']], facts)
    V.contract(name(p, f), body)


def held(ex, f, this, avs, st):
    """contract of is_population_exists (proved above)."""
    uid = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
    return uf('held', [g(ex.read(this, st), 'populations_'), uid], BOOL)


def identity(V, p, fs):
    def body():
        for f in fs:
            me, ins = setup(p, f)
            if f.get('ctor'):
                if ins and list(ins.values())[0].sort == me.sort:
                    continue  # copies
                r = run(V, f, ins)
                out = V.retval(r)
                if ins:
                    V.prove_eq('a new network has the identity given', g(g(out, 'base_'), 'uid_'), list(ins.values())[0])
                V.prove_eq('a new network holds no population', seqlen(g(out, 'populations_')), I(0))
                V.prove_eq('a new network holds no projection', seqlen(g(out, 'projections_')), I(0))
            else:
                r = run(V, f, ins, this=me)
                V.prove_eq('tells its identity', V.retval(r), g(g(me, 'base_'), 'uid_'))
                V.prove_eq('asking for it changes nothing', V.out(r, 'this'), me)
    V.contract(NW + 'Network', body)
