"""F10: network validation reports exactly what is not connected, and what its validators report."""
from vc import *
import ir
from backend import iff
from datasets import induction, fold_of
from loading import arms

NV = 'knp::framework::network_validation::'


def f10(V):
    p = V.programs['check']
    for f in p.fns_all():
        if not f['n'].startswith(NV) or 'body' not in f:
            continue
        n = f['n'][len(NV):]

        if n == 'Connectivity::operator()':
            V.contract(n, lambda: connectivity(V, p, f))
        elif n == 'Executor::add_validator':
            V.contract(n, lambda: add(V, p, f))
        elif n == 'Executor::run_validators':
            V.contract(n, lambda: run_all(V, p, f))


def run(V, p, f, net, **kw):
    def text(ex, f_, this, avs, st):
        return uf('text', [ex.read(this, st)], ex.p.sort(f_['ret']))
    return V.run('check', f, {f['params'][0]['n']: net}, contracts={'@knp::core::UID::operator basic_string': text, 'lib:fmt::format': fmt,
        'lib:fmt::basic_format_string::basic_format_string': lambda ex, f_, this, A, st: A.v(0), 'lib:std::error_code::error_code': code}, **kw)


def fmt(ex, f, this, A, st):
    # the wording is free
    xs = [ex.read(A.v(i), st) if A.v(i).sort == LOC else A.v(i) for i in range(1, len(A))]
    return uf('format', xs, ex.p.sort(f['ret']))


def code(ex, f, this, A, st):
    return uf('code', [A.v(0)], ex.p.sort(f['cls']))


def ends(x):
    """the ends a projection names, each with whether it is one."""
    def f(name):
        return lambda i, y: g(y, name)
    pre, post = arms(x, f('presynaptic_uid_')), arms(x, f('postsynaptic_uid_'))
    return [(not_(eq(ir.raw('nil_uuid', (), None, g(u, 'tag').sort), g(u, 'tag'))), u) for u in (pre, post)]


def connectivity(V, p, f):
    net = var('network', p.sort(p.strip(f['params'][0]['t'])))
    r = run(V, p, f, net, this=var('me', p.sort(f['cls'])))
    V.no_throw(r)
    out = V.retval(r)
    es = out.sort[1]
    maps = [x for x in ir.subterms(out).values() if x.op == 'fold' and x.sort[0] == 'M' and
            any(y.op == 'msize' and y.args[0] is x for y in ir.subterms(out).values())]
    if len(maps) != 1:
        raise Unsupported('not one table of populations')
    M = maps[0]
    n, ini, ls, labels, q_ = fold_of(M)
    prs, pops = g(net, 'projections_'), g(net, 'populations_')
    uid = lambda x: arms(x, lambda i, y: g(g(y, 'base_'), 'uid_'))
    q, i = fresh('q', M.sort[1]), fresh('i', Z, 0, SIZEMAX)
    touches = lambda q, j: or_(*[and_(c, eq(q, u)) for c, u in ends(seqat(prs, j))])
    some = lambda n, t: not_(forall_lt(n, lam([i], not_(t(i)))))
    is_pop = lambda q: some(seqlen(pops), lambda j: eq(q, uid(seqat(pops, j))))
    both = lambda m, q: or_(g(mval(m, q), 'first'), g(mval(m, q), 'second'))

    def seen(label, n, inits, steps, test, inv, facts):
        """inv(state, whether the test held before) throughout, by induction on the loop."""
        j, b = fresh('j', Z, 0, SIZEMAX), fresh('b', BOOL)
        ss = [fresh('s', x.sort) for x in inits]
        steps = [lam([j] + ss + [b], inst(l, [j] + ss)) for l in steps] + [lam([j] + ss + [b], or_(b, test(j)))]
        induction(V, label, n, list(inits) + [FALSE], steps, lambda k, st: inv(st[:-1], st[-1]), facts)
        return foldl(n, FALSE, lambda k, s: or_(s, test(k)))

    kind = lambda s: [forall_lt(seqlen(s), lam([i], lt(vidx(seqat(s, i)), I(len(s.sort[1][1])))))]
    i0 = ini[0]
    named = mdom(i0, q)
    V.prove_eq('the table starts with the populations', named, is_pop(q))
    known = []
    for t in (mval(i0, q), mdom(i0, q)):
        t = Prover().simp(Ctx([]), t)
        if t.op == 'fold' and t.sort[0] == 'R':
            m, jni, jls, _, _ = fold_of(t)
            here = lambda j: eq(q, uid(seqat(pops, j)))
            any_ = seen('no population starts marked', m, jni, jls, here, lambda st, b: or_(not_(b), not_(or_(g(st[0], 'first'), g(st[0], 'second')))), [])
            V.prove_eq('of all populations', m, seqlen(pops))
            V.prove_eq('the names of populations', any_, named)
            known.append(or_(not_(named), not_(or_(g(t, 'first'), g(t, 'second')))))
    seen('the table marks where projections begin and end', n, ini, ls, lambda j: touches(q, j), lambda st, b: and_(
        iff(mdom(st[0], q), or_(named, b)), or_(not_(mdom(st[0], q)), iff(both(st[0], q), b))), known)
    V.prove_eq('looks at all projections', n, seqlen(prs))
    T = var('table', M.sort)
    i1 = fresh('i', Z, 0, SIZEMAX)
    V.prove_eq('one error for every projection without ends and for every name in the table without marks', ir.replace(out, M, T), cat(
        flat(seqlen(prs), lam([i], ite(or_(*[c for c, _ in ends(seqat(prs, i))]), nil(out.sort), unit(
            issue(es, uid(seqat(prs, i)), 1), out.sort))), out.sort),
        flat(ir.msize(T), lam([i1], ite(both(T, ir.mkey(T, i1)), nil(out.sort), unit(issue(es, ir.mkey(T, i1), 0), out.sort))), out.sort)))


def issue(sort, who, kind):
    fs = dict(rfields(sort))
    return rec(sort, [I(2), uf('format', [uf('text', [who], fs['message_'])], fs['message_']), uf('code', [I(kind)], fs['code_'])])


TABLES = ('population_validators_', 'projection_validators_', 'network_validators_')


def run_all(V, p, f):
    net = var('network', p.sort(p.strip(f['params'][0]['t'])))
    me = var('me', p.sort(f['cls']))
    r = run(V, p, f, net, this=me)
    V.no_throw(r)
    out = V.retval(r)
    es = out.sort[1]
    i, k = fresh('i', Z, 0, SIZEMAX), fresh('k', Z, 0, SIZEMAX)

    def entry(m, x):
        v = mval(m, ir.mkey(m, i))
        return rec(es, [ir.mkey(m, i), g(v, 'first'), uf('call', [g(v, 'second'), I(0), x], dict(rfields(es))['report_'])])
    want = []
    for t, at in zip(TABLES, ('populations_', 'projections_', None)):
        m = g(me, t)
        s = g(net, at) if at else None
        want.append(flat(ir.msize(m), lam([i], tab(seqlen(s), lam([k], entry(m, seqat(s, k))), out.sort)), out.sort) if at else
                    tab(ir.msize(m), lam([i], entry(m, net)), out.sort))
    V.prove_eq('every validator is asked about everything it is for, and what it reports is handed on under its name', out, cat(*want))
    V.prove_eq('the validators stay', V.out(r, 'this'), me)


def add(V, p, f):
    me = var('me', p.sort(f['cls']))
    ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
    r = V.run('check', f, ins, this=me)
    V.no_throw(r)
    out, uid = V.out(r, 'this'), V.retval(r)
    val = ins[f['params'][-1]['n']]
    at = [t for t in TABLES if dict(rfields(g(me, t).sort[2]))['second'] == val.sort]
    if len(at) != 1:
        raise Unsupported('one table for each kind of validator')
    t, = at
    m0, m1 = g(me, t), g(out, t)
    q = fresh('q', m0.sort[1])
    V.prove_eq('the validators are those of before and the new one', mdom(m1, q), or_(mdom(m0, q), eq(q, uid)))
    V.prove_eq('the new one is the one given', g(mval(m1, uid), 'second'), val)
    if 'name' in ins or len(ins) == 2:
        V.prove_eq('under the name given', g(mval(m1, uid), 'first'), ins[f['params'][0]['n']])
    V.prove_eq('the earlier ones stay as they were', mval(m1, q), mval(m0, q), [not_(eq(q, uid))])
    V.prove_eq('as do the validators of other kinds', setf(out, **{t: m0}), me)
    V.prove('its identifier is made for it', TRUE if 'random_uuid' in str(g(uid, 'tag').op) + str(g(uid, 'tag').pl) else FALSE)
    V.assumed.add('random identifiers are new')


