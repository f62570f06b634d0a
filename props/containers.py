"""P01, P02: projection and population containers."""
from vc import *
import ir
from projections import DELTA, RSTDP, ASTDP, tup

PR = 'knp::core::Projection::'


def index_ok(V, proj):
    """representation invariant: a search index marked valid lists every synapse once, in order."""
    idx, params = g(proj, 'index_'), g(proj, 'parameters_')
    cs = idx.sort[1]
    k = fresh('i', Z, 0, SIZEMAX)
    syn = seqat(params, k)
    want = tab(seqlen(params), lam([k], rec(cs, [dict(from_=tup(syn, 1), to_=tup(syn, 2), index_=k)[f]
                                                for f, _ in rfields(cs)])), idx.sort)
    return or_(not_(g(proj, 'is_index_updated_')), eq(idx, want)), want


def cls_fn(V, name, cls, **kw):
    return V.fn('cpu', PR + name, pred=lambda f: V.programs['cpu'].types[f['cls']]['s'].endswith('Projection<%s>' % cls)
                if f.get('cls') is not None else False, **kw)


def find_contract(V, cls, short):
    def body():
        p = V.programs['cpu']
        f = cls_fn(V, 'find_synapses', cls)
        ps = p.sort(f['cls'])
        proj0 = var('projection', ps)
        neuron = var('neuron', U64)
        params = g(proj0, 'parameters_')
        for state in ('valid', 'stale'):
            proj = setf(proj0, is_index_updated_=B(state == 'valid'))
            if state == 'valid':
                proj = setf(proj, index_=index_ok(V, proj)[1])
            for mode in (0, 1):
                r = V.run('cpu', f, {f['params'][0]['n']: neuron, f['params'][1]['n']: I(mode)}, this=proj)
                i = fresh('i', Z, 0, SIZEMAX)
                c = eq(tup(seqat(params, i), 2 if mode else 1), neuron)
                ss = V.retval(r).sort
                want = flat(seqlen(params), lam([i], ite(c, unit(i, ss), nil(ss))), ss)
                lab = '%s search, %s index' % ('postsynaptic' if mode else 'presynaptic', state)
                V.prove_eq(lab + ': finds exactly the synapses of the neuron', V.retval(r), want)
                out = V.out(r, 'this')
                V.prove_eq(lab + ': synapses unchanged', setf(out, index_=g(proj, 'index_'),
                                                              is_index_updated_=g(proj, 'is_index_updated_')), proj)
                V.prove(lab + ': search index consistent', index_ok(V, out)[0])
                V.no_throw(r)
    V.contract(PR + 'find_synapses [%s]' % short, body)



def gen_seq(gen, n, optsort, first=I(0)):
    """elements produced by calling the generator with 0, 1, .., n-1, in order, once each; empty results skipped."""
    i = fresh('i', Z, 0, SIZEMAX)
    c = uf('call', [gen, add(first, i), i], optsort)
    ss = ('S', optsort[1])
    return flat(n, lam([i], ite(has(c), unit(oget(c), ss), nil(ss))), ss)


CALLS = {'ghost:calls': I(0)}


def kept(seq, drop):
    """elements of seq for which drop(i, x) is false, in order."""
    i = fresh('i', Z, 0, SIZEMAX)
    x = seqat(seq, i)
    return flat(seqlen(seq), lam([i], ite(drop(i, x), nil(seq.sort), unit(x, seq.sort))), seq.sort)


def genresult(V, f, name='generator'):
    """sort of the values returned by the std::function parameter."""
    p = V.programs['cpu']
    t = p.strip([q for q in f['params'] if q['n'] == name][0]['t'])
    for x in p.fns_all():
        if x['n'] == 'std::function::operator()' and x.get('cls') is not None and p.types[x['cls']]['s'] == p.types[t]['s']:
            return p.sort(x['ret'])
    raise Unsupported('no call of the generator')


def same_but(V, label, out, proj, *fields):
    kw = {f: g(proj, f) for f in fields}
    V.prove_rec(label, setf(out, **kw), proj)


def proj_cases(V, ps):
    """symbolic projections satisfying the representation invariant: index valid, or stale with any content."""
    proj0 = var('projection', ps)
    ok = setf(proj0, is_index_updated_=TRUE)
    ok = setf(ok, index_=index_ok(V, ok)[1])
    return (('index valid', ok), ('index stale', setf(proj0, is_index_updated_=FALSE)))


def ctor_contract(V, cls, short):
    def body():
        p = V.programs['cpu']
        fs = [f for f in p.fns_all() if f.get('ctor') and f['n'] == PR + 'Projection' and 'body' in f and
              p.types[f['cls']]['s'].endswith('Projection<%s>' % cls)]
        if len(fs) < 4:
            raise Unsupported('constructors of the projection not found')
        for f in fs:
            names = [q['n'] for q in f['params']]
            ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
            r = V.run('cpu', f, ins, mem=CALLS)
            out = V.retval(r)
            lab = 'constructor(%s): ' % ', '.join(names)
            V.prove_eq(lab + 'presynaptic population', g(out, 'presynaptic_uid_'), ins['presynaptic_uid'])
            V.prove_eq(lab + 'postsynaptic population', g(out, 'postsynaptic_uid_'), ins['postsynaptic_uid'])
            if 'uid' in ins:
                V.prove_eq(lab + 'own identifier', fld(g(out, 'base_'), 'uid_'), ins['uid'])
            want = nil(g(out, 'parameters_').sort)
            if 'generator' in ins:
                want = gen_seq(ins['generator'], ins['num_iterations'], genresult(V, f))
            V.prove_eq(lab + 'synapses are the generator results in order', g(out, 'parameters_'), want)
            V.prove(lab + 'search index consistent', index_ok(V, out)[0])
            V.prove_eq(lab + 'weights unlocked', g(out, 'is_locked_'), FALSE) if False else None
            V.no_throw(r, lab + 'does not throw')
    V.contract(PR + 'Projection [%s]' % short, body)


def add_contract(V, cls, short):
    def body():
        p = V.programs['cpu']
        f = cls_fn(V, 'add_synapses', cls)
        for lab, proj in proj_cases(V, p.sort(f['cls'])):
            gen, n = var('generator', p.sort(p.strip(f['params'][0]['t']))), size_var('num_iterations')
            r = V.run('cpu', f, {'generator': gen, 'num_iterations': n}, this=proj, mem=CALLS)
            out = V.out(r, 'this')
            new = gen_seq(gen, n, genresult(V, f))
            V.prove_eq(lab + ': appends the generator results in order', g(out, 'parameters_'),
                       cat(g(proj, 'parameters_'), new, sort=new.sort))
            V.prove_eq(lab + ': returns the number of added synapses', V.retval(r), seqlen(new))
            same_but(V, lab + ': rest unchanged', out, proj, 'parameters_', 'index_', 'is_index_updated_')
            V.prove(lab + ': search index consistent', index_ok(V, out)[0])
            V.no_throw(r, lab + ': does not throw')
    V.contract(PR + 'add_synapses [%s]' % short, body)


def remove_contracts(V, cls, short):
    p = V.programs['cpu']

    def check(f, ins, drop, ret=True, pc=()):
        for lab, proj in proj_cases(V, p.sort(f['cls'])):
            r = V.run('cpu', f, ins, this=proj, mem=CALLS, pc=pc)
            out = V.out(r, 'this')
            params = g(proj, 'parameters_')
            want = kept(params, drop)
            V.prove_eq(lab + ': removes exactly these synapses, keeps the order of the others', g(out, 'parameters_'), want,
                       list(pc))
            if ret:
                V.prove_eq(lab + ': returns the number of removed synapses', V.retval(r), sub(seqlen(params), seqlen(want)))
            same_but(V, lab + ': rest unchanged', out, proj, 'parameters_', 'index_', 'is_index_updated_')
            V.prove(lab + ': search index consistent', index_ok(V, out)[0])
            V.no_throw(r, lab + ': does not throw')

    def clear():
        check(cls_fn(V, 'clear', cls), {}, lambda i, x: TRUE, False)

    def one():
        f = cls_fn(V, 'remove_synapse', cls)
        idx = size_var('index')
        for lab, proj in proj_cases(V, p.sort(f['cls'])):
            r = V.run('cpu', f, {'index': idx}, this=proj)
            out = V.out(r, 'this')
            params = g(proj, 'parameters_')
            V.prove_eq(lab + ': removes the synapse with this index', g(out, 'parameters_'),
                       cat(slice_(params, I(0), idx), slice_(params, add(idx, I(1)), sub(sub(seqlen(params), I(1)), idx)),
                           sort=params.sort))
            same_but(V, lab + ': rest unchanged', out, proj, 'parameters_', 'index_', 'is_index_updated_')
            V.prove(lab + ': search index consistent', index_ok(V, out)[0])
            V.no_throw(r, lab + ': does not throw')

    def pred():
        f = cls_fn(V, 'remove_synapse_if', cls)
        fn = var('predicate', p.sort(p.strip(f['params'][0]['t'])))
        check(f, {'predicate': fn}, lambda i, x: uf('call', [fn, i, x], BOOL))

    def post():
        f = cls_fn(V, 'remove_postsynaptic_neuron_synapses', cls)
        n = var('neuron', U64)
        check(f, {f['params'][0]['n']: n}, lambda i, x: eq(tup(x, 2), n))

    def pre():
        f = cls_fn(V, 'remove_presynaptic_neuron_synapses', cls)
        n = var('neuron', U64)
        check(f, {f['params'][0]['n']: n}, lambda i, x: eq(tup(x, 1), n))
    for nm, b in (('clear', clear), ('remove_synapse', one), ('remove_synapse_if', pred),
                  ('remove_postsynaptic_neuron_synapses', post), ('remove_presynaptic_neuron_synapses', pre)):
        V.contract(PR + '%s [%s]' % (nm, short), b)


def p01(V):
    for cls, short in ((DELTA, 'Delta'), (ASTDP, 'AdditiveSTDPDelta'), (RSTDP, 'SynapticResourceSTDPDelta')):
        find_contract(V, cls, short)
        ctor_contract(V, cls, short)
        add_contract(V, cls, short)
        remove_contracts(V, cls, short)


PO = 'knp::core::Population::'


def p02(V):
    p = V.programs['cpu']
    classes = sorted({f['cls'] for f in p.fns_all() if f['n'] == PO + 'add_neurons' and 'body' in f})
    if not classes:
        V.contract(PO + 'add_neurons', lambda: (_ for _ in ()).throw(Unsupported('no populations')))
    for c in classes:
        pop_contracts(V, c, p.types[c]['s'].split('::')[-1].rstrip('>'))


def pop_contracts(V, c, short):
    p = V.programs['cpu']
    ps = p.sort(c)
    pop = var('population', ps)
    neurons = g(pop, 'neurons_')

    def of(name):
        return [f for f in p.fns_all() if f['n'] == PO + name and 'body' in f and f['cls'] == c]

    def ctors():
        fs = [f for f in of('Population') if f.get('ctor')]
        if len(fs) < 2:
            raise Unsupported('constructors not found')
        for f in fs:
            ins = {q['n']: var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']}
            r = V.run('cpu', f, ins, mem=CALLS)
            out = V.retval(r)
            lab = 'constructor(%s): ' % ', '.join(ins)
            V.prove_eq(lab + 'neurons are the generator results in order', g(out, 'neurons_'),
                       gen_seq(ins['generator'], ins['neurons_count'], genresult(V, f)))
            if 'uid' in ins:
                V.prove_eq(lab + 'identifier', fld(g(out, 'base_'), 'uid_'), ins['uid'])
            V.no_throw(r, lab + 'does not throw')

    def add_():
        f, = of('add_neurons')
        gen, n = var('generator', p.sort(p.strip(f['params'][0]['t']))), size_var('count')
        r = V.run('cpu', f, {f['params'][0]['n']: gen, f['params'][1]['n']: n}, this=pop, mem=CALLS)
        new = gen_seq(gen, n, genresult(V, f))
        V.prove_eq('appends the generator results in order', g(V.out(r, 'this'), 'neurons_'), cat(neurons, new, sort=new.sort))
        same_but(V, 'rest unchanged', V.out(r, 'this'), pop, 'neurons_')
        V.no_throw(r)

    def rem1():
        f, = of('remove_neuron')
        i = size_var('index')
        r = V.run('cpu', f, {f['params'][0]['n']: i}, this=pop)
        V.prove_eq('removes the neuron with this index', g(V.out(r, 'this'), 'neurons_'),
                   cat(slice_(neurons, I(0), i), slice_(neurons, add(i, I(1)), sub(sub(seqlen(neurons), I(1)), i)),
                       sort=neurons.sort))
        same_but(V, 'rest unchanged', V.out(r, 'this'), pop, 'neurons_')
        V.no_throw(r)

    def remn():
        f, = of('remove_neurons')
        # an ascending list of distinct indexes below the size is the list of the indexes with some property
        sel = var('selected', ('FN', 'predicate'))
        i = fresh('i', Z, 0, SIZEMAX)
        ss = ('S', U64)
        chosen = uf('call', [sel, i], BOOL)
        lst = flat(seqlen(neurons), lam([i], ite(chosen, unit(i, ss), nil(ss))), ss)
        r = V.run('cpu', f, {f['params'][0]['n']: lst}, this=pop)
        V.prove_eq('removes exactly the listed neurons, keeps the order of the others', g(V.out(r, 'this'), 'neurons_'),
                   kept(neurons, lambda i, x: uf('call', [sel, i], BOOL)))
        same_but(V, 'rest unchanged', V.out(r, 'this'), pop, 'neurons_')
        V.no_throw(r)

    def access():
        i = size_var('index')
        V.requires(lt(i, seqlen(neurons)))
        for f in of('get_neuron_parameters') + of('operator[]'):
            r = V.run('cpu', f, {f['params'][0]['n']: i}, this=pop)
            V.prove_eq('%s: the indexed neuron' % f['n'].split('::')[-1], V.retval(r), seqat(neurons, i))
        for f in of('set_neurons_parameters'):
            v = var('values', neurons.sort)
            r = V.run('cpu', f, {f['params'][0]['n']: v}, this=pop)
            V.prove_eq('set all: neurons replaced', g(V.out(r, 'this'), 'neurons_'), v)
            same_but(V, 'set all: rest unchanged', V.out(r, 'this'), pop, 'neurons_')
        f, = of('set_neuron_parameters')
        v = var('value', neurons.sort[1])
        r = V.run('cpu', f, {f['params'][0]['n']: i, f['params'][1]['n']: v}, this=pop)
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('set one: exactly this neuron replaced', g(V.out(r, 'this'), 'neurons_'),
                   tab(seqlen(neurons), lam([k], ite(eq(k, i), v, seqat(neurons, k))), neurons.sort))
        same_but(V, 'set one: rest unchanged', V.out(r, 'this'), pop, 'neurons_')
        f, = of('get_neurons_parameters')
        V.prove_eq('get all', V.retval(V.run('cpu', f, {}, this=pop)), neurons)
        f, = of('size')
        V.prove_eq('size', V.retval(V.run('cpu', f, {}, this=pop)), seqlen(neurons))
    for nm, b in (('Population', ctors), ('add_neurons', add_), ('remove_neuron', rem1), ('remove_neurons', remn),
                  ('access', access)):
        V.contract(PO + '%s [%s]' % (nm, short), b)
