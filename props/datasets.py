"""F07: datasets and what the generators made from them give; F08: evaluation of inference."""
from vc import *
import ir
from loading import vit
from backend import iff
from handlers import fold_of
from prove import Prover, Ctx

DC = 'knp::framework::data_processing::classification::'
Z0, ONE = I(0), I(1)


def run(V, f, ins, contracts=None, **kw):
    return V.run('eval', f, ins, contracts=contracts, **kw)


AMOUNTS = {'Dataset::get_steps_per_frame': lambda b: g(b, 'steps_per_frame_'),
           'Dataset::get_amount_of_classes': lambda b: g(b, 'classes_amount_'),
           'Dataset::get_steps_amount_for_training': lambda b: u(64, mul(g(b, 'frames_amount_for_training_'), g(b, 'steps_per_frame_'))),
           'Dataset::get_steps_amount_for_inference': lambda b: u(64, mul(g(b, 'frames_amount_for_inference_'), g(b, 'steps_per_frame_'))),
           'images::Dataset::get_image_size': lambda b: g(b, 'image_size_')}


def amounts(V, p, f, n):
    me = var('me', p.sort(f['cls']))
    r = run(V, f, {}, this=me)
    V.no_throw(r)
    V.prove_eq('gives the amount its name says', V.retval(r), AMOUNTS[n](me))
    V.prove_eq('and changes nothing', V.out(r, 'this'), me)


def getters(V, p, f, n):
    me = var('dataset', p.sort(p.strip(f['params'][0]['t'])))
    train, infer, frames = [g(me, x) for x in ('frames_amount_for_training_', 'frames_amount_for_inference_', 'dataset_')]
    pre = [le(add(train, infer), seqlen(frames)), le(seqlen(frames), I(SIZEMAX))]
    V.requires(*pre)
    r = run(V, f, {f['params'][0]['n']: ir.loc('ghost:dataset', (), ())}, mem={'ghost:dataset': me}, pc=pre)
    V.no_throw(r)
    lo, hi = (Z0, train) if 'training' in n else (train, add(train, infer))
    for what, x, at in (('first', 'first', lo), ('last', 'second', hi)):
        V.prove_eq('the range has the right ' + what + ' frame', g(V.retval(r), x), vit('ghost:dataset', 'dataset_', at), pre)


def f07(V):
    p = V.programs['eval']
    for f in p.fns_all():
        if f['n'] in ('knp::framework::kvc_training', 'knp::framework::kvc_inference') and 'body' in f:
            V.contract(f['n'][len('knp::framework::kvc_'):] + ' data', lambda: getters(V, p, f, f['n']))
        if not f['n'].startswith(DC) or 'body' not in f:
            continue
        n = f['n'][len(DC):]
        if n in AMOUNTS:
            V.contract(n, lambda: amounts(V, p, f, n))
        elif n == 'Dataset::split':
            V.contract(n, lambda: split(V, p, f))
        elif n in ('images::Dataset::make_training_labels_generator', 'images::Dataset::make_training_images_spikes_generator',
                   'images::Dataset::make_inference_images_spikes_generator'):
            V.contract(n, lambda: generator(V, p, f, n))
        elif n == 'images::Dataset::process_labels_and_images':
            V.contract(n, lambda: loading(V, p, f))
        elif n == 'images::Dataset::make_incrementing_image_to_spikes_converter':
            V.contract(n, lambda: incrementing(V, p, f))


def split(V, p, f):
    me, a, b = var('me', p.sort(f['cls'])), var('a', U64), var('b', U64)
    n = seqlen(g(me, 'dataset_'))
    pre = [lt(x, I(1 << 32)) for x in (a, b)]
    r = run(V, f, {q['n']: x for q, x in zip(f['params'], (a, b))}, this=me, pc=pre)
    V.prove('refuses exactly if it has fewer frames than asked for', iff(or_(*[c for c, _, _ in r.thr]), lt(n, add(a, b))), pre)
    V.prove_eq('notes how many frames are for training and for inference', V.out(r, 'this'),
               setf(me, frames_amount_for_training_=a, frames_amount_for_inference_=b), pre + [ge(n, add(a, b))])
    for _, _, st in r.thr:
        V.prove_eq('a dataset that refuses stays as it was', st.mem['P_this'], me, pre + [lt(n, add(a, b))])


BASE = '@' + DC + 'Dataset'


def counts(me):
    b = g(me, BASE)
    return (b, g(b, 'dataset_'), g(b, 'frames_amount_for_training_'), g(b, 'frames_amount_for_inference_'), g(b, 'steps_per_frame_'),
            g(me, 'image_size_'))


def generator(V, p, f, n):
    """what a generator made from a dataset gives for any step."""
    me = var('me', p.sort(f['cls']))
    b, frames, train, infer, spf, size = counts(me)
    step = var('step', U64)
    local, at = imod(step, spf), idiv(step, spf)
    many, first = (infer, train) if 'inference' in n else (train, Z0)
    k = fresh('k', Z, 0, SIZEMAX)
    bits = lambda i: g(g(seqat(frames, i), 'second'), 'spikes_')
    frame = add(first, imod(at, many))
    total = mul(spf, size)
    pre = [lt(Z0, spf), lt(Z0, many), le(add(train, infer), seqlen(frames)), le(total, I(1 << 32)),
           forall_lt(seqlen(frames), lam([k], eq(seqlen(bits(k)), total)))]
    # products are monotone: the bits of a step lie within the bits of the frame
    x, y, z = var('x', Z, 0), var('y', Z, 0), var('z', Z, 0)
    V.prove('lemma: parts of a product', le(add(mul(x, z), z), mul(y, z)), [lt(x, y)])
    V.prove('lemma: products are not negative', le(Z0, mul(x, z)))
    pre += [le(add(mul(local, size), size), total), le(Z0, mul(local, size))]
    V.requires(*pre)
    r = run(V, f, {}, this=me, pc=pre)
    V.no_throw(r)
    V.prove_eq('making it leaves the dataset as it was', V.out(r, 'this'), me)
    st = r.st.copy()
    n0 = len(st.thr)
    out = r.ex.lib.apply(V.retval(r), [step], st, None)
    if 'labels' in n:
        want = unit(g(seqat(frames, frame), 'first'), out.sort)
    else:
        i = fresh('i', Z, 0, SIZEMAX)
        want = flat(size, lam([i], ite(seqat(bits(frame), add(mul(local, size), i)), unit(i, out.sort), nil(out.sort))), out.sort)
    V.prove_eq('gives the label of the frame of the step' if 'labels' in n else 'gives the numbers of the bits set in the part of the frame of the step, in order',
               out, want, pre)
    V.prove_eq('and leaves the dataset as it was', st.mem['P_this'], me)
    V.prove('and does not fail', not_(or_(*[c for c, _, _ in st.thr])), pre)


def incrementing(V, p, f):
    """the converter of images: every pixel adds up its brightness and fires when that reaches one."""
    me = var('me', p.sort(f['cls']))
    b, frames, train, infer, spf, size = counts(me)
    active, factor = var('active', U64), var('factor', p.sort(f['params'][1]['t']))
    image = var('image', ('S', ('I', 8, False)))
    pre = [le(active, spf), le(mul(spf, size), I(SIZEMAX)), eq(seqlen(image), size), lt(Z0, size), lt(Z0, spf)]
    x, y, z = var('x', Z, 0), var('y', Z, 0), var('z', Z, 0)
    V.prove('lemma: products are monotone', le(mul(x, z), mul(y, z)), [le(x, y)])
    d = sub(spf, active)
    pre += [ge(d, Z0), le(mul(d, size), mul(spf, size))]
    V.requires(*pre)
    r = run(V, f, {q['n']: x for q, x in zip(f['params'], (active, factor))}, this=me, pc=pre)
    V.no_throw(r)
    V.prove_eq('making it leaves the dataset as it was', V.out(r, 'this'), me)
    made = V.retval(r)
    at, = [i for i, a in enumerate(made.args) if a.sort == ('S', ('F', 32))]
    V.prove_eq('a new one remembers nothing', seqlen(made.args[at]), Z0)
    states = var('states', made.args[at].sort)
    zero, one = ir.fltval(0.0, 32), ir.fltval(1.0, 32)
    for what, s0, facts in (('first', made.args[at], []), ('later', states, [eq(seqlen(states), size)])):
        fn = raw('clos', tuple(s0 if i == at else a for i, a in enumerate(made.args)), made.pl, made.sort)
        st = r.st.copy()
        st.pc += facts
        st.mem['ghost:fn'] = fn
        st.mem['ghost:image'] = image
        out = r.ex.lib.apply(ir.loc('ghost:fn', (), ()), [ir.loc('ghost:image', (), ())], st, None)
        out = r.ex.read(out, st) if out.sort == LOC else out
        charged = lambda l, e: ir.fop('f+', ir.fop('f*', factor, ir.i2f(32, seqat(image, l))), e)
        after = lambda n, l: foldl(n, zero if what == 'first' else seqat(s0, l), lambda k, e: ite(
            ir.fle_(one, charged(l, e)), ir.fop('f-', charged(l, e), one), charged(l, e)))
        i, l = fresh('i', Z, 0, SIZEMAX), fresh('l', Z, 0, SIZEMAX)
        bits = g(out, 'spikes_')
        if any(x.op == 'forall' for x in ir.subterms(Prover().simp(Ctx(pre + facts), bits)).values()):
            raise Unsupported('the bits are not produced in their order')
        want = cat(flat(active, lam([i], tab(size, lam([l], ir.fle_(one, charged(l, after(i, l)))), bits.sort)), bits.sort),
                   tab(mul(d, size), lam([l], FALSE), bits.sort))
        V.prove_eq(what + ' image: the pixels that fire in each of the active steps, none in the others', bits, want, pre + facts)
        V.prove_eq(what + ' image: what is left in every pixel is kept for the next image',
                   st.mem['ghost:fn'].args[at], tab(size, lam([l], after(active, l)), states.sort), pre + facts)
        V.prove_eq('and leaves the dataset as it was', st.mem['P_this'], me)
        V.prove('and does not fail', not_(or_(*[c for c, _, _ in st.thr])), pre)



IE = 'knp::framework::inference_evaluation::'
EH = IE + 'classification::EvaluationHelper::'
FED = 'ghost:fed'


def f08(V):
    p = V.programs['eval']
    for f in p.fns_all():
        if not f['n'].startswith(IE) or 'body' not in f:
            continue
        n = f['n'][len(IE):].replace('classification::', '')
        if n == 'EvaluationHelper::process_spikes':
            V.contract(n, lambda: spikes(V, p, f))
        elif n == 'EvaluationHelper::process_inference_predictions':
            V.contract(n, lambda: predictions(V, p, f))
        elif n == 'EvaluationHelper::EvaluationHelper' and len(f['params']) == 1 and not p.ts(f['params'][0]['t'])['s'].endswith('&&'):
            V.contract(n, lambda: fresh_helper(V, p, f))
        elif n == 'InferenceResultsProcessor::process_inference_results':
            V.contract(n, lambda: driver(V, p, f))
        elif n == 'InferenceResult::get_total_votes':
            V.contract(n, lambda: total_votes(V, p, f))
        elif n in METRICS:
            V.contract(n, lambda: metric(V, p, f, n))


def helper(V, p, f):
    me = setf(var('me', p.sort(f['cls'])), dataset_=ir.loc('ghost:dataset', (), ()))
    data = var('dataset', ('R', DC + 'Dataset'))
    return me, data, {'ghost:dataset': data}


def fresh_helper(V, p, f):
    t = p.sort(p.strip(f['params'][0]['t']))
    if t != ('R', DC + 'Dataset'):
        V.prove('not the constructor', TRUE)
        return
    data = var('dataset', t)
    r = run(V, f, {f['params'][0]['n']: data})
    V.no_throw(r)
    i = fresh('i', Z, 0, SIZEMAX)
    V.prove_eq('starts without predictions', seqlen(g(r.ret, 'predictions_')), Z0)
    V.prove_eq('starts without votes, for every class', g(r.ret, 'class_votes_'),
               tab(g(data, 'classes_amount_'), lam([i], Z0), g(r.ret, 'class_votes_').sort))


def induction(V, label, n, inits, steps, inv, facts):
    """inv(k, state) holds of the state after k of n iterations."""
    V.prove(label + ', at the start', inv(Z0, inits), facts)
    k = fresh('k', Z, 0, SIZEMAX)
    st = [fresh('s', x.sort) for x in inits]
    now = inv(k, st)
    V.prove(label + ', after one more', inv(add(k, ONE), [inst(l, [k] + st) for l in steps]),
            facts + [lt(k, n)] + list(now.args if now.op == 'and' else (now,)))


def spikes(V, p, f):
    """the votes of one step; at the end of a frame, the prediction."""
    me, data, mem = helper(V, p, f)
    old, c, spf = g(me, 'class_votes_'), g(data, 'classes_amount_'), g(data, 'steps_per_frame_')
    ix = var('spikes', p.sort(p.strip(f['params'][0]['t'])))
    step = var('step', U64, 0, 1 << 62)
    pre = [lt(Z0, c), le(c, I(SIZEMAX)), lt(Z0, spf), eq(seqlen(old), c)]
    V.requires(*pre)
    r = run(V, f, {f['params'][0]['n']: ix, f['params'][1]['n']: step}, this=me, pc=pre, mem=mem)
    V.no_throw(r)
    out = V.out(r, 'this')
    last = eq(imod(add(step, ONE), spf), Z0)
    k, j = fresh('k', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    votes = lambda j: u(64, add(seqat(old, j), isum(seqlen(ix), lam([k], ite(eq(imod(seqat(ix, k), c), j), ONE, Z0)))))
    V.prove_eq('between frames, every spike is a vote for its class (the index modulo the number of classes)',
               g(out, 'class_votes_'), tab(c, lam([j], votes(j)), old.sort), pre + [not_(last)])
    V.prove_eq('after the last step of a frame the votes start at zero', g(out, 'class_votes_'), tab(c, lam([j], Z0), old.sort), pre + [last])
    ps, p0 = g(out, 'predictions_'), g(me, 'predictions_')
    V.prove_eq('no prediction within a frame', ps, p0, pre + [not_(last)])
    V.prove_eq('one prediction at the end of a frame', seqlen(ps), add(seqlen(p0), ONE), pre + [last])
    pr = Prover()
    ps = pr.simp(Ctx(pre + [last]), ps)
    V.prove_eq('earlier predictions stay', slice_(ps, Z0, seqlen(p0)), p0, pre + [last])
    new = seqat(ps, seqlen(p0))
    # the class with most votes, the first of them
    m, w = g(new, 'votes_'), g(new, 'predicted_class_')
    vs = var('votes', ('S', U64))
    facts = pre + [eq(seqlen(vs), c)]
    kk = fresh('k', Z, 0, SIZEMAX)

    def abstract(t):
        for x in sorted(ir.subterms(t).values(), key=lambda x: -x.size):
            if x.op == 'fold':
                n, ini, ls, labels, q = fold_of(x)
                new = []
                for l in ls:
                    xs, b = ir.openlam(l)
                    new.append(lam(xs, ir.replace(b, votes(xs[0]), seqat(vs, xs[0]))))
                return x, (n, list(ini), new, labels, q)
        return t, None
    a, fa = abstract(w)
    b, fb = abstract(m)
    if not fa or not fb or a is not w or b is not m:
        raise Unsupported('the class with most votes is not found by one loop')
    n, ini, ls, labels, q = fa
    if len(ini) != 2 or any(x.op != 'int' for x in ini):
        raise Unsupported('the class with most votes is not found by one loop')
    V.prove_eq('looks at all classes', n, c, pre)

    def best(k, st):
        w, m = st[q], st[1 - q]
        return and_(le(Z0, w), le(Z0, m), forall_lt(k, lam([j], le(seqat(vs, j), m))),
                    or_(and_(eq(m, Z0), eq(w, Z0)), and_(lt(w, k), eq(seqat(vs, w), m), lt(Z0, m))),
                    forall_lt(w, lam([j], lt(seqat(vs, j), m))))
    induction(V, 'the class predicted is the first with most votes', n, ini, ls, best, facts)
    # the number of votes noted is that of the same loop
    n2, i2, l2, _, q2 = fb
    V.prove_eq('the votes noted are those of that class', fold(n2, i2, l2, list(fb[3]), q2), ir._fold(n, list(ini), list(ls), list(labels), 1 - q), facts)
    V.prove_eq('the dataset stays as it was', r.st.mem['ghost:dataset'], data)


def predictions(V, p, f):
    """the table of results from the predictions and the labels of the frames for inference."""
    me, data, mem = helper(V, p, f)
    c, train, infer = g(data, 'classes_amount_'), g(data, 'frames_amount_for_training_'), g(data, 'frames_amount_for_inference_')
    frames, ps = g(data, 'dataset_'), g(me, 'predictions_')
    k, j = fresh('k', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    label = lambda k: g(seqat(frames, add(train, k)), 'first')
    n = seqlen(ps)
    lab = lambda i: g(seqat(frames, i), 'first')
    pre = [le(n, infer), le(add(train, infer), seqlen(frames)), le(c, I(SIZEMAX)),
           forall_lt(seqlen(frames), lam([k], lt(lab(k), c)))]
    V.requires(*pre)
    r = run(V, f, {}, this=me, pc=pre, mem=mem)
    V.no_throw(r)
    out = V.retval(r)
    V.prove_eq('has a row for every class', seqlen(out), c, pre)
    row = seqat(out, j)
    silent = lambda k: eq(g(seqat(ps, k), 'votes_'), Z0)
    right = lambda k: eq(g(seqat(ps, k), 'predicted_class_'), label(k))
    kinds = dict(true_positives_=lambda k: and_(not_(silent(k)), right(k)), false_negatives_=silent,
                 false_positives_=lambda k: and_(not_(silent(k)), not_(right(k))))
    what = dict(true_positives_='frames of the class recognised', false_negatives_='frames of the class without votes',
                false_positives_='frames of the class taken for another')
    count = {a: isum(n, lam([k], ite(and_(eq(label(k), j), h(k)), ONE, Z0))) for a, h in kinds.items()}
    facts = pre + [le(Z0, j), lt(j, c), le(n, I(SIZEMAX))]
    for a in kinds:
        V.prove_eq('counts the ' + what[a], g(row, a), count[a], facts)
    V.prove_eq('and the other frames', g(row, 'true_negatives_'), u(64, sub(sub(sub(n, count['true_positives_']), count['false_negatives_']),
                                                                         count['false_positives_'])), facts)
    V.prove('lemma: every frame of a class is counted in exactly one of the three', eq(
        add(add(*[ite(and_(eq(label(k), j), kinds[a](k)), ONE, Z0) for a in ('true_positives_', 'false_negatives_')]),
            ite(and_(eq(label(k), j), kinds['false_positives_'](k)), ONE, Z0)), ite(eq(label(k), j), ONE, Z0)))
    V.prove_eq('the dataset stays as it was', r.st.mem['ghost:dataset'], data)


def least_facts(t, *at):
    """what the least numbers in t are, at the points given."""
    fs = []
    for d in [y for y in ir.subterms(t).values() if y.op == 'least' and not y.nb]:
        (k,), b = ir.openlam(d.args[1])
        fs += [le(Z0, d), le(d, d.args[0]), implies(lt(d, d.args[0]), subst(b, {k: d}))] + \
            [implies(and_(le(Z0, y), lt(y, d)), not_(subst(b, {k: y}))) for y in at]
    return fs


def first(n, pred):
    """the least i below n with pred(i), else n; and what that means at the points asked for."""
    i = fresh('i', Z, 0, SIZEMAX)
    t = least(n, lam([i], pred(i)))

    def facts(*at):
        return [le(Z0, t), le(t, n), implies(lt(t, n), pred(t))] + [implies(and_(le(Z0, x), lt(x, t)), not_(pred(x))) for x in at]
    return t, facts


def driver(V, p, f):
    """every step is given the spikes of its messages; then the table is made."""
    me = var('me', p.sort(f['cls']))
    data = var('dataset', p.sort(p.strip(f['params'][1]['t'])))
    msgs = var('messages', p.sort(p.strip(f['params'][0]['t'])))
    fs = ('R', 'kvc:fed')
    ix = dict(rfields(msgs.sort[1]))['neuron_indexes_']
    ir.RECS['kvc:fed'] = (('spikes', ix), ('step', U64))
    res = var('answer', dict(rfields(me.sort))['inference_results_'])
    asked = []

    def feed(ex, f, this, avs, st):
        l = st.mem[FED]
        x = rec(fs, [ex.read(a, st) if a.sort == LOC else a for a in avs])
        st.mem[FED] = cat(l, unit(x, l.sort), sort=l.sort)
        return UNITV

    def finish(ex, f, this, avs, st):
        asked.append(st.mem[FED])
        return res
    i, k = fresh('i', Z, 0, SIZEMAX), fresh('k', Z, 0, SIZEMAX)
    time = lambda i: g(g(seqat(msgs, i), 'header_'), 'send_time_')
    n, total = seqlen(msgs), mul(g(data, 'frames_amount_for_inference_'), g(data, 'steps_per_frame_'))
    pre = [le(total, I(SIZEMAX)), le(Z0, total)]
    r = run(V, f, {f['params'][0]['n']: msgs, f['params'][1]['n']: data}, {'@' + EH + 'process_spikes': feed,
            '@' + EH + 'process_inference_predictions': finish}, this=me, mem={FED: nil(('S', fs))}, pc=pre)
    V.no_throw(r)
    V.prove_eq('the results are those made at the end', V.out(r, 'this'), setf(me, inference_results_=res), pre)
    if len(asked) != 1:
        raise Unsupported('the table is not made once')
    fed = Prover().simp(Ctx(pre), r.st.mem[FED])
    V.prove_eq('made after all steps', asked[0], r.st.mem[FED], pre)
    if fed.op != 'fold' or len(fold_of(fed)[1]) != 2:
        raise Unsupported('the steps are not made by one loop over the messages')
    cnt, ini, ls, labels, q = fold_of(fed)
    V.prove_eq('as many steps as the frames for inference take', cnt, total, pre)
    pos = 1 - q
    if not isint(ini[pos].sort):
        raise Unsupported('no position carried')
    # messages in the order of their steps: those before position earlier(k) are exactly those of steps before k
    e0, f0 = first(n, lambda i: le(k, time(i)))
    e1, f1 = first(n, lambda i: le(add(k, ONE), time(i)))
    x = fresh('x', ini[q].sort)
    step = inst(ls[pos], [k] + ([x, e0] if pos else [e0, x]))
    ds = [y for y in ir.subterms(step).values() if y.op == 'least' and not y.nb and y is not e0]
    a = var('a', Z, 0, SIZEMAX)
    V.prove_eq('starts with the first message', ini[pos], Z0, pre)
    sorted_at = lambda a, b: implies(and_(le(Z0, a), le(a, b), lt(b, n)), le(time(a), time(b)))
    facts = list(pre) + [lt(k, total)]
    pts = [e0, e1, step, sub(e1, e0), sub(step, e0)]
    facts += f0(*pts) + f1(*pts)
    for d in ds:
        vs, b = ir.openlam(d.args[1])
        facts += [le(Z0, d), le(d, d.args[0]), implies(lt(d, d.args[0]), subst(b, {vs[0]: d}))] + \
            [implies(and_(le(Z0, y), lt(y, d)), not_(subst(b, {vs[0]: y}))) for y in (sub(e1, e0), I(0))]
    facts += [sorted_at(x, y) for x in (e0, e1, step) for y in (e0, e1, step) if x is not y]
    V.assumed.add('messages given to process_inference_results are in the order of their steps')
    V.prove('takes the messages of the step', eq(step, e1), facts)
    V.prove('lemma: those are exactly the messages of the step', iff(eq(time(a), k), and_(le(e0, a), lt(a, e1))),
            [lt(a, n)] + f0(a, e0, e1) + f1(a, e0, e1) + [sorted_at(e0, a), sorted_at(a, e0), sorted_at(e1, a), sorted_at(a, e1)])
    # what is given to the step
    body = inst(ls[q], [k] + ([x, e0] if q == 0 else [e0, x]))
    for d in ds:
        V.prove('as many as the step has', eq(d, sub(e1, e0)), facts)
        body = ir.replace(body, d, sub(e1, e0))
    want = unit(rec(fs, [flat(sub(e1, e0), lam([i], g(seqat(msgs, add(i, e0)), 'neuron_indexes_')), ix), k]), x.sort)
    V.prove_eq('every step is given the spikes of its messages, in order', body, cat(x, want, sort=x.sort), facts)


def total_votes(V, p, f):
    me = var('me', p.sort(f['cls']))
    r = run(V, f, {}, this=me)
    V.prove_eq('all frames of the class', V.retval(r), u(64, add(add(g(me, 'true_positives_'), g(me, 'false_negatives_')), g(me, 'false_positives_'))))


fdiv = lambda a, b: ir.fop('f/', a, b)
num = lambda a: ir.i2f(32, a)


def share(part, of):
    t = sum_(of)
    return ite(eq(t, Z0), ir.fltval(0.0, 32), fdiv(num(sum_(part)), num(t)))


def sum_(xs):
    t = Z0
    for x in xs:
        t = add(t, x)
    return t


METRICS = dict(
    get_precision=lambda tp, fp: share([tp], [tp, fp]),
    get_recall=lambda tp, fn: share([tp], [tp, fn]),
    get_prevalence=lambda tp, fn, fp, tn: share([tp, fn], [tp, fn, fp, tn]),
    get_accuracy=lambda tp, fn, fp, tn: share([tp, tn], [tp, fn, fp, tn]),
    get_f_score=lambda p, r: ite(ir.feq(ir.fop('f*', p, r), ir.fltval(0.0, 32)), ir.fltval(0.0, 32),
                                 fdiv(ir.fop('f*', ir.fop('f*', ir.fltval(2.0, 32), p), r), ir.fop('f+', p, r))))


def metric(V, p, f, n):
    xs = [var(q['n'], p.sort(q['t'])) for q in f['params']]
    pre = [lt(x, I(1 << 60)) for x in xs if isint(x.sort)]
    r = run(V, f, {q['n']: x for q, x in zip(f['params'], xs)}, pc=pre)
    V.no_throw(r)
    V.prove_eq('is the share its name says, zero of nothing', V.retval(r), METRICS[n](*xs), pre)


IMG = ('S', ('I', 8, False))


def loading(V, p, f):
    """the frames added are the pairs of the next images and the next labels."""
    me = var('me', p.sort(f['cls']))
    names = [q['n'] for q in f['params']]
    most, classes, size, spf = [var(n, U64) for n in names[2:6]]
    images, lines = var('images', ('S', IMG)), var('lines', ('S', ('O', 'string')))
    ghosts = {names[0]: ('ghost:images', images), names[1]: ('ghost:lines', lines)}
    frame = None

    def which(ex, this, st):
        for n, (m, s) in ghosts.items():
            if this.sort == LOC and n in ir.show(this):
                return m, s
        raise Unsupported('another stream: ' + ir.show(this))

    def good(ex, f, this, A, st):
        m, s = which(ex, this, st)
        return le(st.mem[m], seqlen(s))

    def read(ex, f, this, A, st):
        m, s = which(ex, this, st)
        if s is not images:
            raise Unsupported('reads bytes of the labels')
        n = st.mem[m]
        to = A.v(0)
        if to.op != 'loc' or to.pl[1][-1:] != (('i',),) or to.args[-1] is not Z0:
            raise Unsupported('reads into something else than a buffer')
        to = ir.loc(to.pl[0], to.pl[1][:-1], to.args[:-1])
        ex.oblige(st, eq(A.v(1), seqlen(ex.read(to, st))), 'reads as many bytes as the buffer holds')
        j = fresh('j', Z, 0, SIZEMAX)
        ex.write(to, tab(A.v(1), lam([j], ite(lt(n, seqlen(s)), seqat(seqat(s, n), j), uf('stale', [n, j], IMG[1]))), IMG), st)
        st.mem[m] = add(n, ONE)
        return this

    def getline(ex, f, this, A, st):
        m, s = which(ex, A.l(0), st)
        n = st.mem[m]
        ex.write(A.l(1), ite(lt(n, seqlen(s)), seqat(s, n), uf('unread', [n], s.sort[1])), st)
        st.mem[m] = add(n, ONE)
        return A.l(0)

    def number(ex, f, this, A, st):
        return uf('number', [A.v(0)], ('I', 32, True))

    def apply(ex, c, avs, st, ret):
        v = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
        return uf('frame', [v], p.sort(ret) if ret is not None else None)
    pre = [eq(seqlen(g(g(me, BASE), 'dataset_')), Z0), lt(Z0, most), le(size, I(SIZEMAX))]
    V.requires(*pre)
    r = run(V, f, dict(zip(names[2:6], (most, classes, size, spf))), {
        'lib:std::basic_ios::good': good, 'lib:std::basic_istream::read': read, 'lib:std::getline': getline, 'lib:std::stoi': number,
        '@apply': apply}, this=me, pc=pre, mem={'ghost:images': Z0, 'ghost:lines': Z0})
    out = V.out(r, 'this')
    V.assumed.add('a stream: reading takes its images or lines in order; once they are used up it fails, leaving unspecified values; '
                  'every line is a number, and the function that makes spikes of an image has no state')
    V.prove_eq('keeps the sizes given, and nothing else changes but the frames', setf(out, **{BASE: setf(g(out, BASE), dataset_=g(g(me, BASE), 'dataset_'))}),
               setf(me, image_size_=size, **{BASE: setf(g(me, BASE), steps_per_frame_=spf, classes_amount_=classes)}), pre)
    got = g(g(out, BASE), 'dataset_')
    fs = got.sort[1]
    i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    frame = lambda i: rec(fs, [u(32, uf('number', [seqat(lines, i)], ('I', 32, True))),
                               uf('frame', [tab(size, lam([j], seqat(seqat(images, i), j)), IMG)], dict(rfields(fs))['second'])])
    least_ = ite(le(seqlen(images), seqlen(lines)), seqlen(images), seqlen(lines))
    amount = ite(le(least_, most), least_, most)
    V.prove_eq('adds the pairs of the next images and labels, until either runs out or there are enough', got,
               tab(amount, lam([i], frame(i)), got.sort), pre + least_facts(got, Z0, sub(most, ONE), seqlen(lines), seqlen(images)))
