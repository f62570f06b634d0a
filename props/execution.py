"""F03: loading a model into a backend and executing it; F05: the channels it talks through."""
from vc import *
import ir
import lib
from backend import iff
from loading import arms
import itertools
from containers import CALLS, kept
from framework import run, uid_of, First, cond_thrown, name, setup

FW = 'knp::framework::'
EP = 'lib:knp::core::MessageEndpoint::'
LOG = 'ghost:log'
Z0 = I(0)


class World:
    """the outside of a model: the backend, its message bus and endpoints.  What is asked of them is written down in order."""
    EVENTS = dict(subscribe=0, load_populations=1, load_projections=2, send=3, update=4, handle=5, observe=6, predicate=7,
                  channel=8, receive=9, message=10, start=11, stop=12, start_learning=13, stop_learning=14)

    def __init__(self, p):
        self.p = p
        self.uid = ('R', 'knp::core::UID')
        p.sort([t for t in range(len(p.types)) if p.ts(t)['s'] == 'knp::core::UID'][0])
        self.uids = ('S', self.uid)
        f = [f for f in p.fns_all() if f['n'] == FW + 'io::output::OutputChannel::OutputChannel' and len(f['params']) == 2][0]
        self.ep = p.sort(p.strip(f['params'][1]['t']))
        self.noep = var('no_endpoint', self.ep)
        # kind of event, whom it concerns, the other identities, a number, the endpoint used
        self.ev = ir.recsort(('event',), [('kind', Z), ('who', self.uid), ('others', self.uids), ('num', Z), ('ep', self.ep)]) \
            if hasattr(ir, 'recsort') else self.rs()
        self.evs = ('S', self.ev)
        self.mem = {LOG: nil(self.evs), 'ghost:endpoints': Z0, 'ghost:backend_endpoint': var('backend_endpoint', self.ep), 'ghost:backend': var('backend_state', ('O', 'backend')), **CALLS}
        self.backend = ir.loc('ghost:backend')
        sends = [f for f in p.fns_all() if f['n'].endswith('io::output::OutputChannel::update')]
        self.msgs = p.sort(sends[0]['ret'])
        self.msg = self.msgs[1]
        self.msg_indexes = g(var('some_message', self.msg), 'neuron_indexes_').sort
        self.mem.update({'ghost:sent': nil(self.msgs), 'ghost:received': Z0, 'ghost:step': var('backend_step', U64)})
        self.none = var('nobody', self.uid)

    def rs(self):
        ir.RECS[('event',)] = (('kind', Z), ('who', self.uid), ('others', self.uids), ('num', Z), ('ep', self.ep))
        return ('R', ('event',))

    def message(self, sender, step, data):
        m = var('some_message', self.msg)
        h = setf(g(m, 'header_'), sender_uid_=sender, send_time_=step)
        return setf(m, header_=h, neuron_indexes_=data)

    def event(self, kind, who=None, others=None, num=None, ep=None):
        return rec(self.ev, [I(self.EVENTS[kind]), who if who is not None else self.none,
                             others if others is not None else nil(self.uids), num if num is not None else Z0,
                             ep if ep is not None else self.noep])

    def log(self, st, *a, **k):
        st.mem[LOG] = cat(st.mem[LOG], unit(self.event(*a, **k), self.evs), sort=self.evs)

    # -------------------------------------------------------------- contracts of what lies outside
    def create_endpoint(self, ex, f, this, A, st):
        n = st.mem['ghost:endpoints']
        st.mem['ghost:endpoints'] = add(n, I(1))
        ex.assumed.add('endpoints: each call of create_endpoint makes a new one (bus behaviour proved as M01, M02)')
        return uf('endpoint', [n], ex.p.sort(f['ret']))

    def subscribe(self, ex, f, this, A, st):
        a, b = A.v(0), A.v(1)
        self.log(st, 'subscribe', a, b, ep=ex.read(this, st))
        ex.assumed.add('subscribing: the receiver gets the messages of the senders (proved as M01)')
        return ir.loc('ghost:subscription') if ex.p.sort(f['ret']) == LOC else fresh('subscription', ex.p.sort(f['ret']))

    def send_message(self, ex, f, this, A, st):
        m = A.v(0)
        if m.sort[0] == 'V':
            m = vget(m, [i for i, x in enumerate(m.sort[1]) if x == self.msg][0])
        self.log(st, 'message', who=g(g(m, 'header_'), 'sender_uid_'), num=seqlen(st.mem['ghost:sent']), ep=ex.read(this, st))
        st.mem['ghost:sent'] = cat(st.mem['ghost:sent'], unit(m, self.msgs), sort=self.msgs)
        ex.assumed.add('a sent message reaches the subscribed receivers (proved as M01, M02)')
        return UNITV

    def receive(self, ex, f, this, A, st):
        n = st.mem['ghost:received'] = add(st.mem['ghost:received'], I(1))
        self.log(st, 'receive', num=n, ep=ex.read(this, st))
        return UNITV

    def inbox(self, uid, ep, n, sort):
        return uf('inbox', [uid, ep, n], sort)

    def unload(self, ex, f, this, A, st):
        ex.assumed.add('unloading returns the messages received so far for a receiver (proved as M01)')
        return self.inbox(A.v(0), ex.read(this, st), st.mem['ghost:received'], ex.p.sort(f['ret']))

    def contracts(self):
        return {
            EP + 'send_message': self.send_message,
            EP + 'receive_all_messages': self.receive,
            EP + 'unload_messages': self.unload,
            'lib:knp::core::Backend::get_step': lambda ex, f, this, A, st: st.mem['ghost:step'],
            '@knp::core::Backend::get_step': lambda ex, f, this, avs, st: st.mem['ghost:step'],
            'lib:knp::core::MessageBus::create_endpoint': self.create_endpoint,
            EP + 'subscribe': self.subscribe,
            'lib:knp::core::Backend::get_message_bus': lambda ex, f, this, A, st: ir.loc('ghost:bus'),
            '@knp::core::Backend::get_message_endpoint': lambda ex, f, this, avs, st: ir.loc('ghost:backend_endpoint'),
            '@knp::core::Backend::get_message_bus': lambda ex, f, this, avs, st: ir.loc('ghost:bus'),
            '@knp::core::MessageBus::create_endpoint': lambda ex, f, this, avs, st: self.create_endpoint(ex, f, this, avs, st),
        }


def f03a(V):
    p = V.programs['base']
    W = World(p)
    fs = [f for f in p.fns_all() if f['n'].startswith(FW) and 'body' in f]
    for f in fs:
        n = f['n'][len(FW):]
        if n in ('Model::add_input_channel', 'Model::add_output_channel'):
            register(V, p, f, 'projection' if 'input' in n else 'population', 'in_channels_' if 'input' in n else 'out_channels_')
        elif n in ('Model::connect_input_projection', 'Model::connect_output_population'):
            connect(V, p, f, 'in_channels_' if 'input' in n else 'out_channels_')
        elif n in ('Model::get_input_channels', 'Model::get_output_channels', 'Model::get_network', 'Model::get_uid'):
            getter(V, p, f)
        elif n in ('ModelLoader::get_input_channel', 'ModelLoader::get_output_channel'):
            channel(V, p, f, 'in_channels_' if 'input' in n else 'out_channels_')


def register(V, p, f, what, at):
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, this=me)
        seq = g(g(me, 'network_'), what + 's_')
        out = V.out(r, 'this')
        uid = ins['%s_uid' % what]
        x = First(V, seq, lambda v: eq(uid_of(v), uid), [cond_thrown(r), out])
        V.prove('refused exactly when the network has no such %s' % what, iff(x(cond_thrown(r)), not_(x.found)), x.facts)
        for c, _, st in r.st.thr:
            V.prove_eq('unchanged when refused', x(st.mem['P_this']), me, x.facts)
        out = x(out)
        ok = x.facts + [x.found]
        old, new = g(me, at), g(out, at)
        V.prove_eq('one entry more', seqlen(new), add(seqlen(old), I(1)), ok)
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('the entries made before stay', seqat(new, k), seqat(old, k), ok + [lt(k, seqlen(old))])
        e = seqat(new, seqlen(old))
        V.prove_eq('the new entry is for the channel given', fld(e, 'first'), ins['channel_uid'], ok)
        V.prove_eq('the new entry names the %s given' % what, fld(e, 'second'), uid, ok)
        V.prove_eq('nothing else changes', setf(out, **{at: old}), me, ok)
    V.contract(name(p, f), body)


def connect(V, p, f, at):
    def body():
        me, ins = setup(p, f)
        got = []

        def add_(ex, f, this, avs, st):
            got.append([ex.read(a, st) for a in avs])
            V.prove_eq('asks the same model', ex.read(this, st), me)
            return UNITV
        run(V, f, ins, {'@' + FW + 'Model::add_%sput_channel' % at.split('_')[0]: add_}, this=me)
        chan, uid = V.called('registers with the model', got)
        obj = [v for k, v in ins.items() if k != 'channel_uid'][0]
        V.prove_eq('registers the object given', uid, g(g(obj, 'base_'), 'uid_'))
        V.prove_eq('at the channel given', chan, ins['channel_uid'])
    V.contract(name(p, f), body)


def getter(V, p, f):
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, this=me)
        n = f['sn']
        want = {'get_input_channels': 'in_channels_', 'get_output_channels': 'out_channels_', 'get_network': 'network_'}.get(n)
        V.prove_eq('the part asked for', V.retval(r), g(me, want) if want else g(g(me, 'base_'), 'uid_'))
        if r.ret.sort == LOC and want:
            V.prove_eq('a reference into the model', r.ret, ir.loc(r.roots['this'], (('f', want),), ()))
        V.prove_eq('the model is unchanged', V.out(r, 'this'), me)
        V.no_throw(r)
    V.contract(name(p, f), body)


def channel(V, p, f, at):
    def body():
        me, ins = setup(p, f)
        uid = ins['channel_uid']
        r = run(V, f, ins, this=me)
        seq = g(me, at)
        x = First(V, seq, lambda v: eq(g(g(v, 'base_'), 'uid_'), uid), [cond_thrown(r), r.ret])
        V.prove('refused exactly when there is no such channel', iff(x(cond_thrown(r)), not_(x.found)), x.facts)
        V.prove_eq('the channel with this identity', x(r.ret), ir.loc(r.roots['this'], (('f', at), ('i',)), (x.at,)), x.facts + [x.found])
        V.prove_eq('the loader is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


# ------------------------------------------------------------------------------------------ loading
ML = FW + 'ModelLoader::'
NW = FW + 'Network::'


class Held:
    """the network of the model as a map from identities to objects (lookups proved as F01)."""

    def __init__(self, p, what):
        f = [f for f in p.fns_all() if f['n'] == NW + 'get_' + what and p.sort(p.strip(f['ret']))[0] == 'V'][0]
        self.vs = p.sort(p.strip(f['ret']))
        self.ms = ('M', ('R', 'knp::core::UID'), self.vs)
        self.root = 'ghost:' + what
        self.val = var(what + 's', self.ms)
        self.name = NW + 'get_' + what

    def get(self, ex, f, this, avs, st):
        ex.assumed.add('lookups in the network return a reference to the object with the identity (proved as F01)')
        uid = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
        return ir.loc(self.root, (('k',),), (uid,))


def tagged(v, tag):
    """the variant v with the input/output tag set."""
    out = None
    for i, s in reversed(list(enumerate(v.sort[1]))):
        x = vget(v, i)
        b = g(x, 'base_')
        t = g(g(b, 'tags_'), 'tags_')
        x = inj(i, setf(x, base_=setf(b, tags_=setf(g(b, 'tags_'), tags_=ir.mstore(t, S('io_type'), tag)))), v.sort)
        out = x if out is None else ite(eq(vidx(v), I(i)), x, out)
    return out


def gen_channel(V, p, W, f, way):
    what = 'projection' if way == 'in' else 'population'

    def body():
        me, ins = setup(p, f)
        me = setf(me, backend_=W.backend)
        uid, peers = ins['channel_uid'], ins['p_uids']
        H = Held(p, what)
        r = run(V, f, ins, {**W.contracts(), '@' + H.name: H.get}, this=me, mem={**W.mem, H.root: H.val})
        out = V.out(r, 'this')
        at = way + '_channels_'
        if way == 'in':
            known = ir.mdom(g(me, 'i_map_'), uid)
            V.prove('refused exactly when no generator was given for the channel', iff(cond_thrown(r), not_(known)))
            ok = [known]
            for c, _, st in r.st.thr:
                V.prove_eq('unchanged when refused', st.mem['P_this'], me)
                V.prove_eq('nothing is subscribed when refused', st.mem[LOG], nil(W.evs))
                V.prove_eq('nothing is marked when refused', st.mem[H.root], H.val)
        else:
            ok = []
            V.no_throw(r)
        old, new = g(me, at), g(out, at)
        V.prove_eq('one channel more', seqlen(new), add(seqlen(old), I(1)), ok)
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('the channels made before stay', seqat(new, k), seqat(old, k), ok + [lt(k, seqlen(old))])
        c = seqat(new, seqlen(old))
        V.prove_eq('it has the identity of the channel', g(g(c, 'base_'), 'uid_'), uid, ok)
        ep = uf('endpoint', [Z0], W.ep)
        V.prove_eq('it has an endpoint of its own', g(c, 'endpoint_'), ep, ok)
        if way == 'in':
            V.prove_eq('it is fed by the generator given for it', g(c, 'generator_'), ir.mval(g(me, 'i_map_'), uid), ok)
            want = tab(seqlen(peers), lam([k], W.event('subscribe', seqat(peers, k), unit(uid, W.uids), ep=W.mem['ghost:backend_endpoint'])), W.evs)
        else:
            V.prove_eq('it holds no message yet', seqlen(g(c, 'message_buffer_')), Z0, ok)
            want = unit(W.event('subscribe', uid, peers, ep=ep), W.evs)
        V.prove_eq('subscribed are exactly the objects registered for the channel', r.st.mem[LOG], want, ok)
        V.prove_eq('nothing else changes in the loader', setf(out, **{at: old}), me, ok)
        q = fresh('q', W.uid)
        v = ir.mval(H.val, q)
        V.prove_eq('exactly these objects are marked, nothing else changes in the network', ir.mval(r.st.mem[H.root], q),
                   ite(exists_lt(seqlen(peers), lam([k], eq(seqat(peers, k), q))), tagged(v, I(0 if way == 'in' else 1)), v), ok)
    V.contract(name(p, f), body)


def f03b(V):
    p = V.programs['base']
    W = World(p)
    fs = [f for f in p.fns_all() if f['n'].startswith(FW) and 'body' in f]
    for f in fs:
        n = f['n'][len(FW):]
        if n in ('ModelLoader::gen_input_channel', 'ModelLoader::gen_output_channel'):
            gen_channel(V, p, W, f, 'in' if 'input' in n else 'out')


def init(V, p, W, f):
    """every channel is made once, with exactly the objects registered for it."""
    def body():
        me, ins = setup(p, f)
        regs = ins['channels']

        def made(ex, m, this, avs, st):
            V.prove_eq('the generator given is used', m, ins['channel_gen'])
            V.prove_eq('for the same loader', ex.read(this, st), me)
            V.prove_eq('for the same model', ex.read(avs[0], st), ins['model'])
            uid, peers = [ex.read(a, st) if a.sort == LOC else a for a in avs[1:]]
            W.log(st, 'channel', uid, peers)
            return UNITV
        r = run(V, f, ins, {'@memcall': made}, this=me, mem=W.mem)
        V.no_throw(r)
        log, n = r.st.mem[LOG], seqlen(regs)
        k, k2, j = fresh('k', Z, 0, SIZEMAX), fresh('k2', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
        e = seqat(log, k)
        at = lambda i: fld(seqat(regs, i), 'first')
        ok = [lt(k, seqlen(log))]
        V.prove_eq('only channels are made', fld(e, 'kind'), I(W.EVENTS['channel']), ok)
        V.prove('only channels something is registered for', exists_lt(n, lam([j], eq(at(j), fld(e, 'who')))), ok)
        V.prove_eq('a channel gets exactly the objects registered for it', fld(e, 'others'),
                   flat(n, lam([j], ite(eq(at(j), fld(e, 'who')), unit(fld(seqat(regs, j), 'second'), W.uids), nil(W.uids))), W.uids), ok)
        V.prove('every channel something is registered for is made', exists_lt(seqlen(log), lam([k], eq(fld(e, 'who'), at(j)))), [lt(j, n)])
        V.prove('no channel is made twice', not_(eq(fld(e, 'who'), fld(seqat(log, k2), 'who'))), ok + [lt(k2, k)])
        V.prove_eq('the loader is changed by the generator only', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def load(V, p, W, f):
    def body():
        me, ins = setup(p, f)
        me = setf(me, backend_=W.backend)
        gens = {}
        pops, projs = [g(g(ins['model'], 'network_'), x + 's_') for x in ('population', 'projection')]
        marked = lambda o, regs, how: uf('marked', [o, regs, S(how)], o.sort)

        def init_(ex, f, this, avs, st):
            model, regs, gen = avs
            how = p.fns[gen.pl]['sn']
            V.prove_eq('channels of this model', model, ir.loc('P_model'))
            m = ex.read(model, st)
            n = g(m, 'network_')
            n = setf(n, populations_=marked(g(n, 'populations_'), ex.read(regs, st), how), projections_=marked(g(n, 'projections_'), ex.read(regs, st), how))
            ex.write(model, setf(m, network_=n), st)
            gens[how] = ex.read(regs, st)
            W.log(st, 'channel', num=I(0 if how == 'gen_input_channel' else 1))
            ex.assumed.add('making the channels marks objects of the network (gen_input_channel, gen_output_channel: contracts proved here)')
            return UNITV

        def loaded(kind):
            def hook(ex, f, this, A, st):
                W.log(st, kind)
                st.mem['ghost:' + kind] = ex.read(A.v(0), st) if A.v(0).sort == LOC else A.v(0)
                return UNITV
            return hook
        C = {'@' + ML + 'init_channels': init_}
        for k in ('populations', 'projections'):
            for fmt in ('lib:%s', '@%s'):
                h = loaded('load_' + k)
                C[fmt % ('knp::core::Backend::load_all_' + k)] = h if fmt[0] == 'l' else \
                    (lambda ex, f, this, avs, st, kind='load_' + k: (W.log(st, kind), st.mem.update({'ghost:' + kind: ex.read(avs[0], st)}), UNITV)[2])
        r = run(V, f, ins, C, this=me, mem={**W.mem, 'ghost:load_populations': nil(pops.sort), 'ghost:load_projections': nil(projs.sort)})
        V.no_throw(r)
        V.prove_eq('the channels are made for the registered input projections', gens['gen_input_channel'], g(ins['model'], 'in_channels_'))
        V.prove_eq('the channels are made for the registered output populations', gens['gen_output_channel'], g(ins['model'], 'out_channels_'))
        log = r.st.mem[LOG]
        ev = lambda k, **kw: unit(W.event(k, **kw), W.evs)
        both = lambda a, b: [cat(a, b), cat(b, a)]
        V.prove('all channels are made, then the network is loaded', or_(*[
            eq(log, cat(a, b)) for a in both(ev('channel', num=I(0)), ev('channel', num=I(1)))
            for b in both(ev('load_populations'), ev('load_projections'))]))
        for k, old in (('populations', pops), ('projections', projs)):
            want = marked(marked(old, g(ins['model'], 'in_channels_'), 'gen_input_channel'), g(ins['model'], 'out_channels_'), 'gen_output_channel')
            V.prove_eq('the backend gets all %s of the network, marked' % k, r.st.mem['ghost:load_' + k], want)
    V.contract(name(p, f), body)


def f03c(V):
    p = V.programs['base']
    W = World(p)
    fs = [f for f in p.fns_all() if f['n'].startswith(FW) and 'body' in f]
    for f in fs:
        n = f['n'][len(FW):]
        if n == 'ModelLoader::init_channels':
            init(V, p, W, f)
        elif n == 'ModelLoader::load':
            load(V, p, W, f)


# ---------------------------------------------------------------------------------------- executing
IO = FW + 'io::'


def uid(o, base='base_'):
    return g(g(o, base), 'uid_')


def sending(V, p, W, f):
    """InputChannel::send / send_data: the channel's spikes leave as one message of the channel for the step, if there are any."""
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, W.contracts(), this=me, mem=W.mem)
        V.no_throw(r)
        if 'spikes' in ins:
            data = ins['spikes']
        else:
            gen = g(me, 'generator_')
            data = uf('call', [gen, Z0, ins['step']], W.msg_indexes)
            V.prove_eq('the generator is asked once', r.st.mem['ghost:calls'], I(1))
        some = not_(eq(seqlen(data), Z0))
        V.prove_eq('tells whether there was anything to send', V.retval(r), some)
        m = W.message(uid(me), ins['step'], data)
        V.prove_eq('sends the spikes as a message of the channel for the step, if there are any', r.st.mem['ghost:sent'],
                   ite(some, unit(m, W.msgs), nil(W.msgs)))
        V.prove_eq('through its own endpoint', r.st.mem[LOG],
                   ite(some, unit(W.event('message', uid(me), ep=g(me, 'endpoint_')), W.evs), nil(W.evs)))
        V.prove_eq('the channel is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def collecting(V, p, W, f):
    """OutputChannel::update: what arrived is added to what is held."""
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, W.contracts(), this=me, mem=W.mem)
        V.no_throw(r)
        got = W.inbox(uid(me), g(me, 'endpoint_'), I(1), W.msgs)
        buf = cat(g(me, 'message_buffer_'), got)
        n = seqlen(buf)
        out = g(V.out(r, 'this'), 'message_buffer_')
        if len(r.ex.known) == 1 and r.ex.known[0][0] == 'sorted':
            # the messages are put in order of their steps
            pp = r.ex.known[0][1]
            i = fresh('i', Z, 0, SIZEMAX)
            V.prove_eq('everything received for the channel is added to what it holds', out, tab(n, lam([i], seqat(buf, seqat(pp, i))), buf.sort))
        else:
            V.prove_eq('everything received for the channel is added to what it holds', out, buf)
        i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
        when = lambda j: g(g(seqat(out, j), 'header_'), 'send_time_')
        known = []
        for q in [y for x in r.ex.known for y in x[5]]:
            if q.op == 'forall':
                (x,), e = openlam(q.args[1])
                e = subst(e, {x: i})
                known.append(implies(lt(i, q.args[0]), e))
                if e.op == 'forall':
                    (y,), e2 = openlam(e.args[1])
                    known.append(implies(and_(lt(i, q.args[0]), lt(j, e.args[0])), subst(e2, {y: j})))
        V.prove('the messages held are in order of their steps', le(when(j), when(i)), known + [lt(i, seqlen(out)), lt(j, i)])
        V.prove_eq('all messages held are returned', V.retval(r), out)
        V.prove_eq('nothing else changes', setf(V.out(r, 'this'), message_buffer_=g(me, 'message_buffer_')), me)
        V.prove_eq('it receives once, from its own endpoint', r.st.mem[LOG], unit(W.event('receive', num=I(1), ep=g(me, 'endpoint_')), W.evs))
    V.contract(name(p, f), body)


def reading(V, p, W, f):
    """OutputChannel::read_some_from_buffer on messages held in order of sending."""
    def body():
        me, ins = setup(p, f)
        a, b = ins['starting_step'], ins['final_step']
        buf = g(me, 'message_buffer_')
        n = seqlen(buf)
        i, k = fresh('i', Z, 0, SIZEMAX), fresh('k', Z, 0, SIZEMAX)
        when = lambda j: g(g(seqat(buf, j), 'header_'), 'send_time_')
        ordered = forall_lt(n, lam([k], forall_lt(k, lam([i], le(when(i), when(k))))))
        r = run(V, f, ins, W.contracts(), this=me, mem=W.mem, pc=[ordered, le(a, b)])
        V.no_throw(r)
        out = V.out(r, 'this')
        x = least(n, lam([k], not_(lt(when(k), a))))
        y = least(n, lam([k], lt(b, when(k))))
        held = g(out, 'message_buffer_')
        V.prove_eq('messages are taken from the range', V.retval(r), slice_(buf, x, sub(y, x)), [le(x, y)])
        V.prove_eq('the others stay', held, cat(slice_(buf, I(0), x), slice_(buf, y, sub(n, y))), [le(x, y)])
        V.prove_eq('nothing else changes', setf(out, message_buffer_=buf), me)
        # x, y: first at or after the start, first after the end
        facts = [le(x, n), le(y, n), implies(lt(x, n), ge(when(x), a)), implies(lt(y, n), gt(when(y), b)),
                 forall_lt(x, lam([k], lt(when(k), a))), forall_lt(y, lam([k], le(when(k), b)))]
        X, Y = fresh('x', Z, 0, SIZEMAX), fresh('y', Z, 0, SIZEMAX)
        gen = lambda t: replace(replace(t, x, X), y, Y)
        facts = [gen(t) for t in facts]
        rise = lambda i, k: implies(and_(lt(i, k), lt(k, n)), le(when(i), when(k)))   # instances of `ordered`
        V.prove('the range begins before it ends', le(X, Y), facts + [le(a, b), lt(Y, n), rise(X, Y), rise(Y, X)])
        V.prove('exactly the messages of these steps are taken', iff(and_(le(X, k), lt(k, Y)), and_(le(a, when(k)), le(when(k), b))),
                facts + [lt(k, n), rise(X, k), rise(Y, k), rise(k, X), rise(k, Y)])
        # the rest is still in order of the steps
        i = fresh('i', Z, 0, SIZEMAX)
        rest = lambda j: when(ite(lt(j, X), j, add(j, sub(Y, X))))
        there = lambda j: ite(lt(j, X), j, add(j, sub(Y, X)))
        V.prove('the messages left are in order of their steps', le(rest(i), rest(k)),
                [le(X, Y), le(Y, n), lt(i, k), lt(there(k), n), rise(there(i), there(k))])
    V.contract(name(p, f), body)


def watching(V, p, W, f):
    """MessageObserver::update: the processor gets everything received for the observer."""
    def body():
        me, ins = setup(p, f)
        seen = []

        def apply(ex, c, avs, st, ret):
            seen.append((c, [ex.read(a, st) if a.sort == LOC else a for a in avs], list(st.pc), st.mem['ghost:received']))
            W.log(st, 'predicate')
            return UNITV
        r = run(V, f, ins, {**W.contracts(), '@apply': apply}, this=me, mem=W.mem)
        V.no_throw(r)
        c, (got,), pc, n = V.called('calls the processor', seen)
        V.prove('the processor is called on every update', and_(*pc) if pc else TRUE)
        V.prove_eq('the processor of the observer is called', c, g(me, 'process_messages_'))
        V.prove_eq('after receiving', n, I(1))
        V.prove_eq('with everything received for the observer', got, W.inbox(uid(me, 'base_data_'), g(me, 'endpoint_'), I(1), got.sort))
        V.prove_eq('it receives once, then calls once', r.st.mem[LOG],
                   cat(unit(W.event('receive', num=I(1), ep=g(me, 'endpoint_')), W.evs), unit(W.event('predicate'), W.evs)))
        V.prove_eq('the observer is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def subscribing(V, p, W, f):
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, W.contracts(), this=me, mem=W.mem)
        V.no_throw(r)
        who = uid(me, 'base_data_' if 'Observer' in f['n'] else 'base_')
        V.prove_eq('subscribes to the senders given, through its own endpoint', r.st.mem[LOG],
                   unit(W.event('subscribe', who, ins['entities'], ep=g(me, 'endpoint_')), W.evs))
        V.prove_eq('nothing else changes', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def handling(V, p, W, f):
    """SpikeMessageHandler::update: the handler's answer to what was received leaves as its message for the step."""
    def body():
        me, ins = setup(p, f)
        answer = var('answer', W.msg_indexes)
        seen = []

        def apply(ex, c, avs, st, ret):
            seen.append((c, [ex.read(a, st) for a in avs], list(st.pc)))
            W.log(st, 'predicate')
            return answer
        r = run(V, f, ins, {**W.contracts(), '@apply': apply}, this=me, mem=W.mem)
        V.no_throw(r)
        c, (got,), pc = V.called('calls the function', seen)
        V.prove('the function is called on every update', and_(*pc) if pc else TRUE)
        V.prove_eq('the function of the handler is called', c, g(me, 'message_handler_function_'))
        V.prove_eq('with everything received for the handler', got, W.inbox(uid(me), g(me, 'endpoint_'), I(1), got.sort))
        some = not_(eq(seqlen(answer), Z0))
        m = W.message(uid(me), ins['step'], answer)
        V.prove_eq('the answer is sent as a message of the handler for the step, if it has spikes', r.st.mem['ghost:sent'],
                   ite(some, unit(m, W.msgs), nil(W.msgs)))
        ep = g(me, 'endpoint_')
        V.prove_eq('it receives once, asks once, then sends, through its own endpoint', r.st.mem[LOG],
                   cat(unit(W.event('receive', num=I(1), ep=ep), W.evs), unit(W.event('predicate'), W.evs),
                       ite(some, unit(W.event('message', uid(me), ep=ep), W.evs), nil(W.evs))))
        V.prove_eq('the handler is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


PARTS = {'channel_uid': 'uid_', 'uid': 'uid_', 'endpoint': 'endpoint_', 'generator': 'generator_', 'processor': 'process_messages_',
         'function': 'message_handler_function_', 'backend': 'backend_', 'i_map': 'i_map_'}


def made_of(V, p, W, f):
    """constructors keep what they are given."""
    def body():
        me, ins = setup(p, f)
        r = run(V, f, ins, W.contracts(), mem=W.mem)
        V.no_throw(r)
        for k, v in ins.items():
            part = PARTS[k]
            o = r.ret
            if part == 'uid_':
                o = g(o, 'base_data_' if 'Observer' in f['n'] else 'base_')
            V.prove_eq('keeps the %s' % k, g(o, part), v)
        for fld_, s in rfields(r.ret.sort):
            if s[0] == 'S':
                V.prove_eq('nothing in %s' % fld_, seqlen(g(r.ret, fld_)), Z0)
    V.contract(name(p, f), body)


def f03d(V):
    p = V.programs['base']
    W = World(p)
    fs = [f for f in p.fns_all() if f['n'].startswith(FW) and 'body' in f]
    for f in fs:
        n = f['n'][len(FW):]
        if n in ('io::input::InputChannel::send', 'io::input::InputChannel::send_data'):
            sending(V, p, W, f)
        elif n == 'io::output::OutputChannel::update':
            collecting(V, p, W, f)
        elif n == 'io::output::OutputChannel::read_some_from_buffer':
            reading(V, p, W, f)
        elif n == 'monitoring::MessageObserver::update':
            watching(V, p, W, f)
        elif n in ('monitoring::MessageObserver::subscribe', 'ModelExecutor::SpikeMessageHandler::subscribe'):
            subscribing(V, p, W, f)
        elif n == 'ModelExecutor::SpikeMessageHandler::update':
            handling(V, p, W, f)
        elif n in ('io::input::InputChannel::InputChannel', 'io::output::OutputChannel::OutputChannel', 'monitoring::MessageObserver::MessageObserver',
                   'ModelExecutor::SpikeMessageHandler::SpikeMessageHandler', 'ModelLoader::ModelLoader') and len(f['params']) > 1:
            made_of(V, p, W, f)


EX = FW + 'ModelExecutor::'


def observers(o):
    return arms(o, lambda i, x: uid(x, 'base_data_'))


def starting(V, p, W, f):
    """ModelExecutor::start(predicate): what the backend is given to do around every step."""
    def body():
        me, ins = setup(p, f)
        hs = [x for x in p.fns_all() if x['n'] == EX + 'SpikeMessageHandler::update'][0]
        handler = p.sort(hs['cls'])
        handlers = var('handlers', ('S', handler))
        k = fresh('k', Z, 0, SIZEMAX)
        nh = seqlen(handlers)
        me = setf(me, loader_=setf(g(me, 'loader_'), backend_=W.backend),
                  message_handlers_=tab(nh, lam([k], ir.loc('ghost:handlers', (('i',),), (k,))), ('S', LOC)))
        given = []

        def start(ex, f, this, A, st):
            V.prove_eq('the backend of the loader is started', ex.read(this, st) if False else this, W.backend)
            given.append((A.v(0), A.v(1), st.copy()))
            W.log(st, 'start')
            return UNITV
        C = {**W.contracts(), 'lib:knp::core::Backend::start': start}
        mem = {**W.mem, 'ghost:handlers': handlers}
        r = run(V, f, ins, C, this=me, mem=mem)
        V.no_throw(r)
        V.prove_eq('the backend is started once', r.st.mem[LOG], unit(W.event('start'), W.evs))
        V.prove_eq('the executor is unchanged', V.out(r, 'this'), me)
        pre, post, st0 = V.called('starts the backend', given)
        ex = r.ex

        # what each part does is proved on its own: here it is written down that it was asked
        def note(kind, who, num=lambda avs: Z0):
            def hook(ex, f, this, avs, st):
                W.log(st, kind, who=who(ex.read(this, st)), num=num(avs))
                return UNITV if ex.p.sort(f['ret']) == UNIT else fresh('unused', ex.p.sort(f['ret']))
            return hook
        answer = var('answer', BOOL)

        def predicate(ex, c, avs, st, ret):
            V.prove_eq('the predicate given is asked', c, ins['run_predicate'])
            W.log(st, 'predicate', num=ex.read(avs[0], st) if avs[0].sort == LOC else avs[0])
            return answer
        ex.contracts.update({
            '@' + IO + 'input::InputChannel::send': note('send', uid, lambda avs: avs[0]),
            '@' + IO + 'output::OutputChannel::update': note('update', uid),
            '@' + EX + 'SpikeMessageHandler::update': note('handle', uid, lambda avs: avs[0]),
            '@' + FW + 'monitoring::MessageObserver::update': note('observe', lambda o: uid(o, 'base_data_')),
            '@apply': predicate})
        step = var('step', U64)
        ld = g(me, 'loader_')
        each = lambda seq, ev: tab(seqlen(seq), lam([k], ev(seqat(seq, k))), W.evs)
        for what, c, args in (('before', pre, [step]), ('after', post, [step])):
            st = st0.copy()
            st.mem[LOG] = nil(W.evs)
            ret = ex.lib.apply(c, list(args), st, None)
            log = st.mem[LOG]
            if what == 'before':
                V.prove_eq('before a step every input channel sends for the step, then the predicate is asked', log,
                           cat(each(g(ld, 'in_channels_'), lambda c: W.event('send', uid(c), num=step)), unit(W.event('predicate', num=step), W.evs)))
                V.prove_eq('the step is made exactly if the predicate says so', ret, answer)
            else:
                blocks = [each(g(ld, 'out_channels_'), lambda c: W.event('update', uid(c))),
                          each(handlers, lambda h: W.event('handle', uid(h), num=st0.mem['ghost:step'])),
                          each(g(me, 'observers_'), lambda o: W.event('observe', observers(o)))]
                ways = [cat(*x) for x in itertools.permutations(blocks)]
                want = next((x for x in ways if x is log), ways[0])
                V.prove_eq('after a step all output channels, all handlers (for the step reached) and all observers are updated once', log, want)
                V.prove_eq('the backend goes on after a step', ret, TRUE)
            V.prove('%s a step nothing is thrown' % what, not_(or_(*[c for c, _, _ in st.thr])))
    V.contract(name(p, f), body)


def always(V, p, W, f):
    """start() goes on until stopped."""
    def body():
        me, ins = setup(p, f)
        given = []

        def start(ex, f, this, avs, st):
            if len(avs) != 1:
                return NotImplemented
            V.prove_eq('starts the same executor', this, ir.loc('P_this'))
            given.append((avs[0], st.copy()))
            return UNITV
        r = run(V, f, ins, {**W.contracts(), '@' + EX + 'start': start}, this=me, mem=W.mem)
        V.no_throw(r)
        c, st = V.called('starts with a predicate', given)
        V.prove_eq('every step is made', r.ex.lib.apply(c, [var('step', U64)], st, None), TRUE)
        V.prove_eq('the executor is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def switch(V, p, W, f):
    def body():
        me, ins = setup(p, f)
        me = setf(me, loader_=setf(g(me, 'loader_'), backend_=W.backend))

        def done(ex, f, this, A, st):
            V.prove_eq('asks the backend of the loader', this, W.backend)
            W.log(st, f['sn'])
            return UNITV
        C = {'lib:knp::core::Backend::' + f['sn']: done,
             '@knp::core::Backend::' + f['sn']: done}
        r = run(V, f, ins, {**W.contracts(), **C}, this=me, mem=W.mem)
        V.no_throw(r)
        V.prove_eq('the backend is asked once', r.st.mem[LOG], unit(W.event(f['sn']), W.evs))
        V.prove_eq('the executor is unchanged', V.out(r, 'this'), me)
    V.contract(name(p, f), body)


def executor(V, p, W, f):
    """the constructor loads the model into the backend."""
    def body():
        me, ins = setup(p, f)
        ins['backend'] = W.backend
        seen = []

        def load(ex, f, this, avs, st):
            seen.append((ex.read(this, st), avs[0]))
            W.log(st, 'load_populations')
            return UNITV
        r = run(V, f, ins, {**W.contracts(), '@' + ML + 'load': load}, mem=W.mem)
        V.no_throw(r)
        V.prove_eq('the model is loaded once', r.st.mem[LOG], unit(W.event('load_populations'), W.evs))
        ld, model = V.called('loads a model', seen)
        V.prove_eq('the model given is loaded', model, ir.loc('P_model'))
        for o in (ld, g(r.ret, 'loader_')):
            V.prove_eq('with the backend given', g(o, 'backend_'), W.backend)
            V.prove_eq('with the input generators given', g(o, 'i_map_'), ins['i_map'])
        for n in ('observers_', 'message_handlers_'):
            V.prove_eq('there is nothing in %s' % n, seqlen(g(r.ret, n)), Z0)
    V.contract(name(p, f), body)


def adding(V, p, W, f):
    """add_spike_message_handler: between the senders and the receivers."""
    def body():
        me, ins = setup(p, f)
        me = setf(me, loader_=setf(g(me, 'loader_'), backend_=W.backend))

        def direct(ex, f, this, A, st):
            V.prove_eq('receivers are subscribed at the backend of the loader', this, W.backend)
            W.log(st, 'subscribe', A.v(0), A.v(1), ep=st.mem['ghost:backend_endpoint'])
            return ir.loc('ghost:subscription')
        C = {'lib:knp::core::Backend::subscribe': direct,
             '@knp::core::Backend::subscribe': lambda ex, f, this, avs, st: direct(ex, f, this, Given(ex, avs, st), st)}
        r = run(V, f, ins, {**W.contracts(), **C}, this=me, mem=W.mem)
        V.no_throw(r)
        out = V.out(r, 'this')
        old, new = g(me, 'message_handlers_'), g(out, 'message_handlers_')
        V.prove_eq('one handler more', seqlen(new), add(seqlen(old), I(1)))
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('the handlers before stay', seqat(new, k), seqat(old, k), [lt(k, seqlen(old))])
        h = r.ex.read(seqat(new, seqlen(old)), r.st)
        ep = uf('endpoint', [Z0], W.ep)
        V.prove_eq('it has the identity given', uid(h), ins['uid'])
        V.prove_eq('it has an endpoint of its own', g(h, 'endpoint_'), ep)
        V.prove_eq('it answers with the function given', g(h, 'message_handler_function_'), ins['message_handler_function'])
        rs = ins['receivers']
        V.prove_eq('it is subscribed to the senders and every receiver is subscribed to it', r.st.mem[LOG],
                   cat(unit(W.event('subscribe', ins['uid'], ins['senders'], ep=ep), W.evs),
                       tab(seqlen(rs), lam([k], W.event('subscribe', seqat(rs, k), unit(ins['uid'], W.uids), ep=W.mem['ghost:backend_endpoint'])), W.evs)))
        V.prove_eq('nothing else changes', setf(out, message_handlers_=old), me)
    V.contract(name(p, f), body)


class Given:
    """arguments that are already evaluated."""

    def __init__(self, ex, avs, st):
        self.v = lambda i: ex.read(avs[i], st) if avs[i].sort == LOC and avs[i].op == 'loc' else avs[i]


def observing(V, p, W, f):
    """add_observer: a new observer with an endpoint of its own, subscribed to the senders."""
    def body():
        me, ins = setup(p, f)
        me = setf(me, loader_=setf(g(me, 'loader_'), backend_=W.backend))
        r = run(V, f, ins, W.contracts(), this=me, mem=W.mem)
        V.no_throw(r)
        out = V.out(r, 'this')
        old, new = g(me, 'observers_'), g(out, 'observers_')
        V.prove_eq('one observer more', seqlen(new), add(seqlen(old), I(1)))
        k = fresh('k', Z, 0, SIZEMAX)
        V.prove_eq('the observers before stay', seqat(new, k), seqat(old, k), [lt(k, seqlen(old))])
        o = seqat(new, seqlen(old))
        ep = uf('endpoint', [Z0], W.ep)
        i = [i for i, s in enumerate(o.sort[1]) if [x for n, x in rfields(s) if n == 'process_messages_'][0] == ins['message_processor'].sort]
        V.prove_eq('it observes messages of this kind', vidx(o), I(i[0]))
        x = vget(o, i[0])
        V.prove_eq('it has an endpoint of its own', g(x, 'endpoint_'), ep)
        V.prove_eq('it calls the processor given', g(x, 'process_messages_'), ins['message_processor'])
        V.prove_eq('it is subscribed to the senders', r.st.mem[LOG], unit(W.event('subscribe', uid(x, 'base_data_'), ins['senders'], ep=ep), W.evs))
        V.prove_eq('nothing else changes', setf(out, observers_=old), me)
    V.contract(name(p, f), body)


def f03e(V):
    p = V.programs['base']
    W = World(p)
    fs = [f for f in p.fns_all() if f['n'].startswith(EX) and 'body' in f]
    for f in fs:
        n = f['n'][len(EX):]
        if n == 'start':
            (starting if f['params'] else always)(V, p, W, f)
        elif n in ('stop', 'start_learning', 'stop_learning'):
            switch(V, p, W, f)
        elif n == 'ModelExecutor' and len(f['params']) > 1:
            executor(V, p, W, f)
        elif n == 'add_spike_message_handler':
            adding(V, p, W, f)
        elif n == 'add_observer':
            observing(V, p, W, f)


def f03(V):
    f03a(V)
    f03b(V)
    f03c(V)


def f04(V):
    f03d(V)
    f03e(V)
