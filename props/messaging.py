"""M01, M02: subscriptions, endpoints and the CPU message bus."""
from vc import *
import ir

ME = 'knp::core::MessageEndpoint::'
SU = 'knp::core::Subscription::'
IMPL = 'knp::core::messaging::impl::MessageEndpointImpl::'
INBOX, OUTBOX = 'ghost:inbox', 'ghost:outbox'


def c_receive(ex, f, this, avs, st):
    """the transport hands over the pending messages one by one, in order."""
    q = st.mem[INBOX]
    n = seqlen(q)
    c = gt(n, I(0))
    os_ = ex.p.sort(f['ret'])
    st.mem[INBOX] = ite(c, slice_(q, I(1), sub(n, I(1))), q)
    return ite(c, some(seqat(q, I(0))), none(os_[1]))


def c_send(ex, f, this, avs, st):
    v = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
    st.mem[OUTBOX] = cat(st.mem[OUTBOX], unit(v, st.mem[OUTBOX].sort), sort=st.mem[OUTBOX].sort)
    return UNITV


C = {'@' + IMPL + 'receive_message': c_receive, '@' + IMPL + 'send_message': c_send}


def table(m, dom, val):
    """map with keys dom(q) and values val(q)."""
    q = fresh('q', m.sort[1])
    return mtab(lam([q], dom(q)), lam([q], val(q)), m.sort)


class Ep:
    """symbolic endpoint satisfying the representation invariant: the entry stored under (type, receiver) is a
    subscription of that receiver for that message type."""

    def __init__(self, V):
        p = self.p = V.programs['cpu']
        f = self.fn('remove_receiver')
        ep = var('endpoint', p.sort(f['cls']))
        self.uid = p.sort(p.strip(f['params'][0]['t']))
        self.set = ('M', self.uid, UNIT)
        self.senders = var('allowed_senders', self.set)
        self.msg = p.sort(p.strip(self.fn('send_message')['params'][0]['t']))
        self.inbox = var('pending', ('S', self.msg))
        self.outbox = var('outgoing', ('S', self.msg))
        raw_ = g(ep, 'subscriptions_')
        self.n = len(raw_.sort[2][1])

        def val(q):
            return self.case(first(q), lambda i: inj(i, setf(vget(mval(raw_, q), i), receiver_=second(q)), raw_.sort[2]))
        self.subs = table(raw_, lambda q: and_(mdom(raw_, q), or_(*[eq(first(q), I(i)) for i in range(self.n)])), val)
        self.ep = setf(ep, senders_=ir.loc('SENDERS'), impl_=ir.loc('IMPL'), subscriptions_=self.subs)
        self.mem = {'SENDERS': self.senders, 'IMPL': I(0), INBOX: self.inbox, OUTBOX: self.outbox}
        self.keysort = raw_.sort[1]

    def case(self, i, f):
        """f(j) for the alternative j = i."""
        r = f(self.n - 1)
        for j in reversed(range(self.n - 1)):
            r = ite(eq(i, I(j)), f(j), r)
        return r

    def fn(self, name, i=None):
        fs = [x for x in self.p.fns_all() if x['n'] == ME + name and 'body' in x]
        if i is not None:
            fs = [x for x in fs if self.p.sort(x['ta'][0]['t']) == self.msg[1][i]]
        if len(fs) != 1:
            raise Unsupported('%d functions %s' % (len(fs), name))
        return fs[0]

    def key(self, i, uid):
        return rec(self.keysort, [I(i, rfields(self.keysort)[0][1]), uid])

    def run(self, V, f, ins, **kw):
        return V.run('cpu', f, ins, this=self.ep, contracts=C, mem=self.mem, **kw)

    def inset(self, s, seq):
        """s with the elements of seq added."""
        return table(s, lambda q: or_(mdom(s, q), contains(seq, q)), lambda q: UNITV)

    def sub_senders(self, subs, q):
        v = mval(subs, q)
        return self.case(vidx(v), lambda i: g(vget(v, i), 'senders_'))

    def all_senders(self, subs):
        """senders of any of the subscriptions."""
        k = fresh('k', Z, 0, SIZEMAX)
        return table(self.senders, lambda q: not_(forall_lt(msize(subs), lam([k], not_(mdom(self.sub_senders(
            subs, mkey(subs, k)), q))))), lambda q: UNITV)

    def frame(self, V, lab, r, *changed):
        out = V.out(r, 'this')
        if 'subscriptions' not in changed:
            V.prove_eq(lab + 'subscriptions unchanged', g(out, 'subscriptions_'), self.subs)
        V.prove_eq(lab + 'same transport', g(out, 'impl_'), g(self.ep, 'impl_'))
        V.prove_eq(lab + 'same sender set object', g(out, 'senders_'), g(self.ep, 'senders_'))
        for n, root, v in (('senders', 'SENDERS', self.senders), ('pending', INBOX, self.inbox), ('sent', OUTBOX, self.outbox)):
            if n not in changed:
                V.prove_eq(lab + n + ' unchanged', r.st.mem[root], v)
        V.no_throw(r, lab + 'does not throw')

    def invariant(self, V, lab, subs):
        q = fresh('key', self.keysort)
        v = mval(subs, q)
        V.prove(lab + 'entry stored under its type and receiver', or_(not_(mdom(subs, q)), and_(
            or_(*[eq(first(q), I(i)) for i in range(self.n)]),
            eq(vidx(v), first(q)), self.case(first(q), lambda i: eq(g(vget(v, i), 'receiver_'), second(q))))))


def first(q):
    return fld(q, 'first')


def second(q):
    return fld(q, 'second')


def contains(seq, x):
    k = fresh('k', Z, 0, SIZEMAX)
    return not_(forall_lt(seqlen(seq), lam([k], not_(eq(x, seqat(seq, k))))))


def c_subscribe(V, E, i):
    def body():
        f = E.fn('subscribe', i)
        recv = var('receiver', E.uid)
        snd = var('senders', ('S', E.uid))
        r = E.run(V, f, {'receiver': recv, 'senders': snd})
        key = E.key(i, recv)
        old = vget(mval(E.subs, key), i)
        ssort = E.subs.sort[2][1][i]
        ex = mdom(E.subs, key)
        empty = rec(ssort, [dict(receiver_=recv, senders_=E.inset(mempty(E.set), snd), messages_=nil(g(old, 'messages_').sort))[n]
                            for n, _ in rfields(ssort)])
        new = ite(ex, setf(old, senders_=E.inset(g(old, 'senders_'), snd)), empty)
        lab = 'message type %d: ' % i
        out = g(V.out(r, 'this'), 'subscriptions_')
        V.prove_eq(lab + 'the subscription exists, lists the new senders, keeps its old senders and messages; others unchanged',
                   out, mstore(E.subs, key, inj(i, new, E.subs.sort[2])))
        V.prove_eq(lab + 'returns the subscription', V.retval(r), new)
        V.prove_eq(lab + 'bus filter gains the senders', r.st.mem['SENDERS'], E.inset(E.senders, snd))
        E.invariant(V, lab, out)
        E.frame(V, lab, r, 'subscriptions', 'senders')
    V.contract(ME + 'subscribe [%d]' % i, body)


def c_unsubscribe(V, E, i):
    def body():
        f = E.fn('unsubscribe', i)
        recv = var('receiver', E.uid)
        r = E.run(V, f, {'receiver': recv})
        key = E.key(i, recv)
        ex = mdom(E.subs, key)
        lab = 'message type %d: ' % i
        out = g(V.out(r, 'this'), 'subscriptions_')
        V.prove_eq(lab + 'the subscription is gone, others unchanged', out, ite(ex, merase(E.subs, key), E.subs))
        V.prove_eq(lab + 'tells whether it existed', V.retval(r), ex)
        V.prove_eq(lab + 'bus filter lists exactly the senders of the remaining subscriptions', r.st.mem['SENDERS'],
                   ite(ex, E.all_senders(merase(E.subs, key)), E.senders))
        E.invariant(V, lab, out)
        E.frame(V, lab, r, 'subscriptions', 'senders')
    V.contract(ME + 'unsubscribe [%d]' % i, body)


def c_unload(V, E, i):
    def body():
        f = E.fn('unload_messages', i)
        recv = var('receiver_uid', E.uid)
        r = E.run(V, f, {'receiver_uid': recv})
        key = E.key(i, recv)
        ex = mdom(E.subs, key)
        old = vget(mval(E.subs, key), i)
        ms = g(old, 'messages_')
        lab = 'message type %d: ' % i
        V.prove_eq(lab + 'returns the messages of the subscription in order', V.retval(r), ite(ex, ms, nil(ms.sort)))
        out = g(V.out(r, 'this'), 'subscriptions_')
        V.prove_eq(lab + 'leaves the subscription without messages, others unchanged', out,
                   ite(ex, mstore(E.subs, key, inj(i, setf(old, messages_=nil(ms.sort)), E.subs.sort[2])), E.subs))
        E.invariant(V, lab, out)
        E.frame(V, lab, r, 'subscriptions')
    V.contract(ME + 'unload_messages [%d]' % i, body)


def c_remove(V, E):
    def body():
        recv = var('receiver', E.uid)
        r = E.run(V, E.fn('remove_receiver'), {'receiver': recv})
        out = g(V.out(r, 'this'), 'subscriptions_')
        want = table(E.subs, lambda q: and_(mdom(E.subs, q), not_(eq(second(q), recv))), lambda q: mval(E.subs, q))
        V.prove_eq('removes exactly the subscriptions of the receiver', out, want)
        V.prove_eq('bus filter lists exactly the senders of the remaining subscriptions', r.st.mem['SENDERS'],
                   E.all_senders(out))
        E.invariant(V, '', out)
        E.frame(V, '', r, 'subscriptions', 'senders')
    V.contract(ME + 'remove_receiver', body)


def delivered(E, subs, q, v, msg):
    """value v of the subscription under key q after delivery of msg."""
    def at(i):
        s = vget(v, i)
        m = vget(msg, i)
        snd = g(g(m, 'header_'), 'sender_uid_')
        return ite(and_(eq(vidx(msg), I(i)), mdom(g(s, 'senders_'), snd)),
                   inj(i, setf(s, messages_=cat(g(s, 'messages_'), unit(m, g(s, 'messages_').sort))), subs.sort[2]), v)
    return E.case(first(q), at)


def c_receive_one(V, E):
    def body():
        r = E.run(V, E.fn('receive_message'), {})
        q0 = E.inbox
        some_ = gt(seqlen(q0), I(0))
        V.prove_eq('tells whether a message was pending', V.retval(r), some_)
        V.prove_eq('takes exactly the first pending message', r.st.mem[INBOX],
                   ite(some_, slice_(q0, I(1), sub(seqlen(q0), I(1))), q0))
        msg = seqat(q0, I(0))
        out = g(V.out(r, 'this'), 'subscriptions_')
        V.prove_eq('appends it once to every subscription of its type listing its sender, and to no other', out,
                   ite(some_, table(E.subs, lambda q: mdom(E.subs, q),
                                    lambda q: delivered(E, E.subs, q, mval(E.subs, q), msg)), E.subs))
        E.invariant(V, '', out)
        E.frame(V, '', r, 'subscriptions', 'pending')
    V.contract(ME + 'receive_message', body)


def c_receive_all(V, E):
    def body():
        r = E.run(V, E.fn('receive_all_messages'), {})
        q0 = E.inbox
        V.prove_eq('returns the number of pending messages', V.retval(r), seqlen(q0))
        V.prove_eq('takes all pending messages', r.st.mem[INBOX], nil(q0.sort))
        out = g(V.out(r, 'this'), 'subscriptions_')
        V.prove_eq('every subscription gains the pending messages meant for it once each, in order', out,
                   table(E.subs, lambda q: mdom(E.subs, q), lambda q: foldl(
                       seqlen(q0), mval(E.subs, q), lambda k, v: delivered(E, E.subs, q, v, seqat(q0, k)))))
        E.frame(V, '', r, 'subscriptions', 'pending')
    V.contract(ME + 'receive_all_messages', body)


def c_send_one(V, E):
    def body():
        m = var('message', E.msg)
        r = E.run(V, E.fn('send_message'), {'message': m})
        V.prove_eq('hands the message to the transport once', r.st.mem[OUTBOX],
                   cat(E.outbox, unit(m, E.outbox.sort), sort=E.outbox.sort))
        E.frame(V, '', r, 'sent')
    V.contract(ME + 'send_message', body)


def c_subscription(V, E, i):
    p = E.p
    ss = E.subs.sort[2][1][i]
    msgt = E.msg[1][i]
    sb = var("subscription", ss)
    snd = g(sb, "senders_")
    x = var('uid', E.uid)
    xs = var('uids', ('S', E.uid))
    m = var('message', msgt)
    old = g(sb, "messages_")

    def go(name, ins, want, ret=None):
        fs = [f for f in p.fns_all() if f['n'] == SU + name and 'body' in f and p.sort(f['cls']) == ss]
        if not fs:
            raise Unsupported('no function ' + name)
        for f in fs:
            r = V.run('cpu', f, ins, this=sb)
            V.prove_eq('%s: resulting subscription' % name, V.out(r, 'this'), setf(sb, **want))
            if ret is not None:
                V.prove_eq('%s: result' % name, V.retval(r), ret)
            V.no_throw(r, '%s: does not throw' % name)
    one = mstore(snd, x, UNITV)
    was = mdom(snd, x)
    for name, ins, want, ret in (
            ('get_senders', {}, {}, snd),
            ('get_receiver_uid', {}, {}, g(sb, "receiver_")),
            ('remove_sender', {'uid': x}, {'senders_': ite(was, merase(snd, x), snd)}, ite(was, I(1, U64), I(0, U64))),
            ('add_sender', {'uid': x}, {'senders_': one}, ite(was, I(0, U64), I(1, U64))),
            ('add_senders', {'senders': xs}, {'senders_': E.inset(snd, xs)}, u(64, sub(msize(E.inset(snd, xs)), msize(snd)))),
            ('has_sender', {'uid': x}, {}, was),
            ('add_message', {'message': m}, {'messages_': cat(old, unit(m, old.sort), sort=old.sort)}, None),
            ('get_messages', {}, {}, old),
            ('clear_messages', {}, {'messages_': nil(old.sort)}, None)):
        V.contract(SU + name + ' [%d]' % i, lambda: go(name, ins, want, ret))

    def ctor():
        f, = [f for f in p.fns_all() if f['n'] == SU + 'Subscription' and 'body' in f and p.sort(f['cls']) == ss]
        r = V.run('cpu', f, {'receiver': x, 'senders': xs})
        V.prove_eq('constructor: receiver, the given senders, no messages', V.retval(r),
                   rec(ss, [dict(receiver_=x, senders_=E.inset(mempty(E.set), xs), messages_=nil(old.sort))[n]
                            for n, _ in rfields(ss)]))
        V.no_throw(r)
    V.contract(SU + 'Subscription [%d]' % i, ctor)


def m01(V):
    E = Ep(V)
    for i in range(E.n):
        c_subscription(V, E, i)
    for i in range(E.n):
        c_subscribe(V, E, i)
        c_unsubscribe(V, E, i)
        c_unload(V, E, i)
    c_remove(V, E)
    c_receive_one(V, E)
    c_receive_all(V, E)
    c_send_one(V, E)


BUS = 'knp::core::messaging::impl::MessageBusCPUImpl::'
EPC = 'knp::core::messaging::impl::MessageEndpointCPUImpl::'
MB = 'knp::core::MessageBus::'
BI = 'knp::core::messaging::impl::MessageBusImpl::'


class Bus:
    """symbolic CPU bus with any number of endpoints, each alive or destroyed."""

    def __init__(self, V):
        p = self.p = V.programs['cpu']
        E = self.E = Ep(V)
        self.upd, self.stp = self.fn(BUS + 'update'), self.fn(BUS + 'step')
        bus = var('bus', p.sort(self.upd['cls']))
        self.n = size_var('n_endpoints')
        ds = g(bus, 'endpoint_data_').sort
        i = fresh('i', Z, 0, SIZEMAX)
        names = [a for a, _ in rfields(ds[1])]
        self.roots = ('SEND', 'RECV', 'ALLOW')
        self.data = tab(self.n, lam([i], rec(ds[1], [ir.loc(r, (('i',),), (i,)) for r in self.roots])), ds)
        self.q = g(bus, 'messages_to_route_')
        self.bus = setf(bus, endpoint_data_=self.data)
        ms = self.q.sort
        self.send, self.recv, self.allow = var('outgoing', ('S', ms)), var('incoming', ('S', ms)), var('filters', ('S', E.set))
        self.dead = [var('destroyed_%d' % j, ('S', BOOL)) for j in range(3)]
        # both message queues of an endpoint are owned by the same object, see create_endpoint
        self.dead[1] = self.dead[0]
        self.mem = dict(zip(self.roots, (self.send, self.recv, self.allow)))
        self.mem.update({'expired:' + r: d for r, d in zip(self.roots, self.dead)})
        self.facts = [eq(seqlen(x), self.n) for x in [self.send, self.recv, self.allow] + self.dead]

    def fn(self, name):
        fs = [x for x in self.p.fns_all() if x['n'] == name and 'body' in x]
        if len(fs) != 1:
            raise Unsupported('%d functions %s' % (len(fs), name))
        return fs[0]

    def per(self, f, sort):
        i = fresh('i', Z, 0, SIZEMAX)
        return tab(self.n, lam([i], f(i)), sort)

    def sender(self, m):
        n = len(m.sort[1])
        r = g(g(vget(m, n - 1), 'header_'), 'sender_uid_')
        for j in reversed(range(n - 1)):
            r = ite(eq(vidx(m), I(j)), g(g(vget(m, j), 'header_'), 'sender_uid_'), r)
        return r

    def admits(self, i, m):
        """endpoint i is alive and subscribed to the sender of m."""
        return and_(not_(seqat(self.dead[1], i)), not_(seqat(self.dead[2], i)), mdom(seqat(self.allow, i), self.sender(m)))

    def after_update(self):
        i = fresh('i', Z, 0, SIZEMAX)
        ds = self.data.sort
        q = cat(self.q, flat(self.n, lam([i], ite(seqat(self.dead[0], i), nil(self.q.sort), seqat(self.send, i)))),
                sort=self.q.sort)
        send = self.per(lambda i: ite(seqat(self.dead[0], i), seqat(self.send, i), nil(self.q.sort)), self.send.sort)
        data = flat(self.n, lam([i], ite(seqat(self.dead[0], i), nil(ds), unit(seqat(self.data, i), ds))), ds)
        return q, send, data


def m02(V):
    B = Bus(V)
    ms = B.q.sort

    def update():
        r = V.run('cpu', B.upd, {}, this=B.bus, mem=B.mem)
        q, send, data = B.after_update()
        out = V.out(r, 'this')
        V.prove_eq('queues everything the live endpoints sent, in their order, after what was queued', g(out, 'messages_to_route_'),
                   q, B.facts)
        V.prove_eq('takes the messages out of the live endpoints', r.st.mem['SEND'], send, B.facts)
        V.prove_eq('forgets exactly the destroyed endpoints', g(out, 'endpoint_data_'), data, B.facts)
        for x in B.roots[1:]:
            V.prove_eq('%s unchanged' % x, r.st.mem[x], B.mem[x])
        V.no_throw(r)
    V.contract(BUS + 'update', update)

    def step():
        r = V.run('cpu', B.stp, {}, this=B.bus, mem=B.mem)
        out = V.out(r, 'this')
        n = seqlen(B.q)
        some_ = gt(n, I(0))
        V.prove_eq('reports the number of messages taken from the queue', V.retval(r), ite(some_, I(1, U64), I(0, U64)))
        V.prove_eq('takes the last queued message', g(out, 'messages_to_route_'),
                   ite(some_, slice_(B.q, I(0), sub(n, I(1))), B.q))
        m = seqat(B.q, sub(n, I(1)))
        V.prove_eq('hands it once to every live endpoint admitting its sender, and to no other', r.st.mem['RECV'], ite(
            some_, B.per(lambda i: ite(B.admits(i, m), cat(seqat(B.recv, i), unit(m, ms)), seqat(B.recv, i)), B.recv.sort), B.recv),
            B.facts)
        V.prove_eq('endpoints stay registered', g(out, 'endpoint_data_'), B.data)
        for x in ('SEND', 'ALLOW'):
            V.prove_eq('%s unchanged' % x, r.st.mem[x], B.mem[x])
        V.no_throw(r)
    V.contract(BUS + 'step', step)

    def route():
        f = B.fn(MB + 'route_messages')
        top = var('message_bus', B.p.sort(f['cls']))
        top = setf(top, impl_=ir.loc('BUS'))
        C = {'@' + BI + 'update': lambda ex, f, this, avs, st: ex.call(B.upd, this, [], st),
             '@' + BI + 'step': lambda ex, f, this, avs, st: ex.call(B.stp, this, [], st)}
        r = V.run('cpu', f, {}, this=top, mem=dict(B.mem, BUS=B.bus), contracts=C)
        q, send, data = B.after_update()
        n = seqlen(q)
        V.prove_eq('returns the number of routed messages', V.retval(r), n, B.facts)
        out = r.st.mem['BUS']
        V.prove_eq('leaves nothing queued', g(out, 'messages_to_route_'), nil(ms), B.facts)

        def gains(i):
            k = fresh('k', Z, 0, SIZEMAX)
            m = seqat(q, sub(sub(n, I(1)), k))
            return flat(n, lam([k], ite(B.admits(i, m), unit(m, ms), nil(ms))), ms)
        V.prove_eq('every live endpoint gains exactly the messages whose sender it admits, once each, last queued first',
                   r.st.mem['RECV'], B.per(lambda i: cat(seqat(B.recv, i), gains(i), sort=ms), B.recv.sort), B.facts)
        V.prove_eq('takes the messages out of the live endpoints', r.st.mem['SEND'], send, B.facts)
        V.prove_eq('forgets exactly the destroyed endpoints', g(out, 'endpoint_data_'), data, B.facts)
        V.no_throw(r)
    V.contract(MB + 'route_messages', route)

    def ep_receive():
        f = B.fn(EPC + 'receive_message')
        q = var('received', ms)
        s = var('to_send', ms)
        this = setf(var('endpoint_impl', B.p.sort(f['cls'])), messages_to_send_=ir.loc('S'), received_messages_=ir.loc('R'))
        r = V.run('cpu', f, {}, this=this, mem=dict(S=s, R=q))
        n = seqlen(q)
        some_ = gt(n, I(0))
        os_ = B.p.sort(f['ret'])
        V.prove_eq('returns the most recently routed message', V.retval(r), ite(some_, some(seqat(q, sub(n, I(1)))), none(os_[1])))
        V.prove_eq('takes it out', r.st.mem['R'], ite(some_, slice_(q, I(0), sub(n, I(1))), q))
        V.prove_eq('outgoing messages unchanged', r.st.mem['S'], s)
        V.no_throw(r)
    V.contract(EPC + 'receive_message', ep_receive)

    def ep_send():
        f = B.fn(EPC + 'send_message')
        q = var('received', ms)
        s = var('to_send', ms)
        m = var('message', ms[1])
        this = setf(var('endpoint_impl', B.p.sort(f['cls'])), messages_to_send_=ir.loc('S'), received_messages_=ir.loc('R'))
        r = V.run('cpu', f, {'message': m}, this=this, mem=dict(S=s, R=q))
        V.prove_eq('appends the message to the outgoing ones', r.st.mem['S'], cat(s, unit(m, ms), sort=ms))
        V.prove_eq('received messages unchanged', r.st.mem['R'], q)
        V.no_throw(r)
    V.contract(EPC + 'send_message', ep_send)

    def create():
        f = B.fn(BUS + 'create_endpoint')
        d0 = g(B.bus, 'endpoint_data_')
        r = V.run('cpu', f, {}, this=B.bus, mem=B.mem)
        out = V.out(r, 'this')
        ep = V.retval(r)
        d = g(out, 'endpoint_data_')
        last = seqat(d, B.n)
        V.prove_eq('registers the endpoint after the others', d, cat(d0, unit(last, d0.sort), sort=d0.sort))
        S, R, A = [fld(last, n) for n, _ in rfields(last.sort)]
        impl = r.ex.read(g(ep, 'impl_'), r.st)
        V.prove('the endpoint sends into the queue the bus reads', eq(g(impl, 'messages_to_send_'), S))
        V.prove('the endpoint receives from the queue the bus fills', eq(g(impl, 'received_messages_'), R))
        V.prove('the bus filters by the sender set of the endpoint', eq(g(ep, 'senders_'), A))
        V.prove_eq('nothing sent', r.ex.read(S, r.st), nil(ms))
        V.prove_eq('nothing received', r.ex.read(R, r.st), nil(ms))
        V.prove_eq('subscribed to nobody', r.ex.read(A, r.st), mempty(B.E.set))
        V.prove('the queues and the filter are different objects of no other endpoint', TRUE if len(
            {x.pl[0] for x in (S, R, A)} | set(B.mem)) == len(B.mem) + 3 and all(x.op == 'loc' and not x.pl[1] for x in (S, R, A)) else FALSE)
        V.prove_eq('queued messages unchanged', g(out, 'messages_to_route_'), B.q)
        V.no_throw(r)
    V.contract(BUS + 'create_endpoint', create)
