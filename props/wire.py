"""M03: messages survive being turned into bytes and sent over sockets."""
from vc import *
import ir

MS = 'knp::core::messaging::'
FB = 'lib:flatbuffers::'
FBB = FB + 'FlatBufferBuilder::'
U32 = ('I', 32, False)
U8 = ('I', 8, False)


def m03(V):
    p = V.programs['wire']
    fs = {}
    for f in p.fns_all():
        if 'body' in f and f['n'].startswith(MS):
            fs.setdefault(f['n'][len(MS):], []).append(f)
    for f in fs['pack_internal']:
        kind = p.ts(p.strip(f['params'][1]['t']))['n'].split('::')[-1]
        u = [x for x in fs['unpack'] if p.sort(x['ret']) == p.sort(p.strip(f['params'][1]['t']))]
        V.contract('pack_internal, unpack [%s]' % kind, lambda: internal(V, p, f, u[0]))
        for k in fs.get('pack', []):
            if p.sort(p.strip(k['params'][0]['t'])) == p.sort(u[0]['ret']):
                V.contract('pack [%s]' % kind, lambda: alone(V, p, k, u[0]))
    pk, = fs['pack_to_envelope']
    V.contract('pack_to_envelope, extract_from_envelope', lambda: envelope(V, p, pk, fs['extract_from_envelope']))
    V.contract('extract_from_envelope, unknown', lambda: unknown(V, p, pk, fs['extract_from_envelope']))
    for f in fs['impl::MessageEndpointZMQImpl::send_zmq_message']:
        V.contract('MessageEndpointZMQImpl::send_zmq_message(%s)' % ('data, size' if len(f['params']) > 1 else 'data'), lambda: send_zmq(V, p, f))
    f, = fs['impl::MessageEndpointZMQImpl::receive_zmq_message']
    V.contract('MessageEndpointZMQImpl::receive_zmq_message', lambda: receive_zmq(V, p, f))
    f, = fs['impl::MessageEndpointZMQImpl::send_message']
    V.contract('MessageEndpointZMQImpl::send_message', lambda: send_message(V, p, f))
    f, = fs['impl::MessageEndpointZMQImpl::receive_message']
    V.contract('MessageEndpointZMQImpl::receive_message', lambda: receive_message(V, p, f))
    f, = [x for x in fs['impl::MessageBusZMQImpl::MessageBusZMQImpl'] if x.get('ctor') and not x['params']]
    V.contract('MessageBusZMQImpl::MessageBusZMQImpl', lambda: bus(V, p, f))
    f, = fs['impl::MessageBusZMQImpl::create_endpoint']
    V.contract('MessageBusZMQImpl::create_endpoint', lambda: create_endpoint(V, p, f))
    f, = fs['impl::MessageBusZMQImpl::step']
    V.contract('MessageBusZMQImpl::step', lambda: step(V, p, f))


class Tables:
    """Assumed contract of the FlatBuffers run-time: a finished table gives back, slot by slot, what was added to it;
    a slot that got nothing, or a scalar equal to its default, gives back the default."""

    def __init__(self):
        self.open, self.built, self.vecs, self.root, self.n = None, {}, {}, None, 0

    def new(self, what):
        self.n += 1
        return var('%s%d' % (what, self.n), U32)

    def slot(self, A, i=0):
        v = A.v(i)
        if v.op != 'int':
            raise Unsupported('a slot that is not a constant')
        return v.pl

    # ---- building
    def start(self, ex, f, this, A, st):
        if self.open is not None:
            raise Unsupported('a table begun within a table')
        self.open = {}
        return I(0)

    def add(self, slot, v):
        if self.open is None or slot in self.open:
            raise Unsupported('a slot added twice or outside a table')
        self.open[slot] = v

    def add_struct(self, ex, f, this, A, st):
        l = A.v(1)
        if l is not ir.NULL:
            self.add(self.slot(A), ex.read(l, st))

    def add_offset(self, ex, f, this, A, st):
        o = fld(A.v(1), 'o')
        k = o.pl if o.op == 'var' else None
        if k in self.vecs:
            self.add(self.slot(A), self.vecs[k])
        elif k in self.built:
            self.add(self.slot(A), self.built[k])
        elif o is not I(0):
            raise Unsupported('an offset of nothing')

    def add_element(self, ex, f, this, A, st):
        # an element equal to the default is left out
        self.add(self.slot(A), ('element', A.v(1), A.v(2)))

    def vector(self, ex, f, this, A, st):
        o = self.new('vector')
        v = A.v(0)
        self.vecs[o.pl] = ex.read(v, st) if v.sort == LOC else v
        return ir.rec(ex.p.sort(f['ret']), [o])

    def end(self, ex, f, this, A, st):
        o = self.new('table')
        self.built[o.pl], self.open = self.open, None
        return o

    def finish(self, ex, f, this, A, st):
        if self.root is not None:
            raise Unsupported('finished twice')
        self.root = self.built[fld(A.v(0), 'o').pl]

    # ---- reading
    def table(self, this):
        t = this.pl[0]
        if not t.startswith('ghost:table'):
            raise Unsupported('not a table')
        return self.tabs[t]

    def get_struct(self, ex, f, this, A, st):
        t, k = self.table(this), self.slot(A)
        if k not in t:
            return ir.NULL
        v = t[k]
        if v.sort != ex.p.sort(ex.p.ts(f['ret'])['to']):
            raise Unsupported('a struct of another type')
        st.mem['%s.%d' % (this.pl[0], k)] = v
        return ir.loc('%s.%d' % (this.pl[0], k), (), ())

    def get_pointer(self, ex, f, this, A, st):
        t, k = self.table(this), self.slot(A)
        if k not in t:
            return ir.NULL
        at = '%s.%d' % (this.pl[0], k)
        v = t[k]
        if isinstance(t, Any):
            v = t
        if isinstance(v, dict):
            self.tabs[at] = v
            return ir.loc(at, (), ())
        st.mem[at] = v
        want = ex.p.sort(ex.p.ts(f['ret'])['to'])
        if want == ('S', LOC):
            j = fresh('j', Z, 0)
            st.mem[at + 'p'] = tab(seqlen(v), lam([j], ir.loc(at, (('i',),), (j,))), want)
            at += 'p'
        elif want != v.sort:
            raise Unsupported('a vector of another type')
        return ir.loc(at, (), ())

    def get_field(self, ex, f, this, A, st):
        t, k, d = self.table(this), self.slot(A), A.v(1)
        if k not in t:
            return d
        if not isinstance(t[k], tuple) or not (t[k][1].sort == d.sort or ir.isint(t[k][1].sort) and ir.isint(d.sort)):
            raise Unsupported('an element of another type')
        _, v, left = t[k]
        return ite(eq(v, left), d, v)

    def contracts(self):
        vit = lambda l, i: ir.raw('vit', (l, i), None, ('IT',))
        ident = lambda ex, f, this, A, st: A.v(0)

        def offset(ex, f, this, A, st):
            if len(A) == 0:
                return ir.rec(('R', 'Offset'), [I(0)])
            v = A.v(0)
            return v if v.sort[0] == 'R' else ir.rec(('R', 'Offset'), [v])

        def span(ex, f, this, A, st):
            v = A.v(0)
            return ex.lib.range_val(v, ir.loc(v.pl[0], v.pl[1], v.args[:-1] + (add(v.args[-1], A.v(1)),)), st) if v.sort == LOC else v

        def fill(ex, f, this, A, st):
            ex.write(this, A.v(0), st)

        def assign(ex, f, this, A, st):
            ex.write(this, A.v(0), st)
            return this
        U = 'lib:boost::uuids::uuid::'
        data = lambda ex, this: ex.step(this, ('f', 'data'))
        def root(ex, f, this, A, st):
            l = A.v(0)
            if not (l.op == 'loc' and l.pl[0] == 'ghost:bytes' and l.args == (I(0),)):
                raise Unsupported('not the begin of the bytes')
            return ir.loc('ghost:table', (), ())

        def element(ex, f, this, A, st):
            i = A.v(0)
            ex.oblige(st, and_(le(I(0), i), lt(i, seqlen(ex.read(this, st)))), 'an element that is there')
            return ex.read(ex.step(this, ('i',), i), st)
        return {**{FB + c + '::' + m: element for c in ('Vector', 'Array') for m in ('Get', 'operator[]')},
                FBB + 'FlatBufferBuilder': lambda ex, f, this, A, st: var('builder', ('O', 'flatbuffers::FlatBufferBuilder')),
                FBB + '~FlatBufferBuilder': lambda ex, f, this, A, st: None,
                FBB + 'GetBufferPointer': lambda ex, f, this, A, st: ir.loc('ghost:bytes', (('i',),), (I(0),)),
                FBB + 'GetSize': lambda ex, f, this, A, st: seqlen(st.mem['ghost:bytes']),
                FB + 'GetRoot': root,
                FBB + 'StartTable': self.start, FBB + 'AddStruct': self.add_struct, FBB + 'AddOffset': self.add_offset,
                FBB + 'AddElement': self.add_element, FBB + 'CreateVector': self.vector, FBB + 'CreateVectorOfStructs': self.vector,
                FBB + 'EndTable': self.end, FBB + 'Finish': self.finish,
                FB + 'Table::GetStruct': self.get_struct, FB + 'Table::GetPointer': self.get_pointer, FB + 'Table::GetField': self.get_field,
                FB + 'EndianScalar': ident, FB + 'CastToArray': lambda ex, f, this, A, st: A.l(0),
                FB + 'Offset::Offset': offset, FB + 'Offset::operator=': assign, FB + 'span::span': span, FB + 'Array::CopyFromSpan': fill,
                FB + 'Array::begin': lambda ex, f, this, A, st: vit(this, I(0)),
                FB + 'Array::end': lambda ex, f, this, A, st: vit(this, seqlen(ex.read(this, st))),
                FB + 'Vector::begin': lambda ex, f, this, A, st: vit(this, I(0)),
                FB + 'Vector::end': lambda ex, f, this, A, st: vit(this, seqlen(ex.read(this, st))),
                FB + 'Vector::size': lambda ex, f, this, A, st: seqlen(ex.read(this, st)),
                U + 'begin': lambda ex, f, this, A, st: vit(data(ex, this), I(0)),
                U + 'end': lambda ex, f, this, A, st: vit(data(ex, this), I(16)),
                U + 'size': lambda ex, f, this, A, st: I(16), U + 'static_size': lambda ex, f, this, A, st: I(16),
                'lib:boost::uuids::nil_uuid': lambda ex, f, this, A, st: ir.rec(('R', 'uuid bytes'), [tab(I(16), lam([fresh('j', Z, 0)], I(0)), ('S', U8))]),
                }


def sizes(msg):
    """identifiers have 16 bytes; what is longer than 2 GB does not fit into a FlatBuffer."""
    return [eq(seqlen(fld(x, 'data')), I(16)) for x in uids(msg)] + \
        [le(seqlen(fld(msg, f)), I(1 << 31)) for f, s in rfields(msg.sort) if s[0] == 'S']


def uids(t):
    """the identifiers within a message."""
    if t.sort == ('R', 'uuid bytes'):
        return [t]
    out = []
    for f, s in (rfields(t.sort) if t.sort[0] == 'R' else ()):
        out += uids(fld(t, f))
    return out


def internal(V, p, f, u):
    T = Tables()
    msg = var('msg', p.sort(p.strip(f['params'][1]['t'])))
    pre = sizes(msg)
    V.requires(*pre)
    r = V.run('wire', f, {f['params'][0]['n']: ir.loc('ghost:builder', (), ()), f['params'][1]['n']: msg}, contracts=T.contracts(), pc=pre)
    V.no_throw(r)
    o = V.retval(r)
    if o.op != 'var' or o.pl not in T.built or T.open is not None:
        raise Unsupported('does not give the offset of a table')
    t = T.built[o.pl]
    V.prove_eq('the message is left as it was', V.out(r, f['params'][1]['n']), msg, r.st.pc)
    T.tabs = {'ghost:table': t}
    r = V.run('wire', u, {u['params'][0]['n']: ir.loc('ghost:table', (), ())}, contracts=T.contracts(), pc=pre)
    V.no_throw(r, 'reading the table does not throw')
    V.prove_rec('reading back gives the message', V.retval(r), msg, r.st.pc)


def alone(V, p, f, u):
    T = Tables()
    msg = var('msg', p.sort(p.strip(f['params'][0]['t'])))
    pre = sizes(msg) + [le(I(0), seqlen(BYTES))]
    V.requires(*pre)
    r = V.run('wire', f, {f['params'][0]['n']: msg}, contracts=T.contracts(), mem={'ghost:bytes': BYTES}, pc=pre)
    V.no_throw(r)
    V.prove_eq('gives all bytes built', V.retval(r), BYTES, r.st.pc)
    if T.root is None:
        raise Unsupported('nothing was finished')
    T.tabs = {'ghost:table': T.root}
    r = V.run('wire', u, {u['params'][0]['n']: ir.loc('ghost:table', (), ())}, contracts=T.contracts(), pc=pre)
    V.prove_eq('reading back gives the message', V.retval(r), msg, r.st.pc)


BYTES = var('bytes', ('S', U8))


def envelope(V, p, f, us):
    sort = p.sort(p.strip(f['params'][0]['t']))
    for i, a in enumerate(sort[1]):
        T = Tables()
        kind = a[1].split('::')[-1]
        msg = var('msg', a)
        pre = sizes(msg) + [le(I(0), seqlen(BYTES))]
        V.requires(*pre)
        given = ir.inj(i, msg, sort)
        r = V.run('wire', f, {f['params'][0]['n']: given}, contracts=T.contracts(), mem={'ghost:bytes': BYTES}, pc=pre)
        V.no_throw(r, 'packing does not throw [%s]' % kind)
        V.prove_eq('gives all bytes built [%s]' % kind, V.retval(r), BYTES, r.st.pc)
        if T.root is None or T.open is not None:
            raise Unsupported('nothing was finished')
        for u in us:
            q = u['params'][0]
            T.tabs = {'ghost:table': T.root}
            at = ir.loc('ghost:bytes', (('i',),), (I(0),)) if p.ts(q['t'])['k'] == 'ptr' else ir.loc('ghost:bytes', (), ())
            r = V.run('wire', u, {q['n']: at}, contracts=T.contracts(), mem={'ghost:bytes': BYTES}, pc=pre)
            what = '%s, %s' % (kind, 'pointer' if p.ts(q['t'])['k'] == 'ptr' else 'vector')
            V.no_throw(r, 'unpacking does not throw [%s]' % what)
            V.prove_eq('unpacking gives the message [%s]' % what, V.retval(r), given, r.st.pc)


def unknown(V, p, f, us):
    sort = p.sort(p.strip(f['params'][0]['t']))
    for u in us:
        T = Tables()
        q = u['params'][0]
        if p.ts(q['t'])['k'] != 'ptr':
            continue
        k = var('kind', U8)
        T.tabs = {'ghost:table': Any(k)}
        pre = [or_(lt(k, I(1)), lt(I(len(sort[1])), k))]
        r = V.run('wire', u, {q['n']: ir.loc('ghost:bytes', (('i',),), (I(0),))}, contracts={
            **T.contracts(), '@' + MS + 'unpack': lambda ex, g_, this, avs, st: fresh('message', p.sort(g_['ret']))}, mem={'ghost:bytes': BYTES},
                  pc=pre)
        V.prove('bytes of no known message are refused', or_(*[c for c, *_ in r.thr]), pre)


class Any(dict):
    def __init__(self, k):
        self.k = k

    def __contains__(self, x):
        return True

    def __getitem__(self, x):
        return ('element', self.k, I(0))


FRAMES = ('S', ('S', U8))


class Sockets:
    """Assumed contract of ZeroMQ: a socket that has input gives its first part, whole, and drops it, after any number of
    attempts that give nothing; a part sent is taken over whole, after any number of attempts that do nothing.  A publisher
    sends to the subscribers it has taken note of; asking it for its events makes it take note of all that are connected."""

    def __init__(self, receiving, sending):
        self.receiving, self.sending = receiving, sending
        self.inp = var('input', FRAMES)
        self.rwait, self.swait = fresh('rwait', Z, 0), fresh('swait', Z, 0)
        self.pre = [le(I(0), self.rwait), le(I(0), self.swait), le(I(0), seqlen(self.inp))]
        self.mem = {'ghost:rtries': I(0), 'ghost:stries': I(0), 'ghost:sent': ir.nil(FRAMES), 'ghost:noted': FALSE if sending == 'publish_socket_' else TRUE}

    def socket(self, l, name):
        if l.op != 'loc' or ('f', name) not in l.pl[1]:
            raise Unsupported('another socket')

    def poll(self, ex, f, this, A, st):
        items = A.v(0)
        items = ex.read(items, st) if items.sort == LOC else items
        it = seqat(items, I(0))
        if seqlen(items) is not I(1) or fld(it, 'events') is not I(1):
            raise Unsupported('polls for something else')
        self.socket(fld(it, 'socket'), self.receiving)
        return ite(lt(I(0), seqlen(self.inp)), I(1), I(0))

    def recv(self, ex, f, this, A, st):
        self.socket(this, self.receiving)
        k = st.mem['ghost:rtries']
        # never, if there is nothing
        done = ex.simp(eq(k, ex.simp(ite(lt(I(0), seqlen(self.inp)), self.rwait, I(-1)), st)), st)
        ex.write(A.l(0), ite(done, seqat(self.inp, I(0)), uf('unspecified', [k], ('S', U8))), st)
        st.mem['ghost:rtries'] = add(k, I(1))
        return ite(done, ir.some(seqlen(seqat(self.inp, I(0)))), none(Z))

    def send(self, ex, f, this, A, st):
        self.socket(this, self.sending)
        k = st.mem['ghost:stries']
        m = A.v(0)
        m = ex.read(m, st) if m.sort == LOC else m
        # (a second one would be another history)
        st.mem['ghost:sent'] = ite(not_(st.mem['ghost:noted']), uf('sent to some', [k], FRAMES), st.mem['ghost:sent']) if \
            st.mem['ghost:noted'] is not TRUE else ite(lt(k, self.swait), ir.nil(FRAMES), ite(eq(k, self.swait), ir.unit(m, FRAMES), uf('sent more', [k], FRAMES)))
        st.mem['ghost:stries'] = add(k, I(1))
        return ite(le(self.swait, k), ir.some(seqlen(m)), none(Z))

    def getopt(self, ex, f, this, A, st):
        l = A.v(0)
        if A.v(1).op == 'int' and A.v(1).pl == EVENTS and l.op == 'loc' and ('f', self.sending) in l.pl[1]:
            st.mem['ghost:noted'] = TRUE
        ex.write(A.v(2), fresh('events', ex.read(A.v(2), st).sort), st)
        return I(0)

    def contracts(self):
        B = 'lib:zmq::detail::socket_base::'

        def message(ex, f, this, A, st):
            if len(A) == 0:
                return ir.nil(('S', U8))
            l = A.v(0)
            if len(A) == 1:
                return ex.read(l, st) if l.sort == LOC else l
            if l.op != 'loc' or l.pl[1][-1:] != (('i',),):
                raise Unsupported('a message of something else than bytes')
            v = ex.read(ir.loc(l.pl[0], l.pl[1][:-1], l.args[:-1]), st)
            ex.oblige(st, le(add(l.args[-1], A.v(1)), seqlen(v)), 'message of bytes that are there')
            return ir.slice_(v, l.args[-1], A.v(1))
        return {B + 'recv': self.recv, 'lib:zmq_getsockopt': self.getopt, B + 'send': self.send, 'lib:zmq::poll': self.poll, B + 'handle': lambda ex, f, this, A, st: this,
                'lib:zmq::message_t::message_t': message, 'lib:zmq::message_t::data': lambda ex, f, this, A, st: ex.step(this, ('i',), I(0))}


def me(p, f):
    return var('me', p.sort(f['cls']))


def send_zmq(V, p, f):
    W = Sockets('sub_socket_', 'pub_socket_')
    W.mem['ghost:bytes'] = BYTES
    q = [x['n'] for x in f['params']]
    if len(q) > 1:
        size = var('size', Z)
        ins, what = {q[0]: ir.loc('ghost:bytes', (('i',),), (I(0),)), q[1]: size}, ir.slice_(BYTES, I(0), size)
        pre = W.pre + [le(I(0), size), le(size, seqlen(BYTES))]
    else:
        ins, what, pre = {q[0]: BYTES}, BYTES, W.pre + [le(I(0), seqlen(BYTES))]
    V.requires(*pre)
    r = V.run('wire', f, ins, this=me(p, f), contracts=W.contracts(), mem=W.mem, pc=pre)
    V.no_throw(r)
    V.prove_eq('exactly the bytes given are sent, once', r.st.mem['ghost:sent'], ir.unit(what, FRAMES), r.st.pc)


def receive_zmq(V, p, f):
    W = Sockets('sub_socket_', 'pub_socket_')
    V.requires(*W.pre)
    r = V.run('wire', f, {}, this=me(p, f), contracts=W.contracts(), mem=W.mem, pc=W.pre)
    V.no_throw(r)
    some = lt(I(0), seqlen(W.inp))
    V.prove_eq('gives the first part there is', V.retval(r), ite(some, ir.some(seqat(W.inp, I(0))), none(('S', U8))), r.st.pc)
    V.prove_eq('takes one part exactly if there is one', r.st.mem['ghost:rtries'], ite(some, add(W.rwait, I(1)), I(0)), r.st.pc)
    V.prove_eq('sends nothing', r.st.mem['ghost:sent'], ir.nil(FRAMES), r.st.pc)


def step(V, p, f):
    W = Sockets('router_socket_', 'publish_socket_')
    V.requires(*W.pre)
    r = V.run('wire', f, {}, this=me(p, f), contracts=W.contracts(), mem=W.mem, pc=W.pre)
    V.no_throw(r)
    some = lt(I(0), seqlen(W.inp))
    first = seqat(W.inp, I(0))
    V.prove_eq('takes one part exactly if there is one', r.st.mem['ghost:rtries'], ite(some, add(W.rwait, I(1)), I(0)), r.st.pc)
    V.prove_eq('publishes exactly the part taken, once, unless it names the sender', r.st.mem['ghost:sent'],
               ite(and_(some, not_(eq(seqlen(first), I(5)))), ir.unit(first, FRAMES), ir.nil(FRAMES)), r.st.pc)
    V.prove_eq('gives 1 exactly if there was a part with contents', V.retval(r), ite(and_(some, lt(I(0), seqlen(first))), I(1), I(0)), r.st.pc)


def send_message(V, p, f):
    W = Sockets('sub_socket_', 'pub_socket_')
    msg = var('msg', p.sort(p.strip(f['params'][0]['t'])))
    packed = uf('packed', [msg], ('S', U8))
    V.requires(*W.pre)
    C = {**W.contracts(), '@' + MS + 'pack_to_envelope': lambda ex, g_, this, avs, st: uf('packed', [ex.read(avs[0], st)], ('S', U8))}
    r = V.run('wire', f, {f['params'][0]['n']: msg}, this=me(p, f), contracts=C, mem=W.mem, pc=W.pre)
    V.no_throw(r)
    V.prove_eq('exactly the packed message is sent, once', r.st.mem['ghost:sent'], ir.unit(packed, FRAMES), r.st.pc)


def receive_message(V, p, f):
    W = Sockets('sub_socket_', 'pub_socket_')
    sort = p.sort(f['ret'])

    def extract(ex, g_, this, avs, st):
        l = avs[0]
        if l.op != 'loc':
            raise Unsupported('extracts from something else')
        if l.pl[1][-1:] == (('i',),):
            if l.args[-1] is not I(0):
                raise Unsupported('extracts from the middle')
            l = ir.loc(l.pl[0], l.pl[1][:-1], l.args[:-1])
        return uf('message in', [ex.read(l, st)], sort[1])
    V.requires(*W.pre)
    r = V.run('wire', f, {}, this=me(p, f), contracts={**W.contracts(), '@' + MS + 'extract_from_envelope': extract}, mem=W.mem, pc=W.pre)
    V.no_throw(r)
    some = lt(I(0), seqlen(W.inp))
    V.prove_eq('gives the message in the first part there is', V.retval(r),
               ite(some, ir.some(uf('message in', [seqat(W.inp, I(0))], sort[1])), none(sort[1])), r.st.pc)
    V.prove_eq('takes one part exactly if there is one', r.st.mem['ghost:rtries'], ite(some, add(W.rwait, I(1)), I(0)), r.st.pc)


SOCKET = ('O', 'zmq::socket_t')
ROUTER, PUB, SUB, DEALER, SUBSCRIBE, SNDHWM, RCVHWM, EVENTS = 6, 1, 2, 5, 6, 23, 24, 15


class Made:
    """What is done to sockets, in order: made, bound, connected, given a filter."""

    def __init__(self):
        self.log, self.n = [], 0

    def contracts(self):
        def make(ex, f, this, A, st):
            if len(A) == 2 and ex.p.sort(A.t(1)) != LOC:
                self.n += 1
                k = A.v(1)
                return uf('socket', [k if ir.isint(k.sort) else ir.conv(k, Z) if hasattr(ir, 'conv') else k, I(self.n)], SOCKET)
            v = A.v(0)
            return ex.read(v, st) if v.sort == LOC else v

        def note(what):
            def h(ex, f, this, A, st):
                x = [A.v(i) for i in range(len(A))]
                if this is None:
                    this, x = x[0], x[1:]
                x = [ex.read(y, st) if y.sort == LOC and y is not ir.NULL and y.op == 'loc' else y for y in x]
                self.log.append((what, ex.read(this, st), x, list(st.pc)))
                return I(0)
            return h
        B = 'lib:zmq::detail::socket_base::'
        return {'lib:zmq::socket_t::socket_t': make, B + 'bind': note('bind'), B + 'connect': note('connect'), B + 'setsockopt': note('set'), 'lib:zmq_setsockopt': note('set'), B + 'handle': lambda ex, f, this, A, st: this,
                '@knp::core::UID::operator basic_string': lambda ex, f, this, avs, st: uf('text', [ex.read(this, st)], ex.p.sort(f['ret']))}


def kind(V, what, s, want):
    V.prove('%s is a socket of its kind' % what, eq(s.args[0], I(want)) if s.op == 'uf' and s.sort == SOCKET else FALSE)


def done(W, s, *whats):
    return [(w, x) for w, o, x, pc in W.log if o is s and w in whats and not pc]


def bus(V, p, f):
    W = Made()
    r = V.run('wire', f, {}, contracts=W.contracts())
    V.no_throw(r)
    me = r.ret
    for at, address, want, limit in (('router_socket_', 'router_sock_address_', ROUTER, RCVHWM), ('publish_socket_', 'publish_sock_address_', PUB, SNDHWM)):
        s = g(me, at)
        kind(V, at, s, want)
        l = done(W, s, 'bind', 'connect')
        V.prove('%s is bound to its address' % at, eq(l[0][1][0], g(me, address)) if len(l) == 1 and l[0][0] == 'bind' else FALSE)
        l = done(W, s, 'bind', 'set')
        n = [i for i, (w, x) in enumerate(l) if w == 'set' and x[0].op == 'int' and x[0].pl == limit]
        b = [i for i, (w, x) in enumerate(l) if w == 'bind']
        V.prove('the queue of %s is not limited' % at, eq(l[n[-1]][1][1], I(0)) if n and b and n[-1] < b[0] else FALSE)
    V.prove('the addresses contain different identities made for them', TRUE if unlike(me) else FALSE)
    V.assumed.add('identities made at random are never made twice')


def unlike(me):
    """the addresses contain identities made for them (assumed never to be made twice)."""
    a, b = (set(x.fv) for x in (g(me, 'router_sock_address_'), g(me, 'publish_sock_address_')))
    return bool(a - b) and bool(b - a)


def create_endpoint(V, p, f):
    W = Made()
    me_ = me(p, f)
    r = V.run('wire', f, {}, this=me_, contracts=W.contracts())
    V.no_throw(r)
    made = r.ex.read(g(V.retval(r), 'impl_'), r.st)
    for at, to, want in (('sub_socket_', 'publish_sock_address_', SUB), ('pub_socket_', 'router_sock_address_', DEALER)):
        s = g(made, at)
        kind(V, at, s, want)
        l = done(W, s, 'bind', 'connect')
        V.prove('%s is connected to the other end' % at, eq(l[0][1][0], g(me_, to)) if len(l) == 1 and l[0][0] == 'connect' else FALSE)
        l = done(W, s, 'set')
        V.prove('%s takes everything' % at, TRUE if want != SUB else and_(eq(l[0][1][0], I(SUBSCRIBE)), eq(l[0][1][2], I(0))) if len(l) == 1 else FALSE)
    V.prove_eq('the bus is left as it was', V.out(r, 'this'), me_, r.st.pc)
