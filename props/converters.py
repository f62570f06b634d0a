"""F06: data converters and channels."""
from vc import *
import ir
from loading import vit
from execution import World, setup, name, uid, LOG
from backend import iff

IO = 'knp::framework::io::'
Z0, ONE = I(0), I(1)


def run(V, f, ins, contracts=None, **kw):
    return V.run('io', f, ins, contracts=contracts, **kw)


def f06(V):
    p = V.programs['io']
    for f in p.fns_all():
        if not f['n'].startswith(IO) or 'body' not in f:
            continue
        n = f['n'][len(IO):]
        if n in ('output::converter_bitwise', 'output::converter_count', 'output::ConvertToSet::operator()'):
            V.contract('io::' + n, lambda: spikes_of(V, p, f, n))
        elif n == 'input::SequenceConverter::operator()':
            V.contract('io::' + n + ' over ' + value_type(p, f), lambda: sequence(V, p, f))
        elif n == 'input::SequenceConverter::set_size':
            V.contract('io::' + n + ' over ' + value_type(p, f), lambda: resize(V, p, f))
        elif n == 'input::interpret_as_bool':
            V.contract('io::' + n + ' of ' + p.ts(f['params'][0]['t'])['s'], lambda: as_bool(V, p, f))
        elif n == 'kvc_threshold':
            V.contract('io::input::interpret_with_threshold of ' + p.ts(f['params'][0]['t'])['s'], lambda: threshold(V, p, f))
        elif n == 'output::output_channel_get':
            V.contract('io::' + n + ' of ' + p.ts(f['ret'])['s'], lambda: get(V, p, f))
        elif n == 'input::connect_input':
            V.contract('io::' + n, lambda: connecting(V, p, f))


def spikes_of(V, p, f, n):
    """what the converters make of messages."""
    me = var('me', p.sort(f['cls'])) if f.get('cls') is not None else None
    ms = var('messages', p.sort(p.strip(f['params'][0]['t'])))
    size = var('size', U64, 0, SIZEMAX) if me is None else g(me, 'output_size_')
    i, k, x = fresh('i', Z, 0, SIZEMAX), fresh('k', Z, 0, SIZEMAX), fresh('x', U32, 0)
    ind = lambda i: g(seqat(ms, i), 'neuron_indexes_')
    some = lambda x: exists_lt(seqlen(ms), lam([i], exists_lt(seqlen(ind(i)), lam([k], eq(seqat(ind(i), k), x)))))
    count = lambda x: isum(seqlen(ms), lam([i], isum(seqlen(ind(i)), lam([k], ite(eq(seqat(ind(i), k), x), ONE, Z0)))))
    ins = {f['params'][0]['n']: ms}
    if me is None:
        ins[f['params'][1]['n']] = size
    r = run(V, f, ins, this=me)
    V.no_throw(r)
    out = V.retval(r)
    j = fresh('j', Z, 0, SIZEMAX)
    if out.sort[0] == 'M':
        V.prove('has an index exactly if some message has it and it is below the size', iff(mdom(out, x), and_(lt(x, size), some(x))), [ge(size, Z0)])
    else:
        V.prove_eq('has the size asked for', seqlen(out), size)
        if out.sort[1] == BOOL:
            V.prove('has an element set exactly if some message has its index', iff(seqat(out, j), some(j)), [lt(j, size)])
        else:
            V.prove_eq('counts the spikes of every index', seqat(out, j), count(j), [lt(j, size), le(count(j), I(SIZEMAX))])
    V.prove_eq('the messages stay as they were', V.out(r, f['params'][0]['n']), ms)
    if me is not None:
        V.prove_eq('the converter stays as it was', V.out(r, 'this'), me)
def resize(V, p, f):
    me, size = var('me', p.sort(f['cls'])), var('size', U64)
    r = run(V, f, {f['params'][0]['n']: size}, this=me)
    V.no_throw(r)
    V.prove_eq('only the number of values changes', V.out(r, 'this'), setf(me, data_size_=size))


def as_bool(V, p, f):
    x = var('x', p.sort(f['params'][0]['t']))
    r = run(V, f, {f['params'][0]['n']: x})
    zero = ir.fltval(0.0, 32) if x.sort[0] == 'F' else Z0
    V.prove('a value is a spike unless it is zero', iff(V.retval(r), not_(ir.feq(x, zero) if x.sort[0] == 'F' else eq(x, zero))))


def threshold(V, p, f):
    t, x = [var(q['n'], p.sort(q['t'])) for q in f['params']]
    r = run(V, f, {'threshold': t, 'value': x})
    V.prove('a value is a spike unless it is below the threshold', iff(V.retval(r), not_(ir.flt_(x, t) if x.sort[0] == 'F' else lt(x, t))))


def get(V, p, f):
    ch = var('channel', p.sort(p.strip(f['params'][0]['t'])))
    conv = var('converter', p.sort(f['params'][1]['t']))
    a, b = var('step_from', U64), var('step_to', U64)
    C = ch.sort
    upd = lambda c: uf('updated', [c], C)
    took = lambda c: uf('taken', [c, a, b], C)
    asked = []

    def update(ex, f, this, avs, st):
        ex.assumed.add('updating a channel and reading a range from it are under contract in F04')
        ex.write(this, upd(ex.read(this, st)), st)
        return uf('all', [ex.read(this, st)], ex.p.sort(f['ret']))

    def read(ex, f, this, avs, st):
        c = ex.read(this, st)
        ex.write(this, uf('taken', [c, avs[0], avs[1]], C), st)
        return uf('range', [c, avs[0], avs[1]], ex.p.sort(f['ret']))

    def apply(ex, c, avs, st, ret):
        v = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
        asked.append(v)
        return uf('convert', [c, v], ex.p.sort(ret))
    r = run(V, f, {'output_channel': ch, 'converter': conv, 'step_from': a, 'step_to': b},
            {'@' + IO + 'output::OutputChannel::update': update, '@' + IO + 'output::OutputChannel::read_some_from_buffer': read, '@apply': apply})
    V.no_throw(r)
    if len(asked) != 1:
        raise Unsupported('the converter is called at %d places' % len(asked))
    want = uf('range', [upd(ch), a, b], asked[0].sort)
    V.prove_eq('the converter gets the messages of the range, after everything sent has been received', asked[0], want)
    V.prove_eq('its result is returned', V.retval(r), uf('convert', [conv, want], V.retval(r).sort))
    V.prove_eq('the channel is updated, then the range is taken from it', V.out(r, 'output_channel'), took(upd(ch)))


def connecting(V, p, f):
    ch, ep, who = [var(q['n'], p.sort(p.strip(q['t']))) for q in f['params']]
    seen = []

    def subscribe(ex, f, this, A, st):
        seen.append((ex.read(this, st), A.v(0), A.v(1), list(st.pc)))
        return ir.loc('ghost:subscription')
    r = run(V, f, {q['n']: x for q, x in zip(f['params'], (ch, ep, who))}, {'lib:knp::core::MessageEndpoint::subscribe': subscribe})
    V.no_throw(r)
    e, a, b, pc = V.called('subscribes', seen)
    V.prove('it always subscribes', and_(*pc) if pc else TRUE)
    V.prove_eq('through the endpoint given', e, ep)
    V.prove_eq('the receiver', a, who)
    V.prove_eq('to the channel', b, unit(uid(ch), b.sort))


def value_type(p, f):
    rs = p.ts(f['cls'])
    return rs['s'].split('<')[1].split('>')[0]


class Stream:
    """the values still to be read from a stream: value k of them is in ghost:in; reads after the last of them fail and give no value."""

    def __init__(self, sort):
        self.values = var('values', ('S', sort))
        self.mem = {'ghost:pos': Z0}
        self.at = None

    def check(self, ex, this, st):
        if self.at is None:
            self.at = this
        if this is not self.at:
            raise Unsupported('more than one stream')

    def read(self, ex, f, this, A, st):
        self.check(ex, this, st)
        l = A.l(0)
        n = st.mem['ghost:pos']
        old = ex.read(l, st)
        if old.sort != self.values.sort[1]:
            raise Unsupported('reading a value of another type')
        ok = lt(n, seqlen(self.values))
        ex.assumed.add('a stream: reading takes its values in order; once they are used up it fails, leaving an unspecified value')
        ex.write(l, ite(ok, seqat(self.values, n), uf('unread', [n], old.sort)), st)
        st.mem['ghost:pos'] = add(n, ONE)
        return this

    def good(self, ex, f, this, A, st):
        self.check(ex, this, st)
        return le(st.mem['ghost:pos'], seqlen(self.values))

    def contracts(self):
        no = lambda ex, f, this, A, st: not_(self.good(ex, f, this, A, st))
        return {'lib:std::basic_istream::operator>>': self.read, 'lib:std::basic_ios::operator bool': self.good,
                'lib:std::basic_ios::operator!': no, 'lib:std::basic_ios::fail': no}


def sequence(V, p, f):
    me = var('me', p.sort(f['cls']))
    r = f['ret']
    S = Stream(('F', 32) if value_type(p, f) == 'float' else ('I', 32, True))
    asked = []

    def apply(ex, c, avs, st, ret):
        v = ex.read(avs[0], st) if avs[0].sort == LOC else avs[0]
        ex.assumed.add('the interpreting function has no state')
        asked.append(c)
        return uf('accepts', [c, v], BOOL)
    r = run(V, f, {'step': var('step', U64)}, {**S.contracts(), '@apply': apply}, this=me, mem=S.mem)
    V.no_throw(r)
    out = V.retval(r)
    vs, size = S.values, g(me, 'data_size_')
    n = ite(lt(seqlen(vs), size), seqlen(vs), size)
    i = fresh('i', Z, 0, SIZEMAX)
    acc = lambda i: uf('accepts', [g(me, 'interpret_'), seqat(vs, i)], BOOL)
    small = [le(size, I(2**32))]
    want = flat(n, lam([i], ite(acc(i), unit(i, out.sort), nil(out.sort))), out.sort)
    V.prove_eq('the positions of the accepted values among the next ones, in order', out, want, small)
    for fs in ('enough values', 'too few values'):
        enough = le(size, seqlen(vs))
        if fs == 'enough values':
            V.prove_eq('reads as many values as asked for', r.st.mem['ghost:pos'], size, [enough])
    V.prove_eq('the converter stays as it was', V.out(r, 'this'), me)
