"""M04: messages and identifiers compare, and survive being written as text."""
from vc import *
import ir
from backend import iff

K = 'knp::core::'
MS = K + 'messaging::'
TEXT = S('').sort
SEQ = ('S', TEXT)
OUT, GAP, GLUED, POS = 'ghost:written', 'ghost:gap', 'ghost:glued', 'ghost:pos'


def m04(V):
    p = V.programs['text']
    ins, outs = {}, {}
    for f in p.fns_all():
        if 'body' not in f or not f['n'].startswith(K):
            continue
        ps = [p.sort(p.strip(q['t'])) for q in f['params']]
        if f['n'] in (K + 'operator<<', MS + 'operator<<') and len(ps) == 2:
            outs[ps[1]] = f
        elif f['n'] in (K + 'operator>>', MS + 'operator>>') and len(ps) == 2:
            ins[ps[1]] = f
        elif f['n'] == MS + 'operator==' and len(ps) == 2 and ps[0] == ps[1]:
            V.contract('operator== [%s]' % name(ps[0]), lambda: equality(V, p, f, var('a', ps[0]), var('b', ps[0]), [q['n'] for q in f['params']], None))
        elif f['n'] in (MS + 'SynapticImpact::operator==', K + 'UID::operator==', K + 'UID::operator!='):
            me = p.sort(f['cls'])
            V.contract(f['n'][len(K):], lambda: equality(V, p, f, var('this', me), var('b', me), [q['n'] for q in f['params']], var('this', me), f['n'].endswith('!=')))
    both = [s for s in outs if s in ins]
    if len(both) < 5:
        V.contract('text', lambda: V.prove('identifiers, headers, impacts and messages are written and read', FALSE))
    for s in both:
        V.contract('operator<<, operator>> [%s]' % name(s), lambda: text(V, p, outs[s], ins[s], s))


def name(s):
    return str(s[1]).split('::')[-1]


def equality(V, p, f, a, b, names, this, neg=False):
    r = V.run('text', f, dict(zip(names, [b] if this is not None else [a, b])), **({'this': this} if this is not None else {}))
    V.no_throw(r)
    got = V.retval(r)
    want = same(a, b)
    V.prove('equal exactly when all their data are', iff(not_(got) if neg else got, want))
    V.prove_eq('the compared are left alone', V.out(r, names[-1]), b)


def same(a, b):
    """all data of a and b are the same."""
    s = a.sort
    if s[0] == 'R' and rfields(s):
        return and_(*[same(g(a, n), g(b, n)) for n, _ in rfields(s)])
    return ir.feq(a, b) if s[0] == 'F' else eq(a, b)


def text(V, p, w, rd, s):
    msg, old, rest = var('message', s), var('earlier', s), var('rest', SEQ)

    def put(ex, at, x, st):
        if at.sort != LOC:
            raise Unsupported('another stream')
        if x.sort == LOC:
            x = ex.read(x, st)
        if x.sort == TEXT:
            t = x.pl if isinstance(x.pl, str) else None
            if t is None or t.strip():
                raise Unsupported('text written: ' + ir.show(x))
            if t:
                st.mem[GAP] = TRUE
            return at
        st.mem[GLUED] = or_(st.mem[GLUED], not_(st.mem[GAP]))
        st.mem[GAP] = FALSE
        st.mem[OUT] = cat(st.mem[OUT], unit(uf('word', [x], TEXT), SEQ), sort=SEQ)
        return at

    def write(ex, f, this, A, st):
        return put(ex, this, A.v(0), st) if this is not None else put(ex, A.l(0), A.v(1), st)

    def known_write(ex, f, this, avs, st):
        return NotImplemented if f is w else put(ex, avs[0], avs[1], st)

    def take(ex, f, at, l, st):
        n, s = st.mem[POS], p.sort(p.strip(f['params'][-1]['t']))
        ex.write(l, value(seqat(whole[0], n), s), st)
        st.mem[POS] = add(n, I(1))
        return at

    def read(ex, f, this, A, st):
        return take(ex, f, this, A.l(0), st) if this is not None else take(ex, f, A.l(0), A.l(1), st)

    def known_read(ex, f, this, avs, st):
        return NotImplemented if f is rd else take(ex, f, avs[0], avs[1], st)
    whole = [None]
    common = {'lib:std::basic_ostream::operator<<': write, 'lib:std::operator<<': write, 'lib:boost::uuids::operator<<': write,
              'lib:std::basic_istream::operator>>': read, 'lib:std::operator>>': read, 'lib:boost::uuids::operator>>': read,
              '@' + K + 'operator<<': known_write, '@' + MS + 'operator<<': known_write,
              '@' + K + 'operator>>': known_read, '@' + MS + 'operator>>': known_read}
    V.assumed.add('vectors are equal when they are equally long and their elements are equal')
    V.assumed.add('a text stream that is good: values written with white space between them are read again in order, each taking one word; a number, '
                  'and an impact value to the precision of the stream, is read as it was written')
    r = V.run('text', w, {w['params'][1]['n']: msg}, contracts=common, mem={OUT: nil(SEQ), GAP: TRUE, GLUED: FALSE})
    V.no_throw(r)
    V.prove('values are kept apart', not_(r.st.mem[GLUED]))
    V.prove_eq('the written is left alone', V.out(r, w['params'][1]['n']), msg)
    words = r.st.mem[OUT]
    whole[0] = cat(words, rest, sort=SEQ)
    q = V.run('text', rd, {rd['params'][1]['n']: old}, contracts=common, mem={POS: I(0)})
    V.no_throw(q)
    V.prove_rec('read again it is the same', V.out(q, rd['params'][1]['n']), msg)
    V.prove_eq('nothing beyond it is read', q.st.mem[POS], seqlen(words))


def value(w, s):
    """the value of sort s a word stands for."""
    if w.op == 'ite':
        return ite(w.args[0], value(w.args[1], s), value(w.args[2], s))
    if w.op == 'uf' and w.pl == 'word':
        x = w.args[0]
        if x.sort == s:
            return x
        if isint(x.sort) and isint(s):
            lo, hi = ir.rng(x)
            a, b = ir.rng(fresh('x', s))
            if None not in (lo, hi, a, b) and a <= lo and hi <= b:
                return x
    return uf('read', [w], s)
