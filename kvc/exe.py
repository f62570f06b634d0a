"""Symbolic executor: real C++ AST (kvc-dump JSON) -> terms.

Repository functions are inlined (a callee without a body here must have an assumed
contract); loops are summarised exactly (closed forms or folds) by running the body
once on a havocked state, so there is no unrolling and no bound.
"""
import json
from ir import *
import ir


class Unsupported(Exception):
    pass


class State:
    __slots__ = ('mem', 'pc', 'thr')

    def __init__(self, mem=None, pc=None, thr=None):
        self.mem = mem if mem is not None else {}
        self.pc = pc if pc is not None else []
        self.thr = thr if thr is not None else []

    def copy(self):
        return State(dict(self.mem), list(self.pc), list(self.thr))

    def cond(self):
        return and_(*self.pc)


def merge_states(pairs):
    """pairs: [(guard, State)] exclusive; result of merging (first guard wins, last is default)."""
    g, st = pairs[-1]
    res = st.copy()
    for g, s in reversed(pairs[:-1]):
        keys = set(res.mem) | set(s.mem)
        for k in keys:
            a, b = s.mem.get(k), res.mem.get(k)
            if a is b:
                continue
            if a is None or b is None:
                res.mem[k] = a if b is None else b
            else:
                res.mem[k] = ite(g, a, b)
    return res


class Frame:
    def __init__(self, fn=None, this=None):
        self.env = {}
        self.this = this
        self.fn = fn
        self.ret = None
        self.locks = []


class Program:
    """A dump plus indexes."""

    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {int(k): v for k, v in d['fns'].items()}
        self.recs = {int(k): v for k, v in d['recs'].items()}
        self.globals = {int(k): v for k, v in d['globals'].items()}
        for i, f in self.fns.items():
            f['id'] = i
        self._sorts = {}
        self.bytes = 'flatbuffers::FlatBufferBuilder' in {r['n'] for r in self.recs.values()}
        self.byname = {}
        for i, f in self.fns.items():
            self.byname.setdefault(f['n'], []).append(i)

    def fns_all(self):
        return list(self.fns.values())

    def find(self, name, pred=None, cls=None, ta=None, nparams=None, ptypes=None):
        r = []
        for i in self.byname.get(name, []):
            f = self.fns[i]
            if 'body' not in f:
                continue
            if cls and cls not in self.types[f['cls']]['s']:
                continue
            if ta is not None:
                s = ','.join(self.types[a['t']]['s'] if 't' in a else str(a.get('i', '?')) for a in f.get('ta', []))
                if ta not in s:
                    continue
            if nparams is not None and len(f['params']) != nparams:
                continue
            if ptypes is not None and not all(p in self.types[q['t']]['s'] for p, q in zip(ptypes, f['params'])):
                continue
            if pred and not pred(f):
                continue
            r.append(f)
        if len(r) != 1:
            raise Unsupported('function %s (cls=%s, ta=%s): %d candidates' % (name, cls, ta, len(r)))
        return r[0]

    # ------------------------------------------------------------ types
    def strip(self, t):
        while self.types[t]['k'] == 'ref':
            t = self.types[t]['to']
        return t

    def ts(self, t):
        return self.types[t]

    def ta(self, t, i):
        return self.types[t]['ta'][i]['t']

    def sort(self, t):
        s = self._sorts.get(t)
        if s is None:
            s = self._sort(t)
            self._sorts[t] = s
        return s

    def _pack(self, t):
        out = []
        for a in self.types[t].get('ta', []):
            if 'pack' in a:
                out += [x['t'] for x in a['pack'] if 't' in x]
            elif 't' in a:
                out.append(a['t'])
        return out

    def _sort(self, t):
        x = self.types[t]
        k = x['k']
        if k in ('ref', 'ptr'):
            if k == 'ptr' and self.types[x['to']]['k'] == 'fn':
                return ('FN', x['s'])
            return LOC
        if k == 'bool':
            return BOOL
        if k == 'int':
            if 'enum' in x and x.get('ev'):
                return ('E', x['enum'], tuple(int(v) for v in x['ev']))
            return ('I', x['w'], x['sg'])
        if k == 'float':
            return ('F', x['w'])
        if k == 'void':
            return UNIT
        if k == 'carr':
            return ('S', self.sort(x['el']))
        if k == 'rec':
            n = x['n']
            if n in ('std::vector', 'std::deque', 'std::array', 'std::initializer_list', 'std::list', 'std::span', 'std::queue'):
                el = self.ta(t, 0)
                return ('S', self.sort(el))
            if n in ('flatbuffers::span', 'flatbuffers::Array', 'flatbuffers::Vector'):
                el = self.ta(t, 0)
                if n == 'flatbuffers::Vector' and self.types[el]['k'] == 'ptr':
                    return ('S', LOC)
                return ('S', self.sort(el))
            if n == 'flatbuffers::Offset':
                return recsort('Offset', [('o', ('I', 32, False))])
            if n == 'flatbuffers::VectorIterator':
                return ('IT',)
            if n == 'zmq::message_t':
                return ('S', ('I', 8, False))
            if n == 'zmq_pollitem_t':
                return recsort('zmq_pollitem_t', [('socket', LOC), ('fd', ('I', 32, True)), ('events', ('I', 16, True)), ('revents', ('I', 16, True))])
            if n == 'boost::uuids::uuid' and self.bytes:
                return recsort('uuid bytes', [('data', ('S', ('I', 8, False)))])
            if n == 'std::basic_string' or n == 'std::filesystem::path' or n == 'std::basic_string_view':
                return ('O', 'string')
            if n == 'std::optional':
                return ('OPT', self.sort(self.ta(t, 0)))
            if n == 'std::variant':
                return ('V', tuple(self.sort(a) for a in self._pack(t)))
            if n == 'std::pair':
                a, b = self.sort(self.ta(t, 0)), self.sort(self.ta(t, 1))
                return recsort(('pair', a, b), [('first', a), ('second', b)])
            if n == 'std::tuple':
                ss = [self.sort(a) for a in self._pack(t)]
                return recsort(('tuple',) + tuple(ss), [(str(i), s) for i, s in enumerate(ss)])
            if n in ('std::unordered_map', 'std::map'):
                return ('M', self.sort(self.ta(t, 0)), self.sort(self.ta(t, 1)))
            if n in ('std::unordered_multimap', 'std::multimap'):
                # its entries in the (unspecified) order of iteration
                a, b = self.sort(self.ta(t, 0)), self.sort(self.ta(t, 1))
                return ('S', recsort(('pair', a, b), [('first', a), ('second', b)]))
            if n in ('std::unordered_set', 'std::set'):
                return ('M', self.sort(self.ta(t, 0)), UNIT)
            if n in ('std::reference_wrapper', 'std::_Bit_reference', 'std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr',
                     'std::__shared_ptr', 'std::__shared_ptr_access'):
                return LOC
            if n in ('__gnu_cxx::__normal_iterator', 'std::_Bit_iterator', 'std::_Bit_const_iterator', 'std::__detail::_Node_iterator',
                     'std::__detail::_Node_const_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::move_iterator',
                     'boost::multi_index::detail::hashed_index_iterator', 'std::back_insert_iterator',
                     'std::insert_iterator', 'std::__detail::_Node_iterator_base', 'std::reverse_iterator'):
                return ('IT',)
            if n == 'std::function':
                return ('FN', x['s'])
            if x.get('lambda'):
                return ('CL', x['r'])
            if n == 'boost::multi_index::multi_index_container':
                return ('S', self.sort(self.ta(t, 0)))
            if n == 'std::atomic':
                return self.sort(self.ta(t, 0))
            r = self.recs[x['r']]
            if r['repo'] and 'fields' in r:
                key = x['s']
                if key in RECS:
                    return ('R', key)
                fs = []
                RECS[key] = ()
                for b in r['bases']:
                    bs = self.sort(b)
                    if bs[0] == 'R' and rfields(bs):
                        fs.append(('@' + self.types[b]['s'], bs))
                for f in r['fields']:
                    fs.append((f['n'], self.sort(f['t'])))
                RECS[key] = tuple(fs)
                return ('R', key)
            return ('O', x['s'])
        return ('O', x.get('s', k))


class Exec:
    def __init__(self, prog, contracts=None, maxdepth=60):
        self.p = prog
        self.contracts = contracts or {}
        self.nroot = 0
        self.revs, self.rev_of = {}, {}
        self.depth = 0
        self.maxdepth = maxdepth
        self.lambdas = {}
        self.rootsort = {}
        self.obls = []          # (pc conj, cond, text)
        self.used_lib = set()   # assumed library models used
        self.inlined = set()    # repo functions whose body was executed
        self.assumed = set()    # contracts assumed at call sites
        self.signed_arith = False
        self.known = []              # rearrangements made by sorting and shuffling
        self.side = []                # preconditions of library functions met on the way: (what, path, condition)
        self.cur = None
        self.trace = []
        self.locks = {}         # lock object -> mutex
        from lib import Lib as _L
        self.lib = _L(self)

    # ------------------------------------------------------------ memory
    def new_root(self, sort, val, st, name='r'):
        self.nroot += 1
        r = '%s%d' % (name, self.nroot)
        st.mem[r] = val
        return loc(r)

    def named_root(self, name, val, st):
        st.mem[name] = val
        return loc(name)

    def step(self, l, stp, arg=None):
        if l.op == 'ite':
            return ite(l.args[0], self.step(l.args[1], stp, arg), self.step(l.args[2], stp, arg))
        if l.op == 'null':
            return l   # dead branch or null dereference; reads yield an unspecified value
        if l.op != 'loc':
            raise Unsupported('opaque location %s' % show(l)[:120])
        root, steps = l.pl
        if stp[0] == 'f' and steps and steps[-1] == ('p',):
            # field of a map entry
            if stp[1] == 'second':
                return loc(root, steps[:-1] + (('k',),), l.args)
            if stp[1] == 'first':
                return loc(root, steps[:-1] + (('kf',),), l.args)
        return loc(root, steps + (stp,), l.args + ((arg,) if arg is not None else ()))

    def _get(self, v, steps, args):
        for i, s in enumerate(steps):
            k = s[0]
            if k == 'f':
                v = fld(v, s[1])
            elif k == 'i':
                v = seqat(v, args[0])
                args = args[1:]
            elif k == 'k':
                v = mval(v, args[0])
                args = args[1:]
            elif k == 'kf':
                v = args[0]
                args = args[1:]
            elif k == 'p':
                a, b = v.sort[1], v.sort[2]
                key = args[0]
                args = args[1:]
                if b == UNIT:
                    v = key
                else:
                    v = rec(recsort(('pair', a, b), [('first', a), ('second', b)]), [key, mval(v, key)])
            elif k == 'o':
                v = oget(v)
            elif k == 'v':
                v = vget(v, s[1])
            else:
                raise Unsupported('read step %s' % (s,))
        return v

    def read(self, l, st):
        if l.op == 'ite':
            a, b = l.args[1], l.args[2]
            if a.op == 'null' or b.op == 'null':
                # the value read through a null pointer is unknown (differs from every specified value)
                c = self.simp(l.args[0], st)
                if c in (TRUE, FALSE) and (c is TRUE) == (b.op == 'null'):
                    return self.read(b if a.op == 'null' else a, st)
                v = self.read(b if a.op == 'null' else a, st)
                x = fresh('null_read', v.sort)
                return ite(l.args[0], x, v) if a.op == 'null' else ite(l.args[0], v, x)
            return ite(l.args[0], self.read(a, st), self.read(b, st))
        if l.op != 'loc':
            raise Unsupported('read through opaque location %s' % show(l)[:160])
        root, steps = l.pl
        if root not in st.mem:
            raise Unsupported('read of dead root %s' % root)
        if root in self.rev_of:
            src, v = self.rev_of[root]
            if self.read(src, st) is not v:
                raise Unsupported('reverse iterator into a changed container')
        return self._get(st.mem[root], steps, l.args)

    def _put(self, v, steps, args, x):
        if not steps:
            return x
        s = steps[0]
        k = s[0]
        if k == 'f':
            return upd(v, s[1], self._put(fld(v, s[1]), steps[1:], args, x))
        if k == 'i':
            return store(v, args[0], self._put(seqat(v, args[0]), steps[1:], args[1:], x))
        if k == 'k':
            return mstore(v, args[0], self._put(mval(v, args[0]), steps[1:], args[1:], x))
        if k == 'o':
            return some(self._put(oget(v), steps[1:], args, x)) if len(steps) > 1 or True else some(x)
        if k == 'v':
            return inj(s[1], self._put(vget(v, s[1]), steps[1:], args, x), v.sort)
        raise Unsupported('write step %s' % (s,))

    def write(self, l, x, st):
        if l.op == 'ite':
            c = l.args[0]
            for ll, cc in ((l.args[1], c), (l.args[2], not_(c))):
                if ll.op == 'null':
                    continue
                self.write(ll, ite(cc, x, self.read(ll, st)), st)
            return
        if l.op != 'loc':
            raise Unsupported('write through opaque location %s' % show(l)[:160])
        root, steps = l.pl
        if root in self.rev_of:
            raise Unsupported('write through a reverse iterator')
        if root not in st.mem:
            raise Unsupported('write to dead root')
        if root.startswith('RO_'):
            raise Unsupported('write through a list iterator')
        st.mem[root] = self._put(st.mem[root], steps, l.args, x)

    # ------------------------------------------------------------ helpers
    def oblige(self, st, cond, text):
        cond = self.simp(cond, st)
        if cond is TRUE:
            return
        self.obls.append((list(st.pc), cond, text + (' [%s]' % (self.cur,))))

    def simp(self, c, st):
        if c is TRUE or c is FALSE:
            return c
        for a in st.pc:
            for x in (a.args if a.op == 'and' else (a,)):
                if x is c:
                    return TRUE
                if not_(x) is c:
                    return FALSE
        if c.op == 'ge0':
            for a in st.pc:
                for x in (a.args if a.op == 'and' else (a,)):
                    if x.op == 'ge0':
                        d = sub(c.args[0], x.args[0])
                        lo = rng(d)[0]
                        if lo is not None and lo >= 0:
                            return TRUE
                        s2 = add(c.args[0], x.args[0])
                        hi = rng(s2)[1]
                        if hi is not None and hi < 0:
                            return FALSE
        if c.op == 'and':
            n = [self.simp(x, st) for x in c.args]
            if any(x is not y for x, y in zip(n, c.args)):
                return and_(*n)
        if c.op == 'or':
            n = [self.simp(x, st) for x in c.args]
            if any(x is not y for x, y in zip(n, c.args)):
                return or_(*n)
        return c

    def wrapst(self, w, sg, t, st):
        lo, hi = srange(('I', w, sg))
        r = wrap(w, sg, t)
        if r.op != 'wrap' or r.pl != (w, sg):
            return r
        t = r.args[0]
        a, b = rng(t)
        okl = a is not None and a >= lo or self.simp(ge0(sub(t, I(lo))), st) is TRUE
        okh = b is not None and b <= hi or self.simp(ge0(sub(I(hi), t)), st) is TRUE
        if okl and okh:
            return t
        return r

    def conv(self, v, tf, tt, st):
        """convert scalar v from type tf to type tt."""
        F, Tt = self.p.ts(tf), self.p.ts(tt)
        kf, kt = F['k'], Tt['k']
        if kt == 'bool':
            if kf == 'bool':
                return v
            if kf == 'int':
                return not_(eq(v, I(0)))
            if kf == 'float':
                return not_(feq(v, FLT(F['w'], 0)))
            if kf in ('ptr',):
                return not_(eq(v, NULL))
        if kt == 'int':
            if kf == 'bool':
                return ite(v, I(1), I(0))
            if kf == 'int':
                if 'enum' in Tt and 'enum' in F:
                    return v
                return self.wrapst(Tt['w'], Tt['sg'], v, st)
            if kf == 'float':
                return f2i(('I', Tt['w'], Tt['sg']), v)
        if kt == 'float':
            if kf == 'float':
                return f2f(Tt['w'], v)
            if kf == 'int':
                return i2f(Tt['w'], v)
            if kf == 'bool':
                return ite(v, fltval(1.0, Tt['w']), FLT(Tt['w'], 0))
        if kf == kt:
            return v
        raise Unsupported('conversion %s -> %s' % (F['s'], Tt['s']))

    def arith(self, op, a, b, t, st, lt=None):
        """a op b in type t (both already of the computation type)."""
        X = self.p.ts(t)
        k = X['k']
        if k == 'float':
            m = {'+': 'f+', '-': 'f-', '*': 'f*', '/': 'f/'}[op]
            return fop(m, a, b)
        if k == 'bool':
            if op in ('|', '||'):
                return or_(a, b)
            if op in ('&', '&&'):
                return and_(a, b)
            if op == '^':
                return not_(eq(a, b))
        if k == 'int':
            w, sg = X['w'], X['sg']
            if op == '+':
                r = add(a, b)
            elif op == '-':
                r = sub(a, b)
            elif op == '*':
                r = mul(a, b)
            elif op == '/':
                self.oblige(st, not_(eq(b, I(0))), 'division by zero')
                return idiv(a, b)
            elif op == '%':
                self.oblige(st, not_(eq(b, I(0))), 'modulo by zero')
                return imod(a, b)
            elif op in '|&^' or op in ('<<', '>>'):
                if a.op == 'int' and b.op == 'int':
                    x, y = a.pl, b.pl
                    v = {'|': x | y, '&': x & y, '^': x ^ y, '<<': x << y if y < 128 else 0, '>>': x >> y}[op]
                    return self.wrapst(w, sg, I(v), st)
                if op == '<<' and b.op == 'int':
                    return self.wrapst(w, sg, scale(1 << b.pl, a), st)
                if a.op == 'ite' and b.op == 'ite' and op in '|&' and all(
                        x.op == 'int' for x in a.args[1:] + b.args[1:]):
                    ba, bb = not_(eq(a, I(0))), not_(eq(b, I(0)))
                    if all(x.pl in (0, 1) for x in a.args[1:] + b.args[1:]):
                        return ite(or_(ba, bb) if op == '|' else and_(ba, bb), I(1), I(0))
                if op in '|&' and (a.op == 'int' and a.pl in (0, 1) or b.op == 'int' and b.pl in (0, 1)):
                    if b.op != 'int':
                        a, b = b, a
                    if a.op == 'ite' and all(x.op == 'int' and x.pl in (0, 1) for x in a.args[1:]):
                        if op == '|':
                            return b if b.pl == 1 else a
                        return a if b.pl == 1 else b
                if op in '|&^' and a.id > b.id:
                    a, b = b, a
                return uf('bit' + op, [a, b], ('I', w, sg))
            else:
                raise Unsupported('int op ' + op)
            if sg:
                lo, hi = srange(('I', w, sg))
                ra, rb = rng(r)
                if ra is None or rb is None or ra < lo or rb > hi:
                    self.signed_arith = True
                return r
            return self.wrapst(w, sg, r, st)
        raise Unsupported('arith on ' + X['s'])

    def compare(self, op, a, b, t):
        k = self.p.ts(t)['k']
        if k == 'float':
            if op == '<':
                return flt_(a, b)
            if op == '>':
                return flt_(b, a)
            if op == '<=':
                return fle_(a, b)
            if op == '>=':
                return fle_(b, a)
            if op == '==':
                return feq(a, b)
            if op == '!=':
                return not_(feq(a, b))
        if k == 'bool':
            a2, b2 = ite(a, I(1), I(0)), ite(b, I(1), I(0))
            if op in ('==', '!='):
                r = eq(a, b)
                return r if op == '==' else not_(r)
            a, b = a2, b2
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return not_(eq(a, b))
        return {'<': lt, '>': gt, '<=': le, '>=': ge}[op](a, b)

    # ------------------------------------------------------------ defaults
    def unspecified(self, t, name='uninit'):
        return self.freshval(self.p.sort(t), name)

    def freshval(self, sort, name):
        if sort[0] == 'R' and rfields(sort):
            return rec(sort, [self.freshval(s, name + '.' + f) for f, s in rfields(sort)])
        return fresh(name, sort)

    def default(self, t, st):
        """value-initialised object of type t."""
        s = self.p.sort(t)
        k = s[0]
        if k in 'IE':
            return I(0)
        if k == 'B':
            return FALSE
        if k == 'F':
            return FLT(s[1], 0)
        if k == 'L':
            return NULL
        if k == 'S':
            x = self.p.ts(t)
            if x['k'] == 'carr' or x.get('n') == 'std::array':
                n = x.get('n') if x['k'] == 'carr' else int(x['ta'][1]['i'])
                el = x.get('el') if x['k'] == 'carr' else self.p.ta(t, 0)
                return tab(I(n), lam([fresh('j', Z, 0)], self.default(el, st)), s)
            return nil(s)
        if k == 'M':
            return mempty(s)
        if k == 'OPT':
            return none(s[1])
        if k == 'U':
            return UNITV
        if s == ('O', 'string'):
            return S('')
        if k == 'R':
            x = self.p.ts(t)
            if x['n'] in ('std::pair', 'std::tuple'):
                ts = self.p._pack(t)
                return rec(s, [self.default(a, st) for a in ts])
            r = self.p.recs[x['r']]
            vals = []
            byn = {f['n']: f for f in r['fields']}
            bases = {'@' + self.p.ts(b)['s']: b for b in r['bases']}
            for f, fs in rfields(s):
                if f in bases:
                    vals.append(self.default(bases[f], st))
                else:
                    fd = byn[f]
                    if 'init' in fd:
                        fr = Frame()
                        vals.append(self.val(fd['init'], st, fr))
                    else:
                        vals.append(self.default(fd['t'], st))
            return rec(s, vals)
        if k == 'V':
            alts = self.p._pack(t)
            return inj(0, self.default(alts[0], st), s)
        if k == 'FN':
            return raw('nofn', (), None, s)
        return raw('defobj', (), None, s)

    # ------------------------------------------------------------ expressions
    def val(self, e, st, fr):
        """rvalue of e."""
        v = self.ev(e, st, fr)
        if e.get('vc') in ('l', 'x'):
            if e['k'] == 'Ref' and 'fn' in e:
                return v
            return self.read(v, st)
        return v

    def lv(self, e, st, fr):
        """location of e (materialising prvalues)."""
        v = self.ev(e, st, fr)
        if e.get('vc') in ('l', 'x'):
            return v
        return self.new_root(self.p.sort(e['t']), v, st, 'tmp')

    def ev(self, e, st, fr):
        if 'ln' in e:
            self.line = e['ln']
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Unsupported('expression %s %s' % (e['k'], e.get('cls', '')))
        return m(e, st, fr)

    def e_Int(self, e, st, fr):
        s = self.p.sort(e['t'])
        v = int(e['v'])
        r = B(v != 0) if s[0] == 'B' else I(v)
        if e.get('vc') in ('l', 'x'):
            return self.new_root(s, r, st, 'cst')
        return r

    def e_Float(self, e, st, fr):
        r = FLT(self.p.sort(e['t'])[1], int(e['bits'], 16))
        if e.get('vc') in ('l', 'x'):
            return self.new_root(self.p.sort(e['t']), r, st, 'cst')
        return r

    def e_Str(self, e, st, fr):
        return self.new_root(('O', 'string'), S(e.get('v', '?')), st, 'str')

    def e_Null(self, e, st, fr):
        return NULL

    def e_This(self, e, st, fr):
        if fr.this is None:
            raise Unsupported('this outside method')
        return fr.this

    def e_Temp(self, e, st, fr):
        v = self.val(e['e'], st, fr)
        return self.new_root(self.p.sort(e['t']), v, st, 'tmp')

    def e_Ref(self, e, st, fr):
        if 'fn' in e:
            return raw('fnref', (), e['fn'], ('FN', 'fn'))
        d = e['d']
        if d in fr.env:
            return fr.env[d]
        if 'global' in e:
            g = self.p.globals.get(d)
            nm = 'g:' + e['global']
            if nm not in st.mem:
                if g and 'init' in g:
                    st.mem[nm] = self.val(g['init'], st, Frame())
                else:
                    st.mem[nm] = var(nm, self.p.sort(self.p.strip(e['t'])))
            return loc(nm)
        raise Unsupported('unbound %s' % e['n'])

    def baseloc(self, e, st, fr):
        b = e['b']
        if e.get('arrow'):
            v = self.val(b, st, fr)
            return v
        return self.lv(b, st, fr)

    def e_Mem(self, e, st, fr):
        if 'fn' in e:
            raise Unsupported('member function value')
        b = e['b']
        if e.get('vc') == 'p':
            return fld(self.val(b, st, fr), e['f'])
        l = self.baseloc(e, st, fr)
        return self.member(l, e, st, fr)

    def member(self, l, e, st, fr):
        # reference-typed fields hold a location
        f = e['f']
        l2 = self.step(l, ('f', f))
        if self.is_ref_field(e):
            return self.read(l2, st)
        return l2

    def is_ref_field(self, e):
        # declared type of the field: look it up by fid
        if not hasattr(self, '_reffids'):
            self._reffids = set()
            for r in self.p.recs.values():
                for f in r.get('fields', []):
                    if self.p.ts(f['t'])['k'] == 'ref':
                        self._reffids.add(f['id'])
        return e.get('fid') in self._reffids

    def e_Sub(self, e, st, fr):
        b = self.val(e['b'], st, fr)
        i = self.val(e['i'], st, fr)
        # pointer to element: last step must be an index
        return self.ptradd(b, i)

    def ptradd(self, p, i):
        if p.op == 'ite':
            return ite(p.args[0], self.ptradd(p.args[1], i), self.ptradd(p.args[2], i))
        if p.op == 'loc' and p.pl[1] and p.pl[1][-1] == ('i',):
            return loc(p.pl[0], p.pl[1], p.args[:-1] + (add(p.args[-1], i),))
        raise Unsupported('pointer arithmetic')

    def e_Cond(self, e, st, fr):
        c = self.simp(self.val(e['c'], st, fr), st)
        if c is TRUE:
            return self.ev(e['x'], st, fr)
        if c is FALSE:
            return self.ev(e['y'], st, fr)
        return self.branch(c, lambda s: self.ev(e['x'], s, fr), lambda s: self.ev(e['y'], s, fr), st)

    def branch(self, c, f, g, st):
        s1, s2 = st.copy(), st.copy()
        s1.pc.append(c)
        s2.pc.append(not_(c))
        n = len(st.thr)
        a = f(s1)
        b = g(s2)
        thr = list(st.thr)
        for gd, ty, ss in s1.thr[n:]:
            thr.append((and_(c, gd), ty, ss))
        for gd, ty, ss in s2.thr[n:]:
            thr.append((and_(not_(c), gd), ty, ss))
        m = merge_states([(c, s1), (not_(c), s2)])
        st.mem = m.mem
        st.thr = thr
        if len(thr) > n:
            # path facts learnt inside (no-throw) are guarded
            st.pc = list(st.pc) + [implies(c, x) for x in s1.pc[len(st.pc) + 1:]] + \
                [implies(not_(c), x) for x in s2.pc[len(st.pc) + 1:]]
            st.pc = [x for x in st.pc if x is not TRUE]
        if a is None or b is None:
            return a if b is None else b
        if a.sort[0] == 'U' or b.sort[0] == 'U':
            return UNITV
        return ite(c, a, b)

    def e_Bin(self, e, st, fr):
        op = e['op']
        if op in ('&&', '||'):
            a = self.simp(self.val(e['l'], st, fr), st)
            if op == '&&':
                if a is FALSE:
                    return FALSE
                if a is TRUE:
                    return self.val(e['r'], st, fr)
                return self.branch(a, lambda s: self.val(e['r'], s, fr), lambda s: FALSE, st)
            if a is TRUE:
                return TRUE
            if a is FALSE:
                return self.val(e['r'], st, fr)
            return self.branch(a, lambda s: TRUE, lambda s: self.val(e['r'], s, fr), st)
        if op == ',':
            self.ev(e['l'], st, fr)
            return self.ev(e['r'], st, fr)
        if op == '=':
            r = self.val(e['r'], st, fr)
            l = self.lv(e['l'], st, fr)
            self.write(l, r, st)
            return l
        if op in ('<', '>', '<=', '>=', '==', '!='):
            a, b = self.val(e['l'], st, fr), self.val(e['r'], st, fr)
            return self.compare(op, a, b, e['l']['t'])
        if op == '.*' or op == '->*':
            l = self.lv(e['l'], st, fr) if op == '.*' else self.val(e['l'], st, fr)
            r = self.val(e['r'], st, fr)
            if r.op == 'mptr':
                return self.step(l, ('f', r.pl))
            raise Unsupported('member pointer')
        a, b = self.val(e['l'], st, fr), self.val(e['r'], st, fr)
        if self.p.ts(e['t'])['k'] == 'ptr' and op in '+-':
            return self.ptradd(a, b if op == '+' else scale(-1, b))
        return self.arith(op, a, b, e['t'], st)

    def e_CAsg(self, e, st, fr):
        r = self.val(e['r'], st, fr)
        l = self.lv(e['l'], st, fr)
        lt_ = e['l']['t']
        cur = self.read(l, st)
        if self.p.ts(lt_)['k'] == 'ptr':
            v = self.ptradd(cur, r if e['op'] == '+' else scale(-1, r))
        else:
            a = self.conv(cur, lt_, e['ct'], st)
            v = self.conv(self.arith(e['op'], a, r, e['crt'], st), e['crt'], lt_, st)
        self.write(l, v, st)
        return l

    def e_Un(self, e, st, fr):
        op = e['op']
        if op == '!':
            return not_(self.val(e['e'], st, fr))
        if op == '*':
            return self.val(e['e'], st, fr)
        if op == '&':
            s = e['e']
            if s['k'] == 'Ref' and 'fn' in s:
                return raw('fnref', (), s['fn'], ('FN', 'fn'))
            if self.p.ts(e['t'])['k'] == 'other':
                # pointer to member
                if s['k'] in ('Ref', 'Mem'):
                    return raw('mptr', (), s.get('n') or s.get('f'), ('O', 'mptr'))
            return self.lv(s, st, fr)
        if op == '-':
            v = self.val(e['e'], st, fr)
            X = self.p.ts(e['t'])
            if X['k'] == 'float':
                return fneg(v)
            r = scale(-1, v)
            return r if X['sg'] else self.wrapst(X['w'], False, r, st)
        if op == '+':
            return self.val(e['e'], st, fr)
        if op in ('++', '--'):
            l = self.lv(e['e'], st, fr)
            old = self.read(l, st)
            t = e['e']['t']
            d = 1 if op == '++' else -1
            k = self.p.ts(t)['k']
            if k == 'ptr':
                new = self.ptradd(old, I(d))
            elif k == 'float':
                new = fop('f+', old, fltval(float(d), self.p.ts(t)['w']))
            else:
                new = self.arith('+' if d > 0 else '-', old, I(1), t, st)
                X = self.p.ts(t)
                new = self.wrapst(X['w'], X['sg'], new, st) if not X['sg'] else new
            self.write(l, new, st)
            return old if e.get('post') else l
        if op == '~':
            v = self.val(e['e'], st, fr)
            X = self.p.ts(e['t'])
            if not X['sg']:
                return sub(I((1 << X['w']) - 1), v)
            return sub(I(-1), v)
        raise Unsupported('unary ' + op)

    def basepath(self, tf, tt):
        """field steps from record type tf to its base tt."""
        if tf == tt:
            return []
        x = self.p.ts(tf)
        if x['k'] != 'rec':
            return None
        for b in self.p.recs[x['r']].get('bases', []):
            r = self.basepath(b, tt)
            if r is not None:
                return [b] + r
        return None

    def e_Cast(self, e, st, fr):
        ck = e['ck']
        s = e['e']
        if ck == 'LValueToRValue':
            if s['k'] == 'Ref' and 'fn' in s:
                return self.ev(s, st, fr)
            return self.read(self.ev(s, st, fr), st)
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UserDefinedConversion', 'ConstructorConversion',
                  'BuiltinFnToFnPtr'):
            return self.ev(s, st, fr)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'):
            tf, tt = s['t'], e['t']
            ptr = self.p.ts(tf)['k'] == 'ptr'
            if ptr:
                tf, tt = self.p.ts(tf)['to'], self.p.ts(tt)['to']
            v = self.ev(s, st, fr)
            if self.p.sort(tt)[0] != 'R' or self.p.sort(tf)[0] != 'R':
                return v
            path = self.basepath(tf, tt)
            if path is None:
                raise Unsupported('derived-to-base path')
            for b in path:
                nm = '@' + self.p.ts(b)['s']
                if e.get('vc') in ('l', 'x') or ptr:
                    if any(f == nm for f, _ in rfields(self.p.sort(tf))):
                        v = self.step(v, ('f', nm))
                else:
                    v = fld(v, nm)
                tf = b
            return v
        if ck == 'ToVoid':
            self.ev(s, st, fr)
            return UNITV
        if ck in ('IntegralCast', 'IntegralToBoolean', 'FloatingCast', 'IntegralToFloating', 'FloatingToIntegral',
                  'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral'):
            return self.conv(self.val(s, st, fr), s['t'], e['t'], st)
        if ck == 'NullToPointer':
            return NULL
        if ck == 'BaseToDerived':
            # down-cast of a pointer that is known to point at the base part of an object of that class
            v = self.ev(s, st, fr)
            tf, tt = self.p.ts(s['t']), self.p.ts(e['t'])
            nm = '@' + self.p.ts(tf['to'])['s'] if tf['k'] == 'ptr' else None
            if v.op == 'loc' and v.pl[1] and v.pl[1][-1] == ('f', nm):
                return ir.loc(v.pl[0], v.pl[1][:-1], v.args)
            raise Unsupported('down-cast of an unknown object')
        if ck == 'Dynamic' and e.get('vc') == 'l':
            v = self.ev(s, st, fr)
            if self.read(v, st).sort == self.p.sort(e['t']):
                return v
            raise Unsupported('dynamic_cast to another class')
        if ck == 'ArrayToPointerDecay':
            l = self.lv(s, st, fr)
            if s['k'] == 'Str' or self.p.sort(s['t'])[0] == 'O':
                return l
            if l.op == 'loc' and l.pl[0].startswith('str'):
                return l
            return self.step(l, ('i',), I(0))
        if ck == 'Dependent':
            return self.ev(s, st, fr)
        if ck == 'BitCast' and self.p.ts(s['t'])['k'] == 'ptr' == self.p.ts(e['t'])['k']:
            # characters seen as bytes: the same places (only functions with contracts are given such pointers)
            a, b = [self.p.sort(self.p.ts(x)['to']) for x in (s['t'], e['t'])]
            if isint(a) and isint(b) and a[1] == b[1] == 8:
                return self.ev(s, st, fr)
            if self.p.ts(self.p.ts(e['t'])['to'])['k'] == 'void':
                return self.ev(s, st, fr)
            if self.p.ts(self.p.ts(s['t'])['to'])['k'] == 'void':
                # back from void *: what the contract of the function that gave the pointer says it points to
                v = self.ev(s, st, fr)
                if v.op == 'loc' and v.pl[0].startswith('ghost:'):
                    return v
        raise Unsupported('cast ' + ck)

    def e_Typeid(self, e, st, fr):
        """the dynamic type of a polymorphic object: the class of what the reference denotes."""
        if 'e' not in e:
            raise Unsupported('typeid of a type')
        v = self.ev(e['e'], st, fr)
        v = self.read(v, st) if v.sort == LOC else v
        return self.new_root(('O', 'string'), S(str(v.sort)), st, 'type')

    def e_ValueInit(self, e, st, fr):
        return self.default(e['t'], st)

    def e_InitList(self, e, st, fr):
        t = e['t']
        s = self.p.sort(t)
        x = self.p.ts(t)
        if len(e['a']) == 1 and x.get('n') == 'std::vector' and self.p.sort(e['a'][0]['t']) == s:
            # a reference initialised with a list of one
            return self.ev(e['a'][0], st, fr)
        if s[0] == 'S':
            r = cat(*[unit(self.val(a, st, fr), s) for a in e['a']], sort=s)
            if x['k'] == 'carr' and e.get('filler'):
                n = x['n'] - len(e['a'])
                r = cat(r, tab(I(n), lam([fresh('j', Z, 0)], self.default(x['el'], st)), s), sort=s)
            if x.get('n') == 'std::array' and len(e['a']) == 1 and self.p.sort(e['a'][0]['t']) == s:
                return self.val(e['a'][0], st, fr)
            return r
        if s[0] == 'R':
            fs = rfields(s)
            r = self.p.recs[x['r']]
            vals = []
            n = len(e['a'])
            # order: bases then fields (empty bases may be omitted from fs)
            if 'fields' not in r and len(fs) == len(e['a']):
                return rec(s, [self.val(a, st, fr) for a in e['a']])
            items = [('@' + self.p.ts(b)['s'], b) for b in r.get('bases', [])] + \
                [(f['n'], f['t']) for f in r.get('fields', [])]
            got = {}
            for (nm, ft), a in zip(items, e['a']):
                if self.p.ts(ft)['k'] == 'ref':
                    got[nm] = self.lv(a, st, fr)
                else:
                    got[nm] = self.val(a, st, fr)
            for nm, _ in fs:
                if nm in got:
                    vals.append(got[nm])
                else:
                    ft = dict(items)[nm]
                    vals.append(self.default(ft, st))
            return rec(s, vals)
        if len(e['a']) == 1:
            return self.val(e['a'][0], st, fr)
        if len(e['a']) == 0:
            return self.default(t, st)
        raise Unsupported('init list of ' + x['s'])

    def e_Lambda(self, e, st, fr):
        self.lambdas[e['r']] = e
        args = []
        for c in e['caps']:
            if c.get('this'):
                args.append(fr.this)
            elif c.get('ref'):
                i = c['init']
                args.append(self.lv(i, st, fr) if i else fr.env[c['d']])
            else:
                args.append(self.val(c['init'], st, fr))
        return raw('clos', args, e['r'], ('CL', e['r']))

    def call_closure(self, clo, fnid, args, st, at=None):
        """args: list of locs/values matching params of operator()."""
        if clo.op == 'ite':
            return self.branch(clo.args[0], lambda s: self.call_closure(clo.args[1], fnid, args, s, at),
                               lambda s: self.call_closure(clo.args[2], fnid, args, s, at), st)
        if clo.op == 'fnref':
            return self.call(self.p.fns[clo.pl], None, args, st)
        if clo.op != 'clos':
            raise Unsupported('call of unknown function object %s' % show(clo)[:80])
        e = self.lambdas[clo.pl]
        if fnid is None:
            calls = self.p.recs[clo.pl]['calls']
            cands = [i for i in calls if 'body' in self.p.fns[i] and len(self.p.fns[i]['params']) == len(args)]
            if len(cands) != 1:
                raise Unsupported('ambiguous closure call')
            fnid = cands[0]
        f = self.p.fns[fnid]
        fr = Frame(f)
        kept = []
        for i, (c, a) in enumerate(zip(e['caps'], clo.args)):
            if c.get('this'):
                fr.this = a
            elif c.get('ref'):
                fr.env[c['d']] = a
            else:
                if self.p.ts(c['ft'])['k'] == 'ref':
                    fr.env[c['d']] = a
                else:
                    fr.env[c['d']] = self.new_root(self.p.sort(c['ft']), a, st, 'cap')
                    kept.append((i, fr.env[c['d']], a))
        r = self.run_body(f, fr, args, st)
        now = list(clo.args)
        for i, l, a in kept:
            now[i] = self.read(l, st)
        if any(x is not y for x, y in zip(now, clo.args)):
            # a mutable function object: what it holds changes where it is kept
            if at is None or at.sort != LOC or at.op != 'loc':
                raise Unsupported('function object that changes its state')
            self.write(at, raw('clos', tuple(now), clo.pl, clo.sort), st)
        return r

    def e_Call(self, e, st, fr):
        if 'fn' not in e:
            c = self.val(e['callee'], st, fr)
            return self.lib.call_fnval(c, e, [self.lv(a, st, fr) if a.get('vc') in ('l', 'x') else self.val(a, st, fr)
                                              for a in e['a']], st)
        f = self.p.fns[e['fn']]
        return self.invoke(f, None, e, e['a'], st, fr)

    def e_MCall(self, e, st, fr):
        if 'fn' not in e:
            c = e['callee']
            if c['k'] != 'Bin' or c['op'] not in ('.*', '->*'):
                raise Unsupported('member pointer call')
            this = self.lv(c['l'], st, fr) if c['op'] == '.*' else self.val(c['l'], st, fr)
            m = self.val(c['r'], st, fr)
            if m.op == 'fnref':
                f = self.p.fns[m.pl]
                return self.invoke(f, this, e, e['a'], st, fr, c['l'])
            h = self.contracts.get('@memcall')
            if h is None:
                raise Unsupported('call of an unknown member function')
            return h(self, m, this, [self.lv(a, st, fr) if a.get('vc') in ('l', 'x') else self.val(a, st, fr) for a in e['a']], st)
        f = self.p.fns[e['fn']]
        o = e['obj']
        if e.get('arrow'):
            this = self.val(o, st, fr)
        else:
            this = self.lv(o, st, fr)
        return self.invoke(f, this, e, e['a'], st, fr, o)

    def e_OpCall(self, e, st, fr):
        f = self.p.fns[e['fn']]
        if 'cls' in f and not f.get('static'):
            if e['op'] == '=':
                # right operand first
                rest = e['a'][1:]
                o = e['a'][0]
                if o['k'] == 'OpCall' and o.get('op') == '[]' or o['k'] == 'MCall':
                    rest = [dict(x, k='Done', v=self.ev(x, st, fr)) for x in rest]
                this = self.lv(o, st, fr)
                return self.invoke(f, this, e, rest, st, fr, o)
            o = e['a'][0]
            this = self.lv(o, st, fr)
            return self.invoke(f, this, e, e['a'][1:], st, fr, o)
        return self.invoke(f, None, e, e['a'], st, fr)

    def e_Done(self, e, st, fr):
        return e['v']

    def argl(self, a, st, fr):
        return a

    def invoke(self, f, this, e, args, st, fr, obj=None):
        name = f['n']
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, f, this, e, args, st, fr)
            if r is not NotImplemented:
                return r
        # closure call
        if 'cls' in f and self.p.ts(f['cls']).get('lambda') and f['sn'] == 'operator()':
            clo = self.read(this, st)
            avs = self.bind_args(f, args, st, fr)
            return self.call_closure(clo, f['id'], avs, st)
        if 'body' in f or '@' + name in self.contracts:
            avs = self.bind_args(f, args, st, fr)
            return self.call(f, this, avs, st)
        if f['repo'] and f.get('defaulted') and (f.get('copyasg') or f.get('moveasg')):
            v = self.val(args[0], st, fr)
            self.write(this, v, st)
            return this
        return self.lib.call(f, this, e, args, st, fr)

    def bind_args(self, f, args, st, fr):
        out = []
        for p, a in zip(f['params'], args):
            if self.p.ts(p['t'])['k'] == 'ref':
                out.append(self.lv(a, st, fr))
            else:
                out.append(self.val(a, st, fr))
        return out

    def call(self, f, this, avs, st):
        c = self.contracts.get('@' + f['n'])
        if c is not None:
            r = c(self, f, this, avs, st)
            if r is not NotImplemented:
                return r
        if 'body' not in f:
            raise Unsupported('no body for %s' % f['n'])
        if f['sn'] == '__invoke' and '(unnamed)' in f['n']:
            # what a lambda without captures converts to; clang leaves the body empty
            ops = [x for x in self.p.fns_all() if x.get('cls') == f['cls'] and x['sn'] == 'operator()']
            if len(ops) != 1:
                raise Unsupported('conversion of a generic lambda')
            f, = ops
        fr = Frame(f, this)
        return self.run_body(f, fr, avs, st)

    def run_body(self, f, fr, avs, st):
        self.depth += 1
        if self.depth > self.maxdepth:
            raise Unsupported('recursion in ' + f['n'])
        self.inlined.add('%s (%s:%s)' % (f['n'], f['file'].replace('/repo/', ''), f.get('line')))
        oldcur = self.cur
        self.cur = f['n']
        try:
            self.bind_params(f, fr, avs, st)
            base = len(st.pc)
            nthr = len(st.thr)
            outs = self.block(f['body'], st, fr)
            return self.finish_call(f, outs, st, nthr)
        finally:
            self.depth -= 1
            self.cur = oldcur

    def bind_params(self, f, fr, avs, st):
        for p, a in zip(f['params'], avs):
            if self.p.ts(p['t'])['k'] == 'ref':
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.new_root(self.p.sort(p['t']), a, st, 'p_' + p['n'])

    def finish_call(self, f, outs, st, nthr):
        """merge outcomes of a body into st; returns value."""
        pc0 = list(st.pc)
        rets = []
        thr = []
        for kind, g, s, v in outs:
            if kind in ('return', 'normal'):
                rets.append((g, s, v))
            elif kind == 'throw':
                thr.append((g, v, s))
            else:
                raise Unsupported('outcome ' + kind)
        retval = UNITV
        if rets:
            m = merge_states([(g, s) for g, s, v in rets])
            st.mem = m.mem
            vs = [v for g, s, v in rets]
            if any(v is not None and v is not UNITV for v in vs):
                retval = None
                for g, s, v in reversed(rets):
                    if v is None:
                        continue
                    retval = v if retval is None else (v if v is UNITV else ite(g, v, retval))
        for g, ty, s in thr:
            st.thr.append((g, ty, s))
        if thr:
            if not rets:
                st.pc.append(FALSE)
            else:
                nt = not_(or_(*[g for g, _, _ in thr]))
                if nt is not TRUE:
                    st.pc.append(nt)
        return retval

    # ------------------------------------------------------------ constructors
    def e_Ctor(self, e, st, fr):
        f = self.p.fns[e['fn']]
        t = e['t']
        name = f['n']
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, f, None, e, e['a'], st, fr)
            if r is not NotImplemented:
                return r
        s = self.p.sort(t)
        if (f.get('copyctor') or f.get('movector')) and len(e['a']) >= 1 and \
                ('body' not in f or f.get('defaulted') or s[0] != 'R'):
            a = e['a'][0]
            v = self.val(a, st, fr)
            if f.get('movector') and a.get('vc') == 'x':
                self.moved(a, v, st, fr)
            return v
        if 'body' in f and s[0] == 'R':
            avs = self.bind_args(f, e['a'], st, fr)
            return self.construct(f, t, avs, st)
        if f['repo'] and f.get('defaulted') and s[0] == 'R' and not e['a']:
            return self.default(t, st)
        return self.lib.ctor(f, e, t, e['a'], st, fr)

    def construct(self, f, t, avs, st):
        s = self.p.sort(t)
        this = self.new_root(s, self.freshval(s, 'raw'), st, 'obj')
        self.construct_at(f, t, avs, this, st)
        return self.read(this, st)

    def construct_at(self, f, t, avs, this, st):
        fr = Frame(f, this)
        self.inlined.add('%s (%s:%s)' % (f['n'], f['file'].replace('/repo/', ''), f.get('line')))
        self.depth += 1
        oldcur, self.cur = self.cur, f['n']
        try:
            self.bind_params(f, fr, avs, st)
            s = self.p.sort(t)
            x = self.p.ts(t)
            for i in f.get('inits', []):
                if 'deleg' in i:
                    v = self.val(i['e'], st, fr)
                    self.write(this, v, st)
                elif 'base' in i:
                    nm = '@' + self.p.ts(i['base'])['s']
                    if any(n == nm for n, _ in rfields(s)):
                        v = self.val(i['e'], st, fr)
                        self.write(self.step(this, ('f', nm)), v, st)
                    else:
                        pass
                else:
                    if self.p.ts(i['ft'])['k'] == 'ref':
                        v = self.lv(i['e'], st, fr)
                    else:
                        v = self.val(i['e'], st, fr)
                    self.write(self.step(this, ('f', i['f'])), v, st)
            # fields without initialiser listed: clang lists default member inits as inits; others stay unspecified
            outs = self.block(f['body'], st, fr) if f.get('body') else [('normal', TRUE, st, None)]
            self.finish_call(f, outs, st, 0)
        finally:
            self.depth -= 1
            self.cur = oldcur

    def moved(self, a, v, st, fr):
        """move construction empties containers of the source."""
        if a['k'] == 'Temp':
            return   # nobody sees what is left of a temporary
        try:
            l = self.ev(a, State(dict(st.mem), list(st.pc), []), fr)
        except Unsupported:
            return
        if l.op not in ('loc', 'ite'):
            return
        nv = self.emptied(v)
        if nv is not v and all(r in st.mem for r in self.loc_roots(l)):
            self.write(l, nv, st)

    def loc_roots(self, l):
        if l.op == 'ite':
            return self.loc_roots(l.args[1]) | self.loc_roots(l.args[2])
        return {l.pl[0]} if l.op == "loc" else {None}

    def emptied(self, v):
        s = v.sort
        if s[0] == 'S':
            return nil(s)
        if s[0] == 'M':
            return mempty(s)
        if s == ('O', 'string'):
            return fresh('moved', s)
        if s[0] == 'R':
            return rec(s, [self.emptied(fld(v, f)) for f, _ in rfields(s)])
        return v

    # ------------------------------------------------------------ statements
    # outcome: (kind, guard, State, value); guards relative to entry, exclusive and exhaustive
    def drain(self, st, nthr, outs, g):
        """move throws recorded during expression evaluation into outcomes; returns residual guard."""
        while len(st.thr) > nthr:
            gd, ty, s = st.thr.pop(nthr)
            gg = and_(g, gd)
            if gg is not FALSE:
                outs.append(('throw', gg, s if s is not None else st.copy(), ty))
            g = and_(g, not_(gd))
        return g

    def block(self, s, st, fr):
        return self.stmt(s, st, fr)

    def seq(self, stmts, st, fr):
        outs = []
        g = TRUE
        cur = st
        for s in stmts:
            rs = self.stmt(s, cur, fr)
            normals = []
            for kind, gd, ns, v in rs:
                gg = and_(g, gd)
                if gg is FALSE:
                    continue
                if kind == 'normal':
                    normals.append((gd, ns))
                else:
                    outs.append((kind, gg, ns, v))
            if not normals:
                return outs
            if len(normals) == 1:
                gd, ns = normals[0]
                nxt = ns
            else:
                nxt = merge_states(normals)
                nxt.pc = list(cur.pc) if cur is not nxt else nxt.pc
                gd = or_(*[x for x, _ in normals])
            cond = or_(*[x for x, _ in normals])
            if cond is not TRUE:
                base = [x for x in nxt.pc]
                if len(normals) > 1:
                    base = list(cur.pc)
                if cond not in base:
                    base.append(cond)
                nxt.pc = base
            g = and_(g, cond)
            cur = nxt
        outs.append(('normal', g, cur, None))
        return outs

    def stmt(self, s, st, fr):
        if s is None:
            return [('normal', TRUE, st, None)]
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s, st, fr)
        # expression statement
        outs = []
        n = len(st.thr)
        if k == 'Throw':
            ty = self.p.ts(s['e']['t'])['n'] if 'e' in s else 'rethrow'
            return [('throw', TRUE, st, ty)]
        self.ev(s, st, fr)
        g = self.drain(st, n, outs, TRUE)
        if g is not FALSE and FALSE not in st.pc:
            outs.append(('normal', g, st, None))
        return outs

    def e_Throw(self, e, st, fr):
        ty = self.p.ts(e['e']['t'])['n'] if 'e' in e else 'rethrow'
        st.thr.append((TRUE, ty, st.copy()))
        st.pc.append(FALSE)
        return None

    def s_Block(self, s, st, fr):
        n = len(fr.locks)
        outs = self.seq(s['b'], st, fr)
        while len(fr.locks) > n:
            # locks of this block are released on every way out of it
            l = fr.locks.pop()
            for kind, g, ns, v in outs:
                self.release(l, ns)
        return outs

    def release(self, l, st):
        own = st.mem.get(l[0])
        if own is None or own is FALSE:
            return
        if own is not TRUE:
            raise Unsupported('lock held on some paths only')
        self.contracts['@unlock'](self, l[1], st)
        st.mem[l[0]] = FALSE

    def decl_lock(self, d, st, fr):
        e = d['init']
        while e['k'] != 'Ctor' and 'e' in e:
            e = e['e']
        if e['k'] != 'Ctor' or len(e['a']) != 1:
            raise Unsupported('lock of several mutexes or deferred lock')
        m = self.lv(e['a'][0], st, fr)
        var_ = self.new_root(self.p.sort(d['t']), raw('defobj', (), None, self.p.sort(d['t'])), st, 'v_' + d['n'])
        fr.env[d['id']] = var_
        own = 'ghost:lock:' + var_.pl[0]
        self.locks[var_.pl[0]] = m
        self.contracts['@lock'](self, m, st)
        st.mem[own] = TRUE
        fr.locks.append((own, m))

    LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')

    def s_Null(self, s, st, fr):
        return [('normal', TRUE, st, None)]

    def s_Decl(self, s, st, fr):
        outs = []
        n = len(st.thr)
        for d in s['ds']:
            self.decl(d, st, fr)
        g = self.drain(st, n, outs, TRUE)
        if g is not FALSE and FALSE not in st.pc:
            outs.append(('normal', g, st, None))
        return outs

    def decl(self, d, st, fr):
        t = d['t']
        X = self.p.ts(t)
        if d.get('static'):
            if not d.get('const'):
                raise Unsupported('static local ' + d['n'])
        if '@lock' in self.contracts and X.get('n') in self.LOCKS and 'init' in d:
            return self.decl_lock(d, st, fr)
        if X['k'] == 'ref':
            fr.env[d['id']] = self.lv(d['init'], st, fr)
        elif 'init' in d:
            v = self.val(d['init'], st, fr)
            if v is None:
                return
            fr.env[d['id']] = self.new_root(self.p.sort(t), v, st, 'v_' + (d['n'] or 'anon'))
        else:
            s = self.p.sort(t)
            fr.env[d['id']] = self.new_root(s, self.freshval(s, 'uninit_' + d['n']), st, 'v_' + d['n'])
        if 'bindings' in d:
            self.bindings(d, st, fr)

    def bindings(self, d, st, fr):
        for b in d['bindings']:
            if 'hold' in b:
                self.decl(b['hold'], st, fr)
                fr.env[b['id']] = fr.env[b['hold']['id']]
            elif 'e' in b:
                fr.env[b['id']] = self.lv(b['e'], st, fr)
            else:
                raise Unsupported('binding')

    def s_Return(self, s, st, fr):
        outs = []
        n = len(st.thr)
        v = UNITV
        if 'e' in s:
            f = fr.fn
            if f and self.p.ts(f['ret'])['k'] == 'ref':
                v = self.lv(s['e'], st, fr)
            else:
                v = self.val(s['e'], st, fr)
        g = self.drain(st, n, outs, TRUE)
        if g is not FALSE and FALSE not in st.pc:
            outs.append(('return', g, st, v))
        return outs

    def s_Break(self, s, st, fr):
        return [('break', TRUE, st, None)]

    def s_Continue(self, s, st, fr):
        return [('continue', TRUE, st, None)]

    def s_If(self, s, st, fr):
        if s.get('constexpr') and 'cv' in s:
            b = s.get('th') if s['cv'] else s.get('el')
            return self.stmt(b, st, fr)
        pre = []
        n = len(st.thr)
        if 'init' in s:
            r = self.stmt(s['init'], st, fr)
            if len(r) != 1:
                raise Unsupported('if-init outcomes')
            st = r[0][2]
        if 'var' in s:
            self.decl(s['var']['ds'][0], st, fr)
        c = self.simp(self.val(s['c'], st, fr), st)
        outs = []
        g = self.drain(st, n, outs, TRUE)
        if g is FALSE or FALSE in st.pc:
            return outs
        for kind, gd, ns, v in self.fork(c, lambda x: self.stmt(s.get('th'), x, fr),
                                         lambda x: self.stmt(s.get('el'), x, fr), st):
            outs.append((kind, and_(g, gd), ns, v))
        return outs

    def fork(self, c, f, h, st):
        if c is TRUE:
            return f(st)
        if c is FALSE:
            return h(st)
        s1, s2 = st.copy(), st
        s1.pc.append(c)
        r1 = f(s1)
        s2 = st.copy()
        s2.pc.append(not_(c))
        r2 = h(s2)
        outs = []
        normals = []
        for c0, rs in ((c, r1), (not_(c), r2)):
            for kind, gd, ns, v in rs:
                gg = and_(c0, gd)
                if gg is FALSE:
                    continue
                if kind == 'normal':
                    normals.append((gg, ns))
                else:
                    outs.append((kind, gg, ns, v))
        if normals:
            if len(normals) == 1:
                m = normals[0][1]
                g = normals[0][0]
                m.pc = st.pc + [g]
            else:
                m = merge_states(normals)
                g = or_(*[x for x, _ in normals])
                m.pc = list(st.pc) + ([g] if g is not TRUE else [])
            outs.append(('normal', g, m, None))
        return outs

    def s_Switch(self, s, st, fr):
        if 'init' in s:
            r = self.stmt(s['init'], st, fr)
            st = r[0][2]
        v = self.val(s['c'], st, fr)
        body = s['b']['b']
        # flatten case labels
        items = []

        def addstmt(x):
            if x['k'] == 'Case':
                items.append(('case', int(x['v']['v'])))
                addstmt(x['b'])
            elif x['k'] == 'Default':
                items.append(('default', None))
                addstmt(x['b'])
            else:
                items.append(('stmt', x))
        for x in body:
            addstmt(x)
        cases = [b for a, b in items if a == 'case']
        groups = []   # (cond, start)
        i = 0
        for idx, (a, b) in enumerate(items):
            if a == 'case':
                groups.append((eq(v, I(b)), idx))
            elif a == 'default':
                groups.append((and_(*[not_(eq(v, I(c))) for c in cases]), idx))
        if not any(a == 'default' for a, b in items):
            groups.append((and_(*[not_(eq(v, I(c))) for c in cases]), len(items)))
        # merge consecutive labels sharing the same first statement
        def first_stmt(i):
            while i < len(items) and items[i][0] != 'stmt':
                i += 1
            return i
        mg = {}
        for c, i in groups:
            j = first_stmt(i)
            mg[j] = or_(mg.get(j, FALSE), c)
        # enum exhaustive: drop impossible default
        s0 = v.sort
        outs = []
        brk = []
        for j, c in mg.items():
            if s0[0] == 'E':
                if all(any(eq(v, I(x)) is y for y in ([c] if c.op != 'or' else c.args)) for x in []):
                    pass
                # default condition excluding every enumerator is unsatisfiable
                neg = [x.args[0] for x in (c.args if c.op == 'and' else (c,)) if x.op == 'not']
                if len(neg) == len(s0[2]) and all(eq(v, I(x)) in neg for x in s0[2]):
                    continue
            if self.simp(c, st) is FALSE or c is FALSE:
                continue
            ss = st.copy()
            if c is not TRUE:
                ss.pc.append(c)
            rs = self.seq([x for a, x in items[j:] if a == 'stmt'], ss, fr)
            for kind, gd, ns, vv in rs:
                gg = and_(c, gd)
                if gg is FALSE:
                    continue
                if kind in ('break', 'normal'):
                    brk.append((gg, ns))
                else:
                    outs.append((kind, gg, ns, vv))
        if brk:
            m = merge_states(brk)
            g = or_(*[x for x, _ in brk]) if outs else TRUE
            m.pc = list(st.pc) + ([g] if g is not TRUE else [])
            outs.append(('normal', g, m, None))
        return outs

    def s_Try(self, s, st, fr):
        rs = self.stmt(s['b'], st.copy(), fr)
        outs = []
        thr = []
        for o in rs:
            if o[0] == 'throw':
                thr.append(o)
            else:
                outs.append(o)
        for kind, g, ns, v in thr:
            rest = g
            for h in s['h']:
                c = TRUE
                if 'var' in h:
                    t = self.p.ts(h['var']['t'])
                    while t.get('k') in ('ref', 'rref', 'ptr') and 'p' in t:
                        t = self.p.ts(t['p'])
                    c = self.catches(t.get('n', ''), v)
                gh = and_(rest, c)
                if gh is FALSE:
                    continue
                rest = and_(rest, not_(c))
                n1 = ns.copy()
                n1.pc = list(st.pc) + [gh]
                if 'var' in h:
                    l = self.new_root(('O', 'exc'), fresh('exc', ('O', 'exc')), n1, 'exc')
                    fr.env[h['var']['id']] = l
                for k2, g2, n2, v2 in self.stmt(h['b'], n1, fr):
                    outs.append((k2, and_(gh, g2), n2, v2))
                if rest is FALSE:
                    break
            if rest is not FALSE:
                n1 = ns.copy()
                n1.pc = list(st.pc) + [rest]
                outs.append(('throw', rest, n1, v))
        return outs

    STD_EXC = {'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception', 'std::bad_alloc': 'std::exception',
               'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::length_error': 'std::logic_error',
               'std::domain_error': 'std::logic_error', 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
               'std::underflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error',
               'std::bad_variant_access': 'std::exception', 'std::bad_optional_access': 'std::exception',
               'std::bad_cast': 'std::exception', 'std::bad_function_call': 'std::exception', 'std::exception': None}

    def catches(self, handler, thrown):
        """TRUE/FALSE where the types decide it, else an arbitrary condition (an exception of unknown type)."""
        h, t = (str(x).replace('const ', '').replace(' &', '').strip() for x in (handler, thrown))
        if h == t:
            return TRUE
        if t in self.STD_EXC and (h in self.STD_EXC or not h.startswith(('std::', 'class std::'))):
            while t is not None:
                if t == h:
                    return TRUE
                t = self.STD_EXC.get(t)
            return FALSE
        return fresh('caught', BOOL)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, fr):
        if 'init' in s:
            r = self.stmt(s['init'], st, fr)
            if len(r) != 1 or r[0][0] != 'normal':
                raise Unsupported('for-init outcome')
            st = r[0][2]

        def iterate(k, x):
            c = TRUE
            if 'c' in s:
                c = self.simp(self.val(s['c'], x, fr), x)
            return self.iter_body(c, s['b'], s.get('inc'), x, fr)
        return self.loop(st, iterate)

    def iter_body(self, c, body, inc, x, fr):
        outs = []
        if c is not TRUE:
            ex = x.copy()
            ex.pc.append(not_(c))
            if c is not TRUE:
                outs.append(('exit', not_(c), ex, None))
        if c is FALSE:
            return outs
        y = x.copy()
        if c is not TRUE:
            y.pc.append(c)
        rs = self.stmt(body, y, fr) if not callable(body) else body(y)
        nxt = []
        for kind, g, ns, v in rs:
            gg = and_(c, g)
            if gg is FALSE:
                continue
            if kind in ('normal', 'continue'):
                nxt.append((gg, ns))
            else:
                outs.append((kind, gg, ns, v))
        if nxt:
            m = nxt[0][1] if len(nxt) == 1 else merge_states(nxt)
            if len(nxt) > 1:
                m.pc = list(y.pc)
            if inc is not None:
                n = len(m.thr)
                self.ev(inc, m, fr)
            outs.append(('next', or_(*[g for g, _ in nxt]), m, None))
        return outs

    def s_While(self, s, st, fr):
        def iterate(k, x):
            n = len(x.thr)
            if 'var' in s:
                self.decl(s['var']['ds'][0], x, fr)
            c = self.simp(self.val(s['c'], x, fr), x)
            outs = []
            g = self.drain(x, n, outs, TRUE) if len(x.thr) > n else TRUE
            return outs + [(kd, and_(g, gg), ns, v) for kd, gg, ns, v in self.iter_body(c, s['b'], None, x, fr)]
        return self.loop(st, iterate)

    def s_Do(self, s, st, fr):
        def iterate(k, x):
            rs = self.stmt(s['b'], x.copy(), fr)
            outs, nxt = [], []
            for kind, g, ns, v in rs:
                if g is FALSE:
                    continue
                if kind in ('normal', 'continue'):
                    nxt.append((g, ns))
                else:
                    outs.append((kind, g, ns, v))
            if nxt:
                m = nxt[0][1] if len(nxt) == 1 else merge_states(nxt)
                g = or_(*[g for g, _ in nxt])
                if len(nxt) > 1:
                    m.pc = list(x.pc)
                n = len(m.thr)
                c = self.simp(self.val(s['c'], m, fr), m)
                if len(m.thr) > n:
                    g = and_(g, self.drain(m, n, outs, g))
                a, b = m.copy(), m.copy()
                if c is not TRUE:
                    a.pc.append(not_(c))
                    outs.append(('exit', and_(g, not_(c)), a, None))
                if c is not FALSE:
                    b.pc.append(c)
                    outs.append(('next', and_(g, c), b, None))
            return outs
        return self.loop(st, iterate)

    def s_ForRange(self, s, st, fr):
        if 'init' in s:
            r = self.stmt(s['init'], st, fr)
            st = r[0][2]
        outs = []
        n = len(st.thr)
        l = self.lv(s['rng'], st, fr)
        g = self.drain(st, n, outs, TRUE)
        if g is FALSE:
            return outs

        def body(el, x):
            """el: location of the element."""
            d = s['var']
            X = self.p.ts(d['t'])
            if X['k'] == 'ref':
                fr.env[d['id']] = el
            else:
                v = self.read(el, x)
                fr.env[d['id']] = self.new_root(self.p.sort(d['t']), v, x, 'v_' + (d['n'] or 'sb'))
            if 'bindings' in d:
                self.bindings(d, x, fr)
            return self.stmt(s['b'], x, fr)
        D = self.p.ts(s['var']['t'])
        ro = D['k'] != 'ref' or D.get('const')
        rs = self.foreach_range(l, s['rng']['t'], body, st, ro)
        for kind, gd, ns, v in rs:
            outs.append((kind, and_(g, gd), ns, v))
        return outs

    def foreach_range(self, l, t, body, st, ro=False):
        t = self.p.strip(t)
        X = self.p.ts(t)
        srt = self.p.sort(t)
        if srt[0] == 'S' and ro and self.read(l, st).op in ('flat', 'cat', 'ite'):
            v = self.read(l, st)
            if any(x.op == 'flat' for x in segs(v)) or v.op == 'ite':
                s1, n0 = st.copy(), len(self.obls)
                outs = self.foreach_struct(v, body, s1)
                if not self.counts(outs, st):
                    return outs
                # the loop counts the elements it meets: by position rather than by their origin
                del self.obls[n0:]
        if srt[0] in ('S', 'M'):
            return self.foreach(l, body, st)
        # class with begin()/end() returning iterators over an inner vector
        r = self.lib.range_of(l, t, st)
        if r is not None:
            return self.foreach(r, body, st)
        raise Unsupported('range-for over ' + X['s'])

    def counts(self, outs, st):
        """a loop over a filtered sequence left a number of elements (a sum) in a variable."""
        for kind, g, s, v in outs:
            if kind != 'normal':
                continue
            for c, x in s.mem.items():
                o = st.mem.get(c)
                if o is not None and o is not x and isint(x.sort) and o.op == 'int' and (
                        x.op == 'sum' or x.op == 'lin' and any(a.op == 'sum' for a in x.args)):
                    return True
        return False

    def foreach(self, l, body, st, lo=None, n=None):
        """iterate a container location: body(element location, state) -> outs."""
        v = self.read(l, st)
        if v.sort[0] == 'M':
            m0 = v
            cnt = msize(m0)

            def el(k):
                return self.step(l, ('p',), mkey(m0, k))
            return self.count_loop(cnt, el, body, st)
        if v.sort[0] != 'S':
            raise Unsupported('foreach over ' + str(v.sort))
        if lo is None:
            # decompose structured sequences of locations so elements stay structured
            if v.sort[1][0] in ('L', 'IT', 'FN', 'CL') or v.sort[1][0] == 'R' and any(
                    s[0] == 'L' for _, s in rfields(v.sort[1])):
                return self.foreach_struct(v, body, st)
            cnt = seqlen(v)
            return self.count_loop(cnt, lambda k: self.step(l, ('i',), k), body, st)
        return self.count_loop(n, lambda k: self.step(l, ('i',), add(lo, k)), body, st)

    def foreach_struct(self, v, body, st):
        """foreach over a sequence *value* whose elements are (or contain) locations."""
        def one(x):
            def f(s):
                el = self.new_root(x.sort, x, s, 'el')
                return body(el, s)
            return f
        op = v.op
        if op == 'nil':
            return [('normal', TRUE, st, None)]
        if op == 'unit':
            # single-iteration loop: continue/break are normal
            return self.once(one(v.args[0]), st)
        if op == 'cat':
            outs = []
            g = TRUE
            cur = st
            for sgm in v.args:
                rs = self.foreach_struct(sgm, body, cur)
                nrm = None
                for kind, gd, ns, vv in rs:
                    if kind == 'normal':
                        if nrm is not None:
                            raise Unsupported('split normals')
                        nrm = (gd, ns)
                    else:
                        outs.append((kind, and_(g, gd), ns, vv))
                if nrm is None:
                    return outs
                g = and_(g, nrm[0])
                cur = nrm[1]
            outs.append(('normal', g, cur, None))
            return outs
        if op == 'tab':
            n, lm = v.args

            def it(k, s):
                return one(inst(lm, [k]))(s)
            return self.count_loop(n, None, None, st, it)
        if op == 'flat':
            n, lm = v.args

            def it2(k, s):
                return self.foreach_struct(inst(lm, [k]), body, s)
            return self.count_loop(n, None, None, st, it2)
        if op == 'ite':
            return self.fork(v.args[0], lambda s: self.foreach_struct(v.args[1], body, s),
                             lambda s: self.foreach_struct(v.args[2], body, s), st)
        # opaque sequence
        n = seqlen(v)
        return self.count_loop(n, None, None, st, lambda k, s: one(seqat(v, k))(s))

    def once(self, f, st):
        outs = []
        nrm = []
        for kind, g, ns, v in f(st):
            if kind in ('normal', 'continue', 'break'):
                nrm.append((g, ns))
            else:
                outs.append((kind, g, ns, v))
        if nrm:
            m = nrm[0][1] if len(nrm) == 1 else merge_states(nrm)
            outs.append(('normal', or_(*[g for g, _ in nrm]), m, None))
        return outs

    def count_loop(self, n, el, body, st, it=None):
        if n.op == 'int' and n.pl <= 0:
            return [('normal', TRUE, st, None)]

        def iterate(k, x):
            c = self.simp(lt(k, n), x)
            if it is not None:
                return self.iter_body(c, lambda y: it(k, y), None, x, None)
            return self.iter_body(c, lambda y: body(el(k), y), None, x, None)
        return self.loop(st, iterate)

    def diff(self, old, new, path, out, bad):
        if old is new:
            return
        if old.sort[0] == 'R' and (old.op == 'rec' or new.op == 'rec'):
            for f, _ in rfields(old.sort):
                self.diff(fld(old, f), fld(new, f), path + (('f', f),), out, bad)
            return
        if old.op == 'vit' and new.op == 'vit' and old.args[0] is new.args[0]:
            out.append(path + (('vit',),))
            return
        if old.sort[0] == 'S' and new.op in ('store', 'ite'):
            n = one_index(old, new)
            if n is not None and n != 'same' and not any(v.id in n.fv for v in bad):
                # only one element changes, at an index that stays the same throughout the loop
                self.diff(seqat(old, n), seqat(new, n), path + (('i', n),), out, bad)
                return
        if old.sort[0] == 'V' and new.op == 'inj' and (self.simp(eq(vidx(old), I(new.pl)), self.entry) is TRUE or all(
                self.simp(eq(vidx(old), I(i)), self.entry) is FALSE for i in range(len(old.sort[1])) if i != new.pl)):
            # the alternative held is known and stays the same throughout the loop
            self.diff(vget(old, new.pl), new.args[0], path + (('v', new.pl),), out, bad)
            return
        out.append(path)

    def cell_get(self, st, cell):
        root, path = cell
        v = st.mem[root]
        for s in path:
            if s[0] == 'vit':
                v = v.args[1]
            elif s[0] == 'i':
                v = seqat(v, s[1])
            elif s[0] == 'v':
                v = vget(v, s[1])
            else:
                v = fld(v, s[1])
        return v

    def cell_set(self, st, cell, x):
        root, path = cell

        def put(v, p):
            if not p:
                return x
            if p[0][0] == 'vit':
                return raw('vit', (v.args[0], x) + tuple(v.args[2:]), v.pl, v.sort)
            if p[0][0] == 'i':
                return store(v, p[0][1], put(seqat(v, p[0][1]), p[1:]))
            if p[0][0] == 'v':
                return inj(p[0][1], put(vget(v, p[0][1]), p[1:]), v.sort)
            return upd(v, p[0][1], put(fld(v, p[0][1]), p[1:]))
        st.mem[root] = put(st.mem[root], path)

    def loop(self, st0, iterate):
        k = fresh('k', Z, 0, (1 << 63))
        cells = {}   # (root, path) -> havoc var
        roots0 = list(st0.mem)
        nobl = len(self.obls)
        closed_hint = {}
        noinv = set()    # positions for which 'within its sequence' is not an invariant
        for attempt in range(40):
            st = st0.copy()
            st.thr = []
            for c, h in cells.items():
                self.cell_set(st, c, closed_hint.get(c, h))
            # candidate invariants: a position carried by the loop stays within its sequence
            invs = {}
            for c, h in cells.items():
                if c[1] and c[1][-1][0] == 'vit' and c not in closed_hint and c not in noinv:
                    n = self.vit_len(st0, c)
                    if n is not None:
                        invs[c] = (h, n)
                        st.pc += [ge(h, I(0)), ge(n, h)]
            del self.obls[nobl:]
            memb = dict(st.mem)
            mark = next(ir._ids)
            outs = iterate(k, st)
            nxt = [(g, s) for kind, g, s, v in outs if kind == 'next']
            if not nxt:
                # body never completes an iteration: at most one
                return self.loop_final_once(outs, st0, k, cells)
            gN, sN = nxt[0] if len(nxt) == 1 else (or_(*[g for g, _ in nxt]), merge_states(nxt))
            new = []
            for r in roots0:
                if sN.mem[r] is not memb[r]:
                    ds = []
                    self.entry = st0
                    self.diff(memb[r], sN.mem[r], (), ds, [k] + list(cells.values()))
                    new += [(r, d) for d in ds]
            add_ = [c for c in new if c not in cells]
            if add_:
                for c in add_:
                    # cells of different elements of one sequence: keep the whole sequence
                    ch = True
                    while ch:
                        ch = False
                        for c2 in list(cells):
                            for i, (x, y) in enumerate(zip(c2[1], c[1])):
                                if x != y:
                                    if c2[0] == c[0] and x[0] == 'i' and y[0] == 'i':
                                        c = (c[0], c[1][:i])
                                        ch = True
                                    break
                            if ch:
                                break
                    # drop cells that extend c
                    for c2 in list(cells):
                        if c2[0] == c[0] and c2[1][:len(c[1])] == c[1]:
                            del cells[c2]
                            closed_hint.pop(c2, None)
                    if any(c2[0] == c[0] and c[1][:len(c2[1])] == c2[1] for c2 in cells):
                        continue
                    v0 = self.cell_get(st0, c)
                    cells[c] = fresh('h_%s' % (c[1][-1][-1] if c[1] else c[0]), v0.sort if v0.op != 'int' else (
                        v0.sort if v0.sort != Z else Z))
                    if v0.op == 'int' or isint(v0.sort):
                        cells[c] = fresh('h_%s' % (c[1][-1][-1] if c[1] else c[0]), self.cell_sort(c, v0))
                continue
            # affine hints
            changed = False
            for c, h in cells.items():
                if c in closed_hint:
                    continue
                v0 = self.cell_get(st0, c)
                f = self.cell_get(sN, c)
                if isint(f.sort) and f.sort[0] != 'B':
                    f2 = f
                    d = sub(f2, h)
                    if d.op == 'int' and d.pl != 0:
                        closed_hint[c] = add(v0, scale(d.pl, k))
                        changed = True
                    elif (rng(d)[0] or 0) > 0 and k.id not in d.fv and not any(x.id in d.fv for x in cells.values()):
                        # a stride that does not change in the loop
                        closed_hint[c] = add(v0, mul(k, d))
                        changed = True
                    elif f2.op == 'wrap' and sub(f2.args[0], h).op == 'int' and sub(f2.args[0], h).pl == 1 and \
                            rng(v0)[1] is not None and rng(v0)[1] <= SIZEMAX and f2.pl[0] == 64:
                        # counters started from a container-sized value do not wrap within 2^63 iterations
                        closed_hint[c] = add(v0, k)
                        changed = True
                if c in closed_hint:
                    continue
                if not any(x.id in f.fv for x in cells.values()) and subst(f, {k: I(-1)}) is v0:
                    # a value computed anew in each iteration, from the number of the iteration only
                    closed_hint[c] = subst(f, {k: add(k, I(-1))})
                    changed = True
                elif f.sort[0] == 'S':
                    f2 = simp_under(f, gN, True)
                    if f2.op == 'slice' and f2.args[0] is h and f2.args[1].op == 'int' and f2.args[1].pl > 0 and \
                            add(f2.args[1], f2.args[2]) is seqlen(h) and \
                            any(x is ge(sub(seqlen(h), f2.args[1]), I(0)) for x in (gN.args if gN.op == 'and' else (gN,))):
                        # a queue emptied from its front
                        d = scale(f2.args[1].pl, k)
                        closed_hint[c] = slice_(v0, d, sub(seqlen(v0), d))
                        changed = True
                    elif f is ite(eq(seqlen(h), I(0)), h, slice_(h, I(0), sub(seqlen(h), I(1)))):
                        # a stack popped while it is not empty
                        closed_hint[c] = slice_(v0, I(0), ir.nonneg(sub(seqlen(v0), k)))
                        changed = True
            if changed:
                continue
            # the candidates have to hold at the start and to be kept by every iteration
            if invs:
                from prove import valid
                bad = set()
                hyp = [x for h, n in invs.values() for x in (ge(h, I(0)), ge(n, h))]
                for c, (h, n) in invs.items():
                    v0, f, n1 = self.cell_get(st0, c), self.cell_get(sN, c), self.vit_len(sN, c)
                    if n1 is not n or valid(st0.pc, and_(ge(v0, I(0)), ge(n, v0))) != 'yes' or \
                            valid(hyp + [gN, ge(k, I(0))], and_(ge(f, I(0)), ge(n, f))) != 'yes':
                        bad.add(c)
                if bad:
                    noinv |= bad
                    continue
            break
        else:
            raise Unsupported('loop did not stabilise')
        # ---- values made up in the body (what outside functions return) are different ones in every iteration
        made = {}
        for t in [t for kind, g, s, v in outs for t in [g, v, *s.mem.values()] if isinstance(t, T)] + list(sN.mem.values()) + [gN]:
            for i in t.fv:
                if i > mark and i not in made:
                    x = ir._vars[i]
                    if x.sort != LOC and x.sort[0] != 'LAM' and x is not k and not any(x is h for h in cells.values()):
                        made[i] = x
        if made:
            m = {x: uf('each', [x, k], x.sort) for x in made.values()}
            new = lambda t: subst(t, m) if isinstance(t, T) else t
            news = lambda s: State({r: new(t) for r, t in s.mem.items()}, [new(c) for c in s.pc], s.thr)
            sN, gN = news(sN), new(gN)
            outs = [(kind, new(g), news(s), new(v)) for kind, g, s, v in outs]
        # ---- objects made in the body and kept: a different one in every iteration
        own = set()
        for c in cells:
            own |= {x.pl[0] for x in subterms(self.cell_get(sN, c)).values()
                    if x.op == 'loc' and isinstance(x.pl[0], str) and x.pl[0].startswith('heap') and x.pl[0] not in roots0 and x.pl[0] in sN.mem}
        if own:
            def each(t):
                if not isinstance(t, T):
                    return t
                xs = [x for x in subterms(t).values() if x.op == 'loc' and x.pl[0] in own]
                return ir.replace_many(t, [(x, loc(x.pl[0] + '[]', (('i',),) + x.pl[1], (k,) + x.args)) for x in xs])
            eachs = lambda s: State({r: each(t) for r, t in s.mem.items() if r not in own}, [each(c) for c in s.pc], s.thr)
            kept = {r: each(sN.mem[r]) for r in own}
            sN, gN = eachs(sN), each(gN)
            outs = [(kind, each(g), eachs(s), each(v)) for kind, g, s, v in outs]
        # ---- solve
        order = list(cells)
        free = [c for c in order if c not in closed_hint]
        inits = [self.cell_get(st0, c) for c in free]
        hv = [cells[c] for c in free]
        # assume the next-guard context in bodies
        bodies = []
        for c in free:
            f = self.cell_get(sN, c)
            bodies.append(f)
        labels = ['%s' % '.'.join(str(x[-1]) if x[0] != 'i' else '[]' for x in c[1]) if c[1] else c[0].rstrip('0123456789') for c in free]
        lams = [lam([k] + hv, b) for b in bodies]
        at_k = {}
        for i, c in enumerate(free):
            at_k[hv[i]] = fold(k, inits, lams, labels, i)
        # ---- exit condition at k
        rest = [g for kind, g, s, v in outs if kind != 'next']
        if rest and all(kind in ('next', 'exit') for kind, g, s, v in outs):
            # the outcomes of an iteration exclude each other and cover all cases
            gN = not_(or_(*rest))
        E = not_(subst(gN, at_k))
        try:
            n0, brk = self.solve_exit(E, k, st0.pc)
        except Unsupported:
            # the outcomes of an iteration exclude each other and cover all cases
            n0, brk = self.solve_exit(or_(*[subst(g, at_k) for kind, g, s, v in outs if kind != 'next']), k, st0.pc)
        if n0.op == 'msize' and not any(v.id in n0.fv for v in hv):
            # iterations run with k below n0: earlier iterations saw other keys of the map
            bodies = [simp_under(b, ge(k, n0), False, 12) for b in bodies]
            lams = [lam([k] + hv, b) for b in bodies]
            at_k = {h: fold(k, inits, lams, labels, i) for i, h in enumerate(hv)}
            in_k = {h: under_iter(v, k, n0) for h, v in at_k.items()}
            brk = drop_bound(under_iter(brk, k, n0), k, n0)
        else:
            in_k = at_k
        e = least(n0, lam([k], brk)) if brk is not FALSE else n0
        self.last_loop = dict(k=k, n0=n0, brk=brk, e=e)

        def fin(t):
            return subst(subst(t, at_k), {k: e})
        # ---- obligations raised inside the last pass
        for i in range(nobl, len(self.obls)):
            pc, cond, text = self.obls[i]
            self.obls[i] = ([subst(x, in_k) for x in pc] + [le(k, n0)], subst(cond, in_k), text)
        res = []
        normals = []
        for kind, g, s, v in outs:
            if kind == 'next':
                continue
            gg = subst(g, at_k)
            if kind == 'exit':
                # state: closed form at e
                m = self.finstate(s, at_k, k, e, st0)
                normals.append((kind, simp_exit(subst(gg, {k: e}), k, e, n0, brk, True), m))
            elif kind == 'break':
                m = self.finstate(s, at_k, k, e, st0)
                normals.append((kind, and_(lt(e, n0), subst(strip_bound(gg, k, n0), {k: e})), m))
            else:
                m = self.finstate(s, at_k, k, e, st0)
                m.pc = list(st0.pc)
                vv = v if v is None or isinstance(v, str) else fin(v)
                g2 = and_(lt(e, n0), subst(strip_bound(gg, k, n0), {k: e}))
                res.append((kind, g2, m, vv))
        post = [fin(x) for c, (h, n) in invs.items() for x in (ge(h, I(0)), ge(n, h))]
        if own:
            for r, t in kept.items():
                objs = tab(e, lam([k], subst(t, at_k)), ('S', t.sort))
                for x in res + normals:
                    x[2].mem[r + '[]'] = objs
        for x in res:
            x[2].pc += post
        for x in normals:
            x[2].pc += post
        if normals:
            if not any(kd != 'exit' for kd, _, _ in normals) and not res:
                m = normals[0][2] if len(normals) == 1 else merge_states([(g, s) for _, g, s in normals])
                m.pc = list(st0.pc) + post
                res.append(('normal', TRUE, m, None))
            else:
                # put breaks first, exit as default
                normals.sort(key=lambda x: x[0] == 'exit')
                m = merge_states([(g, s) for _, g, s in normals])
                m.pc = list(st0.pc) + post
                g = not_(or_(*[x[1] for x in res])) if res else TRUE
                if g is not TRUE:
                    m.pc.append(g)
                res.append(('normal', g, m, None))
        return res

    def vit_len(self, st, c):
        """the length of the sequence the iterator at cell c points into."""
        v = st.mem[c[0]]
        for p in c[1][:-1]:
            v = seqat(v, p[1]) if p[0] == 'i' else fld(v, p[1])
        if v.op != 'vit' or len(v.args) != 2:
            return None
        try:
            q = self.read(v.args[0], st)
        except Exception:
            return None
        return seqlen(q) if q.sort[0] == 'S' else None

    def cell_sort(self, c, v0):
        """static integer sort of a cell (from the root's declared sort)."""
        s = v0.sort
        return s if s[0] in 'IE' else ('I', 64, False) if (rng(v0)[0] or 0) >= 0 and v0.op == 'int' and v0.pl >= 0 else Z

    def loop_final_once(self, outs, st0, k, cells):
        if cells:
            raise Unsupported('loop without next but with havoc')
        res = []
        nrm = []
        for kind, g, s, v in outs:
            m = State({r: subst(t, {k: I(0)}) for r, t in s.mem.items()}, list(st0.pc), [])
            g = subst(g, {k: I(0)})
            if kind in ('exit', 'break'):
                nrm.append((g, m))
            else:
                res.append((kind, g, m, v if v is None or isinstance(v, str) else subst(v, {k: I(0)})))
        if nrm:
            m = merge_states(nrm)
            g = or_(*[x for x, _ in nrm])
            m.pc = list(st0.pc) + ([g] if g is not TRUE else [])
            res.append(('normal', g, m, None))
        return res

    def finstate(self, s, at_k, k, e, st0):
        mem = {}
        for r, t in s.mem.items():
            mem[r] = subst(subst(t, at_k), {k: e})
        return State(mem, list(st0.pc), [])

    def solve_exit(self, E, k, facts=()):
        """E(k): exit at iteration k.  Returns (n0, brk): loop ends at least(n0, brk)."""
        if E is FALSE:
            raise Unsupported('unbounded loop')
        ds = disjuncts(E)
        for d in ds:
            n = bound_of(d, k)
            known = False
            if n is None:
                n = modular_exit(d, k)
                known = n is not None
            if n is None and d.op == 'eq' and isint(d.args[0].sort) and facts:
                # 'k == n' with n known not to be negative here
                from prove import valid
                n = ir._solve_eq(d, k)
                known = n is not None and valid(list(facts), ge(n, I(0))) == 'yes'
                n = n if known else None
            if n is not None:
                rest = or_(*[x for x in ds if x is not d])
                rest = drop_bound(rest, k, n)
                return n if known else nonneg(n), rest
        # the bound depends on a condition that does not change in the loop
        if E.op == 'ite' and k.id not in E.args[0].fv:
            c, a, b = E.args
            if a is TRUE or b is TRUE:
                n, r = self.solve_exit(b if a is TRUE else a, k, facts)
                return (ite(c, I(0), n) if a is TRUE else ite(c, n, I(0))), r
            n1, r1 = self.solve_exit(a, k, facts)
            n2, r2 = self.solve_exit(b, k, facts)
            return ite(c, n1, n2), ite(c, r1, r2)
        # guess the number of iterations and let the solver check it
        from prove import valid
        for x in sorted((y for y in subterms(E).values() if isint(y.sort) and y.op in ('lin', 'seqlen', 'ite', 'sum') and not y.nb
                         and rng(y)[0] is not None and rng(y)[0] >= 0), key=lambda y: y.size):
            n = subst(x, {k: I(0)}) if k.id in x.fv else x
            for d in (0, 1):
                m = add(n, I(d))
                if valid([], subst(E, {k: m})) == 'yes' and valid([ge0(k), lt(k, m)], not_(E)) == 'yes':
                    return m, FALSE
        # the exit condition holds from some iteration on at the latest
        for x in sorted((y for y in subterms(E).values() if y.op == 'ge0' and k in ir._lin(y.args[0])[1]), key=lambda y: y.size):
            m = bound_of(x, k)
            if m is not None and not m.nb and valid([], subst(E, {k: m})) == 'yes':
                return nonneg(m), E
        raise Unsupported('cannot bound loop: exit when %s' % show(E)[:200])


def one_index(old, new):
    """the index n if new is old with (at most) element n replaced; 'same' if nothing is; None otherwise."""
    if new is old:
        return 'same'
    if new.op == 'store':
        b, i = new.args[0], new.args[1]
        if b is old or old.op == 'store' and old.args[0] is b and old.args[1] is i:
            return i
        return None
    if new.op == 'ite':
        x, y = one_index(old, new.args[1]), one_index(old, new.args[2])
        if x is None or y is None:
            return None
        return y if isinstance(x, str) else x if isinstance(y, str) or x is y else None
    return None


def disjuncts(E):
    if E.op == 'or':
        return [y for x in E.args for y in disjuncts(x)]
    if E.op == 'not' and E.args[0].op == 'and':
        return [y for x in E.args[0].args for y in disjuncts(not_(x))]
    return [E]


def modular_exit(d, k):
    """d is 'a counter of machine words meets a value': the first k at which it does."""
    if d.op != 'eq' or not isint(d.args[0].sort):
        return None
    for x, y in (d.args, d.args[::-1]):
        if x.op != 'wrap' or x.pl[1] or k.id in y.fv:
            continue
        c, dd = ir._lin(x.args[0])
        kk = dd.pop(k, 0)
        t0 = ir._mklin(c, dd)
        if kk not in (1, -1) or k.id in t0.fv:
            continue
        w = x.pl[0]
        if y.op == 'wrap' and y.pl == x.pl:
            y = y.args[0]
        elif rng(y)[0] is None or rng(y)[0] < 0 or rng(y)[1] is None or rng(y)[1] >> w:
            continue
        return ir.wrap(w, False, sub(y, t0) if kk == 1 else sub(t0, y))
    return None


def bound_of(d, k):
    """d is 'k >= N' (N independent of k): return N."""
    if d.op == 'ge0':
        c, dd = ir._lin(d.args[0])
        kk = dd.pop(k, 0)
        ms = [x for x in dd if x.op == 'mul' and k in x.args]
        if not kk and len(ms) == 1 and dd[ms[0]] == 1:
            # k*p + rest >= 0  <=>  k >= ceil(-rest/p)
            p = ms[0].args[0] if ms[0].args[1] is k else ms[0].args[1]
            rest = ir._mklin(c, {x: y for x, y in dd.items() if x is not ms[0]})
            if k.id not in rest.fv and k.id not in p.fv and (rng(p)[0] or 0) > 0 and (rng(scale(-1, rest))[0] or 0) >= 0 \
                    and rng(scale(-1, rest))[0] is not None:
                return idiv(add(scale(-1, rest), sub(p, I(1))), p)
            return None
        if kk > 0:
            rest = ir._mklin(c, dd)
            if k.id in rest.fv:
                return None
            if kk == 1:
                return scale(-1, rest)
            # kk*k + rest >= 0  <=>  k >= ceil(-rest/kk)
            return idiv(add(scale(-1, rest), I(kk - 1)), I(kk)) if (rng(scale(-1, rest))[0] or -1) >= 0 else None
    if d.op == 'eq' and isint(d.args[0].sort):
        t = ir._solve_eq(d, k)
        if t is not None and (rng(t)[0] is not None and rng(t)[0] >= 0):
            return t
    return None


def under_iter(t, k, n):
    """t, given that k < n = |m|: a fold over the iterations before k sees keys other than the one at k."""
    new = {}
    for x in subterms(t).values():
        if x.op == 'fold' and x.args[0] is k:
            m = len(x.args) // 2
            lams = []
            for l in x.args[1 + m:]:
                vs, b = openlam(l)
                b = simp_under(b, ge(vs[0], n), False, 12)
                for y in list(subterms(b).values()):
                    if y.op == 'eq' and all(z.op == 'mkey' and z.args[0] is n.args[0] for z in y.args) and \
                            {y.args[0].args[1].id, y.args[1].args[1].id} == {k.id, vs[0].id}:
                        b = ir.replace(b, y, FALSE)
                lams.append(lam(vs, b))
            new[x] = fold(k, list(x.args[1:1 + m]), lams, x.pl[0], x.pl[1])
    return ir.replace_many(t, list(new.items())) if new else t


def drop_bound(t, k, n):
    """simplify t knowing k < n."""
    b = ge(k, n)
    r = simp_under(t, b, False, 12)
    # and with linear facts
    return r


def strip_bound(g, k, n0):
    return g


def simp_exit(g, k, e, n0, brk, is_exit):
    return g
