"""B05: devices and their selection."""
from vc import *
import ir
from backend import iff

Z0 = I(0)



def b05(V):
    p = V.programs['dev']
    CORE = 'knp::core::Backend::'
    CPU = 'knp::devices::cpu::CPU::'
    dev = p.sort([f for f in p.fns_all() if f['n'] == 'knp::core::Device::get_uid'][0]['cls'])
    uid = dict(rfields(dict(rfields(dev))['base_']))['uid_']
    for f in p.fns_all():
        if 'body' not in f:
            continue
        if f['n'] == CORE + 'select_devices':
            V.contract(f['n'], lambda f=f: several(V, p, f, dev))
        elif f['n'] == CORE + 'select_device':
            V.contract(f['n'], lambda f=f: one(V, p, f))
        elif f['n'] == CPU + 'operator=':
            V.contract(f['n'], lambda f=f: assigned(V, p, f))
        elif f['n'].endswith('::list_processors'):
            V.contract(f['n'], lambda f=f: processors(V, p, f))
        elif f['n'] in GETTERS:
            V.contract(f['n'] + (' const' if f.get('const') else ''), lambda f=f: getter(V, p, f, GETTERS[f['n']]))
        elif f['n'] == CPU + 'CPU':
            V.contract('CPU from ' + f['params'][0]['n'], lambda f=f: (moved if '&&' in p.ts(f['params'][0]['t'])['s'] else made)(V, p, f))
    for u in ('st', 'mt'):
        for f in V.programs[u].fns_all():
            if f['n'].endswith('CPUBackend::get_devices') and 'body' in f:
                V.contract(f['n'], lambda f=f, u=u: listing(V, u, f))


GETTERS = {'knp::core::Device::get_uid': ('base_', 'uid_'), 'knp::devices::cpu::CPU::get_name': ('cpu_name_',), 'knp::devices::cpu::CPU::get_socket_number': ('cpu_num_',),
           'knp::core::Backend::get_current_devices': ('devices_',)}


def getter(V, p, f, path):
    me = obj(p, f)
    r = V.run('dev', f, {}, this=me)
    V.no_throw(r)
    want, got = me, V.retval(r)
    for n in path:
        want = g(want, n)
    V.prove_eq('reports it', r.ex.read(got, r.st) if got.sort == LOC and want.sort != LOC else got, want)
    V.prove_eq('changes nothing', V.out(r, 'this'), me)


def obj(p, f):
    return var('this', p.sort(f['cls']))


def several(V, p, f, dev):
    me, uids = obj(p, f), var('uids', p.sort(p.strip(f['params'][0]['t'])))
    all_ = var('listed', ('S', dev))
    k = fresh('k', Z, 0, SIZEMAX)
    ls = ('S', LOC)
    at = lambda k: ir.loc('ghost:listed', (('i',),), (k,))
    seen = []

    def listed(ex, g_, this, A, st):
        seen.append(1)
        st.mem['ghost:listed'] = all_
        return tab(seqlen(all_), lam([k], at(k)), ls)
    r = V.run('dev', f, {p_(f): uids}, this=me, contracts={'lib:knp::core::Backend::get_devices': listed, '@knp::core::Backend::get_devices': listed})
    V.called('asks the backend what devices it has', seen)
    asked = lam([k], mdom(uids, g(g(seqat(all_, k), 'base_'), 'uid_')))
    bad = [x for x in r.st.thr if x[0] is not FALSE]
    thrown = or_(*[c for c, n, _ in bad])
    number = isum(seqlen(all_), lam([k], ite(inst(asked, [k]), I(1), Z0)))
    V.prove('fails exactly when one of the devices asked for is not listed', iff(thrown, not_(eq(msize(uids), number))))
    for c, n, st in bad:
        V.prove('failure is a logic error', ORIGIN(n))
        V.prove_eq('a failure leaves the devices selected before', g(st.mem[r.roots['this']], 'devices_'), g(me, 'devices_'), list(st.pc))
    out = V.out(r, 'this')
    want = flat(seqlen(all_), lam([k], ite(inst(asked, [k]), unit(at(k), ls), nil(ls))), ls)
    V.prove_eq('exactly the devices asked for are current, in the order listed', g(out, 'devices_'), want, [not_(thrown)])
    rest(V, out, me)
    V.prove_eq('the set asked for', V.out(r, p_(f)), uids)


def ORIGIN(n):
    return TRUE if n in ('std::logic_error', 'std::invalid_argument', 'std::out_of_range', 'std::domain_error', 'std::length_error') else FALSE


def p_(f, i=0):
    return f['params'][i]['n']


def rest(V, out, me):
    for n, _ in rfields(me.sort):
        if n != 'devices_':
            V.prove_eq('unchanged: ' + n, g(out, n), g(me, n))


def one(V, p, f):
    me = obj(p, f)
    r = V.run('dev', f, {}, this=me)
    V.no_throw(r)
    out = V.out(r, 'this')
    V.prove_eq('the device is the only current one', g(out, 'devices_'), unit(var(p_(f), LOC)))
    rest(V, out, me)


def uid_of(x):
    return g(g(base(x), 'base_'), 'uid_')


def base(x):
    return next((g(x, n) for n, s in rfields(x.sort) if n.startswith('@')), x)


def paired(a, b):
    """facts: text put together, numbers written down and identifiers of names differ when one part of them does."""
    out = []

    def go(x, y):
        if x is y or x.op != y.op or len(x.args) != len(y.args):
            return
        ds = [(u, v) for u, v in zip(x.args, y.args) if hasattr(u, 'op') and u is not v]
        if x.op == 'uf' and len(ds) == 1 and x.pl in ('str+', 'to_string', 'uuid of name'):
            out.append(implies(eq(x, y), eq(*ds[0])))
        for u, v in ds:
            go(u, v)
    go(a, b)
    return out


def same_cpu(V, got, want, what, facts=()):
    """identifier and tags, name, number."""
    V.prove_eq(what + ': identifier and tags', base(got), base(want), facts)
    for n in ('cpu_num_', 'cpu_name_'):
        V.prove_eq(what + ': ' + n, g(got, n), g(want, n), facts)


def made(V, p, f):
    r = V.run('dev', f, {})
    V.no_throw(r)
    new = V.retval(r)
    num = var(p_(f), g(new, 'cpu_num_').sort)
    V.prove_eq('the number is the one given', g(new, 'cpu_num_'), num)
    name, id_ = g(new, 'cpu_name_'), uid_of(new)
    for what, x in (('name', name), ('identifier', id_)):
        V.prove(what + ' is determined by the number', TRUE if x.fv <= {num.id} else FALSE)
    other = fresh('other', num.sort, 0, 2 ** 32 - 1)
    for what, x in (('names', name), ('identifiers', g(id_, 'tag'))):
        y = subst(x, {num: other})
        V.prove('devices with different numbers have different ' + what, implies(eq(x, y), eq(num, other)), paired(x, y))


def moved(V, p, f):
    r = V.run('dev', f, {})
    V.no_throw(r)
    new = V.retval(r)
    same_cpu(V, new, var(p_(f), new.sort), 'the device moved')


def assigned(V, p, f):
    me = obj(p, f)
    r = V.run('dev', f, {}, this=me)
    V.no_throw(r)
    same_cpu(V, V.out(r, 'this'), var(p_(f), me.sort), 'the device assigned')


def processors(V, p, f):
    r = V.run('dev', f, {})
    V.no_throw(r)
    out = V.retval(r)
    V.prove('there is a device', lt(Z0, seqlen(out)))
    i, j = fresh('i', Z, 0, SIZEMAX), fresh('j', Z, 0, SIZEMAX)
    num = lambda i: g(seqat(out, i), 'cpu_num_')
    V.prove('devices have different numbers', or_(not_(lt(i, seqlen(out))), not_(lt(j, seqlen(out))), eq(i, j), not_(eq(num(i), num(j)))))
    V.prove('every listing is the same', TRUE if not keep(out) else FALSE)


def keep(out):
    """what a listing depends on, its power meters aside."""
    return [x for x in ir.subterms(out).values() if x.op == 'var']


def listing(V, unit_, f):
    p = V.programs[unit_]
    seen = []
    cpus = []

    def procs(ex, g_, this, A, st):
        s = var('processors', p.sort(g_['ret']))
        seen.append(s)
        return s
    r = V.run(unit_, f, {}, this=var('this', p.sort(f['cls'])), contracts={'lib:knp::devices::cpu::list_processors': procs, '@knp::devices::cpu::list_processors': procs})
    V.called('lists the processors', seen)
    V.no_throw(r)
    out = V.retval(r)
    s, i = seen[0], fresh('i', Z, 0, SIZEMAX)
    V.prove_eq('one device per processor', seqlen(out), seqlen(s))
    d = seqat(out, i)
    here = [lt(i, seqlen(s)), ge(i, Z0)]
    if d.op != 'loc':
        raise Unsupported('devices listed: ' + ir.show(d))
    x = r.ex.read(ir.loc(d.pl[0], [p for p in d.pl[1] if p[0] != 'f' or not p[1].startswith('@')], d.args), r.st)
    same_cpu(V, x, seqat(s, i), 'the device listed', here)
    j = fresh('j', Z, 0, SIZEMAX)
    V.prove('every device has an object of its own', or_(eq(i, j), not_(eq(d, subst(d, {i: j})))))
