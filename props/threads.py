"""T01: the thread pool, verified as a monitor: every function against the invariant of the data protected by the mutex."""
from vc import *
from ir import raw
import ir
from prove import valid as V_valid

CTX = 'knp::backends::cpu_executors::ThreadPoolContext::'
EXE = 'knp::backends::cpu_executors::ThreadPoolExecutor::'
TP = 'knp::backends::cpu_executors::ThreadPool::'
FINISHED, READY, WORKING, STOPPING = range(4)
RUNNING, POPPED, EVENTS, LOCKED = 'ghost:running', 'ghost:popped', 'ghost:events', 'ghost:locked'
TASKS, COUNT = 'tasks', 'count'
E_LOCK, E_UNLOCK, E_CALL, E_ONE, E_ALL, E_WAIT, E_NEXT = range(7)
ZS = ('S', Z)


def event(st, k, x=None):
    st.mem[EVENTS] = cat(st.mem[EVENTS], unit(add(I(k), scale(8, x)) if x is not None else I(k), ZS), sort=ZS)


def ev(k, x=None):
    return unit(add(I(k), scale(8, x)) if x is not None else I(k), ZS)


class Monitor:
    """The data protected by the mutex in any state that satisfies the invariant:
         queue = the tasks posted and not yet taken, in the order of posting,
         task counter = queued tasks + running tasks,
         usage is READY or FINISHED iff the task counter is 0.
    """

    def __init__(self, V, own=0, takes=False):
        self.V = V
        p = self.p = V.programs['mt']
        self.f = {f['n']: f for f in p.fns_all() if f['n'].startswith(CTX)}
        self.cs = p.sort(self.f[CTX + 'post']['cls'])
        self.fs = [s for n, s in ir.RECS.items() if 0]
        self.takes = takes          # takes a task from the queue
        self.own = own              # running tasks of the thread that executes the function
        self.n = 0
        self.checks = []
        self.facts = []
        self.at('P_this')
        self.fsort = self.function_sort()

    def at(self, root):
        self.root = root
        self.mutex = ir.loc(root, (('f', 'mutex_'),))

    def function_sort(self):
        """sort of a queued task (type-erased)."""
        q = dict(rfields(self.cs))['work_queue_']
        for f in self.p.fns_all():
            if f['n'] == CTX + 'Function::Function':
                return self.p.sort(f['cls'])
        raise Unsupported('no task type')

    def task(self, k):
        return ir.loc(TASKS, (('i',),), (k,))

    def queue(self, head, n):
        i = fresh('i', Z, 0, SIZEMAX)
        return tab(n, lam([i], self.task(add(head, i))), ('S', LOC))

    def state(self):
        """fresh protected data that satisfy the invariant: (head, queued, running, usage), facts."""
        self.n += 1
        x = str(self.n)
        head, n = var('popped' + x, Z, 0, SIZEMAX), var('queued' + x, Z, 0, SIZEMAX)
        run = var('running' + x, Z, self.own, SIZEMAX)
        us = dict(rfields(self.cs))['usage_state_']
        usage = var('usage' + x, us)
        c = add(n, run)
        idle = or_(eq(usage, I(READY)), eq(usage, I(FINISHED)))
        return head, n, run, usage, [eq(idle, eq(c, I(0)))]

    def put(self, ex, st, this, s):
        head, n, run, usage, facts = s
        me = ex.read(this, st)
        ex.write(this, setf(me, work_queue_=self.queue(head, n), usage_state_=usage), st)
        st.mem[COUNT], st.mem[RUNNING], st.mem[POPPED] = add(n, run), run, head
        st.pc += [x for x in facts if x is not TRUE]
        self.facts += facts

    def mem(self, s, locked):
        head, n, run, usage, facts = s
        i = fresh('i', Z, 0, SIZEMAX)
        fd = dict(rfields(self.fsort))
        t = rec(self.fsort, [dict(work_count_=ir.loc(COUNT), execute_=uf('execute', [i], fd['execute_']))[x] for x, _ in rfields(self.fsort)])
        self.tasks = tab(I(SIZEMAX), lam([i], t), ('S', self.fsort))
        return {COUNT: add(n, run), RUNNING: run, POPPED: head, EVENTS: nil(ZS), LOCKED: B(locked), TASKS: self.tasks}

    def ctx(self, s):
        head, n, run, usage, facts = s
        return setf(var('pool', self.cs), work_queue_=self.queue(head, n), usage_state_=usage)

    # -------------------------------------------------------------- invariant
    def invariant(self, st, what, this=None):
        me = st.mem[self.root]
        q, c, run = g(me, 'work_queue_'), st.mem[COUNT], st.mem[RUNNING]
        usage = g(me, 'usage_state_')
        facts = list(st.pc)
        self.checks += [
            (what + ': the task counter counts queued and running tasks', c, add(seqlen(q), run), facts),
            (what + ': tasks are queued in the order of posting', q, self.queue(st.mem[POPPED], seqlen(q)), facts),
            (what + ': usage tells whether tasks are pending', or_(eq(usage, I(READY)), eq(usage, I(FINISHED))), eq(c, I(0)), facts)]

    def report(self):
        for label, a, b, facts in self.checks:
            self.V.prove_eq(label, a, b, [x for x in facts + self.facts if x is not TRUE])

    def must(self, what, c, st):
        self.checks.append((what, c, TRUE, list(st.pc)))

    # -------------------------------------------------------------- locking
    def lock(self, ex, m, st):
        if m is not self.mutex:
            raise Unsupported('another mutex')
        if st.mem[LOCKED] is not FALSE:
            raise Unsupported('locked twice')
        st.mem[LOCKED] = TRUE
        event(st, E_LOCK)

    def unlock(self, ex, m, st):
        """others may do anything that keeps the invariant."""
        if m is not self.mutex or st.mem[LOCKED] is not TRUE:
            raise Unsupported('unlocked twice')
        if self.takes:
            self.takes = False
            st.mem[RUNNING], st.mem[POPPED] = add(st.mem[RUNNING], I(1)), add(st.mem[POPPED], I(1))
            self.own += 1
        self.invariant(st, 'when unlocking')
        event(st, E_UNLOCK)
        st.mem[LOCKED] = FALSE
        self.last = dict(st.mem)
        self.put(ex, st, ir.loc(self.root), self.state())

    def apply(self, ex, c, avs, st, ret):
        if c.op != 'uf' or c.pl != 'execute':
            raise Unsupported('call of something else than a task')
        self.must('a task runs without the lock', not_(st.mem[LOCKED]), st)
        self.checks.append(('a task is given itself', ex.read(avs[0], st), self.task(c.args[0]), list(st.pc)))
        event(st, E_CALL, c.args[0])
        if self.throws is not None:
            t = st.copy()
            st.thr.append((self.throws, 'user', t))
            st.pc.append(not_(self.throws))
        return UNITV
    throws = None

    def ends(self, ex, f, this, avs, st):
        st.mem[RUNNING] = sub(st.mem[RUNNING], I(1))
        return NotImplemented

    def notify(self, k):
        def h(ex, f, this, A, st):
            event(st, k)
            return UNITV
        return h

    def contracts(self, **kw):
        c = {'@mutex': self.mutex, '@apply': self.apply, '@' + CTX + 'do_work_finished': self.ends, '@lock': self.lock, '@unlock': self.unlock, 'lib:std::condition_variable::notify_one': self.notify(E_ONE),
             'lib:std::condition_variable::notify_all': self.notify(E_ALL)}
        c.update(kw)
        return c


def usage_of(st):
    return g(st['P_this'], 'usage_state_')


def started(V):
    m = Monitor(V)
    f = m.f[CTX + 'do_work_started']

    def body():
        s = m.state()
        r = V.run('mt', f, {f['params'][0]['n']: ir.loc('p_count')}, this=m.ctx(s), contracts=m.contracts(),
                  mem=dict(m.mem(s, True), p_count=ir.loc(COUNT)), pc=s[4])
        V.prove_eq('one more task is pending', r.st.mem[COUNT], add(s[1], s[2], I(1)))
        V.prove_eq('the pool is working', V.out(r, 'this'), setf(m.ctx(s), usage_state_=I(WORKING)))
        V.prove_eq('without giving up the lock', quiet(r.st.mem[EVENTS]), nil(ZS))
        V.no_throw(r)
    V.contract(f['n'], body)


def finished(V):
    m = Monitor(V, 1)
    f = m.f[CTX + 'do_work_finished']

    def body():
        s = m.state()
        r = V.run('mt', f, {f['params'][0]['n']: ir.loc('p_count')}, this=m.ctx(s), contracts=m.contracts(),
                  mem=dict(m.mem(s, True), p_count=ir.loc(COUNT)), pc=s[4])
        c = add(s[1], s[2], I(-1))
        last = eq(c, I(0))
        V.prove_eq('one task less is pending', r.st.mem[COUNT], c, s[4])
        V.prove_eq('after the last task the pool is ready, or finished if it was stopping', V.out(r, 'this'),
                   setf(m.ctx(s), usage_state_=ite(last, ite(eq(s[3], I(STOPPING)), I(FINISHED), I(READY)), s[3])), s[4])
        V.prove_eq('everyone is woken after the last task', r.st.mem[EVENTS], ev(E_ALL), s[4] + [last])
        V.prove_eq('without giving up the lock', quiet(r.st.mem[EVENTS]), nil(ZS))
        V.no_throw(r)
    V.contract(f['n'], body)


def post(V):
    m = Monitor(V)
    f = m.f[CTX + 'post']
    nm = [q['n'] for q in f['params']]

    def body():
        s = m.state()
        mem = dict(m.mem(s, False), p_task=m.task(add(s[0], s[1])), p_count=ir.loc(COUNT))
        m.last = None
        r = V.run('mt', f, {nm[0]: ir.loc('p_task'), nm[1]: ir.loc('p_count')}, this=m.ctx(s), contracts=m.contracts(), mem=mem, pc=s[4])
        m.report()
        q = m.last
        V.prove('the shared data are changed under the lock', B(q is not None))
        if q is None:
            return
        V.prove_eq('the task is queued last', g(q['P_this'], 'work_queue_'), m.queue(s[0], add(s[1], I(1))))
        V.prove_eq('and counted', q[COUNT], add(s[1], s[2], I(1)))
        V.prove_eq('under the lock', quiet(r.st.mem[EVENTS]), cat(ev(E_LOCK), ev(E_UNLOCK), sort=ZS))
        woken(V, 'somebody is woken', r.st.mem[EVENTS], (E_ONE, E_ALL), s[4])
        V.no_throw(r)
    V.contract(f['n'], body)


def quiet(t):
    """the events without notifications."""
    for k in (E_ONE, E_ALL):
        t = ir.replace(t, ev(k), nil(ZS))
    return t


def woken(V, what, t, kinds, facts=()):
    """a notification of one of these kinds follows the acquisition of the lock (before or after its release)."""
    rest = t
    for k in kinds:
        rest = ir.replace(rest, ev(k), nil(ZS))
    V.prove(what, lt(seqlen(rest), seqlen(t)), list(facts))
    V.prove_eq(what + ' who will see the change', seqat(t, I(0)), I(E_LOCK), list(facts))


def stop(V):
    m = Monitor(V)
    f = m.f[CTX + 'stop']

    def body():
        s = m.state()
        pre = [not_(eq(s[3], I(FINISHED)))]
        m.last = None
        r = V.run('mt', f, {}, this=m.ctx(s), contracts=m.contracts(), mem=m.mem(s, False), pc=s[4] + pre)
        m.facts += pre
        m.report()
        q = m.last
        V.prove('the shared data are changed under the lock', B(q is not None))
        if q is None:
            return
        V.prove_eq('an idle pool is finished at once, a busy one after its last task', q['P_this'],
                   setf(m.ctx(s), usage_state_=ite(eq(s[3], I(READY)), I(FINISHED), I(STOPPING))))
        V.prove_eq('under the lock', quiet(r.st.mem[EVENTS]), cat(ev(E_LOCK), ev(E_UNLOCK), sort=ZS))
        woken(V, 'everyone is woken', r.st.mem[EVENTS], (E_ALL,), s[4] + pre)
        V.prove_eq('tasks are kept', q[COUNT], add(s[1], s[2]))
        V.no_throw(r)
    V.contract(f['n'], body)


def execute_next(V):
    m = Monitor(V, takes=True)
    f = m.f[CTX + 'execute_next']
    nm = f['params'][0]['n']

    def body():
        s = m.state()
        m.throws = var('task_throws', BOOL)
        mem = m.mem(s, True)
        mem.update({'p_lock': raw_lock(m, f), 'ghost:lock:p_lock': TRUE})
        some_ = lt(I(0), s[1])
        r = V.run('mt', f, {nm: ir.loc('p_lock')}, this=m.ctx(s), contracts=m.contracts(), mem=mem, pc=s[4])
        V.prove_eq('tells whether a task was run', V.retval(r), some_, s[4] + [not_(m.throws)])
        ends = [('returns', r.st, [not_(and_(some_, m.throws))])] + [('throws', x[2], [x[0]]) for x in r.thr]
        V.prove_eq('what a task throws reaches the caller', or_(*[x[0] for x in r.thr]), and_(some_, m.throws), s[4])
        for what, st, cond in ends:
            m.facts += s[4]
            st = st.copy()
            st.pc = st.pc + cond
            m.invariant(st, what)
            last = eq(st.mem[COUNT], I(0))
            run1 = cat(ev(E_UNLOCK), ev(E_CALL, s[0]), ev(E_LOCK), sort=ZS)
            V.prove_eq('%s: the first task is run once, unlocked' % what, quiet(st.mem[EVENTS]), ite(some_, run1, nil(ZS)), st.pc + m.facts)
            V.prove_eq('%s: everyone is woken after the last task' % what, st.mem[EVENTS], cat(run1, ev(E_ALL), sort=ZS), st.pc + m.facts + [some_, last])
            V.prove('%s with the lock held' % what, and_(st.mem[LOCKED], st.mem['ghost:lock:p_lock']), st.pc + m.facts)
            V.prove_eq('%s: no other task is taken away' % what, st.mem[RUNNING],
                       ite(some_, sub(var('running2', Z, 1, SIZEMAX), I(1)), s[2]), st.pc + m.facts)
        V.prove_eq('an empty queue changes nothing', r.st.mem['P_this'], m.ctx(s), s[4] + [not_(some_)])
        m.report()
    V.contract(f['n'], body)


def raw_lock(m, f):
    so = m.p.sort(m.p.strip(f['params'][0]['t']))
    return raw('defobj', (), None, so)


class Timeline(Monitor):
    """the protected data as a thread sees them that holds the lock, from one moment it gets hold of it to the next; the
    other threads do anything in between that keeps the invariant. The pool comes to rest at some time `limit`."""

    def __init__(self, V):
        super().__init__(V)
        self.limit = var('limit', Z, 1, SIZEMAX)

    def at_time(self, t):
        us = dict(rfields(self.cs))['usage_state_']
        live = lt(t, self.limit)
        n = ite(live, ir.nonneg(uf('queued_at', [t], Z)), I(0))
        run = ite(live, ir.nonneg(uf('running_at', [t], Z)), I(0))
        idle = eq(add(n, run), I(0))
        usage = ite(live, ite(idle, ite(uf('stopped_at', [t], BOOL), I(FINISHED), I(READY)),
                              ite(uf('stopped_at', [t], BOOL), I(STOPPING), I(WORKING))), I(FINISHED))
        return ir.nonneg(uf('popped_at', [t], Z)), n, run, usage, []

    def advance(self, ex, st):
        t = add(st.mem[TIME], I(1))
        st.mem[TIME] = t
        self.put(ex, st, ir.loc(self.root), self.at_time(t))

    def next(self, ex, f, this, avs, st):
        ex.assumed.add('execute_next at its call sites: runs the first queued task and tells whether there was one (proved separately)')
        if this is not ir.loc(self.root) or st.mem[LOCKED] is not TRUE or st.mem.get('ghost:lock:' + avs[0].pl[0]) is not TRUE:
            raise Unsupported('tasks taken without the lock')
        n = seqlen(g(ex.read(this, st), 'work_queue_'))
        self.t = st.mem[TIME]
        q = st.copy()
        self.advance(ex, q)
        for r in q.mem:
            if q.mem[r] is not st.mem.get(r):
                st.mem[r] = ite(lt(I(0), n), q.mem[r], st.mem[r])
        return lt(I(0), n)

    def wait(self, ex, f, this, A, st):
        if len(A) != 1 or this is not ir.loc(self.root, (('f', 'condition_'),)) or st.mem[LOCKED] is not TRUE or \
                st.mem.get('ghost:lock:' + A.l(0).pl[0]) is not TRUE:
            raise Unsupported('wait')
        me = st.mem[self.root]
        self.waits.append((eq(seqlen(g(me, 'work_queue_')), I(0)), self.pending(st), list(st.pc)))
        self.must('it waits only if there is nothing to run', eq(st.mem[TIME], self.t), st)
        st.mem[TIME] = self.t
        self.advance(ex, st)
        return UNITV

    def looping(self):
        return self.contracts(**{'@' + CTX + 'execute_next': self.next, 'lib:std::condition_variable::wait': self.wait})

    def finish(self, r, st, done):
        """facts about the time the loop ends."""
        V = self.V
        V.prove_eq('under the lock', quiet(st.mem[EVENTS]), cat(ev(E_LOCK), ev(E_UNLOCK), sort=ZS))
        V.prove('it waits only while there is nothing to run and something to wait for',
                and_(*[implies(and_(*pc), and_(a, b)) for a, b, pc in self.waits]))
        if not self.waits:
            raise Unsupported('never waits')
        ends = {x for x in ir.subterms(done(self.last)).values() if x.op == 'least'}
        if len(ends) != 1:
            raise Unsupported('end of the loop')
        e, = ends
        (j,), stop = ir.openlam(e.args[1])
        end = fresh('end', Z, 0, SIZEMAX)
        t = lambda n: [implies(lt(n, self.limit), subst(stop, {j: n})), le(n, e.args[0]), le(e.args[0], self.limit)]
        V.prove('returns only when that is over', ir.replace(done(self.last), e, end), t(end))


TIME = 'ghost:time'


def join(V):
    m = Timeline(V)
    f, = [x for x in V.programs['mt'].fns_all() if x['n'] == EXE + 'join']

    def body():
        m.at('ctx')
        m.waits = []
        m.pending = lambda st: lt(I(0), st.mem[COUNT])
        s = m.at_time(I(0))
        this = exe_of(V, f)
        mem = m.mem(s, False)
        mem.update({TIME: I(0), 'ctx': m.ctx(s)})
        r = V.run('mt', f, {}, this=this, contracts=m.looping(), mem=mem)
        m.finish(r, r.st, lambda mem: eq(mem[COUNT], I(0)))
        m.report()
        V.no_throw(r)
    V.contract(f['n'], body)



CALLED, POSTED, WORKERS = 'ghost:called', 'ghost:posted', 'ghost:workers'


def construct(V):
    """the pool starts idle, with `num_threads` workers; a worker runs tasks until the pool is finished."""
    m = Timeline(V)
    f = m.f[CTX + 'ThreadPoolContext']
    s = m.at_time(I(0))
    n = var('num_threads', U64)
    done = lambda mem: eq(g(mem[m.root], 'usage_state_'), I(FINISHED))

    def worker(ex, f, this, A, st):
        m.at(A.l(0).pl[0])
        if A.l(0) is not ir.loc(m.root, (('f', 'pool_'),)):
            raise Unsupported('work posted to another pool')
        st.mem[WORKERS] = add(st.mem[WORKERS], I(1))
        t = st.copy()
        t.thr = []
        t.mem.update(m.mem(s, False))
        t.mem[TIME] = I(0)
        m.put(ex, t, ir.loc(m.root), s)
        t.pc = []
        m.waits = []
        before = t.copy()
        ex.lib.apply(A.v(1), [], t)
        if t.thr:
            raise Unsupported('a worker may throw')
        m.worker = before, t
        return UNITV

    def body():
        m.worker = None
        m.pending = lambda st: not_(done(st.mem))
        r = V.run('mt', f, {f['params'][0]['n']: n}, contracts=dict(m.looping(), **{'lib:boost::asio::post': worker}),
                  mem={WORKERS: I(0), EVENTS: nil(ZS), LOCKED: FALSE, TASKS: m.mem(s, False)[TASKS], COUNT: I(0), RUNNING: I(0), POPPED: I(0), TIME: I(0)})
        V.prove_eq('one worker per thread', r.st.mem[WORKERS], n)
        me = r.ret
        V.prove_eq('the pool is idle', g(me, 'usage_state_'), I(READY))
        V.prove_eq('nothing is queued', seqlen(g(me, 'work_queue_')), I(0))
        V.no_throw(r)
    V.contract(f['n'], body)

    def work():
        if m.worker is None:
            raise Unsupported('no workers')
        m.finish(None, m.worker[1], done)
        m.report()
    V.contract(CTX + 'worker thread', work)


def destroy(V):
    m = Monitor(V)
    f = m.f[CTX + '~ThreadPoolContext']

    def record(k):
        def h(ex, f, this, avs, st):
            if this is not ir.loc('P_this', (('f', 'pool_'),) if k == E_WAIT else ()):
                raise Unsupported('another pool')
            event(st, k)
            return UNITV
        return h

    def body():
        s = m.state()
        r = V.run('mt', f, {}, this=m.ctx(s), mem=m.mem(s, False), pc=s[4], contracts=m.contracts(**{
            '@' + CTX + 'stop': record(E_NEXT), 'lib:boost::asio::thread_pool::join': record(E_WAIT)}))
        V.prove_eq('the pool is stopped, then the destructor waits for its threads', r.st.mem[EVENTS],
                   cat(ev(E_NEXT), ev(E_WAIT), sort=ZS))
        V.no_throw(r)
    V.contract(f['n'], body)


def executor(V):
    p = V.programs['mt']
    fs = {f['n']: f for f in p.fns_all() if f['n'].startswith(EXE)}
    f, = [x for x in p.fns_all() if x['n'] == EXE + 'ThreadPoolExecutor' and not x.get('copyctor')]

    def ctor():
        r = V.run('mt', f, {f['params'][0]['n']: ir.loc('ctx')}, mem={'ctx': var('ctx', p.sort(p.strip(f['params'][0]['t'])))})
        me = r.ret
        V.prove_eq('uses the given pool', g(me, 'context_'), ir.loc('ctx'))
        V.prove_eq('no task is pending', r.st.mem[g(me, 'task_count_').pl[0]], I(0))
        V.no_throw(r)
    V.contract(f['n'], ctor)

    for what, name in (('started', 'on_work_started'), ('finished', 'on_work_finished')):
        f = fs[EXE + name]

        def body(f=f, what=what):
            m = Monitor(V, 0 if what == 'started' else 1)
            m.at('ctx')
            s = m.state()

            def callee(ex, f, this, avs, st):
                if this is not ir.loc('ctx') or avs[0].sort != LOC and avs[0] is not ir.loc(COUNT) or st.mem[LOCKED] is not TRUE:
                    raise Unsupported('accounting')
                event(st, E_NEXT)
                return UNITV
            r = V.run('mt', f, {}, this=exe_of(V, f), mem=dict(m.mem(s, False), ctx=m.ctx(s)), pc=s[4],
                      contracts=m.contracts(**{'@' + CTX + 'do_work_' + what: callee}))
            V.prove_eq('accounts for the work under the lock', r.st.mem[EVENTS], cat(ev(E_LOCK), ev(E_NEXT), ev(E_UNLOCK), sort=ZS))
            V.no_throw(r)
        V.contract(f['n'], body)

    f = fs[EXE + '~ThreadPoolExecutor']

    def dtor():
        def c(ex, f, this, avs, st):
            if this is not ir.loc('P_this'):
                raise Unsupported('another executor')
            event(st, E_WAIT)
            return UNITV
        r = V.run('mt', f, {}, this=exe_of(V, f), mem={EVENTS: nil(ZS), 'ctx': var('ctx', Monitor(V).cs), COUNT: var('pending', U64)},
                  contracts={'@' + EXE + 'join': c})
        V.prove_eq('the destructor waits for all tasks', r.st.mem[EVENTS], ev(E_WAIT))
        V.no_throw(r)
    V.contract(f['n'], dtor)


def exe_of(V, f):
    """an executor, as its constructor makes it, with its tasks counted at COUNT."""
    c = [x for x in V.programs['mt'].fns_all() if x['n'] == EXE + 'ThreadPoolExecutor' and not x.get('copyctor')]
    if len(c) != 1:
        raise Unsupported('constructors of the executor')
    r = V.run('mt', c[0], {c[0]['params'][0]['n']: ir.loc('ctx')}, mem={'ctx': var('ctx', V.programs['mt'].sort(V.programs['mt'].strip(c[0]['params'][0]['t'])))})
    return ir.replace(r.ret, g(r.ret, 'task_count_'), ir.loc(COUNT))


def copied(V, ex, me, st):
    """boost::asio::post copies the executor, and destroys the copy (any number of times)."""
    fs = [x for x in V.programs['mt'].fns_all() if x['n'].startswith(EXE)]
    c = [x for x in fs if x.get('copyctor') and x.get('body')]
    x = st.copy()
    x.thr = []
    l = ex.new_root(me.sort, me, x, 'executor')
    if c:
        l2 = ex.new_root(me.sort, ex.freshval(me.sort, 'raw'), x, 'copy')
        ex.construct_at(c[0], c[0]['cls'], [l], l2, x)
        l = l2
    me2 = ex.read(l, x)
    V.prove_eq('a copy of the executor uses the same pool', g(me2, 'context_'), g(me, 'context_'))
    V.prove_eq('and counts the same tasks', g(me2, 'task_count_'), g(me, 'task_count_'))
    d = [y for y in fs if y['sn'].startswith('~') and y.get('body')]
    if d:
        ex.call(d[0], l, [], x)
    V.prove_eq('posting does not wait for tasks', x.mem[EVENTS], nil(ZS))


def posts(V):
    """Every instance of the templates: a posted function is queued once, and when the task is executed, the function is
    called once, with its arguments."""
    p = V.programs['mt']
    for f in p.fns_all():
        if f['n'] == EXE + 'post':
            post1(V, f)
    for f in p.fns_all():
        if f['n'] == TP + 'post':
            pool_post(V, f)


def post1(V, f):
    p = V.programs['mt']
    nm = [q['n'] for q in f['params']]
    fn = var('function', p.sort(f['params'][0]['t']))

    def queue(ex, f, this, avs, st):
        if this is not ir.loc('ctx') or V_is(ex, avs[1], st) is not ir.loc(COUNT):
            raise Unsupported('posted to another pool')
        l = V_is(ex, avs[0], st)
        b = ex.read(l, st)
        t = ex.read(ir.loc(l.pl[0]), st)
        st.mem[POSTED] = add(st.mem[POSTED], I(1))
        V.prove_eq('the task keeps the function', g(t, 'function'), fn)
        V.prove_eq('the task is accounted to the executor', g(b, 'work_count_'), ir.loc(COUNT))
        x = st.copy()
        x.thr = []
        x.mem['task_ptr'] = l
        ex.lib.apply(g(b, 'execute_'), [ir.loc('task_ptr')], x)
        V.prove_eq('executing the task calls the function once', x.mem[CALLED], unit(fn, ('S', fn.sort)))
        V.prove_eq('and releases the task', x.mem['task_ptr'], NULL)
        if x.thr:
            raise Unsupported('throws')
        return UNITV

    def call(ex, f, this, A, st):
        st.mem[CALLED] = cat(st.mem[CALLED], unit(ex.read(this, st), ('S', fn.sort)), sort=('S', fn.sort))
        return UNITV

    def body():
        r = V.run('mt', f, {nm[0]: fn}, this=exe_of(V, f), contracts={
            '@' + CTX + 'post': queue, 'lib:boost::asio::detail::binder0::operator()': call},
            mem={'ctx': var('ctx', Monitor(V).cs), COUNT: var('pending', U64), POSTED: I(0), CALLED: nil(('S', fn.sort))})
        V.prove_eq('the task is queued once', r.st.mem[POSTED], I(1))
        V.prove_eq('it has not been called before', r.st.mem[CALLED], nil(('S', fn.sort)))
        V.no_throw(r)
    V.contract(f['n'], body)


def V_is(ex, a, st):
    """the shared pointer passed by reference (or value)."""
    v = ex.read(a, st)
    return v if v.sort == LOC else a


def path_to(t, field):
    if field in dict(rfields(t.sort)):
        return t
    for n, s in rfields(t.sort):
        if s[0] == 'R' and field in dict(rfields(s)):
            return g(t, n)
    raise Unsupported(field)


def pool_post(V, f):
    p = V.programs['mt']
    nm = [q['n'] for q in f['params']]

    def bound(ex, f, this, A, st):
        st.mem[POSTED] = add(st.mem[POSTED], I(1))
        V.prove_eq('the task goes to the executor of the pool', A.l(0), ir.loc('P_this', (('f', 'executor_'),)))
        copied(V, ex, ex.read(A.l(0), st), st)
        b = A.v(1)
        if b.op != 'uf' or b.pl != 'bind':
            raise Unsupported('not a call of the function with its arguments')
        V.prove_eq('the task is a call of the function', b.args[0], fn)
        V.prove_eq('with its arguments', I(len(b.args)), I(1 + len(args)))
        for x, y in zip(b.args[1:], args):
            V.prove_eq('with its arguments', x, y)
        return UNITV

    fn = var('func', p.sort(f['params'][0]['t']))
    args = [var('arg%d' % k, p.sort(q['t'])) for k, q in enumerate(f['params'][1:])]

    def waits(ex, f, this, avs, st):
        event(st, E_WAIT)
        return UNITV

    def body():
        pe = p.sort(f['cls'])
        me = rec(pe, [dict(context_=ir.loc('ctx'), executor_=exe_of(V, f))[x] for x, _ in rfields(pe)])
        f2 = dict(f, params=[dict(q, n='p%d' % k) for k, q in enumerate(f['params'])])
        r = V.run('mt', f2, {'p%d' % k: x for k, x in enumerate([fn] + args)}, this=me, mem={POSTED: I(0), EVENTS: nil(ZS), 'ctx': var('ctx', Monitor(V).cs), COUNT: var('pending', U64)},
                  contracts={'lib:boost::asio::post': bound, '@' + EXE + 'join': waits})
        V.prove_eq('it is posted once', r.st.mem[POSTED], I(1))
        V.no_throw(r)
    V.contract(f['n'], body)


def pool(V):
    p = V.programs['mt']
    fs = {f['n']: f for f in p.fns_all() if f['n'].startswith(TP)}
    f = fs[TP + 'ThreadPool']

    def ctor():
        n = var('num_threads', U64)

        def worker(ex, f, this, A, st):
            st.mem[WORKERS] = add(st.mem[WORKERS], I(1))
            return UNITV
        r = V.run('mt', f, {f['params'][0]['n']: n}, mem={WORKERS: I(0)}, contracts={'lib:boost::asio::post': worker})
        me = r.ret
        V.prove_eq('with the given number of threads', r.st.mem[WORKERS], n)
        V.prove_eq('the executor uses the pool', g(g(me, 'executor_'), 'context_'), g(me, 'context_'))
        order = [x for x, _ in rfields(me.sort)]
        V.prove('the executor is destroyed, and its tasks waited for, before the pool', B(order.index('context_') < order.index('executor_')))
        V.no_throw(r)
    V.contract(f['n'], ctor)
    f = fs[TP + 'join']

    def join():
        def c(ex, f, this, avs, st):
            if this is not ir.loc('P_this', (('f', 'executor_'),)):
                raise Unsupported('another executor')
            event(st, E_WAIT)
            return UNITV
        r = V.run('mt', f, {}, this=var('pool', p.sort(f['cls'])), mem={EVENTS: nil(ZS)}, contracts={'@' + EXE + 'join': c})
        V.prove_eq('waits for all tasks', r.st.mem[EVENTS], ev(E_WAIT))
        V.no_throw(r)
    V.contract(f['n'], join)


def t01(V):
    started(V)
    finished(V)
    post(V)
    stop(V)
    execute_next(V)
    join(V)
    construct(V)
    destroy(V)
    executor(V)
    posts(V)
    pool(V)
