"""Q01: the background queue under every interleaving of its threads (controlled scheduler)."""
import os

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all thread interleavings of the real queue code up to a preemption bound (controlled scheduler, line- and bytecode-level)'
BOUND = {
    'quick': 'all schedules with <=2 preemptions at line granularity (1 at bytecode granularity) of 2-4 threads, generators of 0-3 batches, queue sizes 1-3, consumption to the end, early stop, stop by another thread, errors, restart, 2 workers',
    'thorough': '<=3 preemptions at line granularity, <=2 at bytecode granularity, generators of 0-4 batches'}
ASSUMPTIONS = ['threads interleave at lines/bytecodes of the queue module and at the operations of threading, queue and time',
               'worker processes (use_multiprocessing) are not explored', 'several workers need a generator that may be called from several threads']
CHUNK = 1
CASE_TIMEOUT = 800
FILES = ('hyperion/utils/queues.py', 'hyperion/io/queues.py')


def scenarios(top):
    out = []
    for n in range(0, top + 1):
        for mq in (1, 2, 3):
            if mq <= max(n, 1):
                out.append(dict(s='all', n=n, mq=mq))
    for n in range(1, top + 1):
        for k in range(0, n + 1):
            out.append(dict(s='take', n=n, k=k, mq=1 + k % 2))
    for n in range(0, top):
        out.append(dict(s='error', n=n, mq=1 + n % 2))
    for n in range(0, top):
        out.append(dict(s='other', n=n, mq=1))
    out.append(dict(s='none', n=top - 1, mq=2))
    if top > 3:
        out.append(dict(s='workers', n=2, mq=1))
    out.append(dict(s='workers', n=1, mq=1))
    out.append(dict(s='workers', n=3, mq=2))
    out.append(dict(s='restart', n=top - 1, k=1, mq=1))
    out.append(dict(s='restart', n=2, k=0, mq=2))
    out.append(dict(s='endless', k=2, mq=1))
    out.append(dict(s='endless', k=1, mq=2))
    out.append(dict(s='abandon', n=2, k=1, mq=1))
    out.append(dict(s='nostart'))
    return out


def cases(tier):
    top = 3 if tier == 'quick' else 4
    for f in FILES:
        for sc in scenarios(top):
            heavy = sc['s'] in ('workers', 'other')
            if tier == 'quick':
                plan = [('line', 1 if heavy else 2), ('opcode', 1)]
                if heavy or f != FILES[0]:
                    plan = [('line', 1)]
            else:
                plan = [('line', 2 if heavy else 3), ('opcode', 1 if heavy else 2)]
            for mode, b in plan:
                if mode == 'opcode' and sc.get('n', 0) > 2:
                    continue
                yield dict(sc=sc, f=f, mode=mode, bound=b)


def gen(n, err=None, nones=False):
    for i in range(n):
        yield 'b%d' % i
        if nones:
            yield None
    if err:
        raise err


class Safe(object):
    """An iterator whose next is atomic."""

    def __init__(self, n):
        self.it = iter(['b%d' % i for i in range(n)])

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.it)

    next = __next__


class Boom(Exception):
    pass


def endless():
    i = 0
    while True:
        yield 'b%d' % i
        i += 1


def scenario(m, tm, sc, out):
    """Returns the main function of one execution; results go to `out`."""
    s = sc['s']
    names = ['b%d' % i for i in range(sc.get('n', 0))]
    out['names'] = names

    def finish(q):
        q.stop()
        out['running'] = q.is_running()

    def main():
        if s == 'nostart':
            q = m.GeneratorQueue(gen(1), wait_time=0.01)
            out['running0'] = q.is_running()
            q.stop()
            q.stop()
            out['running'] = q.is_running()
            return
        w = 2 if s == 'workers' else 1
        src = {'error': lambda: gen(sc['n'], err=Boom('bad')), 'none': lambda: gen(sc['n'], nones=True),
               'workers': lambda: Safe(sc['n']), 'endless': endless}.get(s, lambda: gen(sc['n']))()
        q = m.GeneratorQueue(src, wait_time=0.01)
        q.start(workers=w, max_queue_size=sc['mq'])
        if s in ('all', 'none', 'workers'):
            out['got'] = list(q.get())
            finish(q)
        elif s == 'error':
            out['got'] = []
            try:
                for x in q.get():
                    out['got'].append(x)
            except Boom:
                out['raised'] = True
            finish(q)
        elif s in ('take', 'endless', 'abandon'):
            g = q.get()
            out['got'] = [next(g) for _ in range(sc['k'])]
            if s == 'abandon':
                g.close()
            finish(q)
            if s != 'abandon':
                out['rest'] = list(g)
        elif s == 'other':
            out['got'] = []

            def consume():
                for x in q.get():
                    out['got'].append(x)
            t = tm.Thread(target=consume)
            t.start()
            finish(q)
            t.join()
        elif s == 'restart':
            g = q.get()
            out['got'] = [next(g) for _ in range(sc['k'])]
            q.stop()
            q.start(workers=1, max_queue_size=sc['mq'])
            out['got2'] = list(q.get())
            finish(q)
    return main


def judge(sc, out, S, queues, main):
    s = sc['s']
    names = out['names']
    if S.error is not None:
        return str(S.error)
    if main.exc is not None:
        return 'the calling thread got %s: %s' % (type(main.exc).__name__, main.exc)
    if out.get('running'):
        return 'still running after it was stopped'
    if not all(t.done for t in S.th):
        return 'a worker is alive after the end'
    got = out.get('got')
    if s in ('all', 'none') and got != names:
        return 'delivered %s of %s' % (got, names)
    if s == 'workers' and sorted(got) != names:
        return 'delivered %s of %s with two workers' % (got, names)
    if s == 'error' and got != names and not (out.get('raised') and got == names[:len(got)]):
        return 'delivered %s of %s before the error' % (got, names)
    if s in ('take', 'abandon', 'endless') and got != ['b%d' % i for i in range(sc['k'])]:
        return 'delivered %s' % got
    if s == 'other' and got != names[:len(got)]:
        return 'delivered %s' % got
    if s == 'other':
        for t in S.th:
            if t.exc is not None and t.name == 'worker' and not isinstance(t.exc, StopIteration):
                return 'stopping while another thread consumes: %s: %s' % (type(t.exc).__name__, t.exc)
    if s == 'take':
        r = out['rest']
        if got + r != names[:len(got) + len(r)]:
            return 'after the stop it delivered %s' % r
    if s == 'restart':
        both = got + out['got2']
        if got != names[:sc['k']] or both != sorted(set(both)) or not set(both) <= set(names):
            return 'after a restart: %s then %s' % (got, out['got2'])
    lim = sc.get('mq', 0) + (1 if s == 'workers' else 0)
    for q in queues:
        if q.peak > lim:
            return '%d batches were queued, the limit is %d' % (q.peak, sc['mq'])
    return None


def run_case(ck, c):
    import threading
    from mc import sched
    threading.excepthook = lambda *a: None
    path = os.path.join(repo_root(), c['f'])
    cur = [None]
    tm, qm, sm, queues = sched.fake_modules(lambda: cur[0])
    m = sched.load_under(path, 'queues_under_test', (tm, qm, sm))
    prefix = []
    n = 0
    while prefix is not None:
        S = sched.Sched(prefix, c['bound'], files=(path, m.__file__), opcodes=(c['mode'] == 'opcode'))
        cur[0] = S
        del queues[:]
        out = {}
        main = S.go(scenario(m, tm, c['sc'], out))
        msg = judge(c['sc'], out, S, queues, main)
        ck.step(S.steps)
        ck.trace()
        ck.state((c['sc'], out.get('got'), out.get('rest'), out.get('got2'), S.steps))
        if msg:
            ck.fail('%s, %s: schedule with choices %s: %s' % (c['f'], c['sc'], [(i, k) for i, (k, _) in enumerate(S.choices) if k][:20], msg))
        n += 1
        prefix = sched.next_prefix(S.choices)
    ck.count('schedules', n)


def repo_root():
    import hyperion
    return os.path.dirname(os.path.dirname(os.path.abspath(hyperion.__file__)))
