"""C23: the parallel map, for every schedule of its workers."""
import multiprocessing
import pickle
import threading
import time

from vf.spec import unit, bounded, Stub

PM = 'cgpm.utils.parallel_map'
PF = PM + ':parallel_map'


class Stop(BaseException):
    """Ends a worker from outside."""


class Coroutine(object):
    """Runs fn in a thread of its own, one at a time with its caller."""

    def __init__(self, fn, args):
        self.fn, self.args = fn, args
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.started = self.over = self.stopping = False
        self.error = None

    def run(self):
        self.go.acquire()
        try:
            if not self.stopping:
                self.fn(*self.args)
        except Stop:
            pass
        except BaseException as e:
            self.error = e
        self.over = True
        self.back.release()

    def step(self):
        """Resume until the next call of suspend."""
        if not self.started:
            self.started = True
            t = threading.Thread(target=self.run)
            t.daemon = True
            t.start()
        self.go.release()
        self.back.acquire()

    def suspend(self):
        self.back.release()
        self.go.acquire()
        if self.stopping:
            raise Stop()

    def stop(self):
        self.stopping = True
        if self.started and not self.over:
            self.step()
        self.over = True


class Machine(Stub):
    """Contracts of Process, Pipe and of the pipe of the system: messages are
    delivered in order and exactly once, the workers run in any order."""

    def __init__(self, E, cpus, fine):
        self.E, self.cpus, self.fine = E, cpus, fine
        self.workers, self.ends, self.fds = [], [], {}
        self.current = None
        self.picks = 0

    # Processes.

    def process(self, target=None, args=(), **k):
        w = Worker(self, target, args)
        self.workers.append(w)
        return w

    def advance(self, ready, what):
        """Let workers run, in some order, until ready()."""
        while not ready():
            able = [w for w in self.workers if w.able()]
            if not able:
                self.E.fail('nothing can run while the parent waits', what)
                raise Stop()
            w = able[0]
            if len(able) > 1:
                self.picks += 1
                w = able[self.E.choice('next%d' % self.picks,
                                       list(range(len(able))))]
            self.current = w
            w.co.step()
            self.current = None

    def wait(self, ready, what):
        """Called by a worker or by the parent: block until ready()."""
        w = self.current
        if w is None:
            return self.advance(ready, what)
        while not ready():
            w.waits = ready
            w.co.suspend()
        w.waits = None

    def pause(self):
        """A worker may be overtaken here."""
        if self.current is not None:
            self.current.co.suspend()

    # Pipes of messages.

    def pipe(self, duplex=True):
        self.E.ensure('one-way pipes', duplex is False)
        q = []
        a, b = End(self, q), End(self, q)
        self.ends += [a, b]
        return a, b

    # The module os.

    def os_pipe(self):
        n = 100 + 2 * len(self.fds)
        q = []
        self.fds[n], self.fds[n + 1] = [q, 0], [q, 0]
        return n, n + 1

    def os_read(self, fd, n):
        q, closed = self.fds[fd]
        self.E.ensure('reads an open descriptor', not closed)
        self.wait(lambda: q, 'read')
        out = bytes(bytearray(q[:n]))
        del q[:n]
        return out

    def os_write(self, fd, data):
        q, closed = self.fds[fd]
        self.E.ensure('writes to an open descriptor', not closed)
        q.extend(bytearray(data))
        if self.fine:
            self.pause()
        return len(data)

    def os_close(self, fd):
        self.fds[fd][1] += 1

    def close(self):
        for w in self.workers:
            w.co.stop()


class System(Stub):
    def __init__(self, m):
        self.pipe, self.read = m.os_pipe, m.os_read
        self.write, self.close = m.os_write, m.os_close


class Worker(Stub):
    def __init__(self, m, target, args):
        self.m, self.co = m, Coroutine(target, args)
        self.alive, self.waits = False, None
        self.joined = self.terminated = 0

    def able(self):
        return self.alive and not self.co.over and (
            self.waits is None or bool(self.waits()))

    def start(self):
        self.m.E.ensure('started once', not self.alive)
        self.alive = True

    def join(self, timeout=None):
        self.m.wait(lambda: self.co.over, 'join')
        self.joined += 1

    def is_alive(self):
        return self.alive and not self.co.over

    def terminate(self):
        self.terminated += 1
        self.co.stop()


class Lost(object):
    """A result that cannot be sent."""

    def __init__(self, why):
        self.why = why


class End(Stub):
    def __init__(self, m, q):
        self.m, self.q, self.closed = m, q, 0

    def send(self, x):
        self.m.E.ensure('sends through an open pipe', not self.closed)
        if isinstance(x, tuple) and any(isinstance(v, Lost) for v in x):
            raise pickle.PicklingError('cannot pickle')
        self.q.append(x)

    def recv(self):
        self.m.E.ensure('receives from an open pipe', not self.closed)
        self.m.wait(lambda: self.q, 'recv')
        return self.q.pop(0)

    def close(self):
        self.closed += 1


def world(E, cpus, fine=True):
    m = Machine(E, cpus, fine)
    E.patch(PM + ':Process', m.process)
    E.patch(PM + ':Pipe', m.pipe)
    E.patch(PM + ':os', System(m))
    E.patch(PM + ':cpu_count', lambda: cpus)
    return m


def check_clean(E, m, failed):
    E.ensure('every worker has ended', all(
        w.co.over or not w.alive for w in m.workers))
    E.ensure('no worker died of an error', all(
        w.co.error is None for w in m.workers),
        [repr(w.co.error) for w in m.workers])
    if not failed:
        E.ensure('every worker was awaited', all(
            w.joined == 1 and not w.terminated for w in m.workers))
    E.ensure('every pipe is closed', all(x.closed for x in m.ends) and all(
        x[1] == 1 for x in m.fds.values()))


def schedule_unit(n, cpus):
    @unit('C23', 'schedules/%d items/%d workers' % (n, cpus), [PF],
          trials=30, bounded='%d items on %d workers, every schedule'
          % (n, cpus))
    def _(E):
        m = world(E, cpus, n < 4 and n * cpus < 9)
        xs = [E.real('x%d' % i) for i in range(n)]
        f = E.func('f')
        calls = []

        def g(x):
            calls.append(x)
            return f(x)
        try:
            out = E.get(PF)(g, list(xs), *(
                [] if E.flag('all cpus') else [cpus]))
            E.ensure('as many results as items', len(out) == n)
            for i in range(n):
                E.ensure_eq('the result of item %d' % i, out[i], f(xs[i]))
            E.ensure('as many workers as asked for', len(m.workers) == cpus)
            E.ensure('every item is computed once', len(calls) == n)
            check_clean(E, m, False)
        finally:
            m.close()


for _n, _c in ((0, 1), (0, 2), (1, 1), (1, 3), (2, 1), (2, 2), (3, 1),
               (3, 2), (4, 2), (3, 3), (4, 3)):
    schedule_unit(_n, _c)


def failing_unit(n, cpus):
    @unit('C23', 'failures/%d items/%d workers' % (n, cpus), [PF],
          trials=60, bounded='%d items on %d workers, every schedule and '
          'place of the failures' % (n, cpus))
    def _(E):
        m = world(E, cpus)
        fates = [E.choice('fate%d' % i, ['fine', 'raises', 'unsendable'])
                 for i in range(n)]
        E.assume(any(x != 'fine' for x in fates))

        def g(i):
            if fates[i] == 'raises':
                raise KeyError('item %d' % i)
            if fates[i] == 'unsendable':
                return Lost(i)
            return i
        try:
            try:
                E.get(PF)(g, list(range(n)), cpus)
                E.fail('a failed item is reported')
            except RuntimeError as e:
                E.ensure('the report carries the trace',
                         'Traceback' in str(e), str(e))
            check_clean(E, m, True)
        finally:
            m.close()


for _n, _c in ((1, 1), (2, 2), (3, 2), (1, 2), (3, 1)):
    failing_unit(_n, _c)


def _slow(x):
    time.sleep(0.002 * ((x * 7) % 5))
    if x < 0:
        raise ValueError('negative %d' % x)
    return x * x + 1


@bounded('C23', 'real processes', [PF], trials=12,
         bound='up to 12 items on up to 4 real processes')
def _(E):
    n = int(E.r.randint(0, 13))
    cpus = int(E.r.randint(1, 5))
    xs = [int(x) for x in E.r.randint(0, 100, size=n)]
    bad = n > 0 and E.r.randint(3) == 0
    if bad:
        xs[int(E.r.randint(n))] = -3
    E.note('items', xs)
    try:
        out = E.get(PF)(_slow, xs, cpus)
        E.ensure('a failed item is reported', not bad)
        E.ensure('the results, in order', out == [_slow(x) for x in xs], out)
    except RuntimeError as e:
        E.ensure('only failed items are reported', bad, str(e))
        E.ensure('the trace names the failure', 'negative -3' in str(e),
                 str(e))
    E.ensure('no worker is left running', not any(
        p.exitcode is None and not bad
        for p in multiprocessing.active_children()))
