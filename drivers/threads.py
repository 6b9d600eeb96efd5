"""Several histories at once, each in a thread of its own, switching threads where the schedule says.

A switching point is every line, or every bytecode instruction, of the package's Python code (compiled
functions run without interruption, as they hold the interpreter lock).  The schedule is a sequence of
threads; each gets q switching points before the next one goes on.  A thread that is stuck (waiting for a
lock that a suspended one holds) is passed over.
"""
import gc, importlib, os, sys, threading, types
import spherical_functions
import spherical_functions.recursions.wignerH
import spherical_functions.WignerD.WignerDRecursion

ROOT = os.path.dirname(os.path.realpath(spherical_functions.__file__)) + os.sep
MON = sys.monitoring
TOOL = 4
LIMIT = 6000        # switches per history, after which the threads run freely


_codes, _ours, _known = set(), {}, [0]


def codes():
    """the code of all functions of the package that exist by now"""
    if len(sys.modules) == _known[0]:
        return _codes
    _known[0] = len(sys.modules)
    todo = []
    for o in gc.get_objects():
        c = getattr(getattr(o, '__func__', o), '__code__', None) if callable(o) else None
        if isinstance(c, types.CodeType):
            f = c.co_filename
            if f not in _ours:
                _ours[f] = os.path.realpath(f).startswith(ROOT)
            if _ours[f]:
                todo.append(c)
    while todo:
        c = todo.pop()
        if c not in _codes:
            _codes.add(c)
            todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
    return _codes


class Sched:
    def __init__(self, n, seq, q):
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.waiting = n
        self.seq, self.k, self.q = seq, -1, q
        self.cur, self.left, self.moves, self.points = None, 0, 0, 0
        self.me = threading.local()
        self.free = False

    def advance(self):
        self.moves += 1
        if self.moves > LIMIT:
            self.free = True
        for _ in range(len(self.seq)):
            self.k = (self.k + 1) % len(self.seq)
            if self.seq[self.k] in self.alive:
                break
        self.cur = self.seq[self.k] if self.seq[self.k] in self.alive else min(self.alive, default=None)
        self.left = self.q
        self.cond.notify_all()

    def start(self, i):
        with self.cond:
            self.me.i = i
            self.waiting -= 1
            if self.waiting == 0:
                self.advance()
            self.hold(i)

    def hold(self, i):
        while self.cur != i and not self.free:
            was = self.points, self.moves
            if not self.cond.wait(0.5) and was == (self.points, self.moves) and self.waiting == 0 and self.cur != i:
                self.cur, self.left = i, self.q       # the one whose turn it is is stuck
                self.moves += 1

    def point(self, *_):
        i = getattr(self.me, 'i', None)
        if i is None or self.free:
            return
        with self.cond:
            self.points += 1
            if self.cur == i:
                self.left -= 1
                if self.left > 0:
                    return
                self.advance()
            self.hold(i)

    def done(self, i):
        with self.cond:
            self.me.i = None
            self.alive.discard(i)
            self.waiting = max(0, self.waiting)
            if self.cur == i and self.alive:
                self.advance()
            self.cond.notify_all()


def run(p):
    subs = p['subs']
    mods = [importlib.import_module(s['drv']) for s in subs]
    pre = mods[0].prepare(p['pre']) if p.get('pre') else None
    S = Sched(len(subs), p['sched'], p['q'])
    out, err = [None] * len(subs), [None] * len(subs)

    def work(i):
        S.start(i)
        try:
            one = dict(h=p['b'] * 10 + i, ops=subs[i]['ops'])
            out[i] = mods[i].run(one, pre) if pre else mods[i].run(one)
        except BaseException as ex:
            err[i] = ex
        finally:
            S.done(i)
    event = MON.events.LINE if p['mode'] == 'line' else MON.events.INSTRUCTION
    MON.use_tool_id(TOOL, 'schedule')
    MON.register_callback(TOOL, event, S.point)
    todo = codes()
    for c in todo:
        MON.set_local_events(TOOL, c, event)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(subs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        for c in todo:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, event, None)
        MON.free_tool_id(TOOL)
    for ex in err:
        if ex is not None:
            raise ex
    return dict(subs=out, points=S.points, moves=S.moves)
