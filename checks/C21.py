r"""C21: a run that is interrupted anywhere and restarted from its cache ends as if it had never been interrupted."""
import contextlib, importlib, inspect, io, itertools, os, tempfile
import numpy as np
from pv.run import *
from pv.run import get, Check
import pv.run as R
from pv import whole

check = Check('C21', trusted=['pickle reads back what it wrote', 'a renamed file is the old one or the new one', 'the monitor (reports, plots) is replaced by a stand-in', 'the solver is a function of its input and of the cached objects'])
M = importlib.import_module('phyem.tools.iterator.main')
ITERATOR = next(c for n, c in vars(M).items() if inspect.isclass(c) and c.__module__ == M.__name__ and hasattr(c, '_make_inputs_key'))


def fn(led, *fs):
    for f in fs: led.functions.add(R.qual(f))


class Killed(BaseException):
    r"""the process is ended."""


class Monitor:
    def __init__(self, *a): self.name, self._report_times = 'run', 0
    def __getattr__(self, a): return lambda *b, **c: None
    def __setattr__(self, a, v): self.__dict__[a] = v


class World:
    r"""what is left when a process ends: the files. What a process has: a clock, a plan (when to cache, when to be killed)."""
    def __init__(self): self.now, self.calls, self.kill = 0., [], None
    def clock(self): return self.now

    def open(self, name, mode='r', *a, **k):
        f = open(name, mode, *a, **k)
        return Writer(f, self) if 'w' in mode and self.kill and self.kill[0] == 'writing' else f


class Writer:
    r"""a file; the process is ended after so many bytes."""
    def __init__(self, f, world): self.f, self.world, self.left = f, world, None
    def write(self, data):
        w = self.world
        if w.kill and w.kill[0] == 'writing' and w.writes == w.kill[1]:
            if self.left is None: self.left = w.kill[2]
            data = bytes(data)
            if len(data) > self.left:
                self.f.write(data[:self.left])
                self.f.flush()
                w.died = True
                raise Killed
            self.left -= len(data)
        return self.f.write(data)
    def close(self):
        if not self.f.closed:
            self.f.close()
            if not getattr(self.world, 'died', False): self.world.writes += 1
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __getattr__(self, a): return getattr(self.f, a)


@contextlib.contextmanager
def patched(world):
    r"""the module with this clock, these files, no pauses and a monitor that does nothing."""
    new = dict(time=world.clock, open=world.open, sleep=lambda *_: None, IteratorMonitor=Monitor)
    old = {k: M.__dict__.get(k) for k in new}
    M.__dict__.update(new)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()): yield
    finally:
        for k, v in old.items():
            if v is None: M.__dict__.pop(k, None)
            else: M.__dict__[k] = v


class Thing:
    r"""an object that can be cached: its whole state is its newest value."""
    def __init__(self, name, value): self.name, self.value = name, value
    def _make_cache_data(self, t=None): return dict(value=self.value)
    def _read_cache_data(self, d): self.value = d['value']
    def state(self): return self.value
    def step(self, x, k): self.value = (self.value * 31 + k * x) % 1000003


class FormThing:
    r"""a form of msehtt."""
    lib = None
    def __init__(self, name, value):
        if FormThing.lib is None: FormThing.lib = whole.W('msehtt', '2d straight', 1)
        w = FormThing.lib
        f = w.obj[name]
        g = type(f)(f.abstract)
        g._tgm, g._tpm, g._space, g._manifold = f._tgm, f._tpm, f._space, f._manifold
        self.f, self.name, self.w = g, g.name, w
        g[0.].cochain = {e: np.full(f.cochain.gathering_matrix.num_local_dofs(e), float(value)) for e in w.range}
    def _make_cache_data(self, t=None): return self.f._make_cache_data(t)
    def _read_cache_data(self, d): self.f._read_cache_data(d)
    def state(self):
        t = self.f.cochain.newest
        return t, tuple(float(x) for e in self.w.range for x in self.f.cochain[t][e])
    def step(self, x, k):
        t = self.f.cochain.newest
        c = self.f.cochain[t]
        self.f[t + .125].cochain = {e: np.cos(c[e] * (1 + k) + x + np.arange(len(c[e]))) for e in self.w.range}


def process(world, inputs, plan, things, stop=None, num=None, name='run', pbar=False):
    r"""one process: plan = (steps after which the cache is due, number of the step in which the process is ended or None)."""
    due, end = plan
    order = {x: i for i, x in enumerate(inputs)}

    def solver(x):
        r"""A solver.

        Parameters
        ----------
        x :

        Returns
        -------
        exit_code :
        message :
        a :
        b :

        """
        i = order[x]
        if end == ('before', i): raise Killed
        world.calls.append(i)
        for k, o in enumerate(things): o.step(x, k + 1)
        if end == ('after', i): raise Killed
        world.now += 100. if i in due else 0.
        if i in due and world.kill and world.kill[0] == 'objects' and world.kill[1] == i: raise Killed
        return [1 if i == stop else 0, f'step {i}', repr(things[0].state())[:60], float(x)]
    world.died, world.writes = False, 0
    with patched(world):
        it = make(solver, name)
        try:
            it.cache(*things, time=40., num=num)
            it.run(inputs, pbar=pbar)
        except Killed: return None
    return [tuple(r) for r in it.RDF.itertuples(index=False)], it.exit_code


def make(solver, name):
    sig = inspect.signature(ITERATOR.__init__)
    kw = dict(solver=solver, monitoring_factor=.5, name=name, initials=['start', 0.])
    return ITERATOR(**{k: v for k, v in kw.items() if k in sig.parameters})


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix='c21_') as d:
        os.chdir(d)
        try: yield d
        finally: os.chdir(here)


def wipe():
    for f in os.listdir('.'):
        if os.path.isfile(f): os.remove(f)


def reference(inputs, new, stop=None):
    wipe()
    things = new()
    out = process(World(), inputs, (set(), None), things, stop)
    return out, [o.state() for o in things]


def history(inputs, processes, new, stop=None, num=None, ref=None, pbar=False):
    r"""several processes one after another, each with fresh objects; processes that are not ended must give the results of an uninterrupted run."""
    wipe()
    info = dict(inputs=list(inputs), processes=repr(processes), stop=stop)
    last = len(inputs) - 1 if stop is None else stop
    ref = ref or reference(inputs, new, stop)
    wipe()
    saved = {-1}                        # what the last step in the cache may be
    for n, (due, end) in enumerate(processes):
        w, things = World(), new()
        w.kill = end if end and end[0] == 'writing' else None
        out = process(w, inputs, (due, end), things, stop, num, pbar=pbar)
        info.update(process=n, computed=list(w.calls))
        if w.calls:
            if w.calls[0] - 1 not in saved: raise R.Violation('the step at which a process goes on', dict(got=w.calls[0], want=sorted(x + 1 for x in saved), **info))
            saved = {w.calls[0] - 1}
        elif out is not None and last not in saved: raise R.Violation('a process computes what is left', dict(want=sorted(x + 1 for x in saved), **info))
        if w.calls != list(range(w.calls[0], w.calls[-1] + 1) if w.calls else ()): raise R.Violation('the steps that a process computes', info)
        done = [i for i in sorted(due) if w.calls and w.calls[0] <= i <= w.calls[-1]]
        if out is None and end[0] == 'after': done = [i for i in done if i < end[1]]
        if out is None and end[0] == 'writing' and done and done[-1] == w.calls[-1]:        # the last one may be there or not
            saved = ({done[-2]} if done[1:] else saved) | {done[-1]}
        elif done: saved = {done[-1]}
        if out is not None:
            if out != ref[0]: raise R.Violation('the results of a run that was interrupted', dict(got=repr(out)[:400], want=repr(ref[0])[:400], **info))
            got = [o.state() for o in things]
            if got != ref[1]: raise R.Violation('the objects after a run that was interrupted', dict(got=repr(got)[:300], want=repr(ref[1])[:300], **info))
    return saved


INPUTS = [[1, 2, 3, 4], [4, 3, 2, 1, 0, -1], [2, 7, 3, 5, 4], [.1, .2, .3, .4, .5], [0., .5, 1., 1.5], [1e-6 * i for i in range(5)], [1., 1.000001, 1.0000012, 2], [-.25, 1e3, 7, 12345.678901], [-1, -2, 0, 1, 5, 6, 8]]


def two(): return [Thing('u', 5), Thing('p', 77)]
def forms(): return [FormThing('o1', .25), FormThing('i0', -.5)]


def functions(led):
    fn(led, ITERATOR.run, ITERATOR.cache, ITERATOR._check_cache, ITERATOR._coding_objs_, ITERATOR._decoding_objs_, ITERATOR._make_inputs_key, ITERATOR._check_input_cache,
       ITERATOR._update_computed_inputs, ITERATOR._compress_computed_input_list, ITERATOR._append_outputs_to_RDF, ITERATOR._make_cache_log, ITERATOR.__init__)


def ended(k):
    def unit(led):
        r"""ended once, before or after any step, caches due after any steps; then run to the end; then once more."""
        functions(led)
        count = 0
        with scratch():
            for inputs in INPUTS[k::3]:
                ref = reference(inputs, two)
                N = len(inputs)
                for size in range(N + 1) if N < 5 else (0, 1, 2, N):
                    for due in itertools.combinations(range(N), size):
                        for end in [('before', i) for i in range(N)] + [('after', i) for i in range(N)] + [None]:
                            for later in (set(range(N)), {N - 1}, set()):
                                history(inputs, [(set(due), end), (later, None)] + ([({N - 1}, None), (set(), None)] if later else []), two, ref=ref)
                                count += 1
        led.bounded.append((f'{count} histories', 'every set of steps (of at most two or of all, for five steps and more) after which the cache is due, every step before or after which the process is ended'))
    return unit


for _k in range(3): check.unit(f'a process ended at a step ({_k + 1})')(ended(_k))


@check.unit('a process ended while it writes its cache')
def _writing(led):
    functions(led)
    count = 0
    with scratch():
        for inputs in INPUTS[:1] + INPUTS[3:4]:
            ref = reference(inputs, two)
            N = len(inputs)
            for due in ({0, 1, 2, 3}, {1, 3}, {2}):
                for write in range(5):
                    for size in (0, 1, 7, 50, 120, 200, 300):
                        for more in ([], [({2, 3}, ('writing', 1, 60))], [({0, 1, 2, 3}, ('before', 3))]):
                            history(inputs, [(due, ('writing', write, size))] + more + [(set(range(N)), None), (set(), None)], two, ref=ref)
                            count += 1
    led.bounded.append((f'{count} histories', 'the process is ended after some bytes of some write'))


@check.unit('processes ended again and again')
def _again(led):
    functions(led)
    rng = np.random.default_rng(11)
    count = 0
    with scratch():
        for trial in range(400 if R.thorough() else 150):
            N = int(rng.integers(3, 14))
            kind = trial % 4
            inputs = {0: lambda: [int(x) for x in rng.permutation(40)[:N] - 20], 1: lambda: [float(x) for x in rng.permutation(40)[:N] / 8], 2: lambda: list(range(3, 3 + N)), 3: lambda: [float(x) for x in np.linspace(0, 1e-4, N)]}[kind]()
            stop = int(rng.integers(0, N)) if trial % 3 == 0 else None
            ps = []
            for _ in range(int(rng.integers(1, 5))):
                due = {int(i) for i in range(N) if rng.uniform() < .5}
                ps.append((due, [('before', int(rng.integers(N))), ('after', int(rng.integers(N))), ('writing', int(rng.integers(0, 4)), int(rng.integers(0, 400))), None][int(rng.integers(4))]))
            history(inputs, ps + [({N - 1, *([stop] if stop is not None else [])}, None), (set(), None)], two, stop=stop, num=(None, 1)[trial % 2], pbar=trial % 5 == 0)
            count += 1
    led.bounded.append((f'{count} random histories', 'up to 13 steps, four processes that are ended, early stops'))


@check.unit('forms in the cache')
def _forms(led):
    functions(led)
    F = get('phyem.msehtt.static.form.main:MseHttForm')
    fn(led, F._make_cache_data, F._read_cache_data)
    count = 0
    with scratch():
        for inputs in ([1, 2, 3, 4], [.5, 1., 1.5, 2.]):
            for num in (None, 1):
                ref = reference(inputs, forms)
                for due in ({0}, {1}, {0, 2}, {0, 1, 2, 3}, {3}):
                    for end in [('before', i) for i in range(4)] + [('after', i) for i in range(4)] + [None, ('writing', 1, 300), ('writing', 2, 1000)]:
                        history(inputs, [(due, end), ({3}, None), (set(), None)], forms, num=num, ref=ref)
                        count += 1
    led.bounded.append((f'{count} histories', 'two forms of msehtt'))


@check.unit('runs over more inputs')
def _more(led):
    r"""a run over more inputs goes on where the shorter one ended."""
    functions(led)
    count = 0
    with scratch():
        for inputs in INPUTS:
            N = len(inputs)
            ref = reference(inputs, two)
            for first in range(1, N):
                wipe()
                w = World()
                process(w, inputs[:first], ({first - 1}, None), two())
                w, things = World(), two()
                out = process(w, inputs, (set(), None), things)
                if w.calls != list(range(first, N)): raise R.Violation('steps computed by a longer run', dict(inputs=inputs, first=first, got=w.calls, want=list(range(first, N))))
                if out != ref[0] or [o.state() for o in things] != ref[1]: raise R.Violation('a longer run', dict(inputs=inputs, first=first, got=repr(out)[:300], want=repr(ref[0])[:300]))
                count += 1
    led.bounded.append((f'{count} runs', 'listed inputs'))


@check.unit('the record of what was computed')
def _record(led):
    r"""it is the set of the inputs, whatever the order they come in."""
    fn(led, ITERATOR._check_input_cache, ITERATOR._update_computed_inputs, ITERATOR._compress_computed_input_list, ITERATOR._make_inputs_key)
    rng = np.random.default_rng(2)
    count = 0
    lists = [list(p) for k in range(1, 6) for p in itertools.permutations((-2, -1, 0, 1, 3), k)] + [[int(x) for x in rng.permutation(30)[:rng.integers(5, 25)]] for _ in range(60)]
    for seq in lists:
        for every in (1, 3):
            rec, have = [[], [], []], set()
            for i, x in enumerate(seq):
                ITERATOR._update_computed_inputs(rec, ITERATOR._make_inputs_key((x,)))
                have.add(x)
                if i % every == 0: ITERATOR._compress_computed_input_list(rec)
                for y in range(-4, 32):
                    if bool(ITERATOR._check_input_cache(rec, ITERATOR._make_inputs_key((y,)))) != (y in have):
                        raise R.Violation('the record of computed inputs', dict(inputs=seq[:i + 1], input=y, got=y not in have, record=repr(rec)))
            count += 1
    values = [0., 1., -1., .1, .2, .30000000000000004, 1e-6, 2e-6, 3e-6, 1e-9, 2e-9, 1e3, 1e3 + 1e-6, 12345.678901, 12345.678902, 1e-12, -1e-6, 7, 8, -7, 100000, 1. / 3, 2. / 3, 1e9 + .5, 1e9]
    keys = {}
    for v in values:
        k = ITERATOR._make_inputs_key((v,))
        if not isinstance(k, (int, str)) or keys.setdefault(k, v) != v: raise R.Violation('two inputs have one key', dict(inputs=[keys[k], v], key=k))
    led.bounded.append((f'{count} orders of inputs', 'all orders of up to five integers, random longer ones, listed floating point numbers'))


class Range:
    r"""range(start, stop) of integers that may be unknown."""
    def __init__(self, start, stop): self.start, self.stop = start, stop
    def __contains__(self, x): return bool(x >= self.start) and bool(x < self.stop)


class Ints(list):
    r"""a list of unknown integers that can be sorted (by insertion; the comparisons are decided path by path)."""
    def sort(self):
        out = []
        for x in self:
            i = len(out)
            while i and bool(out[i - 1] > x): i -= 1
            out.insert(i, x)
        self[:] = out


class IntType(type):
    def __instancecheck__(cls, x): return not isinstance(x, str)


class AnyInt(metaclass=IntType): pass


def record(ranges, ints):
    def scn(mk):
        mk.fn(ITERATOR._check_input_cache, ITERATOR._update_computed_inputs, ITERATOR._compress_computed_input_list)
        old = {k: M.__dict__.get(k) for k in ('range', 'isinstance', 'int')}
        if mk.symbolic: M.__dict__.update(range=Range, int=AnyInt)
        try:
            R_ = []
            for i in range(ranges):
                a, b = mk.int(f'a{i}', -9, 9), mk.int(f'b{i}', -9, 9)
                mk.assume(a < b)
                R_.append((Range if mk.symbolic else range)(a, b))
            L = Ints(mk.int(f'i{i}', -9, 9) for i in range(ints))
            for i, u in enumerate(L):
                for v in L[:i]: mk.assume(u != v)
            x, y = mk.int('x', -9, 9), mk.int('y', -9, 9)
            rec = [list(R_), L, []]
            before = bool(ITERATOR._check_input_cache(rec, y)) or bool(y == x)
            ITERATOR._update_computed_inputs(rec, x)
            mid = bool(ITERATOR._check_input_cache(rec, y))
            ITERATOR._compress_computed_input_list(rec)
            after = bool(ITERATOR._check_input_cache(rec, y))
            return [('the new input is recorded, the others are as before', mid, before), ('compressing the record does not change it', after, before)]
        finally:
            for k, v in old.items():
                if v is None: M.__dict__.pop(k, None)
                else: M.__dict__[k] = v
    return scn


for _r, _i in ((0, 0), (0, 2), (1, 0), (1, 1), (2, 0)): check.scenario(f'the record: one more input ({_r} ranges, {_i} integers)', samples=20, max_paths=20000)(record(_r, _i))
