"""C25: schedules of concurrent computations.

Stateless search over thread schedules of the real code, under a controlled
scheduler: threads run one at a time, every executed source line of the
library is a point where the scheduler can switch, and all schedules with up
to one preemption (two for the shorter computations) are executed.  Every
thread's result is compared with that of the same call made alone, and the
shared arguments with what they were."""
import sys
import threading
import numpy as np
from mc.core import Space
from mc import families, menu

PROP = 'C25'
ASSUME = [
    'switches happen between source lines of the library (calls into numpy, '
    'pandas and scipy are atomic)',
    'results agree to a relative 1e-7',
    'cloud fields are left out: they draw from the process-wide random state '
    'by design',
    'quick tier: preemptions at the first two and the last visit (the first '
    'for long computations and when other calls preempt) of every '
    'source line, apart for every calling line; thorough: at every visit',
]
SKIP = ('cf.stack', 'cf.series')
# what the other thread does besides the same computation on other data
MIX = ['latlon2utm1', 'interp_tf1', 'tf_delay.multi1', 'delays.loop1',
       'remap1', 'camfilter1', 'stats.variability_score1', 'spacetime1',
       'cmv.bad.option', 'apply_delay1']
BIG = ['cmv.jamaly1', 'cmv.gagne1', 'cmv.dark', 'predict.given1',
       'delays_tf1', 'averaged_tf1', 'assign1', 'multihour1',
       'downscale.default1', 'stats.quantile1', 'clearsky_index1',
       'interp_nan1', 'optimum_subset1', 'utm2latlon1', 'averaged_psd.df1']
WAIT_S = 10
HEAVY = ('predict', 'optimum', 'cmv.tf', 'cmv.dark', 'cmv.bad',
         'stats.quantile')


def inside(frame):
    f = frame.f_code.co_filename
    return 'solarspatialtools' in f and '/mc/' not in f


class Run:
    """Threads under control.  plan: list of (thread, number of lines) - the
    thread runs until it is about to execute that many lines, then the next
    entry; whatever is left runs to its end, in thread order."""

    def __init__(self, p, jobs, plan):
        self.p, self.jobs = p, jobs
        self.plan = list(plan)
        self.cv = threading.Condition()
        self.count = [0] * len(jobs)
        self.done = [False] * len(jobs)
        self.out = [None] * len(jobs)
        self.err = [None] * len(jobs)
        self.turn = None
        self.limit = None
        self.stuck = False
        self.pick()

    def pick(self):
        """Choose who runs now, and up to which line."""
        while self.plan:
            t, n = self.plan.pop(0)
            if not self.done[t]:
                self.turn, self.limit = t, n
                return
        left = [i for i, d in enumerate(self.done) if not d]
        self.turn, self.limit = (left[0] if left else None), None

    def free(self, i):
        """No switch is planned for the thread any more."""
        return (not (self.turn == i and self.limit is not None) and
                not any(t == i and n is not None for t, n in self.plan))

    def wait(self, i):
        with self.cv:
            if not self.cv.wait_for(lambda: self.turn == i or self.stuck,
                                    WAIT_S):
                # the thread whose turn it is cannot go on (it waits for one
                # of the others): let everything run
                self.stuck = True
                self.cv.notify_all()

    def tracer(self, i):
        def local(frame, event, arg):
            if self.free(i):
                sys.settrace(None)
                return None
            if event == 'line':
                if (self.limit is not None and not self.stuck
                        and self.turn == i):
                    if self.count[i] >= self.limit:
                        with self.cv:
                            self.pick()
                            self.cv.notify_all()
                        self.wait(i)
                self.count[i] += 1
            return local

        def top(frame, event, arg):
            if self.free(i):
                sys.settrace(None)
                return None
            return local if inside(frame) else None
        return top

    def thread(self, i):
        self.wait(i)
        if not self.free(i):
            sys.settrace(self.tracer(i))
        try:
            self.out[i] = [menu.plain(fn(self.p)) for fn in self.jobs[i]]
        except BaseException as e:
            self.err[i] = f'{type(e).__name__}: {e}'
        finally:
            sys.settrace(None)
            with self.cv:
                self.done[i] = True
                if self.turn == i:
                    self.pick()
                self.cv.notify_all()

    def go(self):
        ts = [threading.Thread(target=self.thread, args=(i,), daemon=True)
              for i in range(len(self.jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
            if t.is_alive():
                return 'a thread does not end'
        return None


def call(name):
    if isinstance(name, (tuple, list)):
        return families.families()[name[0]][name[1]]
    return menu.ops()[name][0]


def text(name):
    return name if isinstance(name, str) else call(name).label


def points(p, name, every):
    """Numbers of lines after which to switch."""
    seen, keys = {}, []

    def tr(frame, event, arg):
        if not inside(frame):
            return None
        if event == 'line':
            f, k = frame, []
            while f is not None and len(k) < 2:
                if inside(f):
                    k.append((f.f_code.co_name, f.f_lineno))
                f = f.f_back
            k = tuple(k)
            n = len(keys)
            keys.append(k)
            seen.setdefault(k, []).append(n)
        return tr
    sys.settrace(tr)
    try:
        call(name)(p)
    finally:
        sys.settrace(None)
    if every is True:
        return list(range(len(keys)))
    if every == 'first':
        return sorted(v[0] for v in seen.values())
    return sorted({n for v in seen.values() for n in (v[:2] + v[-1:])})


def schedule(rec, p, base, names, plan, alone):
    r = Run(p, [[call(n) for n in ns] for ns in names], plan)
    e = r.go()
    rec.step()
    rec.true(e is None, lambda: f'{names} {plan}: {e}')
    if r.stuck:
        rec.extra['blocked_schedules'] += 1
    for i, ns in enumerate(names):
        rec.true(r.err[i] is None,
                 lambda: f'thread {i} of {names} with switches {plan}: '
                 f'{r.err[i]}')
        for n, got in zip(ns, r.out[i]):
            d = menu.differ(alone[n], got)
            rec.true(d is None, lambda: f'thread {i}: result of {text(n)} in '
                     f'{names} with switches {plan} is not that of the call '
                     f'alone: {d}')
    now = menu.image(p)
    rec.true(now == base, lambda: f'{names} with switches {plan}: shared '
             'arguments altered')
    rec.state()
    rec.outcome((names, plan[-1]))


def prepare(names):
    p = menu.pool()
    alone = {n: menu.plain(call(n)(p)) for ns in names for n in ns}
    return p, menu.image(p), alone


def run_one(case, rec):
    """a is preempted once, by a thread that runs `other` to its end."""
    a, other, every, k, n = case
    names = [[a], list(other)]
    p, base, alone = prepare(names)
    pts = points(p, a, every)
    for m in pts[k::n]:
        schedule(rec, p, base, names, [(0, m), (1, None)], alone)
    rec.extra['preemption_points'] += len(pts[k::n])


def run_family(case, rec):
    """A call of a family, preempted at the first visit of every line by the
    same call, the next one and another one of the family."""
    fam, k, n = case
    calls = families.families()[fam]
    p = families.pool()
    names = [(fam, i) for i in range(len(calls))]
    alone = {a: menu.plain(call(a)(p)) for a in names}
    p = families.pool()
    base = menu.image(p)
    for i in range(k, len(calls), n):
        other = [names[(i + j) % len(calls)] for j in (0, 1, len(calls) // 2)]
        pts = points(p, names[i], 'first')
        for m in pts:
            schedule(rec, p, base, [[names[i]], other], [(0, m), (1, None)],
                     alone)
        rec.extra['preemption_points'] += len(pts)


def run_two(case, rec):
    """a until m, b until l, a to its end, b to its end."""
    a, b, every, k, n = case
    names = [[a], [b]]
    p, base, alone = prepare(names)
    pa, pb = points(p, a, every), points(p, b, every)
    for m in pa[k::n]:
        for q in pb:
            schedule(rec, p, base, names, [(0, m), (1, q), (0, None)], alone)


def run_three(case, rec):
    """a until m, b until l, c to its end, then b or a first."""
    a, b, c, k, n = case
    names = [[a], [b], [c]]
    p, base, alone = prepare(names)
    pa, pb = points(p, a, False), points(p, b, False)
    for m in pa[k::n]:
        for q in pb:
            for end in ([(0, None), (1, None)], [(1, None), (0, None)]):
                schedule(rec, p, base, names,
                         [(0, m), (1, q), (2, None)] + end, alone)


def partner(name):
    if name[-1] in '01' and name[:-1] + '0' in menu.ops():
        return name[:-1] + ('1' if name[-1] == '0' else '0')
    return name


SHORT = ['cascade', 'apply_delay', 'correlation.coeff', 'marcos',
         'plant.square', 'plant.gaussian', 'plant.camfilter', 'remap.cols',
         'remap', 'interp_tf', 'tf_delay.diff', 'tf_delay.fit', 'spacetime',
         'lla2flat.matlab', 'compute_vectors', 'project', 'intersection',
         'stats.darr', 'stats.variability_score', 'stats.rmse', 'flag_qc',
         'null_qc', 'cf.mask', 'cf.edges', 'cf.scale', 'xcorr_delay',
         'cleanfreq', 'averaged_psd', 'stats.vi', 'clearsky_index.max',
         'latlon2utm.zone']
MID = ['cmv.jamaly.opt', 'latlon2utm', 'utm2latlon', 'latlon2lcs',
       'delays.loop', 'delays.fft', 'delays_tf', 'downscale',
       'downscale.default', 'multihour', 'camfilter', 'assign',
       'field.delays', 'clearsky_index', 'interp_nan', 'averaged_tf',
       'cmv.gagne', 'apply_filter', 'cf.stats', 'tf_delay.multi']


def spaces(tier):
    q = tier == 'quick'
    names = [n for n in menu.ops() if not n.startswith(SKIP)]
    one = []
    for a in names:
        if q and (partner(a) < a or a in ('predict.all', 'predict.global')):
            continue
        parts = 16 if a.startswith(('cmv', 'optimum', 'predict')) else 2
        if not q:
            parts *= 4
        for k in range(parts):
            one.append((a, sorted({a, partner(a)}, key=lambda x: x != a),
                        (a.startswith(HEAVY) and 'first') if q else
                        not a.startswith(HEAVY), k, parts))
    mix = []
    core = names if not q else [n for n in names if n.endswith('0')]
    for a in core:
        if q and a.startswith(('optimum', 'predict.auto')):
            continue
        parts = 16 if a.startswith(('cmv', 'optimum', 'predict')) else 2
        for k in range(parts):
            mix.append((a, MIX if q else MIX + BIG, 'first', k, parts))
    two = [(a + '0', a + '1', False, k, 4) for a in SHORT for k in range(4)]
    if not q:
        two += [(a + '1', a + '0', True, k, 8) for a in SHORT
                for k in range(8)]
        two += [(a + '0', a + '1', 'first', k, 32) for a in MID
                for k in range(32)]
    out = [Space('one-preemption', one, run_one,
                 f'{len(names)} computations, preempted at every point by the '
                 'same computation on the same and on other data', chunk=2),
           Space('preempted-by-many', mix, run_one,
                 'computations preempted at every point by a thread that '
                 f'makes {len(mix[0][1])} other calls', chunk=2),
           Space('two-preemptions', two, run_two,
                 'all pairs of points of two threads: a, b, a, b', chunk=2)]
    fams = {f: c for f, c in families.families().items()
            if f not in ('cf', 'motion')}
    out.append(Space(
        'families', [(f, k, m) for f in fams
                     for m in [max(1, len(fams[f]) // 8)] for k in range(m)],
        run_family, 'every call of a family of argument forms and options, '
        'preempted at the first visit of every line by the same call and two '
        'more of its family', chunk=1))
    if not q:
        out.append(Space('three-threads', [
            (a + '0', b + '1', a + '1', k, 8) for a, b in
            zip(SHORT, SHORT[1:] + SHORT[:1]) for k in range(8)], run_three,
            'three threads, two preemptions, both orders of the rest',
            chunk=1))
    return out
