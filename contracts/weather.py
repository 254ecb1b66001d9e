"""Contracts of the weather plugin."""

from .common import *
from .plugins import WaitLog, iter_of, make_activity, plugin_class

B = "openclsim.plugins.weather."
T_START = [
    B + "HasWeatherPluginActivity.__init__",
    B + "WeatherPluginActivity.__init__",
    B + "WeatherPluginActivity.pre_process",
    "openclsim.model.base_activities.PluginActivity.delay_processing",
]
T_CHOOSE = [B + "WeatherPluginActivity.check_constraint"]
T_WIN = [B + "WeatherPluginActivity.process_data", B + "WeatherCriterion.__init__"]
REF = "waiting on weather"


def weather_module():
    import openclsim.plugins.weather as m

    return m


def criterion(K, **kw):
    import openclsim.plugins as plugins

    kw.setdefault("maximum", 1.0)
    return plugins.WeatherCriterion(name="c", condition="Hs", window_length=kw.pop("window_length", 1.0), **kw)


@contract("C15", "start", T_START, budget=100)
def start(K):
    """given the range of allowed starts chosen for the present time, the
    activity starts at max(now, begin of the range) and logs the waiting"""
    import openclsim.model as model
    import openclsim.plugins as plugins

    env, t0 = new_env(K)

    class Act(plugins.HasWeatherPluginActivity, model.BasicActivity):
        pass

    d = K.real("duration", lo=0)
    frame = object()
    crit = criterion(K)
    act = Act(env=env, registry={}, name="act", id="act-id", duration=d, metocean_criteria=crit, metocean_df=frame)
    W = WaitLog(K, env, act, REF)
    asked = []
    a = K.real("a")
    b = K.real("b")
    K.assume(a <= b)
    Plug = plugin_class()
    early = Plug(K, env, "early", lambda pl, wh, edge, x, k: setattr(pl, "t", env.now) if (wh, edge) == ("pre", "out") else None)
    late = Plug(K, env, "late", lambda pl, wh, edge, x, k: setattr(pl, "t", env.now) if (wh, edge) == ("pre", "in") else None)
    act.register_plugin(early, priority=0)
    act.register_plugin(late, priority=9)
    mine = [i["plugin"] for i in act.plugins if isinstance(i["plugin"], weather_module().WeatherPluginActivity)]
    K.check("one weather plugin is registered", len(mine) == 1)
    wp = mine[0]
    K.check("with the given criterion and data", wp.weather_criteria is crit and wp.metocean_df is frame)

    def chosen(start_time):
        asked.append(start_time)
        K.assume(start_time <= b)
        return K.wrap_list([a, b])

    wp.check_constraint = chosen
    Driver(K, env).run(act.main_process_function(activity_log=act, env=env))
    g = W.g
    K.check("the window is chosen once, for the time at which the activity could start", len(asked) == 1 and K.is_true(K.eq(asked[0], early.t)))
    K.check("starts at the begin of the window, or at once inside it", K.eq(late.t, K.max(early.t, a)))
    K.check("START follows", K.le(late.t, g.ms))
    K.check("the activity takes its own time", K.eq(g.me, g.ms + d))
    if K.is_true(a > early.t):
        K.check("the waiting is logged over exactly that period", K.and_(K.eq(g.phase, 2), K.eq(g.t0, early.t), K.eq(g.t1, late.t)))
    else:
        K.check("no waiting, no entry", K.eq(g.phase, 0))


@contract("C15", "off", T_START[:3], budget=60)
def off(K):
    """without criterion or data there is no weather plugin; a criterion has one limit"""
    import openclsim.model as model
    import openclsim.plugins as plugins

    env, t0 = new_env(K)

    class Act(plugins.HasWeatherPluginActivity, model.BasicActivity):
        pass

    what = K.choice("what", ["no criterion", "no data", "two limits", "no limit"])
    if what in ("two limits", "no limit"):
        try:
            criterion(K, maximum=1 if what == "two limits" else None, minimum=K.choice("m", [0, 2]) if what == "two limits" else None)
            K.fail("refused")
        except AssertionError:
            K.check("refused", True)
        return
    act = Act(env=env, registry={}, name="act", id="act-id", duration=K.real("d", lo=0),
              metocean_criteria=None if what == "no criterion" else criterion(K), metocean_df=None if what == "no data" else object())
    K.check("no weather plugin", len(act.plugins) == 0)


def plugin(K, crit=None, frame=None):
    return weather_module().WeatherPluginActivity(weather_criteria=crit or criterion(K), metocean_df=frame)


@contract("C15", "choose", T_CHOOSE, budget=150, bounded="at most 3 windows; the run of the data and its nine repetitions", loop_limit=13)
def choose(K):
    """the first window that has not passed, in the first repetition of the
    data that has one"""
    wp = plugin(K)
    n = K.choice("windows", [1, 2, 3])
    start = K.real("ts_start", lo=0)
    ws, last = [], start
    for i in range(n):
        a = last + K.real("gap", lo=0)
        b = a + K.real("window", lo=0)
        last = b
        ws.append([a, b])
    stop = last + K.real("rest", lo=0)
    per = stop - start
    K.assume(K.lt_strict(start, stop))
    wp.process_data = lambda crit: {"dataset_start": start, "dataset_stop": stop, "windows": [list(w) for w in ws]}
    rep = K.choice("repetition", list(range(10)))
    end = ws[-1][1] + rep * per
    # exactly at the end of a window both that and the next are right
    if rep == 0:
        t = K.real("now", lo=0)
        K.assume(K.lt_strict(t, end))
    else:
        t = end - K.real("ahead", gt=0)
        K.assume(K.lt_strict(end - per, t))
    for a, b in ws:
        K.assume(K.not_(K.eq(t, b + rep * per)))
    got = wp.check_constraint(start_time=t)
    K.check("a range", isinstance(got, list) and len(got) == 2)
    for a, b in ws:
        if K.is_true(t <= b + rep * per):
            K.check("earliest window that is not over", K.and_(K.eq(got[0], a + rep * per), K.eq(got[1], b + rep * per)))
            return
    K.fail("a window exists")


class Rows:
    """contract of a numpy array of rows [begin, end]: column, comparison with a
    number, selection by a mask, adding a number to everything, row, length"""

    __ded_leaf__ = True

    def __init__(self, K, seq, dt=0):
        self.K, self.seq, self.dt = K, seq, dt

    def row(self, r):
        return self.K.wrap_list([r[0] + self.dt, r[1] + self.dt])

    def __getitem__(self, i):
        from pyded.seq import SymList

        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] in (0, 1, -1, -2):
            return Col(self, i[1])
        if isinstance(i, Mask) and i.rows is self:
            from pyded.hooks import _comp

            return Rows(self.K, SymList(_comp(lambda r: r, self.seq, i.test, False)), self.dt)
        if isinstance(i, int):
            return self.row(self.seq[i])
        raise OutOfContract("numpy")

    def __add__(self, x):
        return Rows(self.K, self.seq, self.dt + x)

    __radd__ = __add__

    def __sub__(self, x):
        return Rows(self.K, self.seq, self.dt - x)

    def __ded_len__(self):
        return self.K.len(self.seq)

    @property
    def shape(self):
        return self.__ded_len__(), 2

    @property
    def size(self):
        return self.__ded_len__() * 2

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("__") else OutOfContract("numpy " + k)


class Col:
    __ded_leaf__ = True

    def __init__(self, rows, c):
        self.rows, self.c = rows, c

    def cmp(self, op, x):
        import operator

        f, c, dt = getattr(operator, op), self.c, self.rows.dt
        return Mask(self.rows, lambda r: f(r[c] + dt, x))

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith("__") else OutOfContract("numpy " + k)


for _op in ("lt", "le", "gt", "ge"):
    setattr(Col, f"__{_op}__", lambda self, x, op=_op: self.cmp(op, x))


class Mask:
    __ded_leaf__ = True

    def __init__(self, rows, test):
        self.rows, self.test = rows, test


class NumPy:
    """numpy of the module under contract, for arrays of any number of rows"""

    __ded_leaf__ = True

    def __init__(self, K, real):
        self.K, self.real = K, real

    def array(self, x, *a, **k):
        from pyded.hooks import has_run

        return Rows(self.K, x) if has_run(x) and not a and not k else self.real.array(x, *a, **k)

    asarray = array

    def __getattr__(self, k):
        return getattr(self.real, k)


@contract("C15", "choose-any", T_CHOOSE, budget=100, loop_limit=13)
def choose_any(K):
    """any number of windows, in order: the first that has not passed, in the
    first of ten repetitions of the data that has one"""
    m = weather_module()
    wp = plugin(K)
    start, per = K.real("ts_start", lo=0), K.real("period", gt=0)
    stop = start + per
    A, B = K.func("begin"), K.func("end")
    if not K.symbolic:
        cuts = sorted(K.real("cut", lo=start, hi=stop) for _ in range(24))
        A, B = (lambda j: cuts[2 * j]), (lambda j: cuts[2 * j + 1])
    row = lambda j: K.wrap_list([A(j), B(j)])
    ok = lambda j, r: K.and_(start <= r[0], r[0] <= r[1], r[1] <= stop)
    ws = K.seq(("run", "W", row, [ok], [lambda v, w: v[1] <= w[0]]))
    given = K.frozen(ws)
    K.assume(K.len(ws) >= 1)
    wp.process_data = lambda crit: {"dataset_start": start, "dataset_stop": stop, "windows": ws}
    t = K.real("now", lo=0)
    if not K.symbolic:
        rep = K.choice("repetition", list(range(10)))
        t = given[-1][1] + rep * per - K.real("ahead", lo=0, hi=per)
        K.assume(t >= 0)
        wins = lambda i: [(w[0] + i * per, w[1] + i * per) for w in given]
        K.assume(all(not K.eq(t, b) for i in range(10) for _, b in wins(i)))
        got = wp.check_constraint(start_time=t)
        K.check("a range", isinstance(got, list) and len(got) == 2)
        want = next(w for i in range(10) for w in wins(i) if t <= w[1])
        K.check("a window that is not over", got[1] >= t)
        K.check("the first such window", K.eq(got[0], want[0]) and K.eq(got[1], want[1]))
        return
    import numpy

    from pyded.engine import SymNum

    if m.np is not numpy and not isinstance(m.np, NumPy):
        raise OutOfContract("numpy")
    run = given[0][1]
    j, first = run.fresh_elem("some")
    l, last = run.fresh_elem("last")
    K.en.add(l == run.hi - 1)
    K.assume(t < last[1] + 9 * per)  # beyond ten repetitions the code says nothing
    # exactly at the end of a window both that and the next are right
    K.assume(K.and_(*[K.not_(K.eq(t, first[1] + i * per)) for i in range(10)]))
    m.np = NumPy(K, numpy)
    try:
        got = wp.check_constraint(start_time=t)
    finally:
        m.np = numpy
    got = K.frozen(got)
    K.check("a range", [k for k, _ in got] == ["one", "one"])
    a, b = (v for _, v in got)
    K.check("a window that is not over", b >= t)
    # it is window w, repeated i times, and neither an arbitrary other window nor
    # any earlier repetition would do
    found = [(r, v) for r, v in run.cache.values()]
    K.check("one of the windows, repeated", K.or_(*[K.and_(SymNum(r) >= SymNum(run.lo), SymNum(r) < SymNum(run.hi), K.eq(a, v[0] + i * per), K.eq(b, v[1] + i * per)) for r, v in found for i in range(10)]))
    for i in range(10):
        K.check("the first such window", K.implies(t <= first[1] + i * per, b <= first[1] + i * per))


def oracle_windows(K, ts, good, length, delay):
    """allowed starts within one run of the data: maximal good periods (a sample
    holds until the next), long enough for the window"""
    n = len(ts)
    out = []
    i = 0
    while i < n:
        if not good[i]:
            i += 1
            continue
        j = i
        while j < n and good[j]:
            j += 1
        end = ts[j] if j < n else ts[n - 1]
        out.append((ts[i], end))
        i = j
    return [(a - delay, b - length - delay) for a, b in out if K.is_true(K.lt_strict(length, b - a))]


def windows_case(K, lens):
    import numpy as np
    import pandas as pd

    n = K.choice("samples", lens)
    kind = K.choice("kind", ["maximum", "minimum"])
    lim = K.real("limit")
    length = K.real("length", gt=0)
    delay = K.real("delay", lo=0)
    ts = [K.real("ts", lo=0)]
    for i in range(1, n):
        ts.append(ts[-1] + K.real("dt", gt=0))
    vs = [K.real("v") for _ in range(n)]
    other = [0.0] * n
    mk = lambda l: np.array(l, dtype=object if K.symbolic else float)
    df = pd.DataFrame({"ts": mk(ts), "Hs": mk(vs), "Tp": mk(other)})
    before = df.copy()
    crit = criterion(K, **{"maximum": None, kind: lim, "window_length": length, "window_delay": delay})
    wp = plugin(K, crit, df)
    good = [K.is_true(v <= lim) if kind == "maximum" else K.is_true(lim <= v) for v in vs]
    # coincidences (a period exactly as long as the window) are left open
    if not all(good):
        i = 0
        for i in range(n):
            for j in range(i + 1, n):
                K.assume(K.not_(K.eq(ts[j] - ts[i], length)))
    return wp, crit, df, before, ts, good, length, delay


def windows(K, lens):
    wp, crit, df, before, ts, good, length, delay = windows_case(K, lens)
    n = len(ts)
    if not any(good):
        try:
            res = wp.process_data(crit)
            windows = list(res["windows"])
        except Exception:
            windows = []
        K.check("never workable: no window", len(windows) == 0)
        return
    res = wp.process_data(crit)
    K.check("the span of the data", K.and_(K.eq(res["dataset_start"], ts[0]), K.eq(res["dataset_stop"], ts[-1])))
    got = [list(w) for w in res["windows"]]
    if all(good):
        K.check("always workable: one window over all data", K.and_(len(got) == 1, K.eq(got[0][0], ts[0]), K.eq(got[0][1], ts[-1])))
    else:
        want = oracle_windows(K, ts, good, length, delay)
        K.check("one window per workable period that is long enough", len(got) == len(want))
        for (a, b), (c, d) in zip(got, want):
            K.check("the window allows exactly the starts for which it is good long enough", K.and_(K.eq(a, c), K.eq(b, d)))
    K.check("the weather data are not changed", df.shape == before.shape and all(x is y or x == y for c in df for x, y in zip(df[c].tolist(), before[c].tolist())))


@contract("C15", "windows", T_WIN, budget=200, bounded="series of at most 4 samples (arbitrary times, values and limits)")
def windows4(K):
    windows(K, [1, 2, 3, 4])


@contract("C15", "windows-long", T_WIN, budget=200, bounded="random series of at most 14 samples", concrete=True)
def windows_long(K):
    windows(K, [5, 6, 7, 9, 11, 14])
