"""C37 renderings of a flight."""
import types

import matplotlib
matplotlib.use('Agg')
from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.env.rendering import matplotlib_renderer
from props.flight import *
from pyver.spec import unit, per_case, bounded_unit
from matplotlib import pyplot

MR = matplotlib_renderer
WIDTH, HEIGHT = 4, 3


class Axes:
  """Axes that remember what is on them now."""

  def __init__(self, kind):
    self.kind, self.shown, self.cleared = kind, [], 0

  def clear(self):
    self.shown, self.cleared = [], self.cleared + 1

  cla = clear

  def _draw(self, what):
    return lambda *a, **k: self.shown.append(
        (what, [x for x in a if not isinstance(x, str)]))

  def __getattr__(self, name):
    if name in ('plot', 'plot3D', 'scatter', 'scatter3D'):
      return self._draw('line' if name.startswith('plot') else 'point')
    return Anything()

  def lines(self, dims):
    return [a for what, a in self.shown if what == 'line' and len(a) == dims]

  def points(self, dims):
    return [a[:dims] for what, a in self.shown
            if what == 'point' and len(a) >= dims]


class Anything:
  """Decoration: whatever it is, it does nothing."""

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    return Anything()

  def __call__(self, *a, **k):
    return Anything()

  def __getitem__(self, i):
    return Anything()


class Canvas:

  def __init__(self):
    self.drawn = 0

  def draw(self):
    self.drawn += 1

  def get_width_height(self, **k):
    return WIDTH, HEIGHT

  def picture(self):
    h, w, c = np.meshgrid(range(HEIGHT), range(WIDTH), range(4), indexing='ij')
    return (40 * h + 10 * w + c + 100 * (self.drawn > 0)).astype(np.uint8)

  def buffer_rgba(self):
    return self.picture()

  def tostring_rgb(self):
    return self.picture()[..., :3].tobytes()


class Figure:

  def __init__(self, made):
    self.made, self.canvas = made, Canvas()

  def add_subplot(self, *a, projection=None, **k):
    self.made.append(Axes('3d' if projection == '3d' else 'flat'))
    return self.made[-1]

  def __getattr__(self, name):
    return Anything()


def screen(V):
  """A drawing library that records; and a renderer on it."""
  made, shown = [], []

  def inset(*a, **k):
    made.append(Axes('flat'))
    return made[-1]
  fig = Figure(made)

  def pause(*a):
    shown.append(1)
  plt = types.SimpleNamespace(
      figure=lambda *a, **k: fig, pause=pause, show=pause, draw=lambda: None,
      Circle=Anything(), cla=lambda: None, close=lambda *a: None,
      gcf=lambda: fig)
  V.patch(MR, 'plt', plt)
  V.patch(MR, 'gridspec', Anything())
  V.patch(MR, 'inset_axes', inset)
  V.patch(MR, 'art3d', Anything())
  r = MR.MatplotlibRenderer()
  return r, made, fig, shown


def moment(V, i, atm):
  """A simulator state, as far as a picture of it goes."""
  pressure = V.real(f'pressure{i}', 3000, 20000)
  power = V.real(f'charge{i}', 0, 3000)
  b = types.SimpleNamespace(
      x=units.Distance(m=V.real(f'x{i}', -5e5, 5e5)),
      y=units.Distance(m=V.real(f'y{i}', -5e5, 5e5)), pressure=pressure,
      battery_soc=power / 3000, date_time=V.datetime(f'time{i}'))
  return simulator_data.SimulatorState(b, None, atm)


def height(V):
  return lambda p: V.fun('height', p, lo=0, hi=40000)


def same(V, got, want):
  got = list(got)
  return len(got) == len(want) and V.And(*[
      V.eq(a, b) for a, b in zip(got, want)])


def expected(V, states):
  h = height(V)
  path = [(s.balloon_state.x.meters / 1000, s.balloon_state.y.meters / 1000,
           h(s.balloon_state.pressure) / 1000) for s in states]
  return ([[p[k] for p in path] for k in range(3)],
          [s.balloon_state.date_time for s in states],
          [s.balloon_state.battery_soc * 100 for s in states])


def shows(V, made, states):
  """The three charts show exactly these states, in order."""
  xyz, times, charge = expected(V, states)
  solid = [a for a in made if a.kind == '3d']
  flat = [a for a in made if a.kind != '3d']
  V.prove('one view in depth and two charts', len(solid) == 1 and
          len(flat) == 2)
  view, = solid

  def has(lines, want):
    return V.Or(False, *[V.And(*[same(V, c, w) for c, w in zip(a, want)])
                         for a in lines])
  V.prove('the flight path', has(view.lines(3), xyz))
  last = [[c[-1]] for c in xyz]

  def marked(points, n):
    return V.Or(False, *[V.And(*[same(V, np.atleast_1d(c), w)
                                 for c, w in zip(a, last[:n])])
                         for a in points])
  V.prove('where the balloon is', marked(view.points(3), 3))

  def moments(c):
    c = list(c)
    return len(c) == len(times) and all(
        isinstance(x, dt.datetime) or V.is_delta(x) or hasattr(
            x, 'timestamp') for x in c)
  charts = [a for a in flat if any(moments(x[0]) for x in a.lines(2))]
  maps = [a for a in flat if a not in charts]
  V.prove('a chart over time and a map', len(charts) == 1 and len(maps) == 1)
  (when, level), = charts[0].lines(2)
  V.prove('one level for each time', len(list(level)) == len(list(when)))
  V.prove('at its times', V.And(*[V.eq(V.secs(a - b), 0.0)
                                  for a, b in zip(when, times)]))
  V.prove('the level of the battery in percent', same(V, level, charge))
  V.prove('the path on the map', has(maps[0].lines(2), xyz[:2]))
  V.prove('the balloon on the map', marked(maps[0].points(2), 2))


@unit(con_max=60)
def recorded(V):
  """A rendering shows every state since the last reset, in order, once."""
  r, made, fig, shown = screen(V)
  atm = stub_atmosphere(V, height(V))
  before = V.choice('forgotten', [0, 1])
  n = V.choice('steps', [1, 2, 3])
  for i in range(before):
    r.step(moment(V, f'_old{i}', atm))
    r.render('human')
  r.reset()
  states = [moment(V, i, atm) for i in range(n)]
  again = V.choice('render in between', [False, True])
  for i, s in enumerate(states):
    if again and i == 1:
      r.render('rgb_array')
    r.step(s)
  mode = V.choice('mode', ['human', 'rgb_array'])
  r.render(mode)
  shows(V, made, states)


@unit(con_max=40)
def fresh_start(V):
  """A new renderer has nothing recorded; a state changed later is shown as
  it was when it was recorded."""
  r, made, fig, shown = screen(V)
  atm = stub_atmosphere(V, height(V))
  s = moment(V, 0, atm)
  r.step(s)
  keep = simulator_data.SimulatorState(
      types.SimpleNamespace(**vars(s.balloon_state)), None, atm)
  s.balloon_state.x = s.balloon_state.x + units.Distance(m=1000.0)
  s.balloon_state.battery_soc = 0.0
  s.balloon_state.date_time += V.const_delta(60)
  s.balloon_state.pressure = s.balloon_state.pressure + 1.0
  r.step(s)
  r.render('human')
  shows(V, made, [keep, s])


@bounded_unit('flights of 600 to 3000 recorded states, after one as long',
              con_n=3, con_budget=60)
def long_flights(V):
  """Nothing of a long flight is forgotten, and nothing of it is left in the
  next one."""
  r, made, fig, shown = screen(V)
  atm = stub_atmosphere(V, lambda p: p)

  def states(n, i):
    return [simulator_data.SimulatorState(types.SimpleNamespace(
        x=units.Distance(m=float(k)), y=units.Distance(m=i - 2.0 * k),
        pressure=9000.0 + k % 100, battery_soc=(k % 91) / 90,
        date_time=dt.datetime(2012, 1, 1 + i, tzinfo=UTC) + k *
        dt.timedelta(minutes=3)), None, atm) for k in range(n)]
  for i in range(2):
    r.reset()
    flown = states(V.int(f'steps{i}', 600, 3000), i)
    for s in flown:
      r.step(s)
    r.render('human')
    long = [a for a in made if a.kind == '3d'][0].lines(3)
    V.prove('the whole flight', any(
        len(a[0]) == len(flown) and all(
            near(x, s.balloon_state.x.km) and near(y, s.balloon_state.y.km)
            for x, y, s in zip(a[0], a[1], flown)) for a in long))
    V.prove('every level at its time', any(
        list(a[0]) == [s.balloon_state.date_time for s in flown] and all(
            near(c, 100 * s.balloon_state.battery_soc)
            for c, s in zip(a[1], flown))
        for m in made if m.kind != '3d' for a in m.lines(2)
        if len(list(a[0])) == len(flown)))


def near(a, b):
  return abs(a - b) < 1e-6


class Writer:

  def __init__(self):
    self.log = []

  def image(self, tag, image, step, **k):
    self.log.append((tag, image, step))

  def flush(self):
    pass


def is_picture(V, x, canvas):
  want = canvas.picture()[..., :3]
  return isinstance(x, np.ndarray) and x.shape == want.shape and (
      x.dtype == np.uint8 and bool((x == want).all()))


@unit(con_max=60)
def modes(V):
  """Shown on screen, returned as a picture, or written to the summary."""
  r, made, fig, shown = screen(V)
  r.step(moment(V, 0, stub_atmosphere(V, height(V))))
  mode = V.choice('mode', ['human', 'rgb_array', 'tensorboard'])
  V.prove('announced', mode in list(r.render_modes))
  writer = V.choice('writer', [False, True])
  number = V.choice('iteration', [None, 0, 7])
  w = Writer()
  if writer:
    out = r.render(mode, w, number)
  elif number is None:
    out = r.render(mode)
  else:
    out = r.render(mode, None, number)
  if mode == 'rgb_array':
    V.prove('the picture of the drawn canvas', fig.canvas.drawn > 0 and
            is_picture(V, out, fig.canvas))
  else:
    V.prove('nothing returned', out is None)
  V.prove('on the screen', bool(shown) == (mode == 'human'))
  if mode == 'tensorboard' and writer and number is not None:
    V.prove('one picture written', len(w.log) == 1 and w.log[0][2] == number and
            is_picture(V, w.log[0][1], fig.canvas))
  else:
    V.prove('nothing written', not w.log)


@per_case({'ansi': 'ansi', 'none': None, 'case': 'Human', 'rgb': 'rgb',
           'empty': ''}, con_max=5)
def refused(V, mode):
  """Other modes are refused, and what is on screen stays."""
  r, made, fig, shown = screen(V)
  atm = stub_atmosphere(V, height(V))
  s = moment(V, 0, atm)
  r.step(s)
  r.render('human')
  times, drawn = len(shown), fig.canvas.drawn
  out = V.run(lambda: r.render(mode))
  V.prove('refused', out[0] == 'raise' and isinstance(out[1], ValueError))
  V.prove('not shown', len(shown) == times and fig.canvas.drawn == drawn)
  shows(V, made, [s])


@unit(con_max=40)
def by_the_environment(V):
  """The environment's rendering is its renderer's, without a renderer it is
  nothing."""
  log = []

  class Shown:
    render_modes = ['ansi', 'human']

    def reset(self):
      pass

    def step(self, state):
      pass

    def render(self, mode, *a, **k):
      log.append(mode)
      if mode not in self.render_modes:
        raise ValueError(mode)
      return 'frame ' + mode

  env = V.obj(balloon_env.BalloonEnv)
  with_one = V.choice('renderer', [True, False])
  env._renderer = Shown() if with_one else None
  mode = V.choice('mode', ['ansi', 'human', 'rgb_array', None])
  out = V.run(lambda: env.render(mode) if mode else env.render())
  mode = mode or 'human'
  if not with_one:
    V.prove('nothing', out == ('ok', None))
  elif mode == 'rgb_array':
    V.prove('its refusal', out[0] == 'raise' and isinstance(out[1], ValueError))
  else:
    V.prove('its frame', out == ('ok', 'frame ' + mode))
  V.prove('asked once', log == ([mode] if with_one else []))


@bounded_unit('the installed matplotlib, one random flight of 1 to 6 states: '
              'frames of the default size', con_n=4, con_budget=40)
def drawn(V):
  """With the real library a frame is a picture that changes with the
  flight."""
  pyplot.close('all')
  atm = real_atmosphere()
  r = MR.MatplotlibRenderer()
  n = V.choice('steps', [1, 3, 6])
  seed = V.int('seed', 0, 1000)
  rng = np.random.RandomState(int(seed))

  def at(i):
    b = types.SimpleNamespace(
        x=units.Distance(km=rng.uniform(-100, 100)),
        y=units.Distance(km=rng.uniform(-100, 100)), pressure=7000.0 + 100 * i,
        battery_soc=rng.uniform(0.2, 1),
        date_time=dt.datetime(2020, 1, 1, 12, 3 * i, tzinfo=UTC))
    return simulator_data.SimulatorState(b, None, atm)
  states = [at(i) for i in range(n + 1)]
  for s in states[:n]:
    r.step(s)
  one = r.render('rgb_array')
  V.prove('a colour picture', one.ndim == 3 and one.shape[2] == 3 and
          one.dtype == np.uint8 and one.shape[1] > one.shape[0] > 100)
  V.prove('drawn', 0 < one.min() + 1 <= one.max() == 255)
  one = np.array(one)
  V.prove('the same again', np.array_equal(one, r.render('rgb_array')))
  r.step(states[n])
  V.prove('another after a step', not np.array_equal(
      one, r.render('rgb_array')))
  r.reset()
  for s in states[:n]:
    r.step(s)
  V.prove('the same flight, the same picture',
          np.array_equal(one, r.render('rgb_array')))
  V.prove('human', r.render('human') is None)
  pyplot.close('all')
