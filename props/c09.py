"""C09 compressor and motor tables."""
from balloon_learning_environment.env.balloon import acs
from balloon_learning_environment.env.balloon import power_table
from props.common import *
from pyver.spec import unit, bounded_unit

PTS = [(1.0, 100), (1.05, 100), (1.2, 300), (1.25, 400), (1.35, 400)]
XS = [1.05 + .025 * i for i in range(13)]

def power_spec(V, r):
  """Piecewise linear through the published points, flat outside."""
  w = 100 + (r - 1.05) * (200 / 0.15)
  w = V.ite(r < 1.2, w, 300 + (r - 1.2) * 2000)
  return V.ite(r < 1.05, 100.0, V.ite(r > 1.25, 400.0, w))


@unit(con_max=400)
def most_efficient_power(V):
  """Range, published points and monotonicity for every pressure ratio."""
  r = V.real('ratio', 0.5, 6, pts=[p for p, _ in PTS])
  q = V.real('ratio2', 0.5, 6, pts=[p for p, _ in PTS])
  a = V.call(acs.get_most_efficient_power, r)
  b = V.call(acs.get_most_efficient_power, q)
  V.prove('a power is returned', isinstance(a, units.Power))
  w = a.watts
  V.prove('at least 100 W', V.le(100, w))
  V.prove('at most 400 W', V.le(w, 400))
  V.prove('piecewise linear through the published points',
          V.near(w, power_spec(V, r), 1e-6))
  V.prove('monotone', V.Implies(r <= q, V.le(w, b.watts)))


@unit(con_max=60)
def most_efficient_power_points(V):
  """The published points themselves."""
  r, w = V.choice('point', PTS)
  V.prove('published point', V.near(
      V.call(acs.get_most_efficient_power, r).watts, w, 1e-9))


@unit(con_max=60)
def fan_efficiency_corners(V):
  """The ends of the compressor map."""
  r, w, e = V.choice('point', [(1.05, 100, .4), (1.35, 400, .13),
                               (.5, 10, .4), (4.0, 600, .13)])
  V.prove('published efficiency', V.near(V.call(
      acs.get_fan_efficiency, r, units.Power(watts=float(w))), e, 1e-9))


# Efficiency against pressure ratio, one row for each of 100, 200, 300, 400 W.
PUBLISHED = [
    .4, .4, .3, .2, .2, 0, 0, 0, 0, 0, 0, 0, 0,
    .4, .3, .3, .3, .25, .23, .2, .15, .12, .1, 0, 0, 0,
    0, .3, .25, .25, .25, .2, .2, .2, .2, .15, .13, .12, .11,
    0, .23, .23, .23, .23, .23, .2, .2, .2, .18, .16, .15, .13]


@unit(con_max=2)
def fan_efficiency_values(V):
  """The values at the table points are the published ones (as a multiset:
  where each of them lies is the known finding)."""
  got = [V.call(acs.get_fan_efficiency, x, units.Power(watts=w))
         for x in XS for w in (100.0, 200.0, 300.0, 400.0)]
  got = [V.const(float(x)) if isinstance(x, (int, float)) else x for x in got]
  V.prove('published values', len(got) == 52 and V.And(*[
      V.eq(sum(V.ite(V.near(g, x, 1e-9), 1, 0) for g in got),
           PUBLISHED.count(x)) for x in sorted(set(PUBLISHED))]))


@bounded_unit('the single input listed in known_findings.json', con_n=2)
def fan_efficiency_layout(V):
  """Known finding: the 4x13 table is read column by column."""
  r, w, e = V.choice('point', [(1.35, 100, 0.0)])
  V.prove('efficiency at the highest pressure ratio and the lowest power',
          V.near(V.call(acs.get_fan_efficiency, r, units.Power(
              watts=float(w))), e, 1e-9))


@unit(con_max=400, max_paths=3000)
def fan_efficiency_range(V):
  """Efficiency lies in [0, 0.4] for every pressure ratio and power."""
  r = V.real('ratio', 0.9, 5, pts=XS)
  w = V.real('power', 0, 600, pts=[100, 200, 300, 400])
  e = V.call(acs.get_fan_efficiency, r, units.Power(watts=w))
  V.prove('efficiency not negative', V.le(0, e))
  V.prove('efficiency at most 0.4', V.le(e, 0.4))


@unit(con_max=400)
def mass_flow(V):
  """Mass flow is efficiency times power per hour."""
  w, e = V.real('power', 0, 500), V.real('efficiency', 0, 1)
  V.prove('mass flow', V.eq(
      V.call(acs.get_mass_flow, units.Power(watts=w), e) * 3600, w * e))


TABLE = [
    (1.08, [.3, .4, .5], [0, 150, 175, 200]),
    (1.11, [.3, .4, .7], [0, 200, 200, 225]),
    (1.14, [.3, .4, .6], [0, 225, 225, 250]),
    (1.17, [.3, .4, .5], [0, 200, 225, 250]),
    (1.2, [.3, .4, .5], [0, 225, 250, 275]),
    (1.23, [.4, .5], [0, 275, 300]),
    (1.26, [.5, .6], [0, 300, 325]),
    (9, [.5, .6], [0, 325, 350])]
PR = [.99, 5] + [t[0] for t in TABLE[:-1]]
SOC = [.3, .4, .5, .6, .7, 0, 1]


def table_spec(V, pr, soc):
  for hi, th, vals in TABLE:
    if V.truth(pr < hi):
      for t, x in zip(th, vals):
        if V.truth(soc < t):
          return x
      return vals[-1]


@unit(con_max=500)
def power_table_lookup(V):
  """The whole table, with every threshold."""
  pr = V.real('ratio', .99, 5, pts=PR)
  soc = V.real('soc', 0, 1, pts=SOC)
  asked_before(V, power_table.lookup, (pr, soc), (
      V.real('ratio', .99, 5, pts=PR), V.real('soc', 0, 1, pts=SOC)),
               symbolic=False)
  w = V.call(power_table.lookup, pr, soc)
  V.prove('published value', V.eq(w, table_spec(V, pr, soc)))
  V.prove('zero below 30% charge', V.Implies(soc < .3, V.eq(w, 0)))
  V.prove('at most 350 W, never negative', V.And(w >= 0, w <= 350))


@unit(con_max=400)
def power_table_monotone(V):
  """More charge never means less power."""
  pr = V.real('ratio', .99, 5, pts=PR)
  s1, s2 = V.real('soc1', 0, 1, pts=SOC), V.real('soc2', 0, 1, pts=SOC)
  V.assume(s1 <= s2)
  V.prove('monotone in charge', V.call(power_table.lookup, pr, s1) <= V.call(
      power_table.lookup, pr, s2))


@unit(con_max=200)
def power_table_domain(V):
  """Pressure ratios outside [0.99, 5] are refused, the ends accepted."""
  pr = V.real('ratio', -10, 20, pts=[.99, 5])
  soc = V.real('soc', 0, 1)
  kind, r = V.run(V.call, power_table.lookup, pr, soc)
  bad = V.Or(pr < .99, pr > 5)
  V.prove('refused exactly outside', V.Iff(kind == 'raise', bad))
