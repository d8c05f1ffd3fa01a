"""Shared by C22 and C23: the observation constructor on its contracts."""
import math

from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_gp
from balloon_learning_environment.env.balloon import power_table
from balloon_learning_environment.env.balloon import pressure_range_builder
from props.flight import *

LO, HI, LEVELS = 5000.0, 14000.0, 181
DELTA = (HI - LO) / (LEVELS - 1)
DAY = 86400.0


class Estimator:
  """Stand-in for the wind estimator (C21): calm, certain."""

  def __init__(self, forecast):
    self.observed = []

  def observe(self, x, y, pressure, elapsed_time, measurement):
    self.observed.append((x, y, pressure, elapsed_time, measurement))

  def query_batch(self, q):
    return np.zeros((len(q), 2)), np.zeros(len(q))

  def reset(self, forecast):
    self.observed = []


def constructor(V, estimator=Estimator, reachable=(1e9, 2e9)):
  V.patch(wind_gp, 'WindGP', estimator)
  V.patch(pressure_range_builder, 'get_pressure_range', lambda b, atm:
          pressure_range_builder.AccessiblePressureRange(*reachable))
  return features.PerciatelliFeatureConstructor(None, real_atmosphere())


def pressure_in(V, where):
  """An arbitrary pressure whose nearest level is `where`."""
  if where == 'below':
    return V.real('p', 2000, LO - .01)
  if where == 'above':
    return V.real('p', HI + .01, 30000)
  # either neighbour is nearest half way, so stay off the middle
  return V.real('p', LO + (where - .499) * DELTA, LO + (where + .499) * DELTA)
