"""C30 checkpoint bookkeeping."""
import os
import pickle
import shutil
import tempfile

from balloon_learning_environment.agents import agent as base_agent
from balloon_learning_environment.agents import dopamine_utils
from balloon_learning_environment.agents import dqn_agent as ble_dqn
from balloon_learning_environment.agents import quantile_agent as ble_quantile
from props.common import *
from pyver.spec import unit, per_case, bounded_unit
from dopamine.jax.agents.dqn import dqn_agent
from dopamine.jax.agents.quantile import quantile_agent
import tensorflow as tf

GOOD = {'checkpoint_00000.pkl': 0, 'checkpoint_00007.pkl': 7,
        'checkpoint_00123.pkl': 123, 'checkpoint_00124.pkl': 124,
        'checkpoint_99999.pkl': 99999, 'checkpoint_100000.pkl': 100000,
        'checkpoint_1234567.pkl': 1234567}
JUNK = ['checkpoint_abcde.pkl', 'checkpoint_00500.pkl.tmp',
        'checkpoint_12.pkl', 'xcheckpoint_00500.pkl',
        'checkpoint_00600_old.pkl', 'notes.txt', 'checkpoint_-0005.pkl',
        'checkpoint_0x1ff.pkl', 'ckpt_00700.pkl', 'checkpoint_1_234.pkl',
        'Checkpoint_00800.pkl', 'checkpoint_00900.pickle', 'checkpoint_.pkl',
        'checkpoint.pkl', 'checkpoint_00901', 'checkpoint_1e999.pkl',
        'checkpoint_00902.pkl~']


_UNLINK, _RMDIR = os.unlink, os.rmdir


class Scratch:
  """A scratch directory; deletions are recorded, never carried out."""

  def __init__(self, V, names=(), record=True):
    self.top = tempfile.mkdtemp()
    self.dir = os.path.join(self.top, 'run [1] *')
    os.mkdir(self.dir)
    self.removed = []
    for n in names:
      with open(os.path.join(self.dir, n), 'wb') as f:
        f.write(b'as it was')

    def remove(path, *a, **k):
      self.removed.append(path)
      if not record and os.path.dirname(path) == self.dir:
        _UNLINK(path)
    for owner, name in ((tf.io.gfile, 'remove'), (tf.io.gfile, 'rmtree'),
                        (os, 'remove'), (os, 'unlink'), (os, 'rmdir')):
      V.patch(owner, name, remove)

  def __enter__(self):
    return self

  def __exit__(self, *a):
    for d, _, files in os.walk(self.top, topdown=False):
      for n in files:
        _UNLINK(os.path.join(d, n))
      _RMDIR(d)

  def gone(self):
    """What was removed: names in the directory, other paths in full."""
    return [os.path.basename(p) if os.path.dirname(p) == self.dir else
            'elsewhere: ' + p
            for p in self.removed]


DIRS = {
    'empty': [], 'zero': ['checkpoint_00000.pkl'],
    'padded': ['checkpoint_00007.pkl', 'checkpoint_00123.pkl',
               'checkpoint_00124.pkl'],
    'long': ['checkpoint_99999.pkl', 'checkpoint_100000.pkl'],
    'longer': ['checkpoint_00123.pkl', 'checkpoint_99999.pkl',
               'checkpoint_100000.pkl', 'checkpoint_1234567.pkl'],
    'all': sorted(GOOD),
}


@per_case({**{k: (v, []) for k, v in DIRS.items()},
           **{k + '_and_others': (v, JUNK) for k, v in DIRS.items()}},
          con_max=3)
def latest(V, case):
  """The latest checkpoint is the highest numbered one; other files are
  ignored."""
  names, junk = case
  with Scratch(V, [*names, *junk]) as d:
    V.prove('the highest number', dopamine_utils.get_latest_checkpoint(
        d.dir) == max((GOOD[n] for n in names), default=-1))
    V.prove('nothing is removed', not d.removed)


@per_case(dict(enumerate(JUNK)), con_max=3)
def other_file(V, junk):
  """Each other file alone and next to a checkpoint."""
  name = V.choice('checkpoint', [None, *sorted(GOOD)])
  episode, keep = V.int('episode', 0, None), V.int('keep', 0, None)
  with Scratch(V, [junk] + [name] * (name is not None)) as d:
    V.prove('ignored when reloading', dopamine_utils.get_latest_checkpoint(
        d.dir) == GOOD.get(name, -1))
    dopamine_utils.clean_up_old_checkpoints(d.dir, episode, keep)
    V.prove('never removed', junk not in d.gone())


@per_case({**{k: (v, []) for k, v in DIRS.items()},
           **{k + '_and_others': (v, JUNK) for k, v in DIRS.items()}},
          con_max=60)
def cleaned(V, case):
  """Exactly the checkpoints older than the window are removed, for every
  episode number and window."""
  names, junk = case
  episode = V.int('episode', 0, None)
  keep = V.choice('given', [True, False]) and V.int('keep', 0, None)
  with Scratch(V, [*names, *junk]) as d:
    if keep is False:
      dopamine_utils.clean_up_old_checkpoints(d.dir, episode)
      keep = 50
    else:
      dopamine_utils.clean_up_old_checkpoints(d.dir, episode,
                                              checkpoint_duration=keep)
    gone = d.gone()
    V.prove('each at most once', len(set(gone)) == len(gone))
    V.prove('only checkpoints of this directory', set(gone) <= set(names))
    for n in names:
      V.prove('removed exactly when older than the window',
              V.Iff(n in gone, GOOD[n] < episode - keep))
      V.prove('the newest stays', V.Implies(V.eq(GOOD[n], episode),
                                            n not in gone))


@unit(con_max=10)
def no_directory(V):
  """No directory, no checkpoint."""
  with Scratch(V) as d:
    V.prove('none', dopamine_utils.get_latest_checkpoint(
        os.path.join(d.dir, 'nowhere')) == -1)
    told = []
    V.prove('nothing to load', V.run(lambda: dopamine_utils.load_checkpoint(
        os.path.join(d.dir, 'nowhere'), 3, lambda *a: told.append(a)))[
            0] == 'ok' and not told)


@bounded_unit('sampled iteration numbers', con_n=150, con_budget=60)
def there_and_back(V):
  """A saved checkpoint is the one loaded; it is the latest exactly if its
  number is the highest; no other file changes."""
  n = int(V.choice('digits', [V.int('small', 0, 99), V.int('mid', 0, 99999),
                              V.int('large', 99990, 10 ** 7)]))
  m = int(V.choice('other', [n + 1, V.int('m', 0, 200000)]))
  V.assume(m != n)
  x = float(V.real('x', 0, 1))
  with Scratch(V, JUNK) as d:
    where = V.choice('where', [d.dir, os.path.join(d.dir, 'sub', 'dir')])
    told = []
    for i, y in ((n, x), (m, 2 * x)):
      dopamine_utils.save_checkpoint(where, i, lambda dd, k, y=y: dict(
          it=k, x=y, dir=dd))
    for i, y in ((n, x), (m, 2 * x)):
      dopamine_utils.load_checkpoint(
          where, i, lambda dd, k, b: told.append((dd, k, b)) or True)
      V.prove('what was saved', told[-1] == (where, i, dict(
          it=i, x=y, dir=where)))
    V.prove('the latest', dopamine_utils.get_latest_checkpoint(
        where) == max(n, m))
    before = sorted(os.listdir(where))
    dopamine_utils.save_checkpoint(where, n + 7, lambda dd, k: None)
    V.prove('nothing is saved without a bundle',
            sorted(os.listdir(where)) == before)
    del told[:]
    dopamine_utils.load_checkpoint(where, n + m + 11,
                                   lambda *a: told.append(a))
    V.prove('missing ones are not loaded', not told)
    V.prove('other files are as they were', not d.removed and all(
        open(os.path.join(d.dir, f), 'rb').read() == b'as it was'
        for f in JUNK))


AGENTS = {'dqn': (ble_dqn.DQNAgent, dqn_agent.JaxDQNAgent),
          'quantile': (ble_quantile.QuantileAgent,
                       quantile_agent.JaxQuantileAgent)}


@per_case(AGENTS, con_max=40)
def agents(V, case):
  """Agents keep, clean up and restore checkpoints through these functions."""
  cls, parent = case
  log = []
  V.patch(parent, 'bundle_and_checkpoint',
          lambda self, d, n: log.append(('bundle', d, n)) or {'n': n})
  V.patch(parent, 'unbundle', lambda self, d, n, b: log.append(
      ('unbundle', d, n, b)) or True)
  a = object.__new__(cls)
  a._checkpoint_duration = V.choice('duration', [None, 0, 2, 50])
  names = V.choice('there', [[], ['checkpoint_00000.pkl'],
                             ['checkpoint_00004.pkl'],
                             ['checkpoint_00004.pkl', 'checkpoint_00090.pkl'],
                             ['checkpoint_00004.pkl', 'checkpoint_x.pkl']])
  n = V.choice('iteration', [5, 91])
  with Scratch(V, names, record=False) as d:
    found = max((GOODNUM(x) for x in names), default=-1)
    V.patch(pickle, 'load', lambda f: {'from': os.path.basename(str(f.name))})
    V.prove('restores the latest', a.reload_latest_checkpoint(d.dir) == found)
    V.prove('and nothing else', log == ([] if found < 0 else [
        ('unbundle', d.dir, found,
         {'from': f'checkpoint_{found:05d}.pkl'})]))
    del log[:]
    a.save_checkpoint(d.dir, n)
    V.prove('saved under its number', log == [('bundle', d.dir, n)] and
            f'checkpoint_{n:05d}.pkl' in os.listdir(d.dir))
    old = set() if a._checkpoint_duration is None else {
        x for x in names if GOODNUM(x) >= 0 and
        GOODNUM(x) < n - a._checkpoint_duration}
    V.prove('stale checkpoints are removed, only if asked to',
            set(d.gone()) == old)
    del log[:]
    V.prove('and is the latest now', a.reload_latest_checkpoint(
        d.dir) == max([n, *(GOODNUM(x) for x in names if x not in old)]))


def GOODNUM(name):
  """Number of a checkpoint file of the unit above, -1 for others."""
  return int(name[11:-4]) if name[11:-4].isdigit() else -1


@per_case(AGENTS, con_max=10)
def unreadable(V, case):
  """A checkpoint that cannot be restored counts as none."""
  cls, parent = case

  def unbundle(self, d, n, b):
    raise ValueError('not a checkpoint of this agent')
  V.patch(parent, 'unbundle', unbundle)
  V.patch(pickle, 'load', lambda f: {})
  a = object.__new__(cls)
  with Scratch(V, ['checkpoint_00004.pkl']) as d:
    V.prove('none', a.reload_latest_checkpoint(d.dir) == -1)
    V.prove('still there', not d.removed)


@bounded_unit('directories of 150 to 1200 checkpoints', con_n=4,
              con_budget=30)
def many(V):
  """In a directory of many checkpoints the latest is the highest numbered
  and all that are older than the window are removed."""
  first = V.choice('first', [0, 99600, int(V.int('any', 0, 120000))])
  n = int(V.int('how many', 150, 1200))
  name = lambda i: f'checkpoint_{i:05d}.pkl'
  with Scratch(V, [name(i) for i in range(first, first + n)]) as d:
    V.prove('the highest number', dopamine_utils.get_latest_checkpoint(
        d.dir) == first + n - 1)
    keep = int(V.int('keep', 0, 100))
    dopamine_utils.clean_up_old_checkpoints(d.dir, first + n - 1, keep)
    V.prove('all the old ones', sorted(d.gone()) == sorted(
        name(i) for i in range(first, first + n - 1 - keep)))
