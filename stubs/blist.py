"""Stand-in for the parts of the third-party package blist that /repo uses.

sortedset(iterable=(), key=None): a set kept in ascending order of key (or of
the elements).  As in blist, membership is by key and then equality: distinct
elements with equal keys are all kept, in insertion order among themselves.
Slices and copies are sortedsets with the same key.
"""


def _lt(a, b):
  return a < b


class sortedset(object):
  def __init__(self, iterable=(), key=None):
    self._key = key
    self._l = []      # (key, element)
    for e in iterable:
      self.add(e)

  def _k(self, e):
    return e if self._key is None else self._key(e)

  def _find(self, e):
    """(position, present)"""
    k = self._k(e)
    lo, hi = 0, len(self._l)
    while lo < hi:
      mid = (lo + hi) // 2
      if self._l[mid][0] < k:
        lo = mid + 1
      else:
        hi = mid
    i = lo
    while i < len(self._l) and not k < self._l[i][0]:
      if self._l[i][1] == e:
        return i, True, k
      i += 1
    return i, False, k

  def add(self, e):
    i, there, k = self._find(e)
    if not there:
      self._l.insert(i, (k, e))

  def update(self, it):
    for e in it:
      self.add(e)

  def remove(self, e):
    i, there, _ = self._find(e)
    if not there:
      raise KeyError(e)
    del self._l[i]

  def discard(self, e):
    i, there, _ = self._find(e)
    if there:
      del self._l[i]

  def pop(self, i=-1):
    return self._l.pop(i)[1]

  def _sub(self, l):
    r = sortedset((), self._key)
    r._l = list(l)
    return r

  def copy(self):
    return self._sub(self._l)

  def __contains__(self, e):
    return self._find(e)[1]

  def __len__(self):
    return len(self._l)

  def __iter__(self):
    return iter([e for _, e in self._l])

  def __getitem__(self, i):
    if isinstance(i, slice):
      return self._sub(self._l[i])
    return self._l[i][1]

  def __getslice__(self, i, j):
    return self._sub(self._l[i:j])

  def index(self, e):
    i, there, _ = self._find(e)
    if not there:
      raise ValueError(e)
    return i

  def __eq__(self, o):
    return len(self) == len(o) and all(e in o for e in self)

  def __ne__(self, o):
    return not self == o

  def __repr__(self):
    return 'sortedset(%r)' % (list(self),)
