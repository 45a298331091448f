"""Batch-axis dependence analysis.

axis(t) gives the axis (counted from the right) along which row b of t depends on
row b of the batch x only, None if t does not depend on x at all, and raises Mixed
when rows are combined or the rule for an operator is missing.
"""
from . import terms as X
from .terms import T


class Mixed(Exception):
  pass


EW = {'exp', 'log', 'relu', 'softplus', 'abs', 'lt0', 'eq0', 'sign', 'round', 'floor', 'ceil', 'trunc', 'opq', 'mod', 'fdiv', 'pow', 'sqrt', 'tanh',
      'lgamma', 'stopgrad', 'where', 'not', 'logistic'}
RED = {'sum', 'rmax', 'rmin', 'rprod', 'lse'}
KEEP = {'cumsum', 'sort', 'argsort', 'flip'}


class An:
  def __init__(self, x, B):
    self.x, self.B = x, B
    self.memo = {}

  def comb(self, ts):
    r = None
    for t in ts:
      a = self.axis(t)
      if a is None:
        continue
      if r is None:
        r = a
      elif r != a:
        raise Mixed('axes')
    return r

  def axis(self, t):
    if t in self.memo:
      v = self.memo[t]
      if isinstance(v, Mixed):
        raise v
      return v
    try:
      v = self._axis(t)
    except Mixed as e:
      self.memo[t] = e
      raise
    self.memo[t] = v
    return v

  def indep(self, t):
    return not X.contains(t, lambda u: u is self.x)

  def _axis(self, t):
    if t is self.x:
      return -len(t.shape)
    if self.indep(t):
      return None
    op = t.op
    if op == 'poly':
      return self.comb([f for m, c in t.args for f, e in m])
    if op in EW:
      return self.comb([a for a in t.args if isinstance(a, T)])
    if t.shape is None:
      raise Mixed('shape')
    R = len(t.shape)
    if op == 'bcast':
      a = self.axis(t.args[0])
      if t.shape[a] != t.args[0].shape[a]:
        raise Mixed('broadcast')
      return a
    a0 = t.args[0]
    if op == 'onehot':
      return self.axis(a0) - 1
    if op == 'reshape':
      a = self.axis(a0)
      i = len(a0.shape) + a
      p = X.lift(X.dim_prod(a0.shape[:i]))
      for k in range(R):
        if X.lift(t.shape[k]) is X.lift(a0.shape[i]) and X.lift(X.dim_prod(t.shape[:k])) is p:
          return k - R
      raise Mixed('reshape')
    if op in RED or op in ('argmax', 'argmin'):
      a = self.axis(a0)
      n = len(a0.shape)
      ax = t.args[1] if isinstance(t.args[1], tuple) else (t.args[1],)
      ax = [q % n for q in ax]
      i = n + a
      if i in ax:
        raise Mixed('%s over the batch' % op)
      return i - sum(q < i for q in ax) - R
    if op in KEEP:
      a = self.axis(a0)
      ax = t.args[1] if isinstance(t.args[1], tuple) else (t.args[1],)
      if len(a0.shape) + a in [q % len(a0.shape) for q in ax]:
        raise Mixed(op)
      return a
    if op == 'elem':
      n = len(a0.shape)
      if isinstance(t.args[2], T) and not self.indep(t.args[2]):
        raise Mixed('index')
      i, ax = n + self.axis(a0), t.args[1] % n
      if i == ax:
        raise Mixed('row %s' % (t.args[2],))
      return i - (ax < i) - R
    if op == 'slice':
      n = len(a0.shape)
      i = n + self.axis(a0)
      if t.args[1] % n == i:
        raise Mixed('slice')
      return i - R
    if op == 'transpose':
      i = len(a0.shape) + self.axis(a0)
      return list(t.args[1]).index(i) - R
    if op == 'concat':
      a = self.comb(t.args[0])
      if R + a == t.args[1] % R:
        raise Mixed('concat')
      return a
    if op == 'gather':
      key = t.args[1]
      if self.lead(key[0]) and all(self.keyok(k, key[0]) for k in key[1:]):
        if self.axis(a0) not in (None, -len(a0.shape)):
          raise Mixed('gather')
        return -R
      raise Mixed('gather')
    if op in ('scatter_set', 'scatter_add', 'scatter_max', 'scatter_min', 'scatter_mul', 'scatter_multiply', 'scatter_divide', 'scatter_subtract'):
      key, v = t.args[1], t.args[2]
      if not self.lead(key[0]) or not all(self.keyok(k, key[0]) for k in key[1:]):
        raise Mixed('scatter')
      if self.axis(a0) not in (None, -R):
        raise Mixed('scatter')
      av = self.axis(v)
      if av is not None and v.shape is not None and -av != len(v.shape):
        raise Mixed('scatter value')
      if av is not None:
        # the stored value must have as many axes as the selected region
        fixed = sum(1 for k in key if isinstance(k, T) and k.shape == ())
        if all(not isinstance(k, T) or k.shape == () for k in key) and len(v.shape) != R - fixed:
          raise Mixed('scatter value')
      return -R
    if op == 'map':
      j, b, n = t.args
      if X.lift(n) is not X.lift(self.B):
        raise Mixed('map')
      bad = [False]

      def go(u, seen=set()):
        if u is self.x:
          bad[0] = True
        if u.op == 'elem' and u.args[0] is self.x and u.args[1] % len(self.x.shape) == 0 and u.args[2] == j:
          return
        for c in X.children(u):
          if not self.indep(c):
            go(c)
      go(b)
      if bad[0]:
        raise Mixed('map')
      return -R
    if op == 'gradz':
      v, z, x = t.args
      if not self.indep(v) or self.axis(x) != -len(x.shape):
        raise Mixed('gradz')
      sub = An(z, self.B)
      for m, c in X.as_poly(v).items():
        dep = [(f, e) for f, e in m if not sub.indep(f)]
        if not dep:
          continue
        f = dep[0][0]
        while f.op == 'reshape':
          f = f.args[0]
        if len(dep) > 1 or dep[0][1] != 1 or f.op != 'sum':
          raise Mixed('gradz')
        sub.axis(f.args[0])   # rows of the summand belong to rows of z
      return -len(t.shape)
    if op == 'rowfn':
      return self.axis(t.args[-1]) if len(t.args[-1].shape) + self.axis(t.args[-1]) == 0 else self.no(op)
    raise Mixed(op)

  def no(self, op):
    raise Mixed(op)

  def lead(self, k):
    """The key keeps the rows of the leading axis in place."""
    if k == ':':
      return True
    if isinstance(k, tuple) and k and k[0] == 'sl':
      return len(k) == 3 and k[1] is X.ZERO and k[2] is X.lift(self.B)
    if isinstance(k, T):
      while k.op in ('reshape', 'bcast'):
        if k.op == 'reshape' and (not k.shape or X.lift(k.shape[0]) is not X.lift(self.B)):
          return False
        k = k.args[0]
      return k.op == 'iota' and X.lift(k.args[0]) is X.lift(self.B)
    return False

  def keyok(self, k, lead):
    if not isinstance(k, T):
      return not isinstance(k, tuple) or all(not isinstance(q, T) or self.indep(q) for q in k)
    if self.indep(k):
      return True
    # index computed from the sample itself: only next to an explicit row index
    if isinstance(lead, T) and k.shape is not None and lead.shape is not None:
      return self.axis(k) == -len(lead.shape)
    return False


def local(t, x, B):
  """True when row b of t provably depends on row b of x only."""
  if t.shape is None or not t.shape:
    return False
  try:
    a = An(x, B).axis(t)
  except Mixed:
    return False
  return a is None or a == -len(t.shape)
