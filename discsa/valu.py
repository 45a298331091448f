"""Separating valuations of abstract terms.

Two abstract terms with different normal forms may still denote the same
function.  Before a difference is reported, the difference term is interpreted
at generic points of the analysis domain (symbolic sizes, inputs, model
functions and random draws get arbitrary values of their sort; the model is an
uninterpreted function).  Only a difference that is non-zero there is a
violation; otherwise the obligation stays undecided.  The analysed program is
never executed: what is interpreted is the term the analysis derived.
"""
import hashlib
import itertools
import math
import numpy as np

from . import terms as X
from .terms import T


class Unsup(Exception):
  pass


def h64(*a):
  m = hashlib.blake2b(digest_size=8)
  for z in a:
    if isinstance(z, np.ndarray):
      m.update(np.ascontiguousarray(np.round(z.astype(np.float64), 9) + 0.0).tobytes())
      m.update(repr(z.shape).encode())
    else:
      m.update(repr(z).encode())
    m.update(b'|')
  return int.from_bytes(m.digest(), 'little')


def tame(c):
  """'Minus infinity' stand-ins are scaled down (linearly) to stay clear of rounding."""
  a = abs(c)
  if a >= 1e15:
    return c / 1e18 * 3e5
  if a >= 1e7:
    return c / 1e9 * 2e4
  return c


def loop_index(loops):
  out = {}
  for r in loops:
    if isinstance(r.get('site'), str):
      out.setdefault(r['site'], []).append(r)
  return out


def _tm(v):
  if isinstance(v, (int, float)):
    return X.const(v)
  if hasattr(v, 'full'):
    return v.full() if v.shape is not None else v.t
  return None


class Ev:
  def __init__(self, seed, env=None, dims=None, names=None):
    self.seed = seed
    self.env = dict(env or {})
    self.names = dict(names or {})
    self.memo = {}
    self.loopvars = {}
    self.lanekey = ()
    self.loops = {}
    self.forced = {}
    self.scale = 1.0
    self.mag = 1.0     # magnitude of unbounded real inputs
    self.tame = True

  def rs(self, *a):
    return np.random.RandomState(h64(self.seed, *a) % (2**32))

  def dim(self, d):
    if isinstance(d, int):
      return d
    v = self.ev(d)
    return int(round(float(v)))

  def shp(self, sh):
    if sh is None:
      raise Unsup('shape')
    return tuple(self.dim(d) for d in sh)

  def full(self, t, shape=None):
    return np.broadcast_to(self.ev(t), self.shp(t.shape if shape is None else shape))

  def ev(self, t):
    if t in self.env:
      return self.env[t]
    k = t if not self.loopvars else (t, self.lanekey)
    r = self.memo.get(k)
    if r is not None:
      return r
    f = getattr(self, 'e_' + t.op.replace('?', '_q'), None)
    if f is None:
      raise Unsup(t.op)
    with np.errstate(all='ignore'):
      r = f(t)
    r = np.asarray(r)
    if t.shape is not None and r.ndim > len(t.shape):
      raise Unsup('rank %s %s %s' % (t.op, r.shape, t.shape))
    self.memo[k] = r
    return r

  # ---- leaves
  def e_atom(self, t):
    nm = t.args[0]
    if nm in self.names:
      v = self.names[nm]
      return v(self) if callable(v) else np.asarray(v)
    if isinstance(nm, str) and nm.startswith('rng') and t.shape == ():
      return np.asarray(h64('rng', self.seed, nm) >> 2)
    if nm == 'pi' and t.meta.get('exact'):
      return np.asarray(np.pi)
    sh = self.shp(t.shape)
    if t.meta.get('enum'):
      n, k = (self.dim(z) for z in t.meta['enum'])
      if n ** k > 5000:
        raise Unsup('large enumeration')
      return np.array(list(itertools.product(range(n), repeat=k)), dtype=int).reshape(sh)
    r = self.rs('atom', nm)
    lo, hi = t.meta.get('lo'), t.meta.get('hi')
    lo = float(self.ev(lo)) if isinstance(lo, T) else lo
    hi = float(self.ev(hi)) if isinstance(hi, T) else hi
    if t.is01:
      return r.randint(0, 2, size=sh)
    if t.isint:
      l = int(lo) if lo is not None else 0
      h = int(math.floor(hi)) if hi is not None else l + 3
      return r.randint(l, max(h, l) + 1, size=sh)
    if lo is not None and hi is not None:
      return lo + (hi - lo) * (0.05 + 0.9 * r.random_sample(sh))
    if lo is not None or t.meta.get('pos'):
      return (lo or 0) + 0.2 + r.random_sample(sh)
    return r.normal(size=sh) * self.mag

  def e_special(self, t):
    return np.asarray(float(t.args[0]))

  def e_poly(self, t):
    tot = np.zeros(())
    for m, c in sorted(t.args, key=lambda mc: -abs(mc[1])):
      v = np.asarray(tame(float(c)) if self.tame else float(c))
      # a scalar condition that is off selects the other branch: its factors need not be defined
      if len(m) > 1 and any(f.op in ('lt0', 'eq0') and f.shape == () and not self.ev(f).any() for f, _ in m):
        continue
      for f, e in m:
        b = self.ev(f)
        v = v * (b if e == 1 else np.power(b.astype(float), float(e)))
      tot = tot + v
    return tot

  # ---- elementwise
  def e_exp(self, t):
    return np.exp(self.ev(t.args[0]).astype(float))

  def e_log(self, t):
    return np.log(self.ev(t.args[0]).astype(float))

  def e_relu(self, t):
    return np.maximum(self.ev(t.args[0]), 0)

  def e_softplus(self, t):
    return np.logaddexp(0, self.ev(t.args[0]).astype(float))

  def e_abs(self, t):
    return np.abs(self.ev(t.args[0]))

  def e_lt0(self, t):
    return (self.ev(t.args[0]) < -1e-9).astype(int)

  def e_eq0(self, t):
    return (np.abs(self.ev(t.args[0])) < 1e-9).astype(int)

  def e_sign(self, t):
    return np.sign(self.ev(t.args[0]))

  def e_round(self, t):
    return np.round(self.ev(t.args[0]).astype(float))

  def e_floor(self, t):
    return np.floor(self.ev(t.args[0]).astype(float) + 1e-9)

  def e_ceil(self, t):
    return np.ceil(self.ev(t.args[0]).astype(float) - 1e-9)

  def e_trunc(self, t):
    return np.trunc(self.ev(t.args[0]).astype(float) + 1e-9)

  def e_opq(self, t):
    return self.ev(t.args[0])

  def e_mod(self, t):
    return np.mod(self.ev(t.args[0]), self.ev(t.args[1]))

  def e_fdiv(self, t):
    return np.floor_divide(self.ev(t.args[0]), self.ev(t.args[1]))

  def e_pow(self, t):
    return np.power(self.ev(t.args[0]).astype(float), self.ev(t.args[1]).astype(float))

  def e_factorial(self, t):
    return np.asarray(math.factorial(int(self.ev(t.args[0]))))

  def e_sqrt(self, t):
    return np.sqrt(self.ev(t.args[0]).astype(float))

  def e_tanh(self, t):
    return np.tanh(self.ev(t.args[0]).astype(float))

  # ---- structure
  def e_bcast(self, t):
    return np.broadcast_to(self.ev(t.args[0]), self.shp(t.shape))

  def e_reshape(self, t):
    return np.reshape(self.full(t.args[0]), self.shp(t.shape))

  def e_iota(self, t):
    return np.arange(self.dim(t.args[0]))

  def e_onehot(self, t):
    n = self.dim(t.args[1])
    i = self.ev(t.args[0])
    return (np.asarray(i)[..., None] == np.arange(n)).astype(int)

  def e_sum(self, t):
    a = t.args[0]
    return np.sum(self.full(a), axis=t.args[1])

  def e_rmax(self, t):
    return np.max(self.full(t.args[0]), axis=t.args[1])

  def e_rmin(self, t):
    return np.min(self.full(t.args[0]), axis=t.args[1])

  def e_rprod(self, t):
    return np.prod(self.full(t.args[0]), axis=t.args[1])

  def e_rstd(self, t):
    return np.std(self.full(t.args[0]).astype(float), axis=t.args[1])

  def e_rvar(self, t):
    return np.var(self.full(t.args[0]).astype(float), axis=t.args[1])

  def e_rmedian(self, t):
    return np.median(self.full(t.args[0]).astype(float), axis=t.args[1])

  def e_rany(self, t):
    return np.any(self.full(t.args[0]).astype(bool), axis=t.args[1]).astype(int)

  def e_rall(self, t):
    return np.all(self.full(t.args[0]).astype(bool), axis=t.args[1]).astype(int)

  def e_lse(self, t):
    a = self.full(t.args[0]).astype(float)
    m = np.max(a, axis=t.args[1], keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    return np.squeeze(m, t.args[1]) + np.log(np.sum(np.exp(a - m), axis=t.args[1]))

  def e_cumsum(self, t):
    return np.cumsum(self.full(t.args[0]), axis=t.args[1])

  def e_sort(self, t):
    return np.sort(self.full(t.args[0]), axis=t.args[1])

  def e_argsort(self, t):
    return np.argsort(self.full(t.args[0]), axis=t.args[1], kind='stable')

  def e_argmax(self, t):
    return np.argmax(self.full(t.args[0]), axis=t.args[1])

  def e_argmin(self, t):
    return np.argmin(self.full(t.args[0]), axis=t.args[1])

  def e_topk_idx(self, t):
    k = self.dim(t.args[1])
    return np.argsort(-self.full(t.args[0]), axis=-1, kind='stable')[..., :k]

  def e_topk_val(self, t):
    k = self.dim(t.args[1])
    return -np.sort(-self.full(t.args[0]), axis=-1)[..., :k]

  def e_flip(self, t):
    return np.flip(self.full(t.args[0]), t.args[1])

  def e_transpose(self, t):
    return np.transpose(self.full(t.args[0]), t.args[1])

  def e_concat(self, t):
    return np.concatenate([self.full(a) for a in t.args[0]], axis=t.args[1])

  def e_stack(self, t):
    return np.stack([self.full(a, t.shape[:t.args[1]] + t.shape[t.args[1] + 1:]) for a in t.args[0]], axis=t.args[1])

  def e_repeat(self, t):
    return np.repeat(self.full(t.args[0]), self.dim(t.args[1]), axis=t.args[2])

  def e_tile(self, t):
    return np.tile(self.full(t.args[0]), tuple(self.dim(d) for d in t.args[1]))

  def idx(self, i):
    if isinstance(i, T):
      return self.ev(i).astype(int)
    if isinstance(i, int):
      return i
    if isinstance(i, tuple) and i in self.loopvars:
      return self.loopvars[i]
    raise Unsup('index %r' % (i,))

  def e_elem(self, t):
    a, ax, i = t.args
    if a.shape is None or not isinstance(ax, int):
      raise Unsup('elem')
    return np.take(self.full(a), int(self.idx(i)), axis=ax)

  def e_slice(self, t):
    if len(t.args) != 4:
      raise Unsup('slice')
    a, ax, lo, hi = t.args
    ix = [slice(None)] * len(a.shape)
    ix[ax] = slice(self.dim(lo), self.dim(hi))
    return self.full(a)[tuple(ix)]

  def key(self, key):
    out = []
    for k in key:
      if k == ':':
        out.append(slice(None))
      elif isinstance(k, tuple) and k and k[0] == 'sl':
        if len(k) != 3:
          raise Unsup('stride')
        out.append(slice(self.dim(k[1]), self.dim(k[2])))
      elif isinstance(k, T):
        out.append(np.asarray(self.ev(k)).astype(int))
      else:
        raise Unsup('key')
    return tuple(out)

  def e_gather(self, t):
    return self.full(t.args[0])[self.key(t.args[1])]

  def e_scatter_set(self, t):
    a = np.array(self.full(t.args[0]), dtype=float)
    v = self.ev(t.args[2])
    k = self.key(t.args[1])
    a, k = self.roomy(a, k)
    sel = a[k]
    a[k] = np.broadcast_to(v, sel.shape)
    return self.unroomy(a)

  def roomy(self, a, k):
    """Scatters drop out-of-range indices: give them a margin to land in."""
    self._room = a.shape
    nd = [j for j in k if isinstance(j, np.ndarray)]
    if any(isinstance(j, np.ndarray) and i < a.ndim and j.size and j.max() >= a.shape[i] for i, j in enumerate(k)):
      pad = [(0, 0)] * a.ndim
      kk = list(k)
      for i, j in enumerate(k):
        if isinstance(j, np.ndarray) and j.size and j.max() >= a.shape[i]:
          pad[i] = (0, int(j.max()) + 1 - a.shape[i])
          kk[i] = np.where(j < 0, j + a.shape[i], j)
      for i, j in enumerate(k):
        if isinstance(j, slice) and (j.stop is not None and j.stop < 0 or j.start is not None and j.start < 0):
          raise Unsup('negative slice with out-of-range index')
      a = np.pad(a, pad)
      k = tuple(kk)
    return a, k

  def unroomy(self, a):
    return a[tuple(slice(0, n) for n in self._room)]

  def e_scatter_add(self, t):
    a = np.array(self.full(t.args[0]), dtype=float)
    v = self.ev(t.args[2])
    a, k = self.roomy(a, self.key(t.args[1]))
    np.add.at(a, k, np.broadcast_to(v, a[k].shape))
    return self.unroomy(a)

  def _scatter(self, t, f):
    a = np.array(self.full(t.args[0]), dtype=float)
    v = self.ev(t.args[2])
    a, k = self.roomy(a, self.key(t.args[1]))
    f.at(a, k, np.broadcast_to(v, a[k].shape))
    return self.unroomy(a)

  def e_scatter_max(self, t):
    return self._scatter(t, np.maximum)

  def e_scatter_min(self, t):
    return self._scatter(t, np.minimum)

  def e_scatter_multiply(self, t):
    return self._scatter(t, np.multiply)

  e_scatter_mul = e_scatter_multiply

  def e_scatter_divide(self, t):
    return self._scatter(t, np.divide)

  def e_scatter_subtract(self, t):
    return self._scatter(t, np.subtract)

  def e_map(self, t):
    j, b, n = t.args
    n = self.dim(n)
    out = []
    for i in range(n):
      if isinstance(j, T):
        old = self.env.get(j)
        self.env[j] = np.asarray(i)
      lv = self.loopvars.get(j)
      self.loopvars[j] = i
      ok, self.lanekey = self.lanekey, tuple(q for q in self.lanekey if q[0] is not j) + ((j, i),)
      try:
        out.append(self.full(b))
      finally:
        self.lanekey = ok
        if lv is None:
          del self.loopvars[j]
        else:
          self.loopvars[j] = lv
      if isinstance(j, T):
        if old is None:
          del self.env[j]
        else:
          self.env[j] = old
    return np.stack(out, 0) if out else np.zeros(self.shp(t.shape))

  def e_eta(self, t):
    site, path = t.args[0], t.args[1]
    recs = self.loops.get(site) or []
    if len(recs) > 1:      # the same loop executed several times: the record with this initial value
      recs = [r for r in recs if path in r['carried'] and _tm(r['carried'][path]['init']) is t.args[2]]
      recs = recs[:1] if all(_tm(r['carried'][path]['next']) is _tm(recs[0]['carried'][path]['next']) for r in recs) else []
    rec = recs[0] if recs else None
    if rec is not None and rec.get('trip') is not None and not rec.get('brk'):
      return self.run_loop(rec, path)[path]
    if rec is not None and rec.get('trip') is None and rec.get('lax') and not rec.get('brk') and getattr(rec.get('cond'), 't', None) is not None:
      try:
        return self.run_loop(rec, path)[path]
      except Unsup:
        pass
    if not (t.isint and _has_draw(t)):
      raise Unsup('loop')
    return self.rs('eta', t.id).randint(0, 3, size=self.shp(t.shape))

  def run_loop(self, rec, path):
    site = rec['site']
    k = ('loop', site, path, id(rec))
    if k in self.memo and not self.loopvars:
      return self.memo[k]
    vs = {}
    for nm, c in rec['carried'].items():
      ts = []
      for f in ('init', 'mu', 'next'):
        v = c[f]
        tt = getattr(v, 'full', None)
        if tt is None and not isinstance(v, (int, float)):
          ts.append(None)
        else:
          ts.append(X.const(v) if tt is None else (v.full() if v.shape is not None else v.t))
      vs[nm] = ts
    cond = None if rec.get('trip') is not None else rec['cond'].t
    need, todo = set(), [path]      # only what the wanted value depends on
    if cond is not None:
      sub = set(X.subterms(cond))
      todo += [q for q, ts in vs.items() if ts[1] in sub]
    while todo:
      nm = todo.pop()
      if nm in need:
        continue
      if nm not in vs or None in vs[nm]:
        raise Unsup('loop value')
      need.add(nm)
      sub = set(X.subterms(vs[nm][2]))
      todo += [q for q, ts in vs.items() if q not in need and ts[1] in sub]
    vs = {q: ts for q, ts in vs.items() if q in need}
    cur = {nm: self.ev(ts[0]) for nm, ts in vs.items()}
    n = self.dim(X.lift(rec['trip'])) if cond is None else 200
    lo = self.dim(X.lift(rec['lo'])) if rec.get('lo') is not None else 0
    idx = rec['idx']
    saved = dict(self.env)
    for i in range(n):
      sub = Ev(self.seed, names=self.names)
      sub.env = dict(saved)
      sub.loops = self.loops
      sub.scale, sub.mag, sub.tame = self.scale, self.mag, self.tame
      for nm, ts in vs.items():
        sub.env[ts[1]] = cur[nm]
      if isinstance(idx, T):
        sub.env[idx] = np.asarray(lo + i)
      if cond is not None and not bool(sub.ev(cond)):
        break
      cur = {nm: np.broadcast_to(sub.ev(ts[2]), cur[nm].shape) if ts[2].op != 'top' else _bad() for nm, ts in vs.items()}
    else:
      if cond is not None:
        raise Unsup('long loop')
    if not self.loopvars:
      self.memo[k] = cur
    return cur

  # ---- keys: a key is a number; equal keys give equal draws
  def e_split(self, t):
    k = self.ev(t.args[0])
    n = self.dim(t.args[1])
    return np.array([h64('split', int(k), n, i) >> 2 for i in range(n)], dtype=np.int64)

  def e_fold_in(self, t):
    return np.asarray(h64('fold', int(self.ev(t.args[0])), self.ev(t.args[1])) >> 2)

  def e_PRNGKey(self, t):
    return np.asarray(h64('key', self.ev(t.args[0])) >> 2)

  def _rev(self, t, head):
    a, x, y = t.args
    A = np.array(self.full(a)).astype(int)
    n = (self.ev(x) != self.ev(y)).reshape(A.shape[0], -1).sum(1)
    for r in range(A.shape[0]):
      k = int(n[r])
      if k:
        if head:
          A[r, :k] = A[r, :k][::-1]
        else:
          A[r, -k:] = A[r, -k:][::-1]
    return A

  def e_revhead(self, t):
    return self._rev(t, True)

  def e_revtail(self, t):
    return self._rev(t, False)

  def e_zrev(self, t):
    z, x, y = [self.ev(a) for a in t.args]
    moved = (x != y).any(-1, keepdims=True)
    return np.where(moved, x, z)

  def e_moved(self, t):
    x, y = [self.ev(a) for a in t.args]
    return (x != y).any(-1).astype(int)

  @staticmethod
  def pl(loc, seq):
    left = list(range(len(loc)))
    v = 0.0
    for i in seq:
      w = np.array([loc[k] for k in left])
      m = w.max()
      v += loc[i] - (m + np.log(np.exp(w - m).sum()))
      left.remove(i)
    return v

  def e_pltop(self, t):
    loc, idx = self.full(t.args[0]).astype(float), self.full(t.args[1]).astype(int)
    return np.array([self.pl(loc[r], list(idx[r])) for r in range(len(loc))])

  def e_plsel(self, t):
    loc, o = self.full(t.args[0]).astype(float), self.full(t.args[1]).astype(int)
    mv = (self.ev(t.args[2]) != self.ev(t.args[3])).reshape(loc.shape)
    return np.array([self.pl(loc[r], [i for i in o[r] if mv[r, i]]) for r in range(len(loc))])

  def e_stopgrad(self, t):
    return self.ev(t.args[0])

  def e_gamma(self, t):
    c = self.ev(t.args[0])
    if c.shape != ():
      raise Unsup('gamma')
    return self.ev(t.args[1] if c.any() else t.args[2])

  def e_lgamma(self, t):
    return np.vectorize(math.lgamma)(self.ev(t.args[0]).astype(float))

  def e_gradz(self, t):
    """Derivative of a scalar term at a generic point, by Richardson extrapolation."""
    v, z, x = t.args
    x0 = np.array(self.full(x), dtype=float)
    stops = {}
    base = self.at(z, x0)
    for u in X.subterms(v):
      if u.op == 'stopgrad':
        stops[u] = base.ev(u)
    out = np.zeros(x0.shape)
    for i in np.ndindex(*x0.shape):
      d = []
      for h in (1e-3, 5e-4):
        w = []
        for s in (1, -1):
          y = x0.copy()
          y[i] += s * h
          e = self.at(z, y)
          e.env.update(stops)
          w.append(float(np.sum(e.ev(v))))
        d.append((w[0] - w[1]) / (2 * h))
      out[i] = (4 * d[1] - d[0]) / 3
    return out

  def bertf(self, oh, ids, pos, att, tt):
    """An arbitrary smooth masked language model; ids at the infilled positions are overwritten."""
    oh, ids = np.asarray(oh, float), np.array(ids, float)
    if oh.ndim != 3 or ids.ndim != 2 or oh.shape[0] not in (1, ids.shape[0]) and ids.shape[0] != 1:
      raise Unsup('language model shapes')
    n, C = oh.shape[1:]
    L, H = ids.shape[1], 4
    if len(pos) != n or not all(0 <= q < L for q in pos):
      raise Unsup('infill positions')
    ids[:, list(pos)] = -1
    att, tt = (np.broadcast_to(np.asarray(q, float), ids.shape) for q in (att, tt))
    r = np.random.RandomState(h64('bert', self.seed, C, L) % 2**32)
    P = r.normal(size=(L, C, H))       # by position
    A = r.normal(size=(3, L, H)) * .3
    V = r.normal(size=(H, L, C))
    E = r.normal(size=(L, C)) * .5
    b = np.einsum('bl,lh->bh', np.where(ids < 0, 0, np.sin(ids + 1)), A[0]) + att @ A[1] + tt @ A[2]
    h = np.tanh(.7 * sum(oh[:, k] @ P[q] for k, q in enumerate(pos)) + b)
    return np.einsum('bh,hlc->blc', h, V) + E

  def e_bert(self, t):
    oh, ids, pos, att, tt = t.args
    return self.bertf(self.full(oh), self.full(ids), pos, self.ev(att), self.ev(tt))

  def e_rowfn(self, t):
    key, th, x = t.args
    v = np.asarray(self.full(x), float)
    sh = self.shp(t.shape)
    n, m = int(np.prod(v.shape[1:])), int(np.prod(sh[1:]))
    r = self.rs('rowfn', key, th.id, n, m)
    w = r.normal(size=(n, m)) / np.sqrt(max(n, 1))
    b = r.normal(size=m)
    return np.tanh(v.reshape(v.shape[0], n) @ w + b).reshape(sh)

  def at(self, z, val):
    e = Ev(self.seed, names=self.names)
    e.env = dict(self.env)
    e.loops, e.scale, e.tame, e.mag = self.loops, self.scale, self.tame, self.mag
    e.env[z] = val
    return e

  # ---- model
  def e_F(self, t):
    th, x = t.args[0], self.full(t.args[1])
    return np.array([self.rs('F', th.id, np.asarray(r)).normal() * self.scale for r in x])

  def e_G(self, t):
    th, x = t.args[0], self.full(t.args[1])
    return np.stack([self.rs('G', th.id, np.asarray(r)).normal(size=r.shape) * self.scale for r in x])

  def e_LR(self, t):
    th, x = t.args[0], self.full(t.args[1])
    return np.stack([self.rs('LR', th.id, np.asarray(r)).normal(size=r.shape) * self.scale for r in x])

  def e_NB(self, t):
    """A neighbour: the chosen site takes its next value."""
    x, i = np.array(self.full(t.args[1])), np.asarray(self.full(t.args[2])).astype(int)
    if i.shape != x.shape[:1]:
      raise Unsup('neighbour index')
    C = 2 if t.args[1].is01 else int(self.names.get('C', 2))
    f = x.reshape(x.shape[0], -1)
    b = np.arange(len(f))
    f[b, i] = (f[b, i] + 1) % C
    return f.reshape(x.shape)

  # ---- probes of the experiment analysis: uninterpreted in everything they are given
  def sig(self, t):
    if t.op in ('dict', 'tup', 'list'):
      return (t.op,) + tuple((a[0], self.sig(a[1])) if isinstance(a, tuple) else self.sig(a) for a in t.args)
    if t.op == 'lit':
      return t.args
    v = np.asarray(self.ev(t), dtype=float) if t.shape is None else np.asarray(self.full(t), dtype=float)
    return (v.shape, tuple(np.round(v.reshape(-1), 7) + 0.0))

  def probe(self, t, *parts):
    return self.rs(t.op, *[p if isinstance(p, str) else repr(self.sig(p)) for p in parts])

  def e_Sx(self, t):
    return self.probe(t, *t.args).randint(0, 997, size=self.shp(t.shape))

  e_X0 = e_Sx

  def e_Ss(self, t):
    return np.asarray(self.probe(t, *t.args).randint(1, 9973))

  e_S0 = e_Ss

  def e_Sa(self, t):
    return self.probe(t, *t.args).random_sample(self.shp(t.shape))

  def e_Fx(self, t):
    p = repr(self.sig(t.args[0]))
    return np.array([float(self.names.get('Fx_scale', 1)) * self.rs('Fx', p, np.asarray(r, float)).normal() for r in self.full(t.args[1])])

  def e_Fe(self, t):
    p = repr(self.sig(t.args[0]))
    return np.array([float(self.names.get('Fe_shift', 0)) + 10 * self.rs('Fe', p, np.asarray(r, float)).normal() for r in self.full(t.args[1])])

  def e_ESS(self, t):
    x = self.full(t.args[0])
    return np.array([1 + self.rs('ESS', x[:, i].astype(float)).random_sample() * len(x) for i in range(x.shape[1])])

  def e_maskidx(self, t):
    if not isinstance(t.args[1], T):
      raise Unsup('mask')
    return self.full(t.args[0])[self.full(t.args[1]).astype(bool)]

  def e_count(self, t):
    return np.asarray(int(self.full(t.args[0]).astype(bool).sum()))

  # ---- draws
  def keyval(self, key, t):
    try:
      return int(self.ev(key))
    except (Unsup, TypeError, ValueError):
      return ('t', t.id)

  def e_draw(self, t):
    kind, key = t.args[0], t.args[1]
    sh = self.shp(t.args[-1])
    r = self.rs('draw', kind, self.keyval(key, t))
    if kind == 'uniform':
      lo, hi = self.ev(t.args[2]), self.ev(t.args[3])
      return lo + (hi - lo) * (0.001 + 0.998 * r.random_sample(sh))
    if kind == 'normal':
      return r.normal(size=sh)
    if kind == 'bernoulli':
      p = np.broadcast_to(self.ev(t.args[2]), sh)
      u = r.random_sample(sh)
      # support only: both values wherever 0<p<1
      return np.where(p <= 0, 0, np.where(p >= 1, 1, (u < 0.5).astype(int)))
    if kind == 'categorical':
      lg = self.full(t.args[2]).astype(float)
      ax = t.args[3]
      lg = np.moveaxis(lg, ax, -1)
      mx = np.max(lg, -1, keepdims=True)
      ok = lg > mx - 60
      g = r.random_sample(sh + (lg.shape[-1],))
      return np.argmax(np.where(ok, g, -1), -1)
    if kind == 'permutation':
      a = np.array(self.full(t.args[2])) if t.args[2].shape else np.arange(int(self.ev(t.args[2])))
      return r.permutation(a)
    if kind == 'choice' and t.args[4].op == 'lit':
      a = self.full(t.args[2])
      if X.const_val(t.args[3]) == 0:
        n = int(np.prod(sh))
        if n > len(a):
          raise ValueError('sample larger than population')
        return a[r.permutation(len(a))[:n]].reshape(sh)
      return a[r.randint(0, len(a), size=sh)]
    if kind == 'randint':
      lo, hi = self.ev(t.args[2]), self.ev(t.args[3])
      return np.floor(lo + (hi - lo) * r.random_sample(sh)).astype(int)
    raise Unsup('draw ' + str(kind))


def _bad():
  raise Unsup('unknown value')


def _has_draw(t, memo={}):
  r = memo.get(t)
  if r is None:
    r = memo[t] = (t.op == 'draw' or any(_has_draw(c) for c in X.children(t)))
  return r


SIZES = [
    {'B': 2, 'D0': 4, 'D1': 2, 'C': 3, 'nf': 2, 'bs': 2},
    {'B': 3, 'D0': 5, 'D1': 2, 'C': 4, 'nf': 3, 'bs': 3},
    {'B': 1, 'D0': 3, 'D1': 3, 'C': 3, 'nf': 2, 'bs': 1},
    {'B': 2, 'D0': 6, 'D1': 1, 'C': 5, 'nf': 4, 'bs': 4},
]


def switches(t):
  """0/1 scalars that depend on sampler-state and configuration scalars only."""
  out = []
  for u in X.subterms(t):
    if u.is01 and u.shape == () and u.op not in ('atom', 'draw', 'elem'):
      at = [a for a in X.subterms(u) if a.op in ('atom', 'draw', 'F', 'G', 'LR', 'top', 'ext', 'eta')]
      if at and all(a.op == 'atom' and isinstance(a.args[0], str) and a.args[0].startswith(('st_', 'cfg_')) and a.shape == () for a in at) \
          and any(a.args[0].startswith('st_') and a.isint for a in at):
        out.append(u)
  return out


def conditions(terms):
  """Scalar comparisons among the given terms (keys of a memo table)."""
  out = set()
  for t in terms:
    t = t[0] if isinstance(t, tuple) else t
    if isinstance(t, T) and t.op in ('lt0', 'eq0') and t.shape == ():
      out.add(t)
  return out


def thresholds(conds, sizes):
  """Sizes on the other side of comparisons that involve sizes only ("if the batch has more than 64 samples")."""
  dims = set(sizes[0])
  out = []
  for u in sorted(conds, key=X.show):
    sub = X.subterms(u)
    at = {v for v in sub if v.op not in ('poly', 'lt0', 'eq0', 'const')}
    if not at or not all(v.op == 'atom' and v.args[0] in dims for v in at):
      continue
    lim = sorted({int(abs(q)) + k for v in sub if v.op == 'poly' for _, q in v.args if abs(q) <= 150 for k in (-1, 0, 1)} | {1, 2, 3, 7})

    def truth(sz):
      return bool(Ev(1, names=dict(sz)).ev(u).any())
    try:
      have = {truth(sz) for sz in sizes}
      if len(have) > 1:
        continue
      for a in sorted(at, key=X.show):
        lo = a.meta.get('lo')
        lo = int(lo) if isinstance(lo, (int, float)) else 1
        z = [dict(sizes[0], **{a.args[0]: q}) for q in lim if q >= lo]
        z = [q for q in z if truth(q) not in have]
        if z:
          out.append(z[0])
          break
    except Exception:
      continue
  return out[:3]


DEPTH = 1      # multiplier of the number of generic points (thorough: 4)


def points(t, n=8, names=None):
  """Generic points: (seed, names, scale, sizes)."""
  out = []
  n = n * DEPTH
  for i in range(n):
    nm = dict(SIZES[i % len(SIZES)])
    nm.update(names or {})
    out.append((i + 1, nm, 1.0 if i % 8 < 4 or i % 8 == 7 else 3.0, SIZES[i % len(SIZES)]))
  for i, sz in enumerate(thresholds(conditions(X.subterms(t)), SIZES)):
    out.append((20 + i, dict(sz, **(names or {})), 1.0, sz))
  sw = switches(t)
  if sw:
    ints = sorted({a.args[0] for u in sw for a in X.subterms(u) if a.op == 'atom' and a.args[0].startswith('st_') and a.isint})
    seen = set()
    for k, (seed, nm, sc, sz) in enumerate(out[:4]):
      for v in list(range(1, 40)) + [50, 64, 99, 100, 101, 128, 200, 499, 500, 501, 1000, 1001, 2001, 5001, 10001, 20001, 50001, 100001, 1000001]:
        nm2 = dict(nm)
        for a in ints:
          nm2.setdefault(a, v)
        e = Ev(seed, names=nm2)
        try:
          vec = tuple(bool(e.ev(u)) for u in sw)
        except Exception:
          break
        if vec in seen:
          continue
        seen.add(vec)
        out.append((seed, nm2, 1.0, sz))
        if len(seen) > 10:
          break
  return out


def differs(t, mk=None, n=8, tol=1e-6, names=None):
  """True: some generic valuation makes t non-zero; False: zero at all of them; None: cannot tell."""
  seen = 0
  bad = None
  for seed, nm, sc, sz in points(t, n, names):
    e = Ev(seed, names=nm)
    e.scale = sc
    try:
      if mk is not None:
        mk(e)
      v = np.asarray(e.ev(t), dtype=float)
    except Unsup as ex:
      return None, 'not interpretable: %s' % ex
    except Exception as ex:  # ill-formed at these sizes
      bad = repr(ex)
      continue
    fin = np.isfinite(v)
    if not fin.any():
      continue
    seen += 1
    w = np.abs(np.where(fin, v, 0)).max()
    if w > (tol if sc == 1.0 else 1e-3):
      return True, 'sizes %s give a difference of %.4g' % (sz, w)
  if not seen:
    return None, bad or 'no finite valuation'
  return False, 'zero at %d generic points' % seen
