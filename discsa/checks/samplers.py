"""Checks on the sampler transition kernels."""
from fractions import Fraction
import itertools

import numpy as np

from .. import drive as D
from .. import terms as X
from .. import valu
from ..interp import Arr, Ref, DictObj, PyRaise, Inst
from ..terms import T
from . import mh as MHM
from . import scen

MH_SAMPLERS = ('gwg', 'dlmc', 'dmala', 'path_auxiliary', 'randomwalk')
GIBBS = ('gibbs', 'blockgibbs')


def where(s):
  st = getattr(s, 'step', None)
  f = getattr(st, 'func', None) or getattr(st, 'f', None)
  return 'discs/samplers/%s.py' % s.name


def step_raises(ctx, s, rule):
  """A step that definitely raises is reported by P25 only."""
  if s.err is not None:
    ctx.ob(s.label, None, rule, where(s), 'step not analysable: %r' % (s.err,))
    return True
  return False


def guard(ctx, s, rule, f):
  try:
    f()
  except Exception as e:  # analysis limit
    ctx.ob(s.label, None, rule, where(s), 'analysis limit: %r' % (e,))


# ------------------------------------------------------------------ P02, P03
def mh_of(s):
  m = getattr(s, '_mh', None)
  if m is None:
    m = s._mh = MHM.MH(s)
  return m


def is_mh(s):
  """Does this step contain an accept/reject decision?"""
  return mh_of(s).ok


def p02(ctx):
  for s in scen.runs(ctx):
    if s.name not in MH_SAMPLERS and not (s.err is None and s.name not in GIBBS + ('hammingball', 'locallybalanced')):
      continue
    if step_raises(ctx, s, 'balance'):
      continue

    def go():
      m = mh_of(s)
      if not m.ok:
        o = s.outx()
        if o is not None and o.t is not None and not X.contains(o.full(), lambda u: u.op in ('top', 'ext')) and m.why == 'no accept decision found' and s.name in MH_SAMPLERS:
          ctx.ob(s.label + ' accept', False, 'accept decision', where(s),
                 'the next state is taken without an accept/reject decision')
        else:
          ctx.ob(s.label + ' accept', None, 'accept decision', where(s), m.why)
        return
      # rejection keeps the current state
      st = m.X0 is s.xt
      if not st:
        d = rejected(s, m)
        st = False if d is True else ('generic' if d is False else None)
      ctx.ob(s.label + ' reject', st, 'rejection keeps the current state', where(s), '')
      ctx.ob(s.label + ' noise', not m.noise, 'the acceptance noise is uniform on [0, 1]', where(s), m.noise or '')
      b = MHM.Bal(m)
      for r, d in b.viol:
        ctx.ob(s.label + ' ' + r, False, 'target ratio', where(s), d)
      for d in b.und:
        ctx.ob(s.label + ' target', None, 'target ratio', where(s), d)
      if b.viol or b.und:
        return
      ctx.ob(s.label + ' target', True, 'target ratio', where(s))
      c = b.consistent()
      if c is None:
        c = same_state(s, m.Y, b.Ya)
      ctx.ob(s.label + ' scored state', c, 'the scored state is the accepted state', where(s),
             '' if c else 'the state entering the acceptance ratio is not the state returned on acceptance')
      v, d = b.verdict()
      ctx.ob(s.label + ' reversible', v, 'acceptance ratio antisymmetric', where(s), d)
      fwd(ctx, s)
    guard(ctx, s, 'balance', go)


def setup(e, s):
  e.loops = valu.loop_index(s.I.loops)
  if s.mask:
    v = np.ones(e.shp(s.xt.shape), int)
    v[..., -1] = 0
    e.names['xmask'] = v


def rejected(s, m):
  """Does a rejected chain (one whose ratio is below one) change its state?  True / False / None."""
  t = X.sub(m.X0, s.xt)
  seen = 0
  for seed, nm, sc, sz in valu.points(t, 8):
    e = valu.Ev(seed, names=nm)
    setup(e, s)
    e.scale = sc
    try:
      v = np.abs(np.asarray(e.full(t, s.xt.shape), float)).reshape(sz['B'], -1).max(-1)
      l = np.broadcast_to(np.asarray(e.ev(m.L), float), v.shape)
    except Exception:
      return None
    ok = np.isfinite(v) & np.isfinite(l) & (l < -1e-6)
    seen += ok.any()
    if (v[ok] > 1e-6).any():
      return True
  return False if seen else None


def same_state(s, Y, Ya):
  st = None
  if len(Ya.shape) == len(Y.shape) + 1:
    t = X.sub(X.onehot(Y, Y.shape, X.dim(s.C)), Ya)
  else:
    t = X.sub(Y, Ya)
  if t is X.ZERO:
    return True
  d, why = valu.differs(t, mk=lambda e: setup(e, s))
  return {True: False, False: 'generic', None: None}[d]


def p03(ctx):
  for s in scen.runs(ctx):
    if s.name in GIBBS + ('hammingball', 'locallybalanced'):
      continue
    if step_raises(ctx, s, 'forward probability'):
      continue

    guard(ctx, s, 'forward probability', lambda: fwd(ctx, s))


def fwd(ctx, s):
  m = mh_of(s)
  if not m.ok:
    ctx.ob(s.label, None, 'forward probability', where(s), m.why)
    return
  b = MHM.Bal(m)
  if b.viol or b.und:
    ctx.ob(s.label, None, 'forward probability', where(s), 'see the balance check')
    return
  if b.R is X.ZERO or not X.contains(b.R, lambda u: u.op in ('G', 'LR', 'draw')):
    v, d = symmetric(s, b)
    ctx.ob(s.label, v, 'symmetric proposal', where(s), d)
    return
  b.abstract(b.R)
  E, why = b.density()
  if E is None:
    ctx.ob(s.label, None, 'forward probability', where(s), why)
    return
  v, d = b.verdict(E)
  ctx.ob(s.label, v, 'ratio uses the probabilities of the choices actually drawn', where(s),
         d + '; draws: ' + ','.join(b.kinds))


def symmetric(s, b):
  """The ratio has no proposal term: the proposal must be symmetric."""
  Ya, xt, C = b.Ya, s.xt, s.C
  two = X.is_const(C)
  if Ya.op == 'mod' and Ya.args[1] is C:
    delta = X.sub(Ya.args[0], xt)
  else:
    if two:
      # y = x + d - 2xd with d independent of x
      d = b.abstract(Ya)
      p = [u for u in X.subterms(Ya) if u.op == 'draw']
      if p and not any(X.contains(u, {xt}) or X.contains(u, lambda v: v.op in ('F', 'G', 'LR')) for u in p):
        inv = X.subst(Ya, {xt: Ya})
        if inv is xt:
          return True, 'x -> y is an involution driven by draws that ignore x'
        dd, w = valu.differs(X.sub(inv, xt))
        return (False if dd else ('generic' if dd is False else None)), 'not an involution: ' + w
    return None, 'proposal form not recognised'
  if X.contains(delta, {xt}):
    ds = [u for u in X.subterms(delta) if u.op == 'draw']
    if any(X.contains(u, {xt}) for u in ds):
      return False, 'the size of the move depends on the current state but the ratio ignores the proposal'
    return None, 'proposal form not recognised'
  ds = sorted({u for u in X.subterms(delta) if u.op == 'draw'}, key=lambda u: u.id)
  if not ds:
    return None, 'no draw'
  # distribution of the increment, draw outcomes enumerated at small sizes
  if len(ds) > 3:
    return None, 'too many draws'
  for nm in ({'B': 1, 'D0': 1, 'D1': 1, 'C': 3}, {'B': 1, 'D0': 1, 'D1': 1, 'C': 4}, {'B': 1, 'D0': 1, 'D1': 1, 'C': 5}):
    e = valu.Ev(1, names=dict(nm))
    outs = []
    for d in ds:
      sup = support(e, d)
      if sup is None:
        return None, 'draw %s' % d.args[0]
      outs.append(sup)
    dist = {}
    c = 2 if two else nm['C']
    for combo in itertools.product(*outs):
      e2 = valu.Ev(1, names=dict(nm))
      w = 1.0
      for d, (v, pr) in zip(ds, combo):
        e2.env[d] = np.broadcast_to(np.asarray(v), e2.shp(d.shape))
        w *= pr
      k = int(np.asarray(e2.ev(delta)).reshape(-1)[0]) % c
      dist[k] = dist.get(k, 0) + w
    for k, w in dist.items():
      if abs(w - dist.get((-k) % c, 0)) > 1e-9:
        return False, 'increment %d has probability %.3g but %d has %.3g (C=%d)' % (k, w, (-k) % c, dist.get((-k) % c, 0), c)
  return True, 'increment distribution symmetric modulo the number of categories'


def support(e, d):
  """[(value, probability)] of one scalar variate of a draw with scalar parameters."""
  kind = d.args[0]
  if kind == 'randint':
    lo, hi = int(e.ev(d.args[2])), int(e.ev(d.args[3]))
    if hi <= lo:
      return None
    return [(v, 1.0 / (hi - lo)) for v in range(lo, hi)]
  if kind == 'bernoulli':
    p = np.asarray(e.ev(d.args[2])).reshape(-1)
    if len(p) != 1:
      return None
    p = float(min(max(p[0], 0), 1)) if 0 < p[0] < 1 else 0.5
    return [(0, 1 - p), (1, p)]
  if kind == 'categorical':
    lg = np.asarray(e.full(d.args[2]), float).reshape(-1)
    w = np.exp(lg - lg.max())
    w = w / w.sum()
    return [(i, float(p)) for i, p in enumerate(w)]
  if kind == 'choice':
    if not (d.args[4].op == 'lit' and 'None' in str(d.args[4].args)):
      return None
    a = np.asarray(e.full(d.args[2])).reshape(-1)
    return [(v, 1.0 / len(a)) for v in a]
  return None


# ------------------------------------------------------------------ P04
def p04(ctx):
  for s in scen.runs(ctx, set(GIBBS)):
    if step_raises(ctx, s, 'conditional'):
      continue
    guard(ctx, s, 'conditional', lambda: gibbs_like(ctx, s))
  for s in scen.runs(ctx, {'hammingball'}):
    if step_raises(ctx, s, 'conditional'):
      continue
    guard(ctx, s, 'conditional', lambda: hamming(ctx, s))


def has_top(t):
  return X.contains(t, lambda u: u.op in ('top', 'ext'))


SZ = [{'B': 2, 'D0': 3, 'D1': 1, 'C': 3, 'bs': 2}, {'B': 1, 'D0': 4, 'D1': 1, 'C': 4, 'bs': 2},
      {'B': 2, 'D0': 2, 'D1': 2, 'C': 3, 'bs': 1}, {'B': 2, 'D0': 4, 'D1': 1, 'C': 3, 'bs': 3}]


def gibbs_like(ctx, s):
  o = s.outx()
  if o is None or o.shape is None or has_top(o.full()):
    ctx.ob(s.label, None, 'conditional', where(s), 'no array result')
    return
  N = o.full()
  ds = sorted({u for u in X.subterms(N, stop=lambda q: q.op == 'draw') if u.op == 'draw'}, key=lambda u: u.id)
  if not ds:
    ctx.ob(s.label, False, 'new value drawn from the conditional', where(s), 'the next state involves no random draw')
    return
  if len(ds) != 1 or ds[0].args[0] != 'categorical':
    ctx.ob(s.label, None, 'conditional', where(s), 'draws %s' % [d.args[0] for d in ds])
    return
  d = ds[0]
  logits, ax = d.args[2], d.args[3]
  bad = None
  pts = 0
  full = True
  nbad = None
  for q, sz in enumerate(SZ):
    for seed in range(2):
      e = valu.Ev(seed + 10 * q + 1, names=dict(sz))
      setup(e, s)
      e.scale = sc = 60.0 if seed and q % 2 else 1.0   # energy differences of every size
      lg = np.moveaxis(np.asarray(e.full(logits), float), ax, -1)  # [B, n]
      n = lg.shape[-1]
      if n > 300:
        continue
      x = e.ev(s.xt)
      th = None
      outs = []
      fs = []
      for k in range(n):
        e2 = valu.Ev(seed + 10 * q + 1, names=dict(sz))
        setup(e2, s)
        e2.scale = sc
        e2.env[d] = np.full(e2.shp(d.shape), k)
        v = np.asarray(e2.full(N)).astype(int)
        outs.append(v)
        fs.append(e2.e_F(X.node('F', (s.p.t, N), (s.B,))))
      outs = np.stack(outs, 1)   # B, n, ...
      fs = np.stack(fs, 1)
      diff = lg - fs
      diff = diff - diff[:, :1]
      pts += 1
      if np.abs(diff).max() > 1e-6:
        b, k = np.unravel_index(np.abs(diff).argmax(), diff.shape)
        bad = 'candidate %d of %d is drawn with a weight that is not the target at that candidate (%s)' % (k, n, sz)
        break
      # candidates: all values on the updated sites, nothing else
      C = 2 if X.is_const(s.C) else sz['C']
      for b in range(outs.shape[0]):
        f = outs[b].reshape(n, -1)
        xb = np.asarray(x[b]).reshape(-1)
        sites = [j for j in range(f.shape[1]) if len(set(f[:, j])) > 1 or any(f[:, j] != xb[j])]
        cand = {tuple(r[sites]) for r in f}
        want = set(itertools.product(range(C), repeat=len(sites)))
        if cand != want:
          nbad = 'sites %s: %d of %d value combinations are candidates (%s)' % (sites, len(cand & want), len(want), sz)
        if f.min() < 0 or f.max() >= C:
          nbad = 'candidate value outside the category range'
    if bad:
      break
  ctx.ob(s.label + ' weights', False if bad else 'generic' if pts else None, 'candidates weighted by the target at the candidate', where(s), bad or '%d generic points' % pts)
  if not bad:
    ctx.ob(s.label + ' candidates', False if nbad else 'generic' if pts else None, 'every value of the updated sites is a candidate', where(s), nbad or '')
  sweep(ctx, s, N, [d])


def sweep(ctx, s, N, ds):
  """Iterating the site counter updates every site."""
  st = s.outstate()
  if not st or 'index' not in st or 'index' not in s.svars:
    ctx.ob(s.label + ' sweep', None, 'sweep covers every site', where(s), 'no site counter in the state')
    return
  nxt = s.I.lib.arr(st['index'])
  if nxt is None or has_top(nxt.t):
    ctx.ob(s.label + ' sweep', None, 'sweep covers every site', where(s), 'counter unknown')
    return
  iv = s.svars['index']
  init = s.I.lib.arr(s.init_items['index'])
  bad = None
  for sz in SZ:
    e = valu.Ev(3, names=dict(sz))
    setup(e, s)
    try:
      cur = int(np.asarray(e.ev(init.t)))
    except valu.Unsup:
      ctx.ob(s.label + ' sweep', None, 'sweep covers every site', where(s), 'initial counter')
      return
    D = sz['D0'] * (sz['D1'] if len(s.dims) == 2 else 1)
    hit = set()
    for it in range(2 * D + 2):
      for seed in range(3):
        for k in range(3):
          e = valu.Ev(50 + seed, names=dict(sz))
          setup(e, s)
          e.env[iv] = np.asarray(cur)
          x = np.asarray(e.ev(s.xt))
          for d in ds:
            n = e.full(d.args[2]).shape[d.args[3]]
            r = np.random.RandomState(seed * 31 + k * 7 + it)
            e.env[d] = r.randint(0, n, size=e.shp(d.shape))
          v = np.asarray(e.full(N))
          ch = (v != x).reshape(v.shape[0], -1).any(0)
          hit |= set(np.nonzero(ch)[0].tolist())
      e = valu.Ev(3, names=dict(sz))
      e.env[iv] = np.asarray(cur)
      cur = int(np.asarray(e.ev(nxt.t)))
      if not 0 <= cur < D:
        bad = 'the site counter becomes %d with %d sites' % (cur, D)
        break
    if not bad and hit != set(range(D)):
      bad = 'sites %s are never updated (sizes %s)' % (sorted(set(range(D)) - hit), sz)
    if bad:
      break
  ctx.ob(s.label + ' sweep', False if bad else 'generic', 'sweep covers every site', where(s), bad or '')


def hamming(ctx, s):
  o = s.outx()
  rec = [r for r in s.I.loops if r.get('lax') and r.get('carried')]
  rec = [r for r in rec if any(isinstance(c['mu'], Arr) and c['mu'].shape is not None and c['mu'].shape == s.x.shape for c in r['carried'].values())]
  if o is None or len(rec) != 1:
    ctx.ob(s.label, None, 'conditional', where(s), 'no per-chain update loop found')
    return
  rec = rec[0]
  cx = next(c for c in rec['carried'].values() if isinstance(c['mu'], Arr) and c['mu'].shape == s.x.shape)
  U, mu, nxt = cx['init'].full(), cx['mu'].t, cx['next'].full()
  if has_top(U) or has_top(nxt):
    ctx.ob(s.label, None, 'conditional', where(s), 'unknown value')
    return
  d2 = sorted({u for u in X.subterms(nxt, stop=lambda q: q.op == 'draw') if u.op == 'draw'}, key=lambda u: u.id)
  if len(d2) != 1 or d2[0].args[0] != 'categorical':
    ctx.ob(s.label, None, 'conditional', where(s), 'draws %s' % [u.args[0] for u in d2])
    return
  d = d2[0]
  du = sorted({u for u in X.subterms(U) if u.op == 'draw'}, key=lambda u: u.id)
  bad1 = bad2 = bad3 = None
  pts = 0
  for q, sz in enumerate(({'B': 1, 'D0': 3, 'D1': 1, 'C': 3, 'bs': 2}, {'B': 1, 'D0': 4, 'D1': 1, 'C': 4, 'bs': 2},
                          {'B': 1, 'D0': 3, 'D1': 1, 'C': 3, 'bs': 1}, {'B': 1, 'D0': 2, 'D1': 2, 'C': 3, 'bs': 3},
                          {'B': 1, 'D0': 5, 'D1': 1, 'C': 3, 'bs': 4})):
    C = 2 if X.is_const(s.C) else sz['C']
    D = sz['D0'] * (sz['D1'] if len(s.dims) == 2 else 1)
    if sz['bs'] > D:
      continue

    def fresh(seed=5):
      e = valu.Ev(seed + 100 * q, names=dict(sz))
      setup(e, s)
      e.scale = 60.0 if q % 2 else 1.0
      if 'index' in s.svars:
        e.env[s.svars['index']] = np.asarray(0)
      return e

    def cand(u):
      """candidates of the second stage and their log-weights for auxiliary point u (flat tuple)"""
      e = fresh()
      sh = e.shp(s.xt.shape)
      uu = np.array(u).reshape(sh)
      e.env[mu] = uu
      e.env[rec['idx']] = np.asarray(0)
      lg = np.moveaxis(np.asarray(e.full(d.args[2]), float), d.args[3], -1).reshape(-1)
      out = []
      for k in range(len(lg)):
        e2 = fresh()
        e2.env[mu] = uu
        e2.env[rec['idx']] = np.asarray(0)
        e2.env[d] = np.full(e2.shp(d.shape), k)
        v = np.asarray(e2.full(nxt)).astype(int).reshape(sh)
        f = float(e2.rs('F', s.p.t.id, v[0]).normal()) * e2.scale
        out.append((tuple(v.reshape(-1).tolist()), lg[k] - f))
      return out
    e = fresh()
    x = tuple(np.asarray(e.ev(s.xt)).astype(int).reshape(-1).tolist())
    cs = cand(x)
    w = np.array([c[1] for c in cs])
    pts += 1
    if np.abs(w - w[0]).max() > 1e-6:
      bad1 = 'a candidate is drawn with a weight that is not the target at that candidate (%s)' % sz
      break
    # second stage candidates: exactly the ball of radius 1 within the block
    blk = range(sz['bs'])
    ball = {x} | {x[:i] + (v,) + x[i + 1:] for i in blk for v in range(C)}
    mult = {}
    for c, _ in cs:
      mult[c] = mult.get(c, 0) + 1
    if set(mult) != ball:
      bad2 = 'candidates differ from the radius-1 ball of the block (%d instead of %d, %s)' % (len(set(mult) & ball), len(ball), sz)
      break
    # auxiliary point: P(u | x) proportional to the multiplicity of x among the candidates of u
    sup = []
    for t in du:
      z = support(fresh(), t)
      if z is None:
        sup = None
        break
      sup.append(z)
    if sup is None:
      bad3 = None
      pts3 = False
      continue
    dist = {}
    for combo in itertools.product(*sup):
      e2 = fresh()
      pr = 1.0
      for t, (v, p) in zip(du, combo):
        e2.env[t] = np.broadcast_to(np.asarray(v), e2.shp(t.shape))
        pr *= p
      v = tuple(np.asarray(e2.full(U)).astype(int).reshape(-1).tolist())
      dist[v] = dist.get(v, 0) + pr
    ratio = []
    for u, p in dist.items():
      m = sum(1 for c, _ in cand(u) if c == x)
      if m == 0:
        bad3 = 'the auxiliary point can be a state whose candidates exclude the current state (%s)' % sz
        break
      ratio.append(p / m)
    if not bad3 and set(dist) != ball:
      bad3 = 'the auxiliary point reaches %d of the %d states of the ball (%s)' % (len(set(dist) & ball), len(ball), sz)
    if not bad3 and max(ratio) - min(ratio) > 1e-6:
      bad3 = 'the auxiliary point is not uniform over the ball: probabilities from %.4g to %.4g (%s)' % (min(dist.values()), max(dist.values()), sz)
    if bad3:
      break
  ctx.ob(s.label + ' weights', False if bad1 else 'generic' if pts else None, 'candidates weighted by the target at the candidate', where(s), bad1 or '')
  ctx.ob(s.label + ' candidates', False if bad2 else 'generic' if pts else None, 'candidates are the whole ball', where(s), bad2 or '')
  ctx.ob(s.label + ' auxiliary', False if bad3 else 'generic' if pts else None, 'auxiliary point uniform over the ball', where(s), bad3 or '')


# ------------------------------------------------------------------ P05
def p05(ctx):
  for s in scen.runs(ctx):
    if step_raises(ctx, s, 'closure'):
      continue

    def go():
      o = s.outx()
      if o is None or o.shape is None or o.t is None:
        ctx.ob(s.label + ' shape', None, 'closure', where(s), 'no array result')
        return
      N = o.full()
      if o.shape == s.x.shape:
        ctx.ob(s.label + ' shape', True, 'shape preserved', where(s))
      else:
        bad = None
        for sz in SZ:
          e = valu.Ev(1, names=dict(sz))
          try:
            if e.shp(o.shape) != e.shp(s.x.shape):
              bad = '%s becomes %s' % (e.shp(s.x.shape), e.shp(o.shape))
          except valu.Unsup:
            break
        ctx.ob(s.label + ' shape', False if bad else None, 'shape preserved', where(s), bad or 'shape not comparable')
        if bad:
          return
      if s.mask and not has_top(N):
        masked(ctx, s, N)
      if has_top(N) or X.contains(N, lambda u: u.op in ('NB', 'step_h', 'step_v')):
        ctx.ob(s.label + ' range', None, 'values stay in the category range', where(s), 'value supplied by the model')
        return
      lo, hi = X.rng(N)
      C1 = X.sub(s.C, X.const(1))
      ok = lo is not None and hi is not None and X.nonneg(lo) and X.nonneg(X.sub(C1, hi))
      isint = N.isint or o.dtype in ('int', 'bool')
      if ok and isint:
        ctx.ob(s.label + ' range', True, 'values stay in the category range', where(s))
        return
      bad = None
      pts = 0
      for i in range(6):
        e = valu.Ev(i + 1, names=dict(valu.SIZES[i % len(valu.SIZES)]))
        setup(e, s)
        try:
          v = np.asarray(e.full(N), float)
          c = int(e.ev(s.C))
        except valu.Unsup as ex:
          bad = None
          pts = 0
          break
        pts += 1
        if not np.isfinite(v).all():
          continue
        if (v < 0).any() or (v > c - 1).any():
          bad = 'next state contains %s with %d categories' % (v[(v < 0) | (v > c - 1)].flat[0], c)
        elif np.abs(v - np.round(v)).max() > 1e-9:
          bad = 'next state contains the non-integer %s' % v.flat[np.abs(v - np.round(v)).argmax()]
      ctx.ob(s.label + ' range', False if bad else 'generic' if pts else None, 'values stay in the category range', where(s), bad or '')
    guard(ctx, s, 'closure', go)


def masked(ctx, s, N):
  """With fewer proposed sites than sites left in, the masked-out sites keep their values."""
  bad, pts = None, 0
  for seed, nm, sc, sz in valu.points(N, 8):
    nm = dict(nm, nf=1 if seed % 2 else min(nm['nf'], nm['D0'] - 1))
    e = valu.Ev(seed, names=nm)
    e.scale = sc
    setup(e, s)
    if 'radius' in s.svars:
      e.env[s.svars['radius']] = np.asarray([1.0, 1.4, 2.0, nm['D0'] - 1.0][seed % 4])
    try:
      v, x = np.asarray(e.full(N), float), np.asarray(e.full(s.xt), float)
      m = np.asarray(e.names['xmask'])
    except valu.Unsup as ex:
      ctx.ob(s.label + ' masked sites', None, 'masked-out sites keep their values', where(s), str(ex))
      return
    if not np.isfinite(v).all() or v.shape != x.shape:
      continue
    pts += 1
    if (v != x)[m == 0].any():
      k = tuple(int(i) for i in np.argwhere((v != x) & (m == 0))[0])
      bad = 'sizes %s: the masked-out site %s goes from %g to %g' % (sz, k, x[k], v[k])
      break
  ctx.ob(s.label + ' masked sites', False if bad else 'generic' if pts else None, 'masked-out sites keep their values', where(s), bad or '')


# ------------------------------------------------------------------ P06
def mult_of(s, k):
  """Trip-count multiplier of event number k (absolute)."""
  m = X.const(1)
  for r in s.I.loops + s.I.lanes:
    a, b = r['evs']
    if a <= k < b:
      if r.get('trip') is None:
        return None
      m = X.mul(m, X.lift(r['trip']))
  return m


def p06(ctx):
  for s in scen.runs(ctx):
    if step_raises(ctx, s, 'accounting'):
      continue

    def go():
      st = s.outstate()
      if st is None:
        ctx.ob(s.label, None, 'accounting', where(s), 'no state dictionary')
        return
      if 'steps' in s.svars:
        v = s.I.lib.arr(st.get('steps')) if 'steps' in st else None
        ok = None
        d = ''
        if 'steps' not in st:
          ok, d = False, 'the step counter is dropped from the returned state'
        elif v is not None and not has_top(v.t):
          t = X.sub(v.t, X.add(s.svars['steps'], X.const(1)))
          ok = t is X.ZERO
          if not ok:
            df, w = valu.differs(t, mk=lambda e: setup(e, s))
            ok = {True: False, False: 'generic', None: None}[df]
            d = 'the step counter does not grow by one per step (%s)' % X.show(v.t, 4) if ok is False else ''
        ctx.ob(s.label + ' steps', ok, 'one step counted per step', where(s), d)
      if 'num_ll_calls' not in s.svars:
        return
      v = s.I.lib.arr(st.get('num_ll_calls')) if 'num_ll_calls' in st else None
      if v is None:
        ctx.ob(s.label + ' calls', False if 'num_ll_calls' not in st else None, 'energy evaluations counted', where(s), 'counter missing')
        return
      inc = X.sub(v.t, s.svars['num_ll_calls'])
      cost = X.ZERO
      lanes = False
      for i, e in enumerate(s.evs):
        if e['kind'] != 'model_call':
          continue
        m = mult_of(s, s.mark + i)
        sh = e['x'].shape
        if m is None or sh is None or e['pc']:
          ctx.ob(s.label + ' calls', None, 'energy evaluations counted', where(s), 'call count not static')
          return
        rows = X.div(X.lift(sh[0]), s.B)
        if e['what'] == 'forward':
          c = rows
        elif e['what'] == 'get_value_and_grad':
          c = X.scale(rows, 2)
        else:
          c = X.atom('n_neigh_calls', (), lo=1, isint=True)
        cost = X.add(cost, X.mul(m, c))
      t = X.sub(inc, cost)
      if t is X.ZERO:
        ctx.ob(s.label + ' calls', True, 'energy evaluations counted', where(s), 'per chain: ' + X.show(cost, 4))
        return
      df, w = valu.differs(t, mk=lambda e: setup(e, s))
      ok = {True: False, False: 'generic', None: None}[df]
      ctx.ob(s.label + ' calls', ok, 'energy evaluations counted', where(s),
             'the counter grows by %s, the model is evaluated %s times per chain; %s' % (X.show(inc, 4), X.show(cost, 4), w) if ok is not True else '')
    guard(ctx, s, 'accounting', go)


# ------------------------------------------------------------------ P07
def p07(ctx):
  for s in scen.runs(ctx):
    if s.name in GIBBS + ('hammingball', 'locallybalanced'):
      continue
    if step_raises(ctx, s, 'adaptation'):
      continue

    def go():
      st = s.outstate()
      m = mh_of(s)
      if st is None or not m.ok:
        ctx.ob(s.label, None, 'adaptation', where(s), 'no MH structure')
        return
      acc = X.rsum(X.exp(X.minimum(m.L, X.ZERO)), (s.B,), (0,))
      acc = X.div(acc, s.B)
      tgt = X.atom('cfg_target_acceptance_rate', (), lo=0, hi=1, pos=True)
      tgts = {u for v in st.values() for a in [s.I.lib.arr(v)] if a is not None and a.t is not None
              for u in X.subterms(a.t) if u.op == 'atom' and u.args[0] == 'cfg_target_acceptance_rate'}
      if tgts:
        tgt = next(iter(tgts))
      ad = s.over.get('adaptive', None)
      for k in ('radius', 'log_tau'):
        if k not in s.svars:
          continue
        if k not in st:
          ctx.ob(s.label + ' ' + k, False, 'step size kept in the state', where(s), 'the returned state has no %s' % k)
          continue
        v = s.I.lib.arr(st[k])
        if v is None or has_top(v.t):
          ctx.ob(s.label + ' ' + k, None, 'adaptation', where(s), 'unknown value')
          continue
        cur = s.svars[k]
        # value in force during this step
        if v.t is cur:
          frozen = (ad is False) or s.exp.get('co_opt_prob') is True or (s.name == 'gwg' and not X.is_const(s.C))
          if frozen:
            ctx.ob(s.label + ' ' + k, True, 'fixed step size stays fixed', where(s))
          elif ad is True:
            ctx.ob(s.label + ' ' + k, False, 'adaptive step size moves with the acceptance rate', where(s), '%s is never updated' % k)
          continue
        if ad is False:
          base = cur
          df, w = valu.differs(X.sub(v.t, cur), mk=lambda e: setup(e, s))
          ctx.ob(s.label + ' ' + k, {True: False, False: 'generic', None: None}[df], 'fixed step size stays fixed', where(s),
                 'the non-adaptive sampler changes %s: %s' % (k, w))
          continue
        direction(ctx, s, k, cur, v.t, acc, tgt)
      if 'radius' in s.svars and 'radius' in st:
        v = s.I.lib.arr(st['radius'])
        if v is not None and not has_top(v.t):
          lo, hi = X.rng(v.t)
          ok = lo is not None and hi is not None and X.nonneg(X.sub(lo, X.const(1))) and X.nonneg(X.sub(X.lift(s.D), hi))
          if not ok:
            ok = None
            P = [(i + 1, dict(valu.SIZES[i % 4])) for i in range(12)]
            P += [(seed, nm) for seed, nm, sc, sz in valu.points(v.t, 4)[4 * valu.DEPTH:]]
            for i, (seed, nm) in enumerate(P):
              e = valu.Ev(seed, names=nm)
              setup(e, s)
              D = float(e.ev(X.lift(s.D)))
              e.env[s.svars['radius']] = np.asarray([1.0, D, 1.2, D - .1][i % 4])
              try:
                r = float(e.ev(v.t))
              except valu.Unsup:
                break
              ok = 'generic' if ok is None else ok
              if np.isfinite(r) and not 1 - 1e-9 <= r <= D + 1e-9:
                ok = False
                break
          ctx.ob(s.label + ' radius range', ok, 'radius stays between 1 and the number of sites', where(s),
                 '' if ok else 'the updated radius can leave [1, number of sites]')
    guard(ctx, s, 'adaptation', go)


def direction(ctx, s, k, cur, nxt, acc, tgt):
  exact = X.add(cur, acc, X.neg(tgt))
  if k == 'radius' and X.contains(nxt, lambda u: u is exact) or nxt is exact:
    ctx.ob(s.label + ' ' + k, True, 'step size moves with acceptance minus target', where(s))
    return
  bad = None
  pts = 0
  P = [(i + 1, dict(valu.SIZES[i % 4])) for i in range(16)]
  P += [(seed, nm) for seed, nm, sc, sz in valu.points(nxt, 4)[4 * valu.DEPTH:]]
  for i, (seed, nm) in enumerate(P):
    e = valu.Ev(seed, names=nm)
    setup(e, s)
    D = float(e.ev(X.lift(s.D)))
    if k == 'radius':
      e.env[cur] = np.asarray(1 + (D - 1) * (0.3 + 0.05 * (i % 8)))
    else:
      # a large scale keeps the lower clip inactive
      e.env[cur] = np.asarray(3.0 + 0.2 * i)
      if 'log_z' in s.svars:
        e.env[s.svars['log_z']] = np.asarray(0.5 + 0.1 * i)
    try:
      c, n, a, t = float(e.ev(cur)), float(e.ev(nxt)), float(e.ev(acc)), float(e.ev(tgt))
    except valu.Unsup as ex:
      ctx.ob(s.label + ' ' + k, None, 'step size moves with acceptance minus target', where(s), str(ex))
      return
    if not np.isfinite([c, n, a, t]).all() or abs(a - t) < 1e-3:
      continue
    if k == 'radius' and not 1.01 < n < D - 0.01:
      continue
    pts += 1
    if (n - c) * (a - t) <= 0:
      bad = 'acceptance %.3g, target %.3g: %s goes from %.4g to %.4g' % (a, t, k, c, n)
      break
  ctx.ob(s.label + ' ' + k, False if bad else 'generic' if pts else None, 'step size moves with acceptance minus target', where(s), bad or '')


# ------------------------------------------------------------------ P08
def p08(ctx):
  for s in scen.runs(ctx):
    if step_raises(ctx, s, 'purity'):
      continue
    bad = []
    for e in s.evs:
      if e['kind'] == 'mutate' and e.get('obj') is not None and e['obj'] < s.maxid0 and e.get('origin') != 'state':
        ob = s.I.st.heap.get(e['obj'])
        bad.append((e, 'writes %r of an object that outlives the step' % (e.get('key'),)))
      elif e['kind'] == 'np_store' and (e['target'] is s.p or e['target'] is s.x or e['target'] is s.key):
        bad.append((e, 'writes entry %r of an argument of the step' % (e.get('key'),)))
      elif e['kind'] in ('global_write', 'ext_write'):
        bad.append((e, '%s %r' % (e['kind'], e.get('name', e.get('key')))))
      elif e['kind'] == 'ambient':
        bad.append((e, 'calls %s, which is not determined by the arguments' % e['call']))
    res = [s.outx()] + [s.I.lib.arr(v) for v in (s.outstate() or {}).values()]
    for r in res:
      if r is not None and r.t is not None and X.contains(r.t, lambda u: u.op == 'atom' and isinstance(u.args[0], tuple) and u.args[0][:1] == ('clock',)):
        bad.append(({'file': where(s), 'line': '', 'func': 'step'}, 'the result depends on the clock'))
        break
    for e, d in bad:
      ctx.ob('%s %s:%s' % (s.label, e['file'], e['line']), False, 'a step writes only the state it returns',
             '%s:%s %s' % (e['file'], e['line'], e['func']), d)
    if not bad:
      ctx.ob(s.label, True, 'a step writes only the state it returns', where(s))


# ------------------------------------------------------------------ P09
def p09(ctx):
  for s in scen.runs(ctx):
    if step_raises(ctx, s, 'independence'):
      continue

    def go():
      o = s.outx()
      if o is None or o.shape is None or has_top(o.full()):
        ctx.ob(s.label, None, 'chain independence', where(s), 'no array result')
        return
      N = o.full()
      m = mh_of(s)
      if m.ok and m.udraw is not None:
        n = X.dim_prod(m.udraw.shape) if m.udraw.shape else 1
        shb = any(dd is s.B or dd == s.B for dd in (m.udraw.shape or ()))
        ctx.ob(s.label + ' accept draw', bool(shb), 'each chain has its own accept draw', where(s),
               '' if shb else 'one uniform number decides for every chain')
      bad = None
      pts = 0
      freeze = s.exp.get('co_opt_prob') is True and s.over.get('adaptive') is not False
      # per-chain quantities: the next state, the acceptance ratio, the parameters of the draws
      per = [('next state', N)]
      if m.ok and m.L.shape is not None and m.L.shape[:1] == (s.B,):
        per.append(('acceptance ratio', m.L))
      for d in sorted({u for u in X.subterms(N) if u.op == 'draw'}, key=lambda u: u.id):
        for a in d.args[2:]:
          if isinstance(a, T) and a.shape is not None and a.shape[:1] == (s.B,) and not X.contains(a, lambda u: u.op in ('top', 'ext')):
            per.append(('%s parameter' % d.args[0], a))
      for i, sz in enumerate(valu.SIZES[:2] * 2):
        sz = dict(sz, st_index=0) if s.name == 'hammingball' else sz
        e = valu.Ev(i + 1, names=dict(sz))
        setup(e, s)
        e.scale = 3.0 if i == 3 else 1.0
        try:
          x = np.array(e.ev(s.xt))
          v = np.asarray(e.full(N))
          C = int(e.ev(s.C))
        except valu.Unsup as ex:
          ctx.ob(s.label, None, 'chain independence', where(s), str(ex))
          return
        for r in range(x.shape[0]):
          x2 = x.copy()
          others = [b for b in range(x.shape[0]) if b != r]
          if not others:
            continue
          for b in others:
            x2[b] = (x[b] + 1 + i % max(C - 1, 1)) % C
          e2 = valu.Ev(i + 1, names=dict(sz))
          setup(e2, s)
          e2.scale = e.scale
          e2.env[s.xt] = x2
          if freeze:
            for u, val in e.memo.items():
              if isinstance(u, T) and u.shape == () and u is not N and X.contains(u, {s.xt}):
                e2.env[u] = val
          pts += 1
          for what, t in per:
            try:
              a, b = np.asarray(e.full(t)), np.asarray(e2.full(t))
            except Exception:
              if t is N:
                raise
              continue
            if not np.allclose(a[r], b[r], rtol=1e-5, atol=1e-6, equal_nan=True):
              bad = 'the %s of chain %d changes when only other chains change (%s)' % (what, r, sz)
              break
          if bad:
            break
        if bad:
          break
      ctx.ob(s.label, False if bad else 'generic' if pts else None, 'next state of a chain ignores the other chains', where(s), bad or '%d comparisons' % pts)
    guard(ctx, s, 'chain independence', go)


# ------------------------------------------------------------------ P25
def order(ctx, s):
  """The step takes the arguments of the base class, in its order."""
  f = getattr(getattr(s, 'step', None), 'func', None)
  o = s.I.obj(s.sampler) if isinstance(getattr(s, 'sampler', None), Ref) else None
  if f is None or getattr(o, 'cls', None) is None or not hasattr(f, 'node'):
    return
  base = [c.ns['step'] for c in o.cls.mro() if 'step' in c.ns]
  b = base[-1]
  if b is f or not hasattr(b, 'node'):
    return

  def names(g):
    a = g.node.args
    return [p.arg for p in a.posonlyargs + a.args][1:], a.vararg is not None or a.kwarg is not None
  (n, v), (m, w) = names(f), names(b)
  if v or w or set(n) != set(m):
    return
  ctx.ob(s.label + ' arguments', n == m, 'every step takes the same arguments', where(s),
         '' if n == m else 'step takes (%s), the other samplers (%s)' % (', '.join(n), ', '.join(m)))


def p25(ctx):
  for s in scen.runs(ctx):
    order(ctx, s)
    if s.err is not None:
      if isinstance(s.err, PyRaise):
        ctx.ob(s.label + ' raises', False, 'a step on valid input returns', where(s), 'the step raises %s' % (s.err,))
      else:
        ctx.ob(s.label, None, 'interface', where(s), repr(s.err))
      continue

    def go():
      out = s.out
      if not isinstance(out, tuple):
        ctx.ob(s.label + ' triple', None, 'a step returns (sample, state, acceptance)', where(s), 'result not a tuple')
        return
      ctx.ob(s.label + ' triple', len(out) == 3, 'a step returns (sample, state, acceptance)', where(s),
             '' if len(out) == 3 else 'the step returns %d values' % len(out))
      st = s.outstate()
      if st is None or s.init_items is None:
        ctx.ob(s.label + ' state', None, 'state schema', where(s), 'state is not a dictionary')
        return
      a, b = set(s.init_items), set(st)
      ctx.ob(s.label + ' keys', a == b, 'the state keeps its entries', where(s),
             '' if a == b else 'initial entries %s, after a step %s' % (sorted(a), sorted(b)))
      for k in sorted(a & b):
        u, v = s.I.lib.arr(s.init_items[k]), s.I.lib.arr(st[k])
        if u is None or v is None or u.shape is None or v.shape is None:
          continue
        ok = u.shape == v.shape or len(u.shape) == len(v.shape) and None
        ctx.ob(s.label + ' ' + k, True if u.shape == v.shape else (None if len(u.shape) == len(v.shape) else False),
               'state entries keep their shape', where(s), '' if u.shape == v.shape else '%s: %s -> %s' % (k, u.shape, v.shape))
      if len(out) == 3:
        acc = s.I.lib.arr(out[2])
        if acc is not None and acc.t is not None and not has_top(acc.t):
          lo, hi = X.rng(acc.t)
          ok = lo is not None and hi is not None and X.nonneg(lo) and X.nonneg(X.sub(X.const(1), hi))
          if not ok:
            ok = None
            for i in range(8):
              e = valu.Ev(i + 1, names=dict(valu.SIZES[i % 4]))
              setup(e, s)
              try:
                v = np.asarray(e.ev(acc.t), float)
              except valu.Unsup:
                break
              ok = 'generic'
              if np.isfinite(v).all() and ((v < -1e-9).any() or (v > 1 + 1e-9).any()):
                ok = False
                break
          ctx.ob(s.label + ' acceptance', ok, 'reported acceptance lies in [0, 1]', where(s), '' if ok else 'reported acceptance can leave [0, 1]')
    guard(ctx, s, 'interface', go)


# ------------------------------------------------------------------ P15
def p15(ctx):
  """g(t) = t g(1/t) for every balancing function, in log and linear scale."""
  seen = 0
  for s in scen.runs(ctx, {'gwg', 'dlmc', 'dmala', 'path_auxiliary', 'locallybalanced'}):
    if s.over.get('balancing_fn_type') is None:
      continue
    I = s.I
    try:
      if getattr(s, 'sampler', None) is None:
        continue
      k = (s.name, s.over['balancing_fn_type'], X.is_const(s.C))
      if k in ctx.__dict__.setdefault('_p15', set()):
        continue
      ctx._p15.add(k)
      l = Arr(X.atom('l', (s.B,)), (s.B,), 'float')
      lab = '%s %s%s' % (s.name, s.over['balancing_fn_type'], '' if X.is_const(s.C) else ' categorical')

      def call(nm, a):
        f = I.getattr(s.sampler, nm)
        r = I.lib.arr(I.call(f, [a], {}))
        return r.t
      try:
        g1 = call('apply_weight_function_logscale', l)
        g2 = call('apply_weight_function_logscale', Arr(X.neg(l.t), l.shape, 'float'))
      except PyRaise as e:
        ctx.ob(lab, None, 'weight function', where(s), 'no log-scale weight function: %s' % (e,))
        continue
      if has_top(g1):
        ctx.ob(lab, None, 'weight function', where(s), 'unknown value')
        continue
      t = X.sub(X.sub(g1, g2), l.t)
      # ratios of every order of magnitude, up to e^100
      wide = {'l': lambda e: np.clip(e.rs('l').normal(size=e.dim(s.B)) * 10 ** e.rs('m').uniform(-2, 2.2, size=e.dim(s.B)), -100, 100)}
      eqz(ctx, lab + ' balanced', t, 'log g(t) - log g(1/t) = log t', where(s), names=wide, n=40)
      ref = {'SQRT': lambda: X.mul(X.const(0.5), l.t), 'RATIO': lambda: X.neg(X.softplus(X.neg(l.t))),
             'MAX': lambda: X.relu(l.t), 'MIN': lambda: X.neg(X.relu(X.neg(l.t)))}.get(s.over['balancing_fn_type'])
      if ref is not None:
        eqz(ctx, lab + ' is the named function', X.sub(g1, ref()), 'the weight is the function named in the configuration', where(s), names=wide, n=40)
      if (s.name, 'unknown') not in ctx._p15:
        ctx._p15.add((s.name, 'unknown'))
        unknown(ctx, s)
      try:
        gl = call('apply_weight_function', Arr(X.exp(l.t), l.shape, 'float'))
      except PyRaise:
        continue
      if not has_top(gl):
        eqz(ctx, lab + ' scales agree', X.sub(X.log(gl), g1), 'linear and log-scale weights agree', where(s), names=wide, n=40)
    except Exception as e:
      ctx.ob(s.label, None, 'weight function', where(s), repr(e))


def unknown(ctx, s):
  """A name that stands for no function is rejected: when the sampler is built or when it steps."""
  rule = 'unknown names are rejected'
  key = s.name + ' with an unknown weight function'
  u = D.Sc(ctx.repo, s.name, dict(s.over, balancing_fn_type='NO_SUCH_FUNCTION'), 2 if X.is_const(s.C) else 'K', len(s.dims), s.exp)
  try:
    u.run()
  except PyRaise:
    ctx.ob(key, True, rule, where(s))
    return
  except Exception as e:
    ctx.ob(key, None, rule, where(s), repr(e))
    return
  if isinstance(u.err, PyRaise):
    ctx.ob(key, True, rule, where(s))
    return
  o = u.outx() if u.err is None else None
  ctx.ob(key, None if o is None or o.shape is None or has_top(o.full()) else False, rule, where(s), 'the sampler takes a step with an unknown weight function')


def eqz(ctx, key, t, rule, wh, detail='', mk=None, names=None, n=8):
  if t is X.ZERO:
    ctx.ob(key, True, rule, wh)
    return True
  df, w = valu.differs(t, n=n, mk=mk, names=names)
  st = {True: False, False: 'generic', None: None}[df]
  ctx.ob(key, st, rule, wh, (detail + ' ' + w).strip())
  return st


def p01(ctx):
  from . import rng
  for s in scen.runs(ctx):
    if step_raises(ctx, s, 'fresh randomness'):
      continue
    guard(ctx, s, 'fresh randomness', lambda: rng.check(ctx, s.I, s.label, s.evs))
