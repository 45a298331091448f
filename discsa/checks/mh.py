"""Metropolis-Hastings structure of a sampler step, read off its abstract result."""
from fractions import Fraction
from .. import terms as X
from ..terms import T
from ..interp import Arr

EPS = Fraction(1, 10**18)


def unresh(t):
  while t.op in ('reshape', 'bcast'):
    t = t.args[0]
  return t


def is_u(t, B=None):
  t = unresh(t)
  return t.op == 'draw' and t.args[0] == 'uniform'


def strip_eps(t):
  """log(p + tiny) -> log(p): drop guards far below rounding of p."""
  memo = {}

  def isd(f):
    return f.op == 'log'

  def go(u):
    r = memo.get(u)
    if r is not None:
      return r
    if u.op == 'log' and u.args[0].op == 'poly' and len(u.args[0].args) > 1:
      d = dict(u.args[0].args)
      c = d.get(())
      if c is not None and c != round(c) and abs(c - round(c)) <= EPS:
        d.pop(())
        if round(c):
          d[()] = Fraction(round(c))
        r = X.log(X.mk_poly(d))
        memo[u] = r
        return r
    memo[u] = u
    return u
  mp = {}
  for u in X.subterms(t):
    if u.op == 'log':
      v = go(u)
      if v is not u:
        mp[u] = v
  for _ in range(3):
    if not mp:
      return t
    t = X.subst(t, mp)
    mp = {}
    for u in X.subterms(t):
      if u.op == 'log':
        v = go(u)
        if v is not u:
          mp[u] = v
  return t


def noise_of(t):
  """(draw, a, b) if t is a*u + b with a uniform draw u; max(u, tiny) counts as u."""
  inner = X.as_poly(t)
  um = [mm for mm in inner if mm != ()]
  if len(um) != 1 or len(um[0]) != 1 or um[0][0][1] != 1:
    return None
  a, b, f = inner[um[0]], inner.get((), 0), unresh(um[0][0][0])
  if f.op == 'relu':
    z = noise_of(f.args[0])
    if z is None or not (-EPS <= z[2] <= 0 and z[1] == 1):
      return None
    return z[0], a, b + a * z[2]
  return (f, a, b) if is_u(f) else None


def strip_min(t, c=0):
  """min(z, c) -> z, for a bound that is compared with something below c anyway."""
  for v in X.subterms(t, stop=lambda q: q.op in ('lt0', 'draw', 'F', 'G')):
    if v.op == 'lt0':   # where(z > c, c, z)
      b0, b1 = X.subst(t, {v: X.ZERO}), X.subst(t, {v: X.const(1)})
      for z, o in ((b0, b1), (b1, b0)):
        w = X.const_val(o)
        d = X.sub(z, X.const(c))
        if w is not None and w >= c and (v.args[0] is d and z is b1 or v.args[0] is X.neg(d) and z is b0):
          return strip_min(z, c)
  for m, k in X.as_poly(t).items():
    if k < 0 and len(m) == 1 and m[0][1] == 1:
      f = m[0][0]
      g = unresh(f)
      if g.op == 'relu':
        z = X.sub(t, X.scale(f, k))
        if X.sub(X.sub(z, X.const(c)), X.scale(g.args[0], -k)) is X.ZERO:
          return strip_min(z, c)
  return t


def acc_candidates(N):
  """(indicator term, kind, key) pairs usable as the accept decision."""
  out = []
  for u in X.subterms(N, stop=lambda q: q.op == 'draw' or q.op in ('F', 'G')):
    if u.op == 'lt0':
      t = u.args[0]
      for m, c in X.as_poly(t).items():
        if len(m) != 1 or m[0][1] != 1:
          continue
        f = unresh(m[0][0])
        if f.op == 'log':
          if noise_of(f.args[0]) is not None:
            out.append((u, 'log', m, c))
            break
        elif is_u(f):
          out.append((u, 'lin', m, c))
          break
  return out


class MH:
  """Fields: ok (structure found), U, L, Y (accepted state), X0 (rejected), why."""

  def __init__(self, s):
    self.s = s
    self.ok = False
    self.why = ''
    o = s.outx()
    if o is None or o.t is None or o.shape is None:
      self.why = 'no array result'
      return
    self.N = N = o.full()
    if X.contains(N, lambda u: u.op == 'top'):
      self.why = 'unknown value in the result'
      return
    cands = acc_candidates(N)
    # the accept decision is per chain: its uniform draw has shape (B,)
    good = []
    for c in cands:
      d = [u for u in X.subterms(c[0].args[0], stop=lambda q: q.op in ('F', 'G')) if is_u(u) and u.op == 'draw']
      good.append(c)
    us = sorted({c[0] for c in good}, key=lambda t: t.id)
    if not us:
      # accepted with probability p: a Bernoulli draw whose parameter contains the target
      us = sorted({u for u in X.subterms(N, stop=lambda q: q.op == 'draw' or q.op in ('F', 'G')) if u.op == 'draw' and u.args[0] == 'bernoulli'
                   and X.contains(u.args[2], lambda q: q.op == 'F')}, key=lambda t: t.id)
      if len(us) == 1:
        self.us, self.U, self.sign, self.udraw, self.noise = us, us[0], 1, us[0], None
        self.L_full = L = strip_min(X.log(strip_min(us[0].args[2], 1)))
        if us[0].shape is not None and len(us[0].shape) > 1:
          try:
            L = X.squeeze_axes(L, tuple(range(1, len(us[0].shape))), len(us[0].shape))
          except Exception as e:
            self.why = 'squeeze %r' % e
            return
        self.L = L
        self.Y, self.X0 = X.subst(N, {us[0]: X.const(1)}), X.subst(N, {us[0]: X.ZERO})
        self.ok = True
        return
      us = []
    if not us:
      self.why = 'no accept decision found'
      return
    # outermost: not nested in another candidate's draw parameters
    self.us = us
    if len(us) > 1:
      tops = [u for u in us if not any(v is not u and X.contains(v.args[0], {u}) for v in us)]
      us = tops
    if len(us) != 1:
      self.why = '%d accept decisions' % len(us)
      return
    U, kind, m, c = next(g for g in good if g[0] is us[0])
    self.U = U
    t = U.args[0]
    rest = X.sub(t, X.mk_poly({m: c}))
    self.sign = 1 if c > 0 else -1
    bnd = X.scale(rest, -1 / c)
    if kind == 'log':
      L = strip_min(bnd)
    else:
      L = strip_min(X.log(strip_min(bnd, 1)))
    R = len(o.shape)
    ushape = U.shape
    self.L_full = L
    if U.shape is not None and len(U.shape) > 1:
      try:
        L = X.squeeze_axes(L, tuple(range(1, len(U.shape))), len(U.shape))
      except Exception as e:
        self.why = 'squeeze %r' % e
        return
    self.L = L
    self.udraw = next((u for u in X.subterms(t) if u.op == 'draw' and u.args[0] == 'uniform' and
                       X.contains(X.mk_poly({m: c}), {u})), None)
    self.noise = None    # why the acceptance noise is not uniform on [0, 1)
    if self.udraw is not None and kind == 'log':
      _, a, b = noise_of(unresh(m[0][0]).args[0])
      lo, hi = (X.const_val(z) for z in self.udraw.args[2:4])
      if lo is not None and hi is not None:
        ends = sorted((float(a * lo + b), float(a * hi + b)))
        if max(abs(ends[0]), abs(ends[1] - 1)) > 1e-6:
          self.noise = 'the acceptance noise ranges over [%g, %g] instead of [0, 1]' % tuple(ends)
    hit1, hit0 = (X.const(1), X.ZERO) if self.sign > 0 else (X.ZERO, X.const(1))
    self.Y = X.subst(N, {U: hit1})
    self.X0 = X.subst(N, {U: hit0})
    # a rejected move has a ratio below one: L < 0
    mp = {}
    for v in X.subterms(self.X0, stop=lambda q: q.op in ('draw', 'F', 'G')):
      if v.op == 'lt0':
        z = unresh(v.args[0])
        if z is self.L_full or z is self.L:
          mp[v] = X.const(1)
        elif X.neg(z) is self.L_full or X.neg(z) is self.L:
          mp[v] = X.ZERO
    if mp:
      self.X0 = X.subst(self.X0, mp)
    self.ok = True


def fargs(t):
  """second arguments of model evaluations in t, by op."""
  out = {}
  for u in X.subterms(t):
    if u.op in ('F', 'G', 'LR'):
      out.setdefault(u.op, set()).add(u.args[1])
  return out


RANDOPS = ('draw', 'topk_idx', 'topk_val', 'argsort', 'sort', 'eta', 'lt0', 'eq0', 'map')


def has_draw(t, memo={}):
  r = memo.get(t)
  if r is None:
    r = memo[t] = (t.op == 'draw' or any(has_draw(c) for c in X.children(t)))
  return r


def opaque(u):
  return u.op in RANDOPS and has_draw(u)


def linear(s, L, Fx, Fy):
  """Is min(0, L) = min(0, F(y) - F(x) + R) for some R that is free of both energies?  (None: cannot tell)"""
  from .. import valu
  import numpy as np
  seen = 0
  for seed, nm, sc, sz in valu.points(L, 4):
    def at(a, b):
      e = valu.Ev(seed, names=nm)
      e.loops = valu.loop_index(s.I.loops)
      e.env[Fx] = np.full(e.shp(Fx.shape), float(a))
      e.env[Fy] = np.full(e.shp(Fy.shape), float(b))
      return np.minimum(np.asarray(e.ev(L), float), 0)
    try:
      with np.errstate(all='ignore'):
        r = at(0, -40.) + 40
        for a, b in ((0, -10), (5, -9), (0, 0), (0, 1), (3, 2), (0, 12), (-7, 30)):
          d = np.abs(at(a, b) - np.minimum(b - a + r, 0))
          if not np.isfinite(d).all():
            continue
          if d.max() > 1e-5 * (1 + np.abs(r).max()):
            return False
          seen += 1
    except Exception:
      return None
  return True if seen else None


class Bal:
  """Balance analysis of one MH structure."""

  def __init__(self, m):
    self.m = m
    s = m.s
    self.err = None
    self.viol = []   # (rule, detail)
    self.und = []
    L = strip_eps(m.L)
    self.L = L
    fa = fargs(L).get('F', set())
    xt = s.xt
    C = X.dim(s.C)
    xoh = X.onehot(xt, xt.shape, C)
    xs = [a for a in fa if a is xt or a is xoh]
    ys = [a for a in fa if not (a is xt or a is xoh)]
    if not fa:
      self.viol.append(('target', 'the acceptance ratio does not contain the target log-probability'))
      return
    if len(xs) != 1 or len(ys) != 1:
      if not ys:
        self.viol.append(('target', 'the target is never evaluated at the proposed state in the acceptance ratio'))
      elif not xs:
        self.viol.append(('target', 'the target at the current state is missing from the acceptance ratio'))
      else:
        self.und.append('more than two energy arguments')
      return
    self.Xa, self.Ya = xs[0], ys[0]
    Fx = [u for u in X.subterms(L) if u.op == 'F' and u.args[1] is self.Xa]
    Fy = [u for u in X.subterms(L) if u.op == 'F' and u.args[1] is self.Ya]
    if len(Fx) != 1 or len(Fy) != 1:
      self.und.append('several parameter sets')
      return
    R = X.add(L, Fx[0], X.neg(Fy[0]))
    left = [u for u in X.subterms(R) if u.op == 'F']
    p = X.as_poly(L)
    cx = p.get(((Fx[0], Fraction(1)),))
    cy = p.get(((Fy[0], Fraction(1)),))
    if left:
      ok = linear(s, L, Fx[0], Fy[0]) if cx is None and cy is None else None
      if ok:
        self.und.append('the ratio is bounded in a form that is not resolved')
      elif ok is None and cx is None and cy is None:
        self.und.append('target only inside nonlinear terms')
      elif cx is None or cy is None or cx != -1 or cy != 1:
        self.viol.append(('target', 'coefficients of the target terms are %s (proposed) and %s (current); expected 1 and -1' % (cy, cx)))
      else:
        self.und.append('target also occurs inside the proposal terms')
      return
    if Fx[0].args[0] is not Fy[0].args[0]:
      self.viol.append(('target', 'the two energies use different parameters'))
      return
    self.R = R
    self.ok = True

  def consistent(self):
    """accepted state == state whose energy is in the ratio."""
    Y, Ya = self.m.Y, self.Ya
    C = X.dim(self.m.s.C)
    if Y is Ya:
      return True
    from .. import lib
    if Ya.shape is not None and len(Ya.shape) == len(Y.shape) + 1:
      if X.onehot(Y, Y.shape, C) is Ya:
        return True
      try:
        if lib.argmax_t(Ya, len(Ya.shape) - 1) is Y:
          return True
      except Exception:
        pass
    return None

  def abstract(self, t):
    """Rewrite t over atoms X, Y and opaque auxiliary variables."""
    s = self.m.s
    Ya = self.Ya
    onehot = len(Ya.shape) == len(s.xt.shape) + 1
    C = X.dim(s.C)
    self.Yi = X.atom('y', s.xt.shape, lo=0, hi=X.sub(s.C, X.const(1)), isint=True, is01=X.is_const(s.C))
    YA = X.onehot(self.Yi, self.Yi.shape, C) if onehot else self.Yi
    XA = self.Xa
    if Ya.op == 'poly':
      if not onehot and X.is_const(s.C):
        # Y = X + d - 2 X d  =>  d = X + Y - 2 X Y
        p = X.as_poly(Ya)
        d = None
        for mm, c in p.items():
          if len(mm) == 1 and mm[0][0] is not XA and mm[0][0].is01:
            d = mm[0][0]
            sg = c
        if d is not None:
          flip = X.add(XA, d, X.scale(X.mul(XA, d), -2))
          keep = X.add(X.const(1), X.neg(XA), X.neg(d), X.scale(X.mul(XA, d), 2))
          v = X.add(XA, self.Yi, X.scale(X.mul(XA, self.Yi), -2))
          if Ya is keep:
            v = X.sub(X.const(1), v)
          elif Ya is not flip:
            return None
          mp = {d: v}
          if d.op == 'reshape':
            mp[d.args[0]] = X.reshape(v, v.shape, d.args[0].shape)
          return self.sub2(t, mp)
      elif onehot:
        return self.abs_cat(t, Ya, XA, YA)
      return None
    mp = {}
    base = Ya
    if Ya.op == 'reshape':
      base = Ya.args[0]
      mp[base] = X.reshape(YA, YA.shape, base.shape)
      self.row_lemma(base, X.reshape(YA, YA.shape, base.shape), mp)
    elif Ya.op == 'scatter_set':
      mp[Ya] = YA
      self.row_lemma(Ya, YA, mp)
    elif Ya.op == 'onehot' and onehot:
      base = Ya.args[0]
      mp[base] = self.Yi
      if base.op == 'reshape':
        b2 = base.args[0]
        mp[b2] = X.reshape(self.Yi, self.Yi.shape, b2.shape)
      self.site_lemma(base, mp)
    else:
      mp[Ya] = YA
    return self.sub2(t, mp)

  def sub2(self, t, mp):
    mp = self.views(mp)
    return X.subst(t, mp, opaque=lambda u: u not in mp and opaque(u) and not X.contains(u, set(mp)))

  def views(self, mp):
    s = self.m.s
    for k, v in list(mp.items()):
      while k.op == 'reshape':
        b = k.args[0]
        v = X.reshape(v, k.shape, b.shape)
        k = b
        mp.setdefault(k, v)
    B, D, C = s.B, X.dim(s.D), X.dim(s.C)
    views = [s.xt.shape, (B, D), s.xt.shape + (C,), (B, D, C)]
    for k, v in list(mp.items()):
      for sh in views:
        if k.shape is not None and sh != k.shape and X.dim_prod(sh) == X.dim_prod(k.shape):
          try:
            mp.setdefault(X.reshape(k, k.shape, sh), X.reshape(v, k.shape, sh))
          except Exception:
            pass
    return mp

  def row_lemma(self, sc, yv, mp):
    """Y = X with the (distinct) sites S replaced by drawn values V: V = Y[S]."""
    if sc.op != 'scatter_set':
      return
    from .. import lib
    src, key, val = sc.args
    if not has_draw(val) or val.shape is None:
      return
    k2 = tuple(':' if isinstance(k, tuple) and k and k[0] == 'sl' else k for k in key)
    ax = [i for i, k in enumerate(key) if k2[i] == ':']
    if any(key[i][1:] != (X.ZERO, X.lift(sc.shape[i])) for i in ax):
      return
    idx = [k for k in k2 if k != ':']
    if not any(u.op == 'topk_idx' for k in idx for u in [unresh(k)]):
      return
    g = lib.gather_t(yv, sc.shape, k2, val.shape, None)
    mp[val] = g

  def site_lemma(self, base, mp):
    """Y = X with one site S per row set to A: A and the old value as functions of (X, Y)."""
    sc = base if base.op == 'scatter_set' else (base.args[0] if base.op == 'reshape' and base.args[0].op == 'scatter_set' else None)
    if sc is None:
      return
    src, key, val = sc.args
    if len(key) != 2:
      return
    S = key[1]
    s = self.m.s
    C = s.C
    xf = X.reshape(s.xt, s.xt.shape, sc.shape)
    if src is not xf:
      return
    yf = X.reshape(self.Yi, self.Yi.shape, sc.shape)
    ne = X.ne(xf, yf)
    ax = len(sc.shape) - 1
    oldv = X.rsum(X.mul(ne, xf), sc.shape, (ax,))
    newv = X.rsum(X.mul(ne, yf), sc.shape, (ax,))
    if val.op == 'mod' and val.args[1] is C and S.op == 'fdiv' and S.args[1] is C and S.args[0] is val.args[0]:
      d = val.args[0]
      Sa = X.atom('site', S.shape, lo=0, hi=None, isint=True)
      mp[S] = Sa
      mp[val] = newv
      mp[d] = X.add(X.mul(Sa, C), newv)
      if d.op == 'reshape':
        b = d.args[0]
        mp[b] = X.reshape(mp[d], d.shape, b.shape)
        if b.op == 'transpose' and b.args[1] == (1, 0):
          from .. import lib
          mp[b.args[0]] = lib.transpose_t(mp[b], b.shape, (1, 0))
      self.lemma = (S, val, oldv, newv)

  def abs_cat(self, t, Ya, XA, YA):
    """Y = k*X + (1-k)*Z over one-hot rows (k: site kept)."""
    p = X.as_poly(Ya)
    Z = None
    k = None
    for mm, c in p.items():
      fs = [f for f, e in mm]
      if len(fs) == 1 and fs[0] is not XA:
        Z = fs[0]
      if len(fs) == 2 and XA in fs:
        k = fs[0] if fs[1] is XA else fs[1]
    if Z is None or k is None:
      return None
    form = None
    if Ya is X.add(X.mul(k, XA), Z, X.neg(X.mul(k, Z))):
      form = 'keep'
    if form is None:
      return None
    self.zp = (Z, XA, YA)

    def rule(q):
      d = {}
      for mm, c in X.as_poly(q).items():
        fs = [f for f, e in mm]
        if k in fs and Z in fs:
          rest = tuple((f, e) for f, e in mm if f is not k and f is not Z)
          rt = X.mk_poly({rest: c})
          r = X.mul(rt, X.add(Z, X.neg(YA), X.mul(k, XA)))
        elif k in fs and YA in fs:
          rest = tuple((f, e) for f, e in mm if f is not YA)
          r = X.mul(X.mk_poly({rest: c}), XA)
        else:
          r = X.mk_poly({mm: c})
        for m2, c2 in X.as_poly(r).items():
          d[m2] = d.get(m2, 0) + c2
      return X.mk_poly(d)
    self.catrule = rule
    return self.rewrite(t, rule)

  def rewrite(self, t, rule):
    """Bottom-up application of a polynomial rewrite rule."""
    memo = {}

    def sarg(a):
      if isinstance(a, T):
        return go(a)
      if isinstance(a, tuple):
        return tuple(sarg(z) for z in a)
      return a

    def go(u):
      r = memo.get(u)
      if r is not None:
        return r
      if opaque(u) or u.op == 'atom':
        r = u
      elif u.op == 'poly':
        u2 = rule(u)
        parts = []
        for mm, c in X.as_poly(u2).items():
          q = X.const(c)
          for f, e in mm:
            q = X.mul(q, X.power(go(f), e))
          parts.append(q)
        r = rule(X.add(*parts)) if parts else X.ZERO
      else:
        na = tuple(sarg(a) for a in u.args)
        r = u if na == u.args else X.rebuild(u.op, na, u)
        if r.op == 'poly':
          r = rule(r)
      memo[u] = r
      return r
    return go(t)

  def swapped(self, t, extra=None):
    xt, Yi = self.m.s.xt, self.Yi
    mp = {xt: Yi, Yi: xt}
    if extra:
      mp.update(extra)
    r = X.subst(t, mp, opaque=lambda u: u not in mp and opaque(u))
    if getattr(self, 'catrule', None):
      r = self.rewrite(r, self.catrule)
    return r

  def residuals(self, E=None):
    """Candidate residuals, one per way the auxiliary draws may be reversed.

    E is None: log-ratio(x,y) + log-ratio(y,x), zero iff the ratio is antisymmetric.
    E given (log-density of the draws): log-ratio + E - reversed E, zero iff the
    ratio is the log of the reverse over the forward proposal probability."""
    from .. import lib

    def res(a, e, ex=None):
      if E is None:
        return X.add(a, self.swapped(a, ex))
      return X.add(a, e, X.neg(self.swapped(e, ex)))
    a = self.abstract(self.R)
    if a is None:
      return None
    e = None
    if E is not None:
      e = self.abstract(E)
    self.RA = a
    out = [res(a, e)]
    if out[0] is X.ZERO:
      return out
    bases = [(a, e, {})]
    if getattr(self, 'zp', None):
      # drawn values: the reverse move draws the old value at every moved site
      Z, XA, YA = self.zp
      self.catrule = None
      a2 = self.sub2(self.R, {self.Ya: YA})
      e2 = self.sub2(E, {self.Ya: YA}) if E is not None else None
      for alt in (XA, X.node('zrev', (Z, XA, YA), Z.shape, True, True)):
        mp = self.views({Z: alt})
        bases.append((a2, e2, mp))
        out.append(res(a2, e2, mp))
    # a trajectory is walked back in the opposite order
    for a, e, zm in bases:
      od = [u for u in X.subterms(X.node('tup', (a, e) if e is not None else (a,), None))
            if u.op in ('topk_idx', 'argsort') and has_draw(u)]
      # the ranks of an ordering (its inverse permutation) follow from it
      od = [u for u in od if not any(v is not u and X.contains(u, {v}) for v in od)]
      if od:
        ex = {u: lib.flip_t(u, u.shape, len(u.shape) - 1) for u in od}
        ex.update(zm)
        out.append(res(a, e, ex))
        od = [u for u in od if u.op == 'argsort']
        if od and out[-1] is not X.ZERO:
          # only the moved sites are re-ordered; the others keep their places
          for end in ('head', 'tail'):
            ex = {u: X.node('rev' + end, (u, self.m.s.xt, self.Yi), u.shape, False, True) for u in od}
            ex.update(zm)
            out.append(res(a, e, ex))
    return out

  def residual(self):
    rs = self.residuals()
    if rs is None:
      return None
    for r in rs:
      if r is X.ZERO:
        return r
    return rs[-1]

  def names(self):
    from .. import valu
    import numpy as np
    Ya, s = self.Ya, self.m.s
    oh = len(Ya.shape) == len(s.xt.shape) + 1

    def y(e):
      v = e.full(Ya)
      if oh:
        if not np.allclose(v.sum(-1), 1) or not np.allclose(v * (1 - v), 0):
          raise valu.Unsup('proposed state is not one-hot')
        v = np.argmax(v, -1)
      return np.asarray(np.round(v)).astype(int)
    d = {'y': y}
    if s.mask:
      # the move touches unmasked sites only: keep fewer moves than unmasked sites
      def mask(e):
        v = np.ones(e.shp(s.xt.shape), int)
        v[..., -1] = 0
        return v
      d['xmask'] = mask
      d['st_radius'] = 1.7
    lm = getattr(self, 'lemma', None)
    if lm:
      d['site'] = lambda e: e.ev(lm[0])
    return d

  def verdict(self, E=None):
    """(status, detail) of the reversibility obligation."""
    from .. import valu
    rs = self.residuals(E)
    if rs is None:
      return None, 'the proposed state is not in a recognised form'
    if any(r is X.ZERO for r in rs):
      return True, 'residual has normal form 0'
    ms = []
    for r in rs:
      d, m = valu.differs(r, names=self.names())
      if d is False:
        return 'generic', m
      ms.append((d, m))
    if all(d is True for d, m in ms):
      if self.tangled():
        return None, 'a selection depends on the proposed state'
      return False, ms[-1][1]
    return None, '; '.join(m for d, m in ms)

  def tangled(self):
    """Random selections are kept when the roles are swapped: they must not depend on the proposed state."""
    zp = getattr(self, 'zp', None)
    Ya = self.Ya

    def dep(v):
      return v is Ya or (v.op in ('F', 'G') and v.args[1] is Ya) or (zp is not None and v is zp[0])
    return any(opaque(u) and u.op != 'draw' and u is not Ya and X.contains(u, dep) for u in X.subterms(self.R))

  def density(self):
    """Per-chain log-probability of the random choices that made the proposal, or (None, why)."""
    s = self.m.s
    Ya = self.Ya
    tot = []
    done = set()
    seen = []
    self.kinds = []

    def rows(t):
      if t.shape is None or not t.shape or t.shape[0] is not s.B and t.shape[0] != s.B:
        return None
      if len(t.shape) == 1:
        return t
      return X.rsum(t, t.shape, tuple(range(1, len(t.shape))))

    draws = []
    etas = []

    def visit(u):
      if u in done:
        return
      done.add(u)
      if u.op == 'eta' and has_draw(u):
        etas.append(u)
        return
      if u.op == 'draw':
        draws.append(u)
        return
      for c in X.children(u):
        visit(c)
    # key terms inside parameters are not proposal choices of their own: stop at draws
    visit(Ya)
    # nested draws in parameters (e.g. value logits gathered at drawn sites) are separate choices
    k = 0
    while k < len(draws):
      for a in draws[k].args[2:-1]:
        if isinstance(a, T):
          visit(a)
      k += 1
    allsub = list(X.subterms(Ya)) + [v for d in draws for a in d.args[2:-1] if isinstance(a, T) for v in X.subterms(a)]
    for d in draws:
      kind = d.args[0]
      if kind == 'bernoulli':
        pr = d.args[2]
        t = X.add(X.mul(d, X.log(pr)), X.mul(X.sub(X.const(1), d), X.log(X.sub(X.const(1), pr))))
        t = X.bcast(t, d.shape)
      elif kind == 'categorical':
        lg, ax, n = d.args[2:5]
        if ax != -1 or lg.shape is None:
          return None, 'categorical axis'
        ls = X.sub(lg, X.expand(X.lse(lg, lg.shape, (len(lg.shape) - 1,)), len(lg.shape) - 1, len(lg.shape) - 1))
        oh = X.onehot(d, d.shape, n)
        prod = X.mul(oh, ls)
        full = d.shape + (X.dim(n),)
        t = X.rsum(prod, full, (len(full) - 1,))
        t = X.bcast(t, d.shape)
        if len(d.shape) > 1 and d.shape[0] != s.B and d.shape[1] == s.B:
          t = X.rsum(t, d.shape, (0,))
        zp = getattr(self, 'zp', None)
        if zp and X.contains(zp[0], {d}):
          # a value drawn for a site that is not moved is discarded
          mv = X.node('moved', (zp[1], zp[2]), zp[1].shape[:-1], True, True)
          t = X.mul(X.reshape(mv, mv.shape, d.shape), t)
      elif kind == 'uniform':
        t, why = self.uniform_use(d, allsub)
        if t is None:
          return None, why
      else:
        return None, 'draw kind %s' % kind
      self.kinds.append(kind)
      r = rows(t)
      if r is None:
        return None, 'draw not per chain'
      tot.append(r)
    for e in etas:
      nx = e.args[4]
      cs = [u for u in X.subterms(nx) if isinstance(u, T) and u.op == 'draw']
      if len(cs) != 1 or cs[0].args[0] != 'categorical' or cs[0].args[3] != -1:
        return None, 'loop draws'
      lg = cs[0].args[2]
      if lg.shape != e.shape:
        return None, 'loop counts shape'
      ls = X.sub(lg, X.expand(X.lse(lg, lg.shape, (len(lg.shape) - 1,)), len(lg.shape) - 1, len(lg.shape) - 1))
      self.kinds.append('categorical-counts')
      tot.append(rows(X.mul(e, ls)))
    if not tot:
      return None, 'no random choice in the proposal'
    return strip_eps(X.add(*tot)), ''

  def uniform_use(self, d, allsub):
    """How a uniform draw is used: threshold (Bernoulli) or Gumbel noise (Plackett-Luce)."""
    from .. import lib
    gum = X.log(X.neg(X.log(d)))
    for u in allsub:
      if u.op in ('topk_idx', 'sort', 'argsort') and X.contains(u.args[0], {d}):
        p = u.args[0]
        cf = X.as_poly(p).get(((gum, Fraction(1)),))
        if cf is None:
          return None, 'noise is not Gumbel'
        loc = X.sub(p, X.scale(gum, cf))
        if cf == 1:
          p, loc = X.neg(p), X.neg(loc)
        elif cf != -1:
          return None, 'scaled noise'
        if X.contains(loc, {d}):
          return None, 'noise reused'
        self.kinds.append('gumbel')
        if u.op == 'topk_idx':
          return X.node('pltop', (X.bcast(loc, p.shape), u), (p.shape[0],)), ''
        desc = lib.argsort_t(X.neg(p), len(p.shape) - 1, p.shape)
        return X.node('plsel', (X.bcast(loc, p.shape), desc, self.m.s.xt, self.Yi), (p.shape[0],)), ''
    for u in allsub:
      if u.op == 'lt0' and X.contains(u.args[0], {d}):
        for m, c in X.as_poly(u.args[0]).items():
          if len(m) != 1 or m[0][1] != 1:
            continue
          f = m[0][0]
          lin = f is d
          if not lin and not (f.op == 'log' and strip_eps(f) is X.log(d)):
            continue
          rest = X.sub(u.args[0], X.mk_poly({m: c}))
          if X.contains(rest, {d}):
            return None, 'uniform reused'
          b = X.scale(rest, -1 / c)
          lp = X.log(b) if lin else b
          lp = X.minimum(lp, X.ZERO)
          l1 = X.log(X.sub(X.const(1), X.exp(lp)))
          if c < 0:
            lp, l1 = l1, lp
          t = X.add(X.mul(u, lp), X.mul(X.sub(X.const(1), u), l1))
          return X.bcast(t, u.shape), ''
    return None, 'use of a uniform draw not recognised'
