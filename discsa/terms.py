"""Term algebra: the abstract value domain of the analysis.

A term is a hash-consed expression over atoms (program inputs, symbolic
dimensions, random draws).  Every constructor returns a normal form, so that two
program points that compute the same value in two different ways (helper
extracted, statements reordered, `where` written as arithmetic, expand_dims
written as [None], method or function spelling, ...) get the same term.
Elementwise arithmetic is kept as polynomials with rational coefficients.
No solver and no execution of the analysed program is involved.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class T:
  __slots__ = ('op', 'args', 'shape', 'id', 'is01', 'isint', '_free', '_rng', 'meta')

  def __repr__(self):
    return show(self)

  def __hash__(self):
    return self.id

  def __eq__(self, o):
    return self is o

  def __lt__(self, o):
    return self.id < o.id


def _mk(op, args, shape, is01=False, isint=False, meta=None, ident=None):
  key = (op, args) if ident is None else (op, args, ident)
  t = _TABLE.get(key)
  if t is None:
    t = T()
    t.op, t.args, t.shape = op, args, shape
    _COUNT[0] += 1
    t.id = _COUNT[0]
    t.is01, t.isint = is01, isint or is01
    t._free = None
    t._rng = None
    t.meta = meta
    _TABLE[key] = t
  return t


def stats():
  return len(_TABLE)


# ---------------------------------------------------------------- constants
def frac(v):
  if isinstance(v, bool):
    return Fraction(int(v))
  if isinstance(v, int):
    return Fraction(v)
  if isinstance(v, Fraction):
    return v
  if isinstance(v, float):
    if math.isinf(v) or math.isnan(v):
      return None
    return Fraction(repr(v))
  return None


def const(v):
  f = frac(v)
  if f is None:
    return _mk('special', (repr(v),), ())
  if f == 0:
    return ZERO
  return _mk('poly', (((), f),), (), is01=f in (0, 1), isint=f.denominator == 1)


ZERO = _mk('poly', (), (), True, True)
NEGINF = _mk('special', ('-inf',), ())
POSINF = _mk('special', ('inf',), ())


def is_const(t):
  return t.op == 'poly' and (not t.args or (len(t.args) == 1 and t.args[0][0] == ()))


def const_val(t):
  if t.op != 'poly':
    return None
  if not t.args:
    return Fraction(0)
  if len(t.args) == 1 and t.args[0][0] == ():
    return t.args[0][1]
  return None


def atom(name, shape=(), lo=None, hi=None, isint=False, is01=False, **meta):
  t = _mk('atom', (name,), shape, is01, isint, ident=(shape, lo, hi, is01, isint))
  if t.meta is None:
    t.meta = dict(meta)
    if is01:
      lo, hi = 0, 1
    t.meta['lo'] = lo
    t.meta['hi'] = hi
  return t


# ---------------------------------------------------------------- dims
def dim(t):
  """Dimension in canonical form: python int or T."""
  if isinstance(t, bool):
    return int(t)
  if isinstance(t, int):
    return t
  if isinstance(t, T):
    c = const_val(t)
    if c is not None and c.denominator == 1:
      return int(c)
    return t
  return t


def lift(v):
  return v if isinstance(v, T) else const(v)


def dim_mul(a, b):
  if isinstance(a, int) and isinstance(b, int):
    return a * b
  return dim(mul(lift(a), lift(b)))


def dim_prod(ds):
  r = 1
  for d in ds:
    r = dim_mul(r, d)
  return r


def dim_div(a, b):
  """Exact quotient of dims or None."""
  if a == b:
    return 1
  if isinstance(a, int) and isinstance(b, int):
    return a // b if b and a % b == 0 else None
  pa, pb = as_poly(lift(a)), as_poly(lift(b))
  if len(pb) != 1:
    # a = q*b with q integer constant or a==b
    if len(pa) == len(pb) and pa:
      (m0, c0) = next(iter(sorted(pa.items(), key=lambda kv: [x[0].id for x in kv[0]])))
      if m0 in pb:
        q = c0 / pb[m0]
        if all(m in pb and pb[m] * q == c for m, c in pa.items()):
          return dim(const(q))
    # maybe a == b * something: try factor out by single atom division
    return _poly_div(pa, pb)
  (mb, cb), = pb.items()
  out = {}
  db = dict(mb)
  for m, c in pa.items():
    d = dict(m)
    for f, e in db.items():
      if d.get(f, 0) < e:
        return None
      d[f] -= e
      if d[f] == 0:
        del d[f]
    out[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c / cb
  return dim(mk_poly(out))


def _poly_div(pa, pb):
  """Exact multivariate polynomial division, small inputs only."""
  key = lambda m: (sum(e for _, e in m), [(f.id, e) for f, e in m])
  rem = dict(pa)
  out = {}
  lb = max(pb, key=key)
  for _ in range(20):
    if not rem:
      return dim(mk_poly(out))
    la = max(rem, key=key)
    d = dict(la)
    for f, e in lb:
      if d.get(f, 0) < e:
        return None
      d[f] -= e
      if d[f] == 0:
        del d[f]
    q = tuple(sorted(d.items(), key=lambda x: x[0].id))
    c = rem[la] / pb[lb]
    out[q] = out.get(q, 0) + c
    for m, cb in pb.items():
      mm = _mono_mul(q, m)
      rem[mm] = rem.get(mm, 0) - c * cb
      if rem[mm] == 0:
        del rem[mm]
  return None


def bshape(a, b):
  """Broadcast of two shapes; None when unknown or incompatible (flag)."""
  if a is None or b is None:
    return None
  if a == b:
    return a
  n = max(len(a), len(b))
  a2 = (1,) * (n - len(a)) + tuple(a)
  b2 = (1,) * (n - len(b)) + tuple(b)
  out = []
  for x, y in zip(a2, b2):
    if x == y:
      out.append(x)
    elif x == 1:
      out.append(y)
    elif y == 1:
      out.append(x)
    else:
      # unequal symbolic dims: cannot both be right unless equal at run time
      out.append(x if isinstance(x, T) else y)
  return tuple(out)


def shapes_conflict(a, b):
  if a is None or b is None:
    return False
  for x, y in zip(reversed(a), reversed(b)):
    if x != 1 and y != 1 and x != y:
      return True
  return False


# ---------------------------------------------------------------- polynomials
def as_poly(t):
  if t.op == 'poly':
    return dict(t.args)
  return {((t, Fraction(1)),): Fraction(1)}


def _norm_exp(e):
  return e if isinstance(e, Fraction) else Fraction(e)


MAXMONO = 400


def _mono_mul(a, b):
  d = {}
  expo = None
  for m in (a, b):
    for f, e in m:
      if f.op == 'exp':
        p = f.args[0]
        if e != 1:
          p = scale(p, e)
        expo = p if expo is None else add(expo, p)
      else:
        d[f] = d.get(f, Fraction(0)) + e
  if expo is not None:
    c = const_val(expo)
    if c == 0:
      pass
    else:
      d[_mk('exp', (expo,), expo.shape)] = Fraction(1)
  out = []
  for f, e in d.items():
    if e == 0:
      continue
    if f.is01 and e > 0:
      e = Fraction(1)
    if f.op == 'sign' and e > 0 and e.denominator == 1:
      pass
    out.append((f, _norm_exp(e)))
  out.sort(key=lambda x: x[0].id)
  return tuple(out)


def _excl(m):
  """True when the monomial is identically 0 (exclusive indicators)."""
  return False


def mk_poly(d):
  items = [(m, c) for m, c in d.items() if c != 0]
  if not items:
    return ZERO
  if len(items) == 1 and items[0][1] == 1 and len(items[0][0]) == 1 and items[0][0][0][1] == 1:
    return items[0][0][0][0]
  items.sort(key=lambda mc: (len(mc[0]), [(f.id, e) for f, e in mc[0]]))
  shape = ()
  isint = True
  for m, c in items:
    if c.denominator != 1:
      isint = False
    for f, e in m:
      shape = bshape(shape, f.shape)
      if not f.isint or e.denominator != 1 or e < 0:
        isint = False
  is01 = False
  if len(items) == 1:
    m, c = items[0]
    is01 = c == 1 and all(f.is01 for f, _ in m)
  elif len(items) == 2 and isint:
    (m1, c1), (m2, c2) = items
    if m1 == () and c1 == 1 and c2 == -1 and all(f.is01 for f, _ in m2):
      is01 = True
  if not is01 and isint and 2 <= len(items) <= 8:
    is01 = _check01(items)
  return _mk('poly', tuple(items), shape, is01, isint)


def _check01(items):
  """All factors are indicators: is the multilinear polynomial 0/1 valued?"""
  fs = []
  for m, _ in items:
    for f, _e in m:
      if not f.is01:
        return False
      if f not in fs:
        fs.append(f)
  if len(fs) > 5:
    return False
  for mask in range(1 << len(fs)):
    v = 0
    on = {f for i, f in enumerate(fs) if mask >> i & 1}
    for m, c in items:
      if all(f in on for f, _ in m):
        v += c
    if v not in (0, 1):
      return False
  return True


def add(*ts):
  d = {}
  for t in ts:
    t = lift(t)
    for m, c in as_poly(t).items():
      n = d.get(m, 0) + c
      if n == 0:
        d.pop(m, None)
      else:
        d[m] = n
  return mk_poly(d)


def scale(t, c):
  c = frac(c)
  if c == 0:
    return ZERO
  return mk_poly({m: k * c for m, k in as_poly(lift(t)).items()})


def neg(t):
  return scale(t, -1)


def sub(a, b):
  return add(a, neg(b))


def mul(*ts):
  r = None
  for t in ts:
    t = lift(t)
    if r is None:
      r = t
      continue
    pa, pb = as_poly(r), as_poly(t)
    if len(pa) * len(pb) > MAXMONO:
      # keep as opaque product
      if len(pa) > 1:
        r = _mk('opq', (r,), r.shape, r.is01, r.isint)
      if len(pb) > 1:
        t = _mk('opq', (t,), t.shape, t.is01, t.isint)
      pa, pb = as_poly(r), as_poly(t)
    d = {}
    for m1, c1 in pa.items():
      for m2, c2 in pb.items():
        m = _mono_mul(m1, m2)
        n = d.get(m, 0) + c1 * c2
        if n == 0:
          d.pop(m, None)
        else:
          d[m] = n
    r = mk_poly(d)
  return r if r is not None else const(1)


def power(t, e):
  t = lift(t)
  if isinstance(e, T):
    c = const_val(e)
    if c is None:
      return _mk('pow', (t, e), bshape(t.shape, e.shape), False, t.isint and e.isint)
    e = c
  e = frac(e)
  if e == 0:
    return const(1)
  if e == 1:
    return t
  p = as_poly(t)
  if len(p) == 1:
    (m, c), = p.items()
    if e.denominator == 1 or c == 1 or (c > 0 and _rootable(c, e)):
      cc = c ** e if e.denominator == 1 else (Fraction(1) if c == 1 else _root(c, e))
      mm = []
      expo = None
      for f, k in m:
        if f.op == 'exp':
          expo = scale(f.args[0], k * e)
        elif f.is01 and k * e > 0:
          mm.append((f, Fraction(1)))
        else:
          mm.append((f, k * e))
      if expo is not None and const_val(expo) != 0:
        mm.append((_mk('exp', (expo,), expo.shape), Fraction(1)))
      mm.sort(key=lambda x: x[0].id)
      return mk_poly({tuple(mm): cc})
    return mk_poly({((_mk('opq', (t,), t.shape), e),): Fraction(1)})
  if e.denominator == 1 and 0 < e <= 4 and len(p) ** int(e) <= MAXMONO:
    r = t
    for _ in range(int(e) - 1):
      r = mul(r, t)
    return r
  # opaque base; pull out numeric content so that (2a+2b)^-1 == (a+b)^-1/2
  g = _content(p)
  base = mk_poly({m: c / g for m, c in p.items()})
  o = _mk('opq', (base,), base.shape, base.is01, base.isint)
  if e.denominator != 1:
    if g < 0 or not _rootable(g, e):
      o = _mk('opq', (t,), t.shape)
      return mk_poly({((o, e),): Fraction(1)})
    return mk_poly({((o, e),): _root(g, e)})
  return mk_poly({((o, e),): g ** int(e)})


def _content(p):
  items = sorted(p.items(), key=lambda mc: (len(mc[0]), [(f.id, e) for f, e in mc[0]]))
  num = 0
  den = 1
  for _, c in items:
    num = math.gcd(num, abs(c.numerator))
    den = den * c.denominator // math.gcd(den, c.denominator)
  g = Fraction(num, den)
  if items[-1][1] < 0:
    g = -g
  return g


def _root(c, e):
  n = round(float(c.numerator) ** float(1 / e.denominator))
  d = round(float(c.denominator) ** float(1 / e.denominator))
  return Fraction(n, d) ** e.numerator


def _rootable(c, e):
  if c <= 0:
    return False
  n = round(float(c.numerator) ** float(1 / e.denominator))
  d = round(float(c.denominator) ** float(1 / e.denominator))
  return n ** e.denominator == c.numerator and d ** e.denominator == c.denominator


def div(a, b):
  a, b = lift(a), lift(b)
  pb = as_poly(b)
  pa = as_poly(a)
  if len(pb) > 1 and pa and b.shape == ():
    q = dim_div(a, b)
    if q is not None:
      return lift(q)
  return mul(a, power(b, -1))


def opq_inner(t):
  return t.args[0] if t.op == 'opq' else t


# ---------------------------------------------------------------- elementwise
def lead_sign(t):
  """Sign of the leading coefficient (deterministic), for canonical signs."""
  p = as_poly(t)
  items = sorted((mc for mc in p.items() if mc[0] != ()),
                 key=lambda mc: (len(mc[0]), [(f.id, e) for f, e in mc[0]]))
  if not items:
    items = list(p.items())
  if not items:
    return 0
  return 1 if items[-1][1] > 0 else -1


def exp(t):
  t = lift(t)
  c = const_val(t)
  if c == 0:
    return const(1)
  if _inf_sign(t) < 0:
    return ZERO
  # pull logs out
  p = as_poly(t)
  rest = {}
  fac = const(1)
  for m, c in p.items():
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'log':
      fac = mul(fac, power(m[0][0].args[0], c))
    else:
      rest[m] = c
  r = mk_poly(rest)
  if not rest:
    return fac
  e = _mk('exp', (r,), r.shape)
  return mul(fac, e)


def _inf_sign(t):
  """Sign of an infinite summand of t, or 0."""
  for m, c in as_poly(t).items():
    if len(m) == 1 and m[0][1] == 1:
      f = m[0][0]
      if f is NEGINF:
        return -1 if c > 0 else 1
      if f is POSINF:
        return 1 if c > 0 else -1
  return 0


def log(t):
  t = lift(t)
  c = const_val(t)
  if c == 1:
    return ZERO
  if c == 0:
    return NEGINF
  p = as_poly(t)
  if len(p) == 1:
    (m, c), = p.items()
    ex = None
    rest = []
    for f, e in m:
      if f.op == 'exp':
        ex = scale(f.args[0], e)
      else:
        rest.append((f, e))
    if ex is not None:
      r = mk_poly({tuple(rest): c})
      return add(ex, log(r)) if const_val(r) != 1 else ex
    if len(m) == 1 and m[0][1] != 1 and c == 1:
      return scale(log(m[0][0] if m[0][0].op != 'opq' else m[0][0].args[0]), m[0][1])
    out = []
    keep = []
    for f, e in m:
      if spos(f):
        out.append(scale(log(opq_inner(f)) if (len(m) > 1 or abs(c) != 1 or f.op == 'opq') else _mk('log', (f,), f.shape), e))
      else:
        keep.append((f, e))
    sg = 1 if c > 0 else -1
    if abs(c) != 1 and c != 0:
      out.append(_logc(abs(c)))
    if out:
      r = mk_poly({tuple(keep): Fraction(sg)})
      if const_val(r) == 1:
        return add(*out)
      return add(_mk('log', (r,), r.shape), *out)
  return _mk('log', (t,), t.shape)


def _logc(c):
  """log of a positive rational, over the primes."""
  out = []
  for n, sg in ((c.numerator, 1), (c.denominator, -1)):
    q = 2
    if n > 10**12:
      k = 0
      while n % 10 == 0:
        n //= 10
        k += 1
      if k:
        out.append(scale(_logc(Fraction(10)), sg * k))
    while n > 1 and q * q <= n and q < 10**4:
      e = 0
      while n % q == 0:
        n //= q
        e += 1
      if e:
        out.append(scale(_mk('log', (const(q),), ()), sg * e))
      q += 1
    if n > 1:
      out.append(scale(_mk('log', (const(n),), ()), sg))
  return add(*out) if out else ZERO


def spos(t):
  """Strictly positive by structure (elementwise)."""
  c = const_val(t)
  if c is not None:
    return c > 0
  op = t.op
  if op == 'exp':
    return True
  if op == 'atom':
    lo = t.meta.get('lo')
    if t.meta.get('pos'):
      return True
    if lo is None:
      return False
    lo = const_val(lift(lo))
    return lo is not None and lo > 0
  if op in ('sum', 'reshape', 'bcast', 'opq', 'elem', 'gather', 'transpose'):
    return isinstance(t.args[0], T) and spos(t.args[0])
  if op == 'softplus':
    return True
  if op == 'poly':
    return all(c > 0 and all(spos(f) for f, _ in m) for m, c in t.args)
  return False


def relu(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(max(c, 0))
  if t.is01:
    return t
  s = lead_sign(t)
  if s < 0:
    n = neg(t)
    if n.is01:
      return ZERO
    return add(relu(n), t)
  r = rng(t)
  if r[0] is not None and nonneg(r[0]):
    return t
  if r[1] is not None and nonneg(neg(r[1])):
    return ZERO
  d = dominated(t)
  if d > 0:
    return t
  if d < 0:
    return ZERO
  return _mk('relu', (t,), t.shape, False, t.isint)


def dominated(t):
  """+1 if t = lse(u) - u (>= 0) up to a positive scale, -1 if t = u - lse(u)."""
  if t.op in ('gather', 'elem', 'reshape', 'bcast', 'slice', 'flip', 'transpose') and isinstance(t.args[0], T):
    return dominated(t.args[0])
  p = as_poly(t)
  if len(p) == 1:
    (m, c), = p.items()
    if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('gather', 'elem', 'flip', 'transpose'):
      d = dominated(m[0][0].args[0])
      return d if c > 0 else -d
  for m, c in p.items():
    if len(m) != 1 or m[0][1] != 1:
      continue
    f = m[0][0]
    while f.op in ('reshape', 'bcast'):
      f = f.args[0]
    if f.op == 'lse':
      u = f.args[0]
      rest = mk_poly({k: v / -c for k, v in p.items() if k != m})
      if rest is u or (u.op == 'bcast' and rest is u.args[0]) or rest is strip_bcast(u):
        return 1 if c > 0 else -1
      axs = f.args[1]
      if len(axs) > 1 and u.shape is not None:
        for k in range(1, 1 << len(axs)):
          sub_ = tuple(a for i, a in enumerate(axs) if k >> i & 1)
          if len(sub_) == len(axs):
            continue
          q = lse(u, u.shape, sub_)
          if q is rest:
            return 1 if c > 0 else -1
          if rest.shape is not None and q.shape is not None and q.shape != rest.shape:
            try:
              if reshape(q, q.shape, rest.shape) is rest:
                return 1 if c > 0 else -1
            except Exception:
              pass
      if u.shape is not None and rest.shape is not None and u.shape != rest.shape:
        try:
          if reshape(u, u.shape, rest.shape) is rest:
            return 1 if c > 0 else -1
        except Exception:
          pass
  return 0


def strip_bcast(u):
  return u.args[0] if u.op == 'bcast' else u


def maximum(a, b):
  a, b = lift(a), lift(b)
  if a is b:
    return a
  return add(a, relu(sub(b, a)))


def minimum(a, b):
  a, b = lift(a), lift(b)
  if a is b:
    return a
  return sub(b, relu(sub(b, a)))


def softplus(t):
  t = lift(t)
  if lead_sign(t) < 0:
    n = neg(t)
    return add(_mk('softplus', (n,), n.shape), t)
  return _mk('softplus', (t,), t.shape)


def tabs(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(abs(c))
  if t.is01:
    return t
  if _inf_sign(t):
    return POSINF
  if lead_sign(t) < 0:
    t = neg(t)
  r = rng(t)
  if r[0] is not None and nonneg(r[0]):
    return t
  return _mk('abs', (t,), t.shape, False, t.isint)


def lt0(t):
  """Indicator t < 0."""
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(1 if c < 0 else 0)
  lo, hi = rng(t)
  if lo is not None and nonneg(lo):
    return ZERO
  if hi is not None and pos(neg(hi)):
    return const(1)
  if t.shape == () and pos(neg(t)):
    return const(1)
  if t.op == 'poly' and len(t.args) > 1 or t.op == 'poly':
    g = abs(_content(as_poly(t)))
    if g != 1 and g != 0:
      t = scale(t, 1 / g)
  # indicator variable thresholds: b - c < 0
  fs = _single01(t)
  if fs is not None:
    f, k, c0 = fs
    v0, v1 = c0 < 0, c0 + k < 0
    if v0 == v1:
      return const(int(v0))
    return f if v1 else sub(const(1), f)
  r = _multi01(t, lambda v: v < 0)
  if r is not None:
    return r
  return _mk('lt0', (t,), t.shape, True, True)


def _multi01(t, pred):
  """The predicate of a polynomial over two to four 0/1 variables, as a multilinear polynomial."""
  p = as_poly(t)
  fs = []
  for m, c in p.items():
    for f, e in m:
      if e != 1 or not f.is01:
        return None
      if f not in fs:
        fs.append(f)
        if len(fs) > 4:
          return None
  n = len(fs)
  if n < 2:
    return None
  ms = [(sum(1 << fs.index(f) for f, e in m), c) for m, c in p.items()]
  co = []
  for a in range(1 << n):
    v = int(bool(pred(sum(c for q, c in ms if q & a == q))))
    co.append(v - sum(co[b] for b in range(a) if b & a == b))
  out = ZERO
  for a in range(1 << n):
    if co[a]:
      q = const(co[a])
      for i in range(n):
        if a >> i & 1:
          q = mul(q, fs[i])
      out = add(out, q)
  return out


def _single01(t):
  p = as_poly(t)
  f = None
  k = c0 = Fraction(0)
  for m, c in p.items():
    if m == ():
      c0 = c
    elif len(m) == 1 and m[0][0].is01 and m[0][1] == 1:
      if f is not None:
        return None
      f, k = m[0][0], c
    else:
      return None
  return (f, k, c0) if f is not None else None


def eq0(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(1 if c == 0 else 0)
  fs = _single01(t)
  if fs is not None:
    f, k, c0 = fs
    v0, v1 = c0 == 0, c0 + k == 0
    if v0 == v1:
      return const(int(v0))
    return f if v1 else sub(const(1), f)
  r = _multi01(t, lambda v: v == 0)
  if r is not None:
    return r
  lo, hi = rng(t)
  if lo is not None and pos(lo):
    return ZERO
  if hi is not None and pos(neg(hi)):
    return ZERO
  p = as_poly(t)
  g = _content(p)
  if g != 1:
    t = mk_poly({m: c / g for m, c in p.items()})
  return _mk('eq0', (t,), t.shape, True, True)


def lt(a, b):
  return lt0(sub(a, b))


def le(a, b):
  return sub(const(1), lt0(sub(b, a)))


def eq(a, b):
  return eq0(sub(a, b))


def ne(a, b):
  return sub(const(1), eq(a, b))


def lnot(a):
  return sub(const(1), tobool(a))


def land(a, b):
  return mul(tobool(a), tobool(b))


def lor(a, b):
  a, b = tobool(a), tobool(b)
  return sub(add(a, b), mul(a, b))


def tobool(a):
  a = lift(a)
  return a if a.is01 else sub(const(1), eq0(a))


def where(c, a, b):
  c, a, b = tobool(c), lift(a), lift(b)
  k = const_val(c)
  if k is not None:
    return a if k != 0 else b
  if a is b:
    return a
  return add(b, mul(c, sub(a, b)))


def fn1(name, t, is01=False, isint=False):
  t = lift(t)
  return _mk(name, (t,), t.shape, is01, isint)


def sign(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const((c > 0) - (c < 0))
  return fn1('sign', t, isint=True)


def rnd(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(round(c))
  return t if t.isint else fn1('round', t, isint=True)


def floor(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(math.floor(c))
  return t if t.isint else fn1('floor', t, isint=True)


def ceil(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(math.ceil(c))
  return t if t.isint else fn1('ceil', t, isint=True)


def trunc(t):
  t = lift(t)
  c = const_val(t)
  if c is not None:
    return const(int(c))
  if t.isint:
    return t
  c = const_val(t)
  if c is not None:
    return const(int(c))
  return fn1('trunc', t, isint=True)


def mod(a, b):
  a, b = lift(a), lift(b)
  ca, cb = const_val(a), const_val(b)
  if ca is not None and cb is not None and cb != 0:
    return const(ca % cb)
  if b.shape == () and cb is None or (cb is not None and cb > 0):
    # drop multiples of the modulus
    if a.isint and b.isint:
      p = as_poly(a)
      d = {}
      for m, c in p.items():
        q = dim_div(mk_poly({m: c}), b) if (m != () or cb) else None
        if q is not None and isinstance(lift(q), T) and lift(q).isint:
          continue
        d[m] = c
      # nested mod
      dd = {}
      for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'mod' and m[0][0].args[1] is b and c.denominator == 1:
          for m2, c2 in as_poly(m[0][0].args[0]).items():
            dd[m2] = dd.get(m2, 0) + c * c2
        else:
          dd[m] = dd.get(m, 0) + c
      a = mk_poly(dd)
    lo, hi = rng(a)
    if lo is not None and hi is not None and nonneg(lo) and pos(sub(b, hi)):
      return a
  return _mk('mod', (a, b), bshape(a.shape, b.shape), False, a.isint and b.isint)


def fdiv(a, b):
  a, b = lift(a), lift(b)
  ca, cb = const_val(a), const_val(b)
  if ca is not None and cb:
    return const(ca // cb)
  if cb == 1 and a.isint:
    return a
  q = dim_div(a, b) if a.isint and b.isint and a.shape == () else None
  if q is not None:
    return lift(q)
  return _mk('fdiv', (a, b), bshape(a.shape, b.shape), False, True)


# ---------------------------------------------------------------- structural ops
def node(op, args, shape, is01=False, isint=False):
  return _mk(op, tuple(args), shape, is01, isint)


def rank(t):
  return None if t.shape is None else len(t.shape)


def bcast(t, shape):
  t = lift(t)
  if shape is None or t.shape == shape:
    return t
  if t.op == 'bcast':
    t = t.args[0]
    if t.shape == shape:
      return t
  return _mk('bcast', (t, tuple(shape)), tuple(shape), t.is01, t.isint)


def expand(t, ax, R):
  """Insert a new axis at `ax` of the (rank R+1) result; t is right aligned
  within rank R."""
  t = lift(t)
  if t.shape is None:
    return _mk('expand?', (t, ax), None, t.is01, t.isint)
  r = len(t.shape)
  la = ax - (R - r)
  if la <= 0:
    return t
  if t.op in ELEMWISE:
    return remap(t, lambda u: expand(u, ax, R))
  if t.op == 'bcast':
    return bcast(expand(t.args[0], ax, R), t.shape[:la] + (1,) + t.shape[la:])
  sh = t.shape[:la] + (1,) + t.shape[la:]
  if t.op == 'reshape':
    return reshape_leaf(t.args[0], sh)
  return reshape_leaf(t, sh)


ELEMWISE = {'poly', 'opq', 'exp', 'log', 'relu', 'softplus', 'abs', 'lt0', 'eq0', 'sign', 'round',
            'floor', 'ceil', 'trunc', 'mod', 'fdiv', 'pow', 'lgamma', 'tanh', 'sin', 'cos', 'fn'}


def remap(t, f):
  """Rebuild an elementwise term with f applied to its immediate operands."""
  o = t.op
  if o == 'poly':
    out = {}
    res = ZERO
    parts = []
    cache = {}
    for m, c in t.args:
      r = const(c)
      for u, e in m:
        if u not in cache:
          cache[u] = f(u)
        r = mul(r, power(cache[u], e))
      parts.append(r)
    return add(*parts) if parts else ZERO
  return REBUILD[o](*[f(a) if isinstance(a, T) else a for a in t.args])


def leaves_full(t, shape):
  """True when every non-scalar operand of the elementwise term has `shape`."""
  if t.op in ELEMWISE:
    if t.op == 'poly':
      return all(leaves_full(u, shape) for m, _ in t.args for u, _ in m)
    return all(leaves_full(a, shape) for a in t.args if isinstance(a, T))
  return t.shape == () or t.shape == shape


def dims_groups(src, dst):
  """Split a reshape into groups [(src idxs, dst idxs)] with equal products."""
  groups = []
  i = j = 0
  n, m = len(src), len(dst)
  while i < n or j < m:
    gi, gj = [], []
    if i < n:
      gi.append(i)
      pa = src[i]
      i += 1
    else:
      pa = 1
    if j < m:
      gj.append(j)
      pb = dst[j]
      j += 1
    else:
      pb = 1
    k = 0
    while pa != pb:
      k += 1
      if k > 30:
        return None
      # extend the side that divides the other
      if i < n and dim_div(pb, pa) is not None:
        pa = dim_mul(pa, src[i])
        gi.append(i)
        i += 1
      elif j < m and dim_div(pa, pb) is not None:
        pb = dim_mul(pb, dst[j])
        gj.append(j)
        j += 1
      else:
        return None
    groups.append((gi, gj))
  return groups


def reshape_leaf(t, shape):
  if t.shape == shape:
    return t
  while t.op == 'reshape':
    t = t.args[0]
    if t.shape == shape:
      return t
  if t.op == 'bcast' and t.args[0].shape == ():
    return bcast(t.args[0], shape)
  return _mk('reshape', (t, shape), shape, t.is01, t.isint)


def reshape(t, full, shape):
  """Reshape of the term t viewed with shape `full` (t may be broadcast)."""
  t = lift(t)
  shape = tuple(shape)
  if t.shape is None or full is None:
    return _mk('reshape?', (t, shape), shape, t.is01, t.isint)
  if full == shape:
    return t
  if t.shape == ():
    return t
  if t.op in ELEMWISE:
    return _reshape_elem(t, full, shape)
  if t.shape == full:
    return reshape_leaf(t, shape)
  r = _reshape_partial(t, full, shape)
  if r is not None:
    return r
  return reshape_leaf(bcast(t, full), shape)


def _reshape_partial(t, full, shape):
  """t is right aligned inside `full` with lower rank / size-1 dims."""
  g = dims_groups(full, shape)
  if g is None:
    return None
  off = len(full) - len(t.shape)
  newdims = [None] * len(shape)
  for gi, gj in g:
    vals = []
    for i in gi:
      if i < off:
        vals.append('absent')
      elif t.shape[i - off] == full[i]:
        vals.append('full')
      elif t.shape[i - off] == 1:
        vals.append('one')
      else:
        return None
    nontriv = [v for v, i in zip(vals, gi) if full[i] != 1]
    if all(v == 'full' for v in nontriv):
      for j in gj:
        newdims[j] = shape[j]
    elif all(v != 'full' for v in nontriv):
      for j in gj:
        newdims[j] = 1
    else:
      return None
  nd = list(newdims)
  while nd and nd[0] == 1:
    nd.pop(0)
  return reshape_leaf(t, tuple(nd))


def _can_partial(t, full, shape):
  if t.op in ELEMWISE:
    return all(_can_partial(u, full, shape) for u in operands(t))
  if t.shape == () or t.shape == full:
    return True
  if t.shape is None:
    return False
  return _reshape_partial(t, full, shape) is not None


def operands(t):
  if t.op == 'poly':
    return [u for m, _ in t.args for u, _ in m]
  return [a for a in t.args if isinstance(a, T)]


def _reshape_elem(t, full, shape):
  if _can_partial(t, full, shape):
    return remap(t, lambda u: reshape(u, full, shape))
  return reshape_leaf(bcast(t, full), shape)


def squeeze_axes(t, axes, R):
  """Drop size-1 dims of t (right aligned in rank R) at result axes `axes`."""
  if t.shape is None:
    return t
  off = R - len(t.shape)
  keep = [i for i in range(len(t.shape)) if (i + off) not in axes]
  if len(keep) == len(t.shape):
    return t
  if t.op in ELEMWISE:
    return remap(t, lambda u: squeeze_axes(u, axes, R))
  return reshape_leaf(t, tuple(t.shape[i] for i in keep))


def depends_axis(t, a, R):
  """Does the right aligned t vary along axis a of a rank-R result?"""
  if t.shape is None:
    return True
  i = a - (R - len(t.shape))
  if i < 0:
    return False
  return t.shape[i] != 1


def rsum(t, full, axes):
  """Sum of t viewed with shape full over axes -> shape without those axes."""
  t = lift(t)
  if full is None or t.shape is None:
    return _mk('sum?', (t, tuple(axes)), None, False, t.isint)
  axes = tuple(sorted(axes))
  if not axes:
    return t
  R = len(full)
  if t.op == 'bcast':
    t = t.args[0]
  out = []
  for m, c in as_poly(t).items():
    dep, ind = [], []
    for f, e in m:
      if any(depends_axis(f, a, R) for a in axes):
        dep.append((f, e))
      else:
        ind.append((f, e))
    r = const(c)
    for f, e in ind:
      r = mul(r, power(squeeze_axes(f, axes, R), e))
    if dep:
      dt = mk_poly({tuple(dep): Fraction(1)})
      live = [a for a in axes if depends_axis(dt, a, R)]
      for a in axes:
        if a not in live:
          r = mul(r, lift(full[a]))
      dead = [a for a in axes if a not in live]
      # drop dead axes first (they are size 1 / absent in dt)
      if dead:
        dt2 = squeeze_axes(dt, dead, R)
        live2 = [a - sum(1 for d in dead if d < a) for a in live]
        full2 = tuple(d for i, d in enumerate(full) if i not in dead)
      else:
        dt2, live2, full2 = dt, live, full
      r = mul(r, _sum_node(dt2, full2, tuple(live2)))
    else:
      for a in axes:
        r = mul(r, lift(full[a]))
    out.append(r)
  return add(*out) if out else ZERO


def _sum_node(t, full, axes):
  """t: single monomial that varies along all `axes`."""
  R = len(full)
  # right aligned axes positions are stored from the right, relative to t
  # flatten: sum over merged axes of a reshape == sum over the source axes
  if t.op == 'reshape' and t.shape == full:
    src = t.args[0]
    g = dims_groups(src.shape, full) if src.shape is not None else None
    if g is not None:
      sax = []
      ok = True
      for gi, gj in g:
        inn = [j in axes for j in gj]
        if gj and all(inn):
          sax += gi
        elif any(inn):
          ok = False
          break
      if ok:
        rem = [i for i in range(len(src.shape)) if i not in sax]
        rsh = tuple(d for i, d in enumerate(full) if i not in axes)
        if tuple(src.shape[i] for i in rem) == rsh:
          return rsum(src, src.shape, tuple(sax))
        s = rsum(src, src.shape, tuple(sax))
        return reshape(s, tuple(src.shape[i] for i in rem), rsh)
  if t.op == 'sum' and t.shape == full:
    # sum of sum: merge axes
    inner, iax = t.args
    ish = inner.shape
    rem = [i for i in range(len(ish)) if i not in iax]
    allax = tuple(sorted(list(iax) + [rem[a] for a in axes]))
    return _sum_node(inner, ish, allax)
  if t.op == 'expandsum':
    pass
  off = R - len(t.shape)
  if off > 0:
    axes = tuple(a - off for a in axes)
    full = full[off:]
  sh = tuple(d for i, d in enumerate(t.shape) if i not in axes)
  return _mk('sum', (t, axes), sh, False, t.isint)


def reduce_(name, t, full, axes, isint=None):
  """Opaque reduction (max, min, prod, any, all, ...)."""
  t = lift(t)
  if full is None or t.shape is None:
    return _mk(name, (t, tuple(axes)), None, t.is01, t.isint)
  axes = tuple(sorted(axes))
  if t.shape == ():
    return t
  if name in ('rmax', 'rmin', 'rprod', 'lse'):
    ones = tuple(a for a in axes if full[a] == 1)
    if ones:
      t = squeeze_axes(t, ones, len(full))
      axes = tuple(a - sum(1 for o in ones if o < a) for a in axes if a not in ones)
      full = tuple(d for i, d in enumerate(full) if i not in ones)
      if not axes:
        return t
      return reduce_(name, t, full, axes, isint)
  tt = bcast(t, full)
  sh = tuple(d for i, d in enumerate(full) if i not in axes)
  # flatten idiom: reduce over merged axes of reshape
  if tt.op == 'reshape':
    src = tt.args[0]
    g = dims_groups(src.shape, full) if src.shape is not None else None
    if g is not None:
      sax, ok = [], True
      for gi, gj in g:
        inn = [j in axes for j in gj]
        if gj and all(inn):
          sax += gi
        elif any(inn):
          ok = False
      rem = tuple(d for i, d in enumerate(src.shape) if i not in sax)
      if ok and rem == sh:
        return _mk(name, (src, tuple(sax)), sh, t.is01, t.isint if isint is None else isint)
  return _mk(name, (tt, axes), sh, t.is01, t.isint if isint is None else isint)


def lse(t, full, axes):
  """logsumexp over axes (keeps no dims)."""
  t = lift(t)
  if full is None or t.shape is None:
    return _mk('lse?', (t, tuple(axes)), None)
  axes = tuple(sorted(axes))
  R = len(full)
  dep, ind = {}, {}
  for m, c in as_poly(t).items():
    mt = mk_poly({m: c})
    if any(depends_axis(mt, a, R) for a in axes):
      dep[m] = c
    else:
      ind[m] = c
  d = mk_poly(dep)
  i = mk_poly(ind)
  if not dep:
    n = dim_prod([full[a] for a in axes])
    return add(squeeze_axes(i, axes, R), log(lift(n)))
  base = bcast(d, full)
  sh = tuple(x for k, x in enumerate(full) if k not in axes)
  if d.op in ELEMWISE:
    # log sum exp of log(z) -> log(sum z) stays opaque; keep canonical
    pass
  r = reduce_('lse', base, full, axes, isint=False)
  return add(squeeze_axes(i, axes, R), r) if ind else r


def sqz_expand(t, axes, R):
  """Insert kept dims: t has the axes removed; re-insert size-1 axes."""
  for a in sorted(axes):
    R0 = R - len(axes)
  cur = R - len(axes)
  for a in sorted(axes):
    t = expand(t, a, cur)
    cur += 1
  return t


def iota(n):
  n = dim(n)
  return _mk('iota', (n,), (n,), False, True)


def onehot(i, full, n):
  i = lift(i)
  n = dim(n)
  ii = bcast(i, full) if full is not None else i
  sh = None if full is None else tuple(full) + (n,)
  return _mk('onehot', (ii, n), sh, True, True)


# ---------------------------------------------------------------- ranges
def _min(a, b):
  if a is None or b is None:
    return None
  if a is b:
    return a
  if nonneg(sub(b, a)):
    return a
  if nonneg(sub(a, b)):
    return b
  return None


def _max(a, b):
  if a is None or b is None:
    return None
  if nonneg(sub(b, a)):
    return b
  if nonneg(sub(a, b)):
    return a
  return None


_BUSY = set()


def rng(t):
  """(lo, hi) bounds as scalar terms (or None)."""
  if t._rng is not None:
    return t._rng
  if t in _BUSY:
    return (None, None)
  _BUSY.add(t)
  try:
    r = _rng(t)
  finally:
    _BUSY.discard(t)
  t._rng = r
  return r


def _rng(t):
  o = t.op
  if o == 'poly':
    return _rng_poly(t)
  if t.is01:
    return (ZERO, const(1))
  if o == 'atom':
    m = t.meta
    lo = m.get('lo')
    hi = m.get('hi')
    if lo is None and hi is None and t.shape == ():
      return (t, t) if m.get('exact', True) else (None, None)
    if t.shape == () and m.get('exact', True):
      return (t, t)
    return (lift(lo) if lo is not None else None, lift(hi) if hi is not None else None)
  if o == 'mod':
    b = t.args[1]
    if b.shape == () and pos(b):
      return (ZERO, sub(b, const(1)) if t.isint else b)
    return (None, None)
  if o == 'fdiv':
    lo, hi = rng(t.args[0])
    b = t.args[1]
    nlo = ZERO if lo is not None and nonneg(lo) and pos(b) else None
    nhi = None
    if hi is not None and b.shape == () and pos(b):
      q = dim_div(add(hi, const(1)), b)
      if q is not None:
        nhi = sub(lift(q), const(1))
    return (nlo, nhi)
  if o in ('relu', 'relun'):
    lo, hi = rng(t.args[0])
    l2 = _max(lo, ZERO) if lo is not None else ZERO
    if l2 is None:
      l2 = ZERO
    h2 = None
    if hi is not None:
      h2 = hi if nonneg(hi) else None
    return (l2, h2)
  if o == 'abs':
    return (ZERO, None)
  if o in ('softplus', 'exp'):
    return (ZERO, None)
  if o == 'iota':
    return (ZERO, sub(lift(t.args[0]), const(1)))
  if o in ('argmax', 'argsort', 'argmin'):
    n = t.args[2] if len(t.args) > 2 else None
    return (ZERO, sub(lift(n), const(1)) if n is not None else None)
  if o in ('bcast', 'reshape', 'gather', 'slice', 'transpose', 'flip', 'rmax', 'rmin', 'sort', 'opq',
           'stop', 'elem', 'repeat', 'tile', 'perm', 'expand?', 'reshape?', 'takeflat'):
    return rng(t.args[0])
  if o in ('round', 'floor', 'ceil', 'trunc'):
    lo, hi = rng(t.args[0])
    ok = lambda v: v is not None and v.isint
    return (lo if ok(lo) else None, hi if ok(hi) else None)
  if o == 'scatter_set':
    return hull(rng(t.args[0]), rng(t.args[2]))
  if o in ('concat', 'stackn'):
    r = None
    for a in t.args[0]:
      r = rng(a) if r is None else hull(r, rng(a))
    return r if r else (None, None)
  if o == 'draw':
    kind = t.args[0]
    if kind == 'randint':
      lo, hi = t.args[2], t.args[3]
      r0 = rng(lo)[0]
      r1 = rng(hi)[1]
      return (r0, sub(r1, const(1)) if r1 is not None else None)
    if kind == 'uniform':
      lo, hi = t.args[2], t.args[3]
      return (rng(lo)[0], rng(hi)[1])
    if kind == 'categorical':
      n = t.args[4]
      return (ZERO, sub(lift(n), const(1)) if n is not None else None)
    if kind in ('choice', 'permutation'):
      return rng(t.args[2])
    return (None, None)
  if o == 'topk_idx':
    n = t.args[2]
    return (ZERO, sub(lift(n), const(1)) if n is not None else None)
  if o == 'sum':
    lo, hi = rng(t.args[0])
    if lo is not None and nonneg(lo):
      return (ZERO, None)
    return (None, None)
  if o == 'map':
    return rng(t.args[1])
  if o == 'eta':
    return t.meta.get('rng', (None, None)) if t.meta else (None, None)
  if o == 'pow' and t.shape == ():
    lo = rng(t.args[0])[0]
    if lo is not None and pos(lo):
      return (const(1) if t.isint else ZERO, t)
    return (t, t)
  if t.shape == () and o not in ('special',):
    return (None, None)
  return (None, None)


def hull(a, b):
  return (_min(a[0], b[0]), _max(a[1], b[1]))


def _rng_poly(t, depth=0):
  c = const_val(t)
  if c is not None:
    return (t, t)
  if t.is01:
    return (ZERO, const(1))
  # case split on indicators
  if depth < 5:
    cnt = {}
    for m, _ in t.args:
      for f, e in m:
        if f.is01 and f.op != 'atom':
          cnt[f] = cnt.get(f, 0) + 1
    cand = [f for f, n in cnt.items() if n >= 2]
    if cand:
      f = max(cand, key=lambda z: (cnt[z], z.id))
      a = _set_factor(t, f, 1)
      b = _set_factor(t, f, 0)
      ra = _rng_poly(a, depth + 1) if a.op == 'poly' else rng(a)
      rb = _rng_poly(b, depth + 1) if b.op == 'poly' else rng(b)
      return hull(ra, rb)
  best = _rng_lin(t)
  # alternative writing of clips: relu(p) = p + relu(-p)
  for m, c in t.args:
    if len(m) == 1 and m[0][0].op == 'relu' and m[0][1] == 1:
      p = m[0][0].args[0]
      n = neg(p)
      alt = add(mk_poly({k: v for k, v in t.args if k != m}), scale(p, c),
                scale(_mk('relun', (n,), n.shape, False, n.isint), c))
      if alt.op != 'poly':
        continue
      r = _rng_lin(alt)
      best = (_tight(best[0], r[0], _max), _tight(best[1], r[1], _min))
  return best


def _tight(a, b, pick):
  if a is None:
    return b
  if b is None:
    return a
  r = pick(a, b)
  return r if r is not None else a


def _rng_lin(t):
  # scalar symbolic part is exact
  lo, hi = ZERO, ZERO
  for m, c in t.args:
    l, h = _rng_mono(m)
    if c < 0:
      l, h = h, l
    lo = add(lo, scale(l, c)) if lo is not None and l is not None else None
    hi = add(hi, scale(h, c)) if hi is not None and h is not None else None
  return (lo, hi)


def _set_factor(t, f, v):
  out = {}
  for m, c in t.args:
    if any(g is f for g, _ in m):
      if v == 0:
        continue
      m = tuple((g, e) for g, e in m if g is not f)
    out[m] = out.get(m, 0) + c
  return mk_poly(out)


def _rng_mono(m):
  lo, hi = const(1), const(1)
  for f, e in m:
    if f.shape == () and f.op == 'atom' and f.meta.get('exact', True):
      fl = fh = power(f, e)
      if f.meta.get('lo') is None and len(m) > 1:
        # unknown sign
        pass
    else:
      fl, fh = rng(f)
      if e != 1:
        if e.denominator == 1 and e > 0 and int(e) % 2 == 0:
          if fl is not None and nonneg(fl):
            fl = power(fl, e)
            fh = power(fh, e) if fh is not None else None
          else:
            fl, fh = ZERO, None
        elif fl is not None and nonneg(fl) and e > 0:
          fl = power(fl, e)
          fh = power(fh, e) if fh is not None else None
        elif fl is not None and nonneg(fl) and e < 0:
          fl, fh = ZERO, (power(fl, e) if pos(fl) else None)
        else:
          return (None, None)
    # product of intervals; only when both nonneg
    if lo is not None and hi is not None and const_val(lo) == 1 and const_val(hi) == 1:
      lo, hi = fl, fh
      continue
    ok = lo is not None and nonneg(lo) and fl is not None and nonneg(fl)
    if ok:
      lo = mul(lo, fl)
      hi = mul(hi, fh) if hi is not None and fh is not None else None
    else:
      # scalar nonneg times interval
      if fl is not None and fh is not None and fl is fh and nonneg(fl):
        lo = mul(lo, fl) if lo is not None else None
        hi = mul(hi, fl) if hi is not None else None
      elif lo is not None and hi is not None and lo is hi and nonneg(lo):
        c = lo
        lo = mul(c, fl) if fl is not None else None
        hi = mul(c, fh) if fh is not None else None
      else:
        return (None, None)
  return (lo, hi)


def nonneg(t):
  """Provably >= 0 for every admissible value of the scalar atoms."""
  return _sgn(t, strict=False)


def pos(t):
  return _sgn(t, strict=True)


_SGN = {}


def _sgn(t, strict):
  t = lift(t)
  k = (t, strict)
  r = _SGN.get(k)
  if r is None:
    _SGN[k] = False
    r = _SGN[k] = _sgn0(t, strict)
  return r


def _sgn0(t, strict):
  c = const_val(t)
  if c is not None:
    return c > 0 if strict else c >= 0
  # substitute scalar atoms by lo + nonneg slack
  p = as_poly(t)
  terms = {(): Fraction(0)}
  acc = {}
  for m, c in p.items():
    cur = {(): c}
    for f, e in m:
      if e.denominator != 1 or e < 0:
        # positive factor? then keep as slack-like nonneg var
        lo = f.meta.get('lo') if f.op == 'atom' else None
        base = opq_inner(f)
        okp = (lo is not None and pos(lift(lo))) or (f.op == 'opq' and pos(base))
        if not okp:
          return False
        fp = {((f, e, 's'),): Fraction(1)}
      else:
        lo = None
        if f.op == 'atom' and f.shape == ():
          lo = f.meta.get('lo')
          if lo is not None and isinstance(lo, T):
            lo = const_val(lo)
        elif f.op in ('pow',) and f.shape == ():
          lo = 1 if (f.isint and pos(f.args[0])) else None
        elif f.op == 'fdiv':
          lo = 0 if nonneg(f.args[0]) and pos(f.args[1]) else None
        elif f.op in ('exp', 'relu', 'abs', 'softplus', 'lt0', 'eq0', 'onehot'):
          lo = 0
        elif f.op == 'opq':
          lo = 0 if nonneg(f.args[0]) else None
        elif f.op in ('round', 'floor', 'trunc', 'ceil'):
          l0 = rng(f)[0]
          lo = const_val(l0) if l0 is not None else None
        else:
          l0 = rng(f)[0]
          lo = const_val(l0) if l0 is not None and l0 is not f else None
        if lo is None:
          if int(e) % 2 == 0:
            fp = {((f, e, 's'),): Fraction(1)}
          else:
            return False
        else:
          lo = frac(lo)
          base = {(): lo, ((f, Fraction(1), 's'),): Fraction(1)}
          fp = {(): Fraction(1)}
          for _ in range(int(e)):
            fp = _pm(fp, base)
      cur = _pm(cur, fp)
    for m2, c2 in cur.items():
      acc[m2] = acc.get(m2, 0) + c2
  if any(c < 0 for c in acc.values()):
    return False
  if not strict or acc.get((), 0) > 0:
    return True
  return any(c > 0 and m and all(f.op == 'atom' and (f.meta.get('pos') or f.meta.get('lo') is not None and pos(lift(f.meta['lo']))) for f, e in m)
             for m, c in p.items())


def _pm(a, b):
  out = {}
  for m1, c1 in a.items():
    for m2, c2 in b.items():
      d = {}
      for f, e, _ in m1 + m2:
        d[f] = d.get(f, 0) + e
      m = tuple(sorted(((f, e, 's') for f, e in d.items()), key=lambda x: x[0].id))
      out[m] = out.get(m, 0) + c1 * c2
  return out


def decide(t):
  """True / False / None for a boolean (indicator) term."""
  t = tobool(t)
  c = const_val(t)
  if c is not None:
    return c != 0
  return None


# ---------------------------------------------------------------- traversal
def children(t):
  if t.op == 'poly':
    return [u for m, _ in t.args for u, _ in m]
  out = []
  stack = list(t.args)
  while stack:
    a = stack.pop()
    if isinstance(a, T):
      out.append(a)
    elif isinstance(a, tuple):
      stack.extend(a)
  return out


def subterms(t, stop=None):
  seen = set()
  stack = [t]
  while stack:
    u = stack.pop()
    if u in seen:
      continue
    seen.add(u)
    if stop is not None and stop(u):
      continue
    stack.extend(children(u))
  return seen


def contains(t, what):
  """what: set of T or predicate."""
  if callable(what):
    return any(what(u) for u in subterms(t))
  return any(u in what for u in subterms(t))


def subst(t, mp, memo=None, opaque=None):
  """Replace terms by terms, rebuilding normal forms.

  opaque(u) -> True keeps u untouched (atoms such as random draws)."""
  if memo is None:
    memo = {}

  def sarg(a):
    if isinstance(a, T):
      return go(a)
    if isinstance(a, tuple):
      return tuple(sarg(x) for x in a)
    return a

  def go(u):
    r = memo.get(u)
    if r is not None:
      return r
    if u in mp:
      r = mp[u]
    elif opaque is not None and opaque(u):
      r = u
    elif u.op == 'atom' or u.op == 'special':
      r = u
    elif u.op == 'poly':
      parts = []
      for m, c in u.args:
        p = const(c)
        for f, e in m:
          p = mul(p, power(go(f), e))
        parts.append(p)
      r = add(*parts) if parts else ZERO
    else:
      na = tuple(sarg(a) for a in u.args)
      if na == u.args:
        r = u
      else:
        r = rebuild(u.op, na, u)
    memo[u] = r
    return r

  return go(t)


def rebuild(op, args, old):
  f = REBUILD.get(op)
  if f is not None:
    try:
      return f(*args)
    except Exception:  # keep a structural copy on failure
      pass
  sh = old.shape
  n = _mk(op, args, sh, old.is01, old.isint)
  if n.meta is None and old.meta is not None:
    n.meta = old.meta
  return n


def _rb_reshape(t, sh):
  sh = tuple(dim(d) for d in sh)
  return reshape(t, t.shape, sh)


def _rb_sum(t, axes):
  return rsum(t, t.shape, axes)


REBUILD = {
    'exp': exp, 'log': log, 'relu': relu, 'softplus': softplus, 'abs': tabs, 'lt0': lt0, 'eq0': eq0,
    'sign': sign, 'round': rnd, 'floor': floor, 'ceil': ceil, 'trunc': trunc, 'mod': mod, 'fdiv': fdiv,
    'pow': power, 'opq': lambda t: t, 'reshape': _rb_reshape, 'sum': _rb_sum,
    'bcast': lambda t, sh: bcast(t, sh),
    'onehot': lambda i, n: onehot(i, i.shape, n),
    'lgamma': lambda t: fn1('lgamma', t), 'tanh': lambda t: fn1('tanh', t),
    'lse': lambda t, axes: lse(t, t.shape, axes),
}


# ---------------------------------------------------------------- display
def show(t, depth=6):
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return '(' + ','.join(show(x, depth) for x in t) + ')'
    return str(t)
  if depth < 0:
    return '…'
  if t.op == 'atom':
    return str(t.args[0])
  if t.op == 'poly':
    if not t.args:
      return '0'
    out = []
    for m, c in t.args:
      fs = '*'.join(show(f, depth - 1) + ('' if e == 1 else '^%s' % e) for f, e in m)
      if not fs:
        out.append(str(c))
      elif c == 1:
        out.append(fs)
      elif c == -1:
        out.append('-' + fs)
      else:
        out.append('%s*%s' % (c, fs))
    return '(' + ' + '.join(out[:12]) + (' + …' if len(out) > 12 else '') + ')'
  return t.op + '(' + ', '.join(show(a, depth - 1) for a in t.args) + ')'
