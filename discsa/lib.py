"""Abstract semantics of the library functions the repository uses."""
import ast
from fractions import Fraction
from . import terms as X
from .terms import T
from .interp import (Arr, Ref, ListObj, DictObj, Inst, FuncV, BoundV, ClassV, ModV, ExtV, NativeV, PartialV,
                     WrapV, PropV, StaticV, RangeV, SymIter, SliceV, Choice, AtV, Seg, UNDEF, PyRaise, Sure, promote,
                     _hk, _concrete_key, cells, EnvObj)

BUILTINS = '''abs all any bool bytes callable dict enumerate filter float format frozenset getattr hasattr hash id
int isinstance issubclass iter len list map max min next object open print property range repr reversed round set
setattr slice sorted staticmethod classmethod str sum super tuple type zip Exception ValueError TypeError KeyError
RuntimeError NotImplementedError StopIteration AssertionError IndexError AttributeError IOError FileNotFoundError
OSError ImportError NotImplemented __name__ __file__ divmod pow input vars dir eval exec ord chr NameError
ZeroDivisionError KeyboardInterrupt BaseException Warning DeprecationWarning complex iter memoryview'''.split()

NPNAMES = ('jax.numpy.', 'numpy.')
IDENT = {'jax.device_put', 'jax.block_until_ready', 'jax.device_get', 'tqdm.tqdm', 'tqdm.trange',
         'copy.copy_', 'jax.lax.convert_element_type_'}
HOST_EFFECT = ('time.', 'os.', 'logging.', 'absl.logging.', 'pickle.', 'json.', 'csv.', 'shutil.', 'subprocess.',
               'random.', 'numpy.random.', 'sys.', 'tqdm.')


def norm_axis(ax, R):
  return ax + R if ax < 0 else ax


BENIGN_KW = {'dtype', 'copy', 'mode', 'unique_indices', 'indices_are_sorted', 'precision', 'kind', 'stable', 'name',
             'inline', 'donate_argnums', 'backend', 'device', 'unroll', 'flush', 'file', 'end', 'sep', 'is_leaf',
             'axis_size', 'spmd_axis_name', 'axis_name', 'donate_argnames', 'impl', 'order', 'casting',
             'promote_integers', 'preferred_element_type', 'ddof_', 'keep_unused'}


class Lib:

  def __init__(self, I):
    self.I = I
    self.bind_forward = None
    self.hooks = {}  # (path, qualname) -> fn(I, vals) -> value or None
    self.overrides = {}  # ext path -> fn(I,args,kw)

  # ------------------------------------------------------------ names
  def builtin(self, name):
    if name in BUILTINS:
      if name == '__name__':
        return '__analysis__'
      if name == 'NotImplemented':
        return self.I.opaque('NotImplemented')
      return ExtV('builtins.' + name)
    return None

  def special(self, p):
    """Constants reachable as attributes of external modules."""
    if p in ('jax.numpy.pi', 'numpy.pi', 'math.pi'):
      return Arr(X.atom('pi', (), lo=3, exact=True), (), 'float')
    if p in ('math.e', 'numpy.e', 'jax.numpy.e'):
      return Arr(X.atom('euler', (), lo=2, exact=True), (), 'float')
    if p in ('jax.numpy.inf', 'numpy.inf', 'math.inf'):
      return Arr(X.atom('inf', (), lo=10 ** 9, exact=True), (), 'float')
    if p in ('jax.numpy.nan', 'numpy.nan', 'math.nan'):
      return Arr(X.atom('nan', ()), (), 'float')
    if p in ('jax.numpy.newaxis', 'numpy.newaxis'):
      return [None]
    return None

  def func_hook(self, f, vals):
    h = self.hooks.get((f.mod.path, (f.cls.name + '.' if f.cls else '') + f.name))
    if h is not None:
      return h(self.I, vals)
    return None

  def dtype_of(self, v):
    if v is None:
      return None
    if isinstance(v, str):
      return v if v in ('int', 'float', 'bool', 'key') else self.dtype_of(ExtV('x.' + v))
    if isinstance(v, ExtV):
      n = v.path.split('.')[-1]
      if 'int' in n:
        return 'int'
      if 'float' in n:
        return 'float'
      if 'bool' in n:
        return 'bool'
    if isinstance(v, Arr) and v.t.op == 'lit':
      return None
    if isinstance(v, Arr) and v.t.op == 'dtype':
      return v.t.args[0]
    return None

  def shape_of(self, v):
    """Shape tuple from a python value (tuple/list/int)."""
    I = self.I
    if isinstance(v, (int,)):
      return (v,)
    if isinstance(v, Arr):
      if v.shape == ():
        return (X.dim(v.t),)
      if v.shape is not None and len(v.shape) == 1 and isinstance(v.shape[0], int):
        return tuple(X.dim(self.index(v, (i,)).t) for i in range(v.shape[0]))
      return None
    if isinstance(v, Choice):
      return None
    items = I.unpack(v, None) if isinstance(v, (tuple, Ref)) else None
    if items is None:
      return None
    out = []
    for i in items:
      a = I.num(i)
      if a is None or a.shape != ():
        return None
      out.append(X.dim(a.t))
    return tuple(out)

  def dimv(self, d):
    """dimension as interpreter value"""
    return d if isinstance(d, int) else Arr(d, (), 'int')

  # ------------------------------------------------------------ arithmetic
  def binop(self, op, a, b):
    I = self.I
    num = (int, float)
    if isinstance(a, num) and isinstance(b, num):
      try:
        if op == 'Add':
          return a + b
        if op == 'Sub':
          return a - b
        if op == 'Mult':
          return a * b
        if op == 'Div':
          r = Fraction(X.frac(a)) / X.frac(b)
          return int(r) if r.denominator == 1 and isinstance(a, int) and isinstance(b, int) and False else a / b
        if op == 'FloorDiv':
          return a // b
        if op == 'Mod':
          return a % b
        if op == 'Pow':
          r = a ** b
          return r if not isinstance(r, complex) else I.unk('pow')
        if op == 'BitAnd':
          return a & b
        if op == 'BitOr':
          return a | b
      except ZeroDivisionError:
        raise PyRaise('ZeroDivisionError')
    if self.isset(a) and self.isset(b) and op in ('Sub', 'BitAnd', 'BitOr', 'BitXor'):
      return self.setop({'Sub': 'difference', 'BitAnd': 'intersection', 'BitOr': 'union', 'BitXor': 'symmetric_difference'}[op], a, b)
    if op == 'BitOr' and all(isinstance(q, Ref) and isinstance(I.obj(q), DictObj) for q in (a, b)):
      r = I.mkdict({})
      n, oa = I.obj(r), I.obj(a)
      n.items.update(oa.items)
      n.attr, n.open, n.default, n.tag = oa.attr, oa.open, oa.default, oa.tag
      I.call(self.dict_method(r, 'update'), [b], {})
      return r
    if op == 'Add' and isinstance(a, str) and isinstance(b, str):
      return a + b
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, tuple):
      return a + b
    if op == 'Add' and isinstance(a, Ref) and isinstance(I.obj(a), ListObj):
      if isinstance(b, Ref) and isinstance(I.obj(b), ListObj):
        return I.mklist(I.obj(a).items + I.obj(b).items)
      if isinstance(b, tuple):
        raise PyRaise('TypeError')
    if op == 'Add' and isinstance(a, tuple) and isinstance(b, Arr) and b.shape is None:
      return I.opaque('tupcat', a, b)
    if op == 'Mult' and isinstance(a, (tuple, str)) and isinstance(b, int):
      return a * b
    if op == 'Mult' and isinstance(b, (tuple, str)) and isinstance(a, int):
      return b * a
    if op == 'Mult' and isinstance(a, Ref) and isinstance(I.obj(a), ListObj):
      n = I.num(b)
      if isinstance(b, int):
        return I.mklist(I.obj(a).items * b)
      return I.mklist([Seg('rep', list(I.obj(a).items), n.t if n is not None else None)])
    if op == 'Mult' and isinstance(b, Ref) and isinstance(I.obj(b), ListObj):
      return self.binop(op, b, a)
    if op == 'Mod' and isinstance(a, str):
      vals = b if isinstance(b, tuple) else (b,)
      if all(isinstance(v, (str, int, float)) for v in vals):
        try:
          return a % (tuple(vals))
        except Exception:
          pass
      return I.opaque('strfmt', a, b)
    if isinstance(a, str) or isinstance(b, str):
      return I.opaque('str' + op, a, b)
    # list operand in array arithmetic
    x, y = self.arr(a), self.arr(b)
    if x is None or y is None:
      return I.unk('binop:' + op, a, b)
    if op == 'MatMult':
      return self.matmul(x, y)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
      if x.t.is01 and y.t.is01:
        t = {'BitAnd': X.land, 'BitOr': X.lor}.get(op, lambda p, q: X.sub(X.add(p, q), X.scale(X.mul(p, q), 2)))(x.t, y.t)
        return self.mk(t, x, y, promote(x.dtype, y.dtype))
      if x.shape is None or y.shape is None:
        tx, ty = X.tobool(x.t), X.tobool(y.t)
      return self.mk(X.node('bit' + op, (x.t, y.t), X.bshape(x.t.shape, y.t.shape)), x, y, 'int')
    dt = promote(x.dtype, y.dtype)
    if dt == 'bool':
      dt = 'int'
    if op == 'Add':
      t = X.add(x.t, y.t)
    elif op == 'Sub':
      t = X.sub(x.t, y.t)
    elif op == 'Mult':
      t = X.mul(x.t, y.t)
      if x.dtype == 'bool' and y.dtype == 'bool':
        dt = 'bool'
    elif op == 'Div':
      if X.const_val(y.t) == 0:
        return I.unk('div0')
      t = X.div(x.t, y.t)
      dt = 'float'
    elif op == 'FloorDiv':
      t = X.fdiv(x.t, y.t)
    elif op == 'Mod':
      t = X.mod(x.t, y.t)
    elif op == 'Pow':
      if X.const_val(x.t) == 0 and (X.const_val(y.t) or 0) <= 0:
        return I.unk('pow0')
      t = X.power(x.t, y.t)
    else:
      return I.unk('binop:' + op, a, b)
    return self.mk(t, x, y, dt)

  def mk(self, t, x, y, dt):
    sh = X.bshape(x.shape, y.shape)
    if sh is not None and X.shapes_conflict(x.shape, y.shape):
      self.I.event('shape_conflict', a=x.shape, b=y.shape)
    return Arr(t, sh, dt)

  def arr(self, v):
    """numeric value -> Arr (lists become stacked arrays)."""
    I = self.I
    if isinstance(v, T):
      return I.num(v)
    n = I.num(v)
    if n is not None:
      return n
    if isinstance(v, (tuple, Ref)):
      return self.array(v)
    if isinstance(v, Choice):
      a, b = self.arr(v.a), self.arr(v.b)
      if a is not None and b is not None and a.shape == b.shape:
        return Arr(X.where(v.c, a.t, b.t), a.shape, promote(a.dtype, b.dtype))
      if a is not None and b is not None:
        return Arr(X.node('gamma', (v.c, a.full(), b.full()), None), None, None)
      return None
    if isinstance(v, RangeV):
      lo, hi = I.num(v.lo), I.num(v.hi)
      if v.step == 1:
        n = X.dim(X.sub(hi.t, lo.t))
        return Arr(X.add(lo.t, X.iota(n)), (n,), 'int')
    return None

  def array(self, v):
    I = self.I
    if isinstance(v, (Arr, int, float, bool)):
      return I.num(v)
    if isinstance(v, RangeV) or isinstance(v, Choice):
      return self.arr(v)
    if isinstance(v, Ref) and isinstance(I.obj(v), Inst) and I.obj(v).origin == 'nx' and I.obj(v).attrs.get('_view'):
      r = I.iterate(v)
      if isinstance(r, list):
        return self.array(I.mklist(r))
    if isinstance(v, Ref) and isinstance(I.obj(v), ListObj) and not I.obj(v).concrete():
      o = I.obj(v)
      if len(o.items) == 1 and isinstance(o.items[0], Seg):
        s = o.items[0]
        if s.kind == 'rep' and len(s.vals) == 1 and s.info is not None:
          a = self.arr(s.vals[0])
          if a is not None and a.shape is not None:
            return Arr(a.t, (X.dim(s.info),) + a.shape, a.dtype)
        if s.kind == 'loop' and len(s.vals) == 1 and isinstance(s.info, dict):
          a = self.arr(s.vals[0])
          if a is not None and a.shape is not None and s.info['trip'] is not None:
            n = X.dim(X.lift(s.info['trip']))
            return Arr(self.mapterm(s.info['idx'], n, a), (n,) + a.shape, a.dtype)
      parts = []
      return Arr(X.node('listarr', (I.as_term(v),), None), None, None)
    items = I.unpack(v, None) if isinstance(v, (tuple, Ref)) else None
    if items is None:
      return None
    arrs = [self.arr(i) for i in items]
    if any(a is None for a in arrs):
      return None
    if not arrs:
      return Arr(X.ZERO, (0,), 'float')
    sh = arrs[0].shape
    dt = arrs[0].dtype
    for a in arrs[1:]:
      dt = promote(dt, a.dtype)
    if any(a.shape != sh or a.shape is None for a in arrs):
      return Arr(X.node('stackn', (tuple(a.full() for a in arrs),), None), None, dt)
    return self.stack(arrs, 0, dt)

  def stack(self, arrs, axis, dt):
    sh = arrs[0].shape
    if all(a.t is arrs[0].t for a in arrs) and arrs[0].t.shape == ():
      return Arr(arrs[0].t, sh[:axis] + (len(arrs),) + sh[axis:], dt)
    if len(arrs) == 1 and axis == 0:
      return Arr(arrs[0].t, (1,) + sh, dt)
    nsh = sh[:axis] + (len(arrs),) + sh[axis:]
    ts = tuple(a.full() for a in arrs)
    return Arr(X.node('stack', (ts, axis), nsh, all(t.is01 for t in ts), all(t.isint for t in ts)), nsh, dt)

  def matmul(self, x, y):
    if x.shape is None or y.shape is None:
      return Arr(X.node('matmul', (x.full(), y.full()), None), None, 'float')
    if len(x.shape) < 1 or len(y.shape) < 1:
      raise PyRaise('TypeError')
    if len(y.shape) == 1:
      return self.sum_(Arr(X.mul(x.t, y.t), x.shape, promote(x.dtype, y.dtype)), (len(x.shape) - 1,))
    if len(x.shape) == 1:
      e = self.expand(x, 1)
      return self.sum_(Arr(X.mul(e.t, y.t), y.shape, promote(x.dtype, y.dtype)), (len(y.shape) - 2,))
    # [...,n,k] @ [...,k,m] = sum_k x[...,n,k,1]*y[...,1,k,m]
    xe = self.expand(x, len(x.shape))
    ye = self.expand(y, len(y.shape) - 2)
    sh = X.bshape(xe.shape, ye.shape)
    if X.shapes_conflict(xe.shape, ye.shape):
      self.I.event('shape_conflict', a=x.shape, b=y.shape)
    return self.sum_(Arr(X.mul(xe.t, ye.t), sh, promote(x.dtype, y.dtype)), (len(sh) - 2,))

  def compare(self, op, a, b):
    I = self.I
    if op in ('Is', 'IsNot'):
      r = None
      if a is None or b is None:
        o = b if a is None else a
        if o is None:
          r = True
        elif isinstance(o, Arr) and o.shape is None and o.t.op in ('top', 'ext', 'gamma', 'item', 'call', 'attr', 'eta', 'atom'):
          t = X.node('isnone', (o.t,), (), True, True)
          if o.t.op == 'atom' and not o.t.meta.get('maybe_none'):
            r = False
          else:
            return Arr(t if op == 'Is' else X.lnot(t), (), 'bool')
        else:
          r = False
      elif isinstance(a, bool) or isinstance(b, bool):
        na, nb = I.num(a), I.num(b)
        if na is not None and nb is not None:
          t = X.eq(na.t, nb.t)
          d = X.decide(t)
          r = d if d is not None else None
          if r is None:
            return Arr(t if op == 'Is' else X.lnot(t), (), 'bool')
      elif isinstance(a, (str, int)) and isinstance(b, (str, int)):
        r = a == b
      elif isinstance(a, Ref) and isinstance(b, Ref):
        r = a.id == b.id
      elif isinstance(a, (ClassV, FuncV, ExtV)) and isinstance(b, (ClassV, FuncV, ExtV)):
        r = a is b or a == b
      if r is None:
        t = X.node('is', (I.as_term(a), I.as_term(b)), (), True, True)
        return Arr(t if op == 'Is' else X.lnot(t), (), 'bool')
      return r if op == 'Is' else not r
    if op in ('In', 'NotIn'):
      r = self.contains(a, b)
      if isinstance(r, bool):
        return r if op == 'In' else not r
      return Arr(r if op == 'In' else X.lnot(r), (), 'bool')
    if isinstance(a, (str, type(None))) and isinstance(b, (str, type(None))):
      if op == 'Eq':
        return a == b
      if op == 'NotEq':
        return a != b
      if isinstance(a, str) and isinstance(b, str):
        return {'Lt': a < b, 'Gt': a > b, 'LtE': a <= b, 'GtE': a >= b}[op]
    if op in ('Eq', 'NotEq') and isinstance(a, Ref) and isinstance(b, Ref):
      oa, ob = I.st.heap.get(a.id), I.st.heap.get(b.id)
      if type(oa) is ListObj and type(ob) is ListObj and oa.concrete() and ob.concrete():
        return self.compare(op, tuple(oa.items), tuple(ob.items))
    if isinstance(a, tuple) and isinstance(b, tuple) and op in ('Eq', 'NotEq'):
      if len(a) != len(b):
        return op == 'NotEq'
      t = X.const(1)
      for x, y in zip(a, b):
        r = I.truth(self.compare('Eq', x, y))
        t = X.mul(t, X.const(int(r)) if isinstance(r, bool) else r)
      if op == 'NotEq':
        t = X.lnot(t)
      d = X.decide(t)
      return d if d is not None else Arr(t, (), 'bool')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
      return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
    if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
      s, o = (a, b) if isinstance(a, (str, type(None))) else (b, a)
      if isinstance(o, Arr) and (o.shape is None or o.t.op in ('atom', 'ext')):
        t = X.node('streq', (o.t, repr(s)), (), True, True)
        st = I.settle(t)
        if isinstance(st, bool):
          return st if op == 'Eq' else not st
        # exclusive alternatives
        for c, v in I.st.pc:
          if v and c.op == 'streq' and c.args[0] is o.t and c is not t:
            return False if op == 'Eq' else True
        return Arr(t if op == 'Eq' else X.lnot(t), (), 'bool')
      return op != 'Eq'
    if self.isset(a) and self.isset(b):
      x, y = self.setkeys(a), self.setkeys(b)
      if x is not None and y is not None:
        x, y = set(x), set(y)
        return {'Eq': x == y, 'NotEq': x != y, 'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[op]
    x, y = self.arr(a), self.arr(b)
    if x is None or y is None:
      t = X.node('cmp' + op, (I.as_term(a), I.as_term(b)), (), True, True)
      return Arr(t, (), 'bool')
    if x.shape is None or y.shape is None:
      if op in ('Eq', 'NotEq'):
        p, q = sorted((x.t, y.t), key=lambda z: z.id)
        t = X.node('eq?', (p, q), None, True, True)
        return Arr(t if op == 'Eq' else X.lnot(t), None, 'bool')
      f = {'Lt': X.lt, 'LtE': X.le, 'Gt': lambda p, q: X.lt(q, p), 'GtE': lambda p, q: X.le(q, p)}[op]
      return Arr(f(x.t, y.t), None, 'bool')
    f = {'Eq': X.eq, 'NotEq': X.ne, 'Lt': X.lt, 'LtE': X.le, 'Gt': lambda p, q: X.lt(q, p),
         'GtE': lambda p, q: X.le(q, p)}[op]
    r = self.mk(f(x.t, y.t), x, y, 'bool')
    if r.shape == ():
      d = X.decide(r.t)
      if d is not None:
        return d
    return r

  def contains(self, k, c):
    I = self.I
    if isinstance(c, Ref):
      o = I.obj(c)
      if isinstance(o, DictObj):
        if _concrete_key(k):
          if _hk(k) in o.items:
            v = o.items[_hk(k)]
            if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
              f = I.pcfact(v.c)
              if f is not None:
                return (v.a if f else v.b) is not UNDEF
              return v.c if v.b is UNDEF else X.lnot(v.c)
            return True
          if not o.open:
            return False
          if o.default is not None:
            return o.default(I, k) is not UNDEF
        return X.node('in', (I.as_term(k), X.node('ref', (c.id,), None)), (), True, True)
      if isinstance(o, ListObj) and o.concrete():
        return self._in_items(k, o.items)
    if isinstance(c, tuple):
      return self._in_items(k, list(c))
    if isinstance(c, str) and isinstance(k, str):
      return k in c
    return X.node('in', (I.as_term(k), I.as_term(c)), (), True, True)

  def _in_items(self, k, items):
    acc = X.ZERO
    for i in items:
      r = self.I.truth(self.I.compare('Eq', k, i))
      if r is True:
        return True
      if r is False:
        continue
      acc = X.lor(acc, r)
    d = X.decide(acc)
    return d if d is not None else acc

  # ------------------------------------------------------------ shape ops
  def expand(self, a, ax):
    if a.shape is None:
      return Arr(X.node('expand?', (a.t, ax), None, a.t.is01, a.t.isint), None, a.dtype)
    R = len(a.shape)
    if ax < 0:
      ax += R + 1
    return Arr(X.expand(a.t, ax, R), a.shape[:ax] + (1,) + a.shape[ax:], a.dtype)

  def reshape(self, a, shape):
    I = self.I
    if a.dtype == 'key':
      sh = shape
      if sh is not None and tuple(sh) == (-1,):
        return Arr(X.node('keyflat', (a.full(),), ()), (), 'key') if a.shape != () else a
      if sh is not None and a.shape is not None:
        sh = self.fix_reshape(a.shape, sh)
        if sh is not None:
          if len(sh) and sh == a.shape:
            return a
          if sh == ():
            return Arr(X.node('elem', (a.full(), 0, X.ZERO), ()), (), 'key') if a.shape else a
          return Arr(X.node('reshape', (a.full(), sh), sh), sh, 'key')
      return Arr(X.node('keyreshape', (a.full(),), None), None, 'key')
    if shape is None:
      return Arr(X.node('reshape?', (a.t, 'unk'), None, a.t.is01, a.t.isint), None, a.dtype)
    if a.shape is None:
      sh = tuple(shape)
      if any(d == -1 for d in sh):
        known = [d for d in sh if d != -1]
        if len(sh) == 1:
          n = X.node('size', (a.t,), (), False, True)
        else:
          n = X.node('restsize', (a.t,) + tuple(X.lift(d) for d in known), (), False, True)
        sh = tuple(n if d == -1 else d for d in sh)
      return Arr(X.node('reshape?', (a.t, sh), sh, a.t.is01, a.t.isint), sh, a.dtype)
    sh = self.fix_reshape(a.shape, shape)
    if sh is None:
      return Arr(X.node('reshape?', (a.full(), tuple(shape)), None, a.t.is01, a.t.isint), None, a.dtype)
    return Arr(X.reshape(a.t, a.shape, sh), sh, a.dtype)

  def fix_reshape(self, src, dst):
    dst = tuple(X.dim(d) if not isinstance(d, Arr) else X.dim(d.t) for d in dst)
    if -1 in dst:
      i = dst.index(-1)
      known = X.dim_prod([d for j, d in enumerate(dst) if j != i])
      tot = X.dim_prod(src)
      q = X.dim_div(tot, known)
      if q is None:
        # dims may differ by an exact division in the code
        q = X.dim(X.fdiv(X.lift(tot), X.lift(known)))
      return dst[:i] + (q,) + dst[i + 1:]
    a, b = X.dim_prod(src), X.dim_prod(dst)
    if a != b:
      self.I.event('reshape_mismatch', src=src, dst=dst)
    return dst

  def axes(self, axis, R):
    I = self.I
    if axis is None:
      return tuple(range(R))
    if isinstance(axis, int):
      return (norm_axis(axis, R),)
    if isinstance(axis, RangeV):
      axis = tuple(I.iterate(axis)) if isinstance(I.iterate(axis), list) else None
    if isinstance(axis, Ref):
      axis = I.unpack(axis, None)
    if axis is None:
      return None
    out = []
    for x in axis:
      if not isinstance(x, int):
        c = X.const_val(I.num(x).t) if I.num(x) is not None else None
        if c is None:
          return None
        x = int(c)
      out.append(norm_axis(x, R))
    return tuple(sorted(set(out)))

  def sum_(self, a, axes, keep=False, dt=None):
    t = X.rsum(a.t, a.shape, axes)
    R = len(a.shape)
    sh = tuple(d for i, d in enumerate(a.shape) if i not in axes)
    r = Arr(t, sh, 'int' if a.dtype == 'bool' else a.dtype)
    if keep:
      r = self.keepdims(r, axes, R)
    return r

  def keepdims(self, r, axes, R):
    t = X.sqz_expand(r.t, axes, R)
    sh = list(r.shape)
    for ax in sorted(axes):
      sh.insert(ax, 1)
    return Arr(t, tuple(sh), r.dtype)

  def reduction(self, name, a, axis, keep):
    I = self.I
    if a.shape is None:
      return Arr(X.node('red?' + name, (a.t, I.as_term(axis), bool(keep)), () if axis is None and not keep else None), () if axis is None and not keep else None, a.dtype)
    axes = self.axes(axis, len(a.shape))
    if axes is None:
      return I.unk('axis')
    R = len(a.shape)
    if name == 'sum':
      return self.sum_(a, axes, keep)
    if name == 'mean':
      r = self.sum_(a, axes, keep)
      n = X.dim_prod([a.shape[i] for i in axes])
      return Arr(X.div(r.t, X.lift(n)), r.shape, 'float')
    if name == 'lse':
      t = X.lse(a.t, a.shape, axes)
    elif name in ('any', 'all'):
      t = X.reduce_('r' + name, X.tobool(a.t), a.shape, axes)
    else:
      t = X.reduce_('r' + name, a.t, a.shape, axes)
    sh = tuple(d for i, d in enumerate(a.shape) if i not in axes)
    r = Arr(t, sh, 'float' if name in ('lse', 'std', 'var') else a.dtype)
    return self.keepdims(r, axes, R) if keep else r

  # ------------------------------------------------------------ indexing
  def elem(self, a, ax, i):
    """a[..., i, ...] with scalar index i (T) on axis ax."""
    sh = a.shape[:ax] + a.shape[ax + 1:]
    return Arr(elem_t(a.t, a.shape, ax, X.lift(i)), sh, a.dtype)

  def slice_(self, a, ax, s, e, st):
    """returns Arr; s,e terms or None."""
    n = a.shape[ax]
    if st is not None and st != 1:
      if st == -1 and s is None and e is None:
        return self.flip(a, (ax,))
      ln = X.dim(X.node('slicelen', (X.lift(n), self.I.as_term(s), self.I.as_term(e), self.I.as_term(st)), (), False, True))
      if all(isinstance(v, int) or v is None for v in (n, s, e, st)):
        ln = len(range(n)[slice(s, e, st)])
      sh = a.shape[:ax] + (ln,) + a.shape[ax + 1:]
      return Arr(X.node('slice', (a.full(), ax, self.I.as_term(s), self.I.as_term(e), self.I.as_term(st)), sh,
                        a.t.is01, a.t.isint), sh, a.dtype)

    def norm(v, dflt):
      if v is None:
        return X.lift(dflt)
      t = self.I.num(v).t
      c = X.const_val(t)
      if c is not None and c < 0:
        return X.add(X.lift(n), t)
      if c is None and X.pos(X.neg(t)):
        return X.add(X.lift(n), t)
      return t
    lo, hi = norm(s, 0), norm(e, n)
    if isinstance(n, int):
      ch, cl = X.const_val(hi), X.const_val(lo)
      if ch is not None:
        hi = X.const(max(0, min(ch, n)))
      if cl is not None:
        lo = X.const(max(0, min(cl, n)))
    if X.const_val(lo) == 0 and X.dim(hi) == n:
      return a
    ln = X.dim(X.sub(hi, lo))
    sh = a.shape[:ax] + (ln,) + a.shape[ax + 1:]
    return Arr(slice_t(a.t, a.shape, ax, lo, hi), sh, a.dtype)

  def flip(self, a, axes):
    t = a.t
    for ax in axes:
      t = flip_t(t, a.shape, ax)
    return Arr(t, a.shape, a.dtype)

  def parse_index(self, a, idx):
    """Expand ellipsis; returns list of entries aligned with axes or None."""
    I = self.I
    idx = list(idx)
    n_ax = sum(1 for k in idx if k is not None and k is not Ellipsis and not self.is_newaxis(k))
    if Ellipsis in [k for k in idx if k is Ellipsis]:
      p = next(i for i, k in enumerate(idx) if k is Ellipsis)
      idx[p:p + 1] = [SliceV(None, None, None)] * (len(a.shape) - n_ax)
    else:
      idx += [SliceV(None, None, None)] * (len(a.shape) - n_ax)
    return idx

  def is_newaxis(self, k):
    return k is None

  def index(self, a, idx):
    I = self.I
    if a.dtype == 'key' and a.shape is None:
      return Arr(X.node('elem', (a.t, 0, I.as_term(idx[0])), None), None, 'key')
    if a.shape is None:
      if len(idx) == 1 and isinstance(idx[0], (int, str)):
        return Arr(X.node('item', (a.t, I.as_term(idx[0])), None), None, None)
      return Arr(X.node('index?', (a.t, tuple(self.ikey(k) for k in idx)), None), None, a.dtype)
    cnt = sum(1 for k in idx if k is not None and k is not Ellipsis)
    if cnt > len(a.shape):
      I.event('too_many_indices', shape=a.shape, n=cnt)
      raise PyRaise('IndexError')
    ent = self.parse_index(a, idx)
    # advanced?
    adv = []
    for k in ent:
      if k is None or isinstance(k, SliceV):
        continue
      v = self.arr(k)
      if v is None:
        return I.unk('index', a, *[x for x in idx if isinstance(x, Arr)])
      if v.shape is None or len(v.shape) > 0:
        adv.append(v)
    if not adv:
      r = a
      ax = 0
      for k in ent:
        if k is None:
          r = self.expand(r, ax)
          ax += 1
        elif isinstance(k, SliceV):
          r = self.slice_(r, ax, k.a, k.b, k.c)
          ax += 1
        else:
          i = self.arr(k).t
          c = X.const_val(i)
          n = r.shape[ax]
          if c is not None and c < 0:
            i = X.add(X.lift(n), i)
            c2 = X.const_val(i)
          if c is not None and isinstance(n, int) and not -n <= c < n:
            I.event('oob_index', shape=a.shape, axis=ax, index=c)
          r = self.elem(r, ax, i)
      return r
    # boolean mask
    if any(v.dtype == 'bool' for v in adv):
      t = X.node('maskidx', (a.full(), tuple(self.ikey(k) for k in ent)), None, a.t.is01, a.t.isint)
      nd = None
      if len(adv) == 1 and adv[0].shape is not None and len(ent) and self.arr(ent[0]) is adv[0]:
        m = adv[0]
        nd = (X.node('count', (m.full(),), (), False, True),) + a.shape[len(m.shape):]
        t = X.node('maskidx', (a.full(), m.full()), nd, a.t.is01, a.t.isint)
      return Arr(t, nd, a.dtype)
    if any(v.shape is None for v in adv):
      return Arr(X.node('index?', (a.full(), tuple(self.ikey(k) for k in ent)), None, a.t.is01, a.t.isint), None, a.dtype)
    # apply newaxis / slices first when they surround the advanced block
    r = a
    ax = 0
    entries = []
    for k in ent:
      if k is None:
        r = self.expand(r, ax)
        entries.append(None)
      elif isinstance(k, SliceV):
        r = self.slice_(r, ax, k.a, k.b, k.c)
        entries.append(None)
      else:
        v = self.arr(k)
        entries.append(v)
      ax += 1
    return self.gather(r, entries)

  def ikey(self, k):
    if isinstance(k, SliceV):
      return ('sl', self.I.as_term(k.a), self.I.as_term(k.b), self.I.as_term(k.c))
    if k is None:
      return 'new'
    if k is Ellipsis:
      return '...'
    return self.I.as_term(k)

  def gather(self, a, entries):
    """entries: per axis None (full slice) or Arr index."""
    ish = ()
    for v in entries:
      if v is not None:
        if X.shapes_conflict(ish, v.shape):
          self.I.event('shape_conflict', a=ish, b=v.shape)
        ish = X.bshape(ish, v.shape)
    pos = [i for i, v in enumerate(entries) if v is not None]
    adj = pos == list(range(pos[0], pos[-1] + 1))
    rest = [d for i, d in enumerate(a.shape) if entries[i] is None]
    if adj:
      pre = [d for i, d in enumerate(a.shape) if entries[i] is None and i < pos[0]]
      post = [d for i, d in enumerate(a.shape) if entries[i] is None and i > pos[0]]
      sh = tuple(pre) + ish + tuple(post)
    else:
      sh = ish + tuple(rest)
    norm = []
    for i, v in enumerate(entries):
      if v is None:
        norm.append(':')
      else:
        t = v.t
        lo, hi = X.rng(t)
        if hi is not None and X.pos(X.neg(hi)):
          t = X.add(t, X.lift(a.shape[i]))
        norm.append(t)
    t = gather_t(a.t, a.shape, tuple(norm), sh, ish)
    return Arr(t, sh, a.dtype)

  def at_method(self, at, name, args, kw):
    I = self.I
    a = at.arr
    v = self.arr(args[0]) if args else None
    if a.shape is None or v is None:
      return Arr(X.node('scatter?', (a.t, tuple(self.ikey(k) for k in at.idx), name, I.as_term(args[0] if args else None)),
                        a.shape), a.shape, a.dtype)
    cnt = sum(1 for k in at.idx if k is not None and k is not Ellipsis)
    if cnt > len(a.shape):
      I.event('too_many_indices', shape=a.shape, n=cnt)
      raise PyRaise('IndexError')
    for ax, k in enumerate(self.parse_index(a, at.idx)):
      kk = self.arr(k) if not isinstance(k, SliceV) and k is not None else None
      if kk is not None:
        c = X.const_val(kk.t)
        n = a.shape[ax] if ax < len(a.shape) else None
        if c is not None and isinstance(n, int) and not -n <= c < n:
          I.event('oob_index', shape=a.shape, axis=ax, index=c, store=True)
    cur = self.index(a, at.idx)
    ent = self.parse_index(a, at.idx)
    key = []
    unique = True
    for ax, k in enumerate(ent):
      if isinstance(k, SliceV):
        key.append(('sl',) + self.norm_slice(a, ax, k))
      elif k is None:
        key.append('new')
      else:
        kv = self.arr(k)
        if kv is not None and kv.shape is not None and len(kv.shape) > 0:
          unique = False
        if kv is not None:
          t = kv.t
          c = X.const_val(t)
          if c is not None and c < 0:
            t = X.add(t, X.lift(a.shape[ax]))
          key.append(t)
        else:
          key.append(I.as_term(k))
    key = tuple(key)
    if cur.shape is not None and v.shape is not None and X.shapes_conflict(cur.shape, v.shape):
      I.event('shape_conflict', a=cur.shape, b=v.shape)
    dt = a.dtype
    tr = dt == 'int' and v.dtype == 'float'   # the result keeps the dtype of the array written to
    if name == 'set':
      nv = X.trunc(v.t) if tr else v.t
    elif unique and name in ('add', 'multiply', 'mul', 'min', 'max', 'divide'):
      f = {'add': X.add, 'multiply': X.mul, 'mul': X.mul, 'min': X.minimum, 'max': X.maximum, 'divide': X.div}[name]
      nv = f(cur.t, v.t)
      if tr:
        nv = X.trunc(nv)
    elif name == 'get':
      return cur
    else:
      nv = X.bcast(v.t, cur.shape) if cur.shape is not None else v.t
      if tr:
        nv = X.trunc(nv)
      return Arr(X.node('scatter_' + name, (a.full(), key, nv), a.shape, False, a.t.isint and v.t.isint), a.shape, dt)
    # whole-array store
    if all(isinstance(k, tuple) and k[0] == 'sl' and k[1:] == (X.ZERO, X.lift(a.shape[i])) for i, k in enumerate(key)):
      return Arr(nv, a.shape, dt)
    return Arr(scatter_t(a.full(), key, nv), a.shape, dt)

  def norm_slice(self, a, ax, k):
    n = X.lift(a.shape[ax])

    def nm(v, d):
      if v is None:
        return d
      t = self.I.num(v).t
      c = X.const_val(t)
      return X.add(n, t) if c is not None and c < 0 else t
    return (nm(k.a, X.ZERO), nm(k.b, n)) + ((self.I.as_term(k.c),) if k.c not in (None, 1) else ())

  def np_store(self, o, k, v):
    """numpy in-place assignment: rebinding every alias in the environments."""
    I = self.I
    new = self.at_method(AtV(o, k if isinstance(k, tuple) else (k,)), 'set', [v], {})
    for ob in I.st.heap.values():
      for kk, vv in list(cells(ob).items()):
        if vv is o:
          cells(ob)[kk] = new
    return new

  # ------------------------------------------------------------ array attrs
  def arr_attr(self, a, name):
    I = self.I
    if name == 'shape':
      if a.shape is None:
        return Arr(X.node('attr', (a.t, 'shape'), None), None, None)
      return tuple(self.dimv(d) for d in a.shape)
    if name == 'ndim':
      return len(a.shape) if a.shape is not None else Arr(X.node('ndim', (a.t,), (), False, True), (), 'int')
    if name == 'size':
      return self.dimv(X.dim_prod(a.shape)) if a.shape is not None else Arr(X.node('size', (a.t,), (), False, True), (), 'int')
    if name == 'dtype':
      return Arr(X.node('dtype', (a.dtype or 'unknown',), ()), (), None)
    if name == 'T':
      if a.shape is None:
        return Arr(X.node('attr', (a.t, 'T'), None), None, a.dtype)
      return self.transpose(a, tuple(reversed(range(len(a.shape)))))
    if name == 'at':
      return AtV(a)
    if name == 'real':
      return a
    if name in ('astype', 'reshape', 'sum', 'mean', 'max', 'min', 'argmax', 'argmin', 'squeeze', 'flatten', 'ravel',
                'transpose', 'copy', 'item', 'tolist', 'prod', 'any', 'all', 'std', 'var', 'cumsum', 'argsort', 'sort',
                'clip', 'round', 'take', 'repeat', 'swapaxes', 'dot', 'block_until_ready', 'numpy', 'conj', 'set', 'fill'):
      return NativeV('arr.' + name, lambda I, args, kw: self.arr_method(a, name, args, kw))
    return Arr(X.node('attr', (a.t, name), None), None, None)

  def arr_method(self, a, name, args, kw):
    I = self.I
    if name == 'astype':
      return self.cast(a, args[0] if args else kw.get('dtype'))
    if name == 'reshape':
      if len(args) == 1 and not (isinstance(args[0], (int,)) or (isinstance(args[0], Arr) and args[0].shape == ())):
        sh = self.shape_of(args[0])
      else:
        sh = self.shape_of(tuple(args)) if args else self.shape_of(kw.get('shape') or kw.get('newshape'))
      return self.reshape_o(a, sh, kw.get('order'))
    if name in ('flatten', 'ravel'):
      return self.reshape_o(a, (-1,), kw.get('order', args[0] if args else None))
    if name in ('copy', 'block_until_ready', 'numpy', 'conj'):
      return a
    if name == 'item':
      return Arr(a.t, (), a.dtype)
    if name == 'tolist':
      return a
    if name == 'transpose':
      ax = args[0] if len(args) == 1 and isinstance(args[0], (tuple, Ref)) else (tuple(args) if args else None)
      return self.call_ext('jax.numpy.transpose', [a] + ([ax] if ax is not None else []), kw)
    return self.call_ext('jax.numpy.' + name, [a] + list(args), kw)

  def cast(self, a, dt):
    I = self.I
    d = self.dtype_of(dt)
    if isinstance(dt, Arr) and dt.t.op == 'dtype' and dt.t.args[0] in ('int', 'float', 'bool'):
      d = dt.t.args[0]
    if d is None:
      return Arr(a.t, a.shape, None if a.dtype != 'key' else 'key')
    if d == 'int':
      return Arr(X.trunc(a.t), a.shape, 'int')
    if d == 'bool':
      return Arr(X.tobool(a.t), a.shape, 'bool')
    return Arr(a.t, a.shape, d)

  def transpose(self, a, perm):
    t = transpose_t(a.t, a.shape, perm)
    return Arr(t, tuple(a.shape[p] for p in perm), a.dtype)

  # ------------------------------------------------------------ containers
  def list_extend(self, ref, v):
    I = self.I
    o = I.obj(ref)
    vals = I.unpack(v, None) if isinstance(v, (tuple, Ref)) else None
    I.event('mutate', obj=ref.id, key='extend', origin=o.origin, val=v)
    if vals is None:
      o.items.append(Seg('ext', [v]))
    else:
      o.items += vals

  def list_getitem(self, ref, o, k):
    I = self.I
    if isinstance(k, bool):
      k = int(k)
    if isinstance(k, SliceV):
      if o.concrete() and all(z is None or isinstance(z, int) for z in (k.a, k.b, k.c)):
        return I.mklist(o.items[slice(k.a, k.b, k.c)])
      return I.opaque('listslice', ref, self.as_slice(k))
    ka = I.num(k)
    if ka is not None and X.const_val(ka.t) is not None:
      i = int(X.const_val(ka.t))
      if o.concrete():
        if -len(o.items) <= i < len(o.items):
          return o.items[i]
        I.event('oob_list', index=i, n=len(o.items))
        raise PyRaise(I.sure('IndexError'))
      pre = []
      for it in o.items:
        if isinstance(it, Seg):
          break
        pre.append(it)
      if 0 <= i < len(pre):
        return pre[i]
      if i < 0:
        suf = []
        for it in reversed(o.items):
          if isinstance(it, Seg):
            break
          suf.append(it)
        if -i <= len(suf):
          return suf[-i - 1]
      return I.opaque('item', ref, k)
    if o.concrete() and ka is not None and o.items:
      arrs = [self.arr(x) for x in o.items]
      if all(x is not None and x.shape == arrs[0].shape and x.shape is not None for x in arrs):
        st = self.stack(arrs, 0, arrs[0].dtype)
        return self.index(st, (k,))
    return I.opaque('item', ref, k)

  def as_slice(self, k):
    I = self.I
    return X.node('slicev', (I.as_term(k.a), I.as_term(k.b), I.as_term(k.c)), None)

  def list_method(self, ref, name):
    I = self.I

    def f(I, args, kw):
      o = I.obj(ref)
      if name == 'append':
        I.event('mutate', obj=ref.id, key='append', origin=o.origin, val=args[0])
        o.items.append(args[0])
        return None
      if name == 'extend':
        self.list_extend(ref, args[0])
        return None
      if name == 'insert':
        I.event('mutate', obj=ref.id, key='insert', origin=o.origin, val=args[1])
        if o.concrete() and isinstance(args[0], int):
          o.items.insert(args[0], args[1])
        else:
          o.items = [Seg('ins', [args[1]] + o.items)]
        return None
      if name == 'pop':
        I.event('mutate', obj=ref.id, key='pop', origin=o.origin)
        if o.concrete() and o.items and (not args or isinstance(args[0], int)):
          return o.items.pop(*args)
        return I.opaque('pop', ref)
      if name == 'copy':
        return I.mklist(o.items)
      if o.isset and name in ('difference', 'union', 'intersection', 'symmetric_difference'):
        r = ref
        for a in args:
          r = self.setop(name, r, a)
        return self.mkset(I.obj(r).items)
      if o.isset and name in ('issubset', 'issuperset', 'isdisjoint') and len(args) == 1:
        x, y = self.setkeys(ref), self.setkeys(args[0])
        if x is not None and y is not None:
          return {'issubset': set(x) <= set(y), 'issuperset': set(x) >= set(y), 'isdisjoint': not set(x) & set(y)}[name]
      if o.isset and name in ('add', 'update', 'discard', 'remove', 'difference_update', 'intersection_update') and len(args) == 1:
        I.event('mutate', obj=ref.id, key=name, origin=o.origin)
        op = {'add': 'union', 'update': 'union', 'discard': 'difference', 'remove': 'difference', 'difference_update': 'difference', 'intersection_update': 'intersection'}[name]
        other = args[0] if name.endswith('update') else I.mklist([args[0]])
        if name == 'remove' and self.setkeys(ref) is not None and _concrete_key(args[0]) and _hk(args[0]) not in self.setkeys(ref):
          raise PyRaise('KeyError')
        o.items = list(I.obj(self.setop(op, ref, other)).items)
        return None
      if name in ('sort', 'reverse', 'clear', 'remove'):
        I.event('mutate', obj=ref.id, key=name, origin=o.origin)
        if name == 'clear':
          o.items = []
        elif name == 'sort':
          r = self.x_builtins_sorted(ref, kw.get('key'), kw.get('reverse', False)) if not args else None
          o.items = list(I.obj(r).items) if isinstance(r, Ref) else [Seg(name, list(o.items))]
        elif name == 'remove' and o.concrete() and _concrete_key(args[0]) and all(_concrete_key(x) for x in o.items):
          k = [_hk(x) for x in o.items]
          if _hk(args[0]) not in k:
            raise PyRaise('ValueError')
          o.items.pop(k.index(_hk(args[0])))
        elif name == 'reverse' and o.concrete():
          o.items.reverse()
        else:
          o.items = [Seg(name, list(o.items))]
        return None
      if name == 'index':
        if o.concrete():
          for i, x in enumerate(o.items):
            if I.truth(I.compare('Eq', x, args[0])) is True:
              return i
        return I.opaque('listindex', ref, *args)
      if name == 'count':
        if o.concrete() and _concrete_key(args[0]) and all(_concrete_key(x) for x in o.items):
          return sum(1 for x in o.items if _hk(x) == _hk(args[0]))
        return I.opaque('count', ref, *args)
      if name in ('add', 'update', 'discard'):  # set
        I.event('mutate', obj=ref.id, key=name, origin=o.origin)
        o.items.append(args[0])
        return None
      return I.unk('listmethod:' + name)
    return NativeV('list.' + name, f)

  def dict_method(self, ref, name):
    I = self.I
    if name not in ('get', 'items', 'keys', 'values', 'update', 'pop', 'setdefault', 'copy', 'unlocked', 'to_dict',
                    'to_yaml', 'lock', 'unlock', 'copy_and_resolve_references', 'unfreeze', 'clear', 'to_json') and not (
                        I.obj(ref).tag == 'Counter' and name in ('most_common', 'elements', 'total', 'subtract')):
      return None

    def f(I, args, kw):
      o = I.obj(ref)
      if name == 'get':
        d = args[1] if len(args) > 1 else kw.get('default')
        r = self.contains(args[0], ref)
        if r is True:
          return I.getitem(ref, args[0])
        if r is False:
          I.event('cfg_get_default', tag=o.tag, key=args[0], default=d)
          return d
        if not _concrete_key(args[0]) or isinstance(o.items.get(_hk(args[0])), type(None)):
          return I.opaque('dictget', X.node('ref', (ref.id,), None), *args)
        return I.merge_val(r, I.getitem(ref, args[0]), d)
      if name == 'items':
        if not o.open:
          return I.mklist([(k, v) for k, v in o.items.items()])
        return SymIter(X.node('len', (X.node('ref', (ref.id,), None),), (), False, True),
                       lambda i: (I.opaque('key', X.node('ref', (ref.id,), None), i), I.opaque('val', X.node('ref', (ref.id,), None), i)))
      if name == 'keys':
        return I.mklist(list(o.items.keys())) if not o.open else I.opaque('keys', X.node('ref', (ref.id,), None))
      if name == 'values':
        return I.mklist(list(o.items.values())) if not o.open else I.opaque('values', X.node('ref', (ref.id,), None))
      if o.tag == 'Counter' and name in ('update', 'subtract') and args:
        I.event('mutate', obj=ref.id, key='update', origin=o.origin)
        self.counts(ref, args[0], 1 if name == 'update' else -1)
        return None
      if o.tag == 'Counter' and name in ('most_common', 'elements', 'total'):
        if o.open or not all(isinstance(n, int) for n in o.items.values()):
          return I.opaque('Counter.' + name, *args)
        if name == 'total':
          return sum(o.items.values())
        if name == 'elements':
          return I.mklist([k for k, n in o.items.items() for _ in range(n)])
        it = sorted(o.items.items(), key=lambda kv: -kv[1])
        return I.mklist(it[:args[0]] if args and isinstance(args[0], int) else it)
      if name == 'update':
        src = args[0] if args else None
        for k, v in kw.items():
          o.items[k] = v
        if isinstance(src, Ref) and isinstance(I.obj(src), DictObj):
          s = I.obj(src)
          for k, v in s.items.items():
            old = o.items.get(k)
            if o.attr and isinstance(old, Ref) and isinstance(v, Ref) and isinstance(I.obj(old), DictObj) and I.obj(old).attr and isinstance(I.obj(v), DictObj):
              self.I.call(self.dict_method(old, 'update'), [v], {})
            else:
              o.items[k] = v
              if o.attr:
                pass
          o.open = o.open or s.open
          if s.open and s.default is not None:
            o.default = s.default
        elif src is not None:
          o.open = True
        I.event('mutate', obj=ref.id, key='update', origin=o.origin)
        return None
      if name == 'pop':
        I.event('mutate', obj=ref.id, key='pop', origin=o.origin)
        k = _hk(args[0])
        if k in o.items:
          return o.items.pop(k)
        return args[1] if len(args) > 1 else I.opaque('pop', X.node('ref', (ref.id,), None), *args)
      if name == 'setdefault':
        k = _hk(args[0])
        if k in o.items:
          return o.items[k]
        if o.open:
          v = I.opaque('setdefault', X.node('ref', (ref.id,), None), *args)
          return v
        o.items[k] = args[1] if len(args) > 1 else None
        return o.items[k]
      if name in ('copy', 'copy_and_resolve_references', 'unfreeze', 'to_dict'):
        n = o.copy()
        n.origin = None
        return I.new(n)
      if name == 'unlocked':
        return ref
      if name == 'clear':
        o.items.clear()
        return None
      return I.opaque('dict.' + name)
    return NativeV('dict.' + name, f)

  def class_attr(self, c, name):
    I = self.I
    if any('Enum' in p for p in c.ext_bases()):
      return I.opaque('enum:%s.%s' % (c.name, name))
    I.event('noattr', what='class', name=c.name, attr=name)
    return I.unk('classattr:' + name)

  def is_module_cls(self, cls):
    return any(p.endswith('linen.Module') for p in cls.ext_bases())

  def inst_ext(self, ref, ob, name):
    """Attributes provided by external base classes (flax modules)."""
    I = self.I
    if self.is_module_cls(ob.cls):
      if name == 'param':
        def f(I, args, kw):
          o = I.obj(ref)
          p = o.attrs.get('__params__')
          sh = self.shape_of(args[2]) if len(args) > 2 else None
          if p is None:
            return I.opaque('param:' + str(args[0]), shape=sh, dtype='float')
          if p == '__init__':
            key = Arr(X.node('fold_in', (I.as_term(o.attrs['__initkey__']), X.node('str', (str(args[0]),), ())), ()), (), 'key')
            v = I.call(args[1], [key] + list(args[2:]), dict(kw))
            a = self.arr(v)
            if a is None or a.shape is None:
              v = I.opaque('param:' + str(args[0]), shape=sh, dtype='float')
            o.attrs['__made__'][args[0]] = v
            return v
          if isinstance(p, Ref) and isinstance(I.obj(p), DictObj):
            v = I.getitem(p, args[0])
            if isinstance(v, Arr) and v.shape is None:
              v = Arr(X.atom(('param', args[0], tuple(X.lift(d).id for d in sh) if sh else None), sh), sh, 'float')
            return v
          return Arr(X.node('param', (I.as_term(p), str(args[0])), sh), sh, 'float')
        return NativeV('param', f)
      if name == 'apply':
        def g(I, args, kw):
          kw = dict(kw)
          variables = args[0]
          method = kw.pop('method', None)
          kw.pop('rngs', None)
          p = I.getitem(variables, 'params') if isinstance(variables, Ref) else variables
          o = I.obj(ref)
          n = Inst(o.cls)
          n.attrs = dict(o.attrs)
          n.attrs['__params__'] = p
          r2 = I.new(n)
          old = getattr(self, '_flax', None)
          self._flax = [0, self._netparams(p)]
          st = I.find_method(o.cls, 'setup')
          if st is not None:
            I.call(BoundV(st, r2), [], {})
          try:
            if method is not None:
              fn = method.func if isinstance(method, BoundV) else method
              return I.call(BoundV(fn, r2), list(args[1:]), kw)
            return I.call(BoundV(I.find_method(o.cls, '__call__'), r2), list(args[1:]), kw)
          finally:
            self._flax = old
        return NativeV('apply', g)
      if name == 'init':
        def ini(I, a, k):
          o = I.obj(ref)
          k = dict(k)
          rngs = a[0] if a else None
          key = I.getitem(rngs, 'params') if isinstance(rngs, Ref) and isinstance(I.obj(rngs), DictObj) else rngs
          n = Inst(o.cls)
          n.attrs = dict(o.attrs)
          n.attrs.update(__params__='__init__', __initkey__=key, __made__={})
          r2 = I.new(n)
          old = getattr(self, '_flax', None)
          self._flax = [0, X.node('netinit', (I.as_term(key),), None)]
          try:
            st = I.find_method(o.cls, 'setup')
            if st is not None:
              I.call(BoundV(st, r2), [], {})
            method = k.pop('method', None)
            fn = (method.func if isinstance(method, BoundV) else method) if method is not None else I.find_method(o.cls, '__call__')
            out = I.call(BoundV(fn, r2), list(a[1:]), k)
            I.event('netinit', out=out)
            layers = self._flax[0]
          finally:
            self._flax = old
          if layers or not n.attrs['__made__']:
            return I.mkdict({'params': I.opaque('initparams', X.node('ref', (ref.id,), None))})
          return I.mkdict({'params': I.mkdict(dict(n.attrs['__made__']))})
        return NativeV('init', ini)
    return None

  def _netparams(self, p):
    I = self.I
    if isinstance(p, Ref) and isinstance(I.obj(p), DictObj):
      o = I.obj(p)
      return X.node('tuple', tuple(I.as_term(v) for k, v in sorted(o.items.items(), key=repr) if k not in ('temperature', 'data_mean')), None)
    return I.as_term(p)

  def _layer(self, kind, feats, stride, extra):
    """A parameterised layer: an unknown function of each row, shape known."""
    I = self.I
    ctx = getattr(self, '_flax', None)
    if ctx is None:
      ctx = [0, X.atom('theta', None)]
    k = ctx[0]
    ctx[0] += 1

    def f(I_, args, kw):
      x = self.arr(args[0])
      if x is None or x.shape is None or len(x.shape) < 2:
        return I.unk('layer input')
      fd = X.dim(self.I.num(feats).t) if not isinstance(feats, int) else feats
      if kind == 'Dense':
        sh = x.shape[:-1] + (fd,)
      else:
        s = stride if isinstance(stride, int) else None
        if isinstance(stride, (tuple, Ref)):
          v = stride if isinstance(stride, tuple) else I.obj(stride).items
          s = v[0] if all(q == v[0] for q in v) and isinstance(v[0], int) else None
        if s is None or s < 1:
          return I.unk('stride')
        sp = []
        for d in x.shape[1:-1]:
          t = X.lift(d)
          sp.append(d if s == 1 else X.dim(X.add(X.fdiv(X.sub(t, X.const(1)), X.const(s)), X.const(1))))
        sh = x.shape[:1] + tuple(sp) + (fd,)
      t = X.node('rowfn', ('%s%d%s' % (kind, k, extra), ctx[1], x.full()), sh)
      return Arr(t, sh, 'float')
    return NativeV('layer', f)

  def x_flax_linen_initializers_zeros(self, key, shape, dtype=None):
    return self.np_zeros(shape)

  def x_flax_linen_initializers_ones(self, key, shape, dtype=None):
    return self.np_ones(shape)

  def _initializer(self, kind, scale):
    def f(I, a, k):
      sh = a[1] if len(a) > 1 else k.get('shape')
      r = self.draw(kind, a[0], () if kind == 'normal' else (X.const(-1), X.const(1)), self.shape_of(sh), 'float')
      return r if scale is None else self.binop('Mult', r, scale)
    return NativeV('initializer', f)

  def x_flax_linen_initializers_normal(self, stddev=1e-2, dtype=None):
    return self._initializer('normal', stddev)

  def x_flax_linen_initializers_uniform(self, scale=1e-2, dtype=None):
    return self._initializer('uniform', scale)

  def x_flax_linen_initializers_glorot_uniform(self, kw_=None):
    return self._initializer('uniform', 0.1)

  def x_flax_linen_initializers_glorot_normal(self, kw_=None):
    return self._initializer('normal', 0.1)
  x_flax_linen_initializers_xavier_uniform = x_flax_linen_initializers_lecun_uniform = x_flax_linen_initializers_he_uniform = x_flax_linen_initializers_glorot_uniform
  x_flax_linen_initializers_xavier_normal = x_flax_linen_initializers_lecun_normal = x_flax_linen_initializers_he_normal = x_flax_linen_initializers_glorot_normal

  def x_flax_linen_Dense(self, features, use_bias=True, name=None, kw_=None):
    return self._layer('Dense', features, None, repr(use_bias))

  def x_flax_linen_Conv(self, features, kernel_size, strides=1, padding='SAME', use_bias=True, name=None, kw_=None):
    return self._layer('Conv', features, 1 if strides is None else strides, repr(use_bias))

  def x_flax_linen_activation_swish(self, x):
    return self.binop('Mult', x, self.x_jax_nn_sigmoid(x))
  x_flax_linen_swish = x_flax_linen_silu = x_flax_linen_activation_silu = x_jax_nn_swish = x_jax_nn_silu = x_flax_linen_activation_swish

  def call_inst(self, ref, o, m, args, kw):
    return self.I.call(BoundV(m, ref), args, kw)

  def str_method(self, s, name, args, kw):
    I = self.I
    if name == 'format' and isinstance(s, str) and all(isinstance(a, (str, int, float)) for a in list(args) + list(kw.values())):
      try:
        return s.format(*args, **kw)
      except Exception:
        return I.unk('str.format')
    if name in ('split', 'rsplit') and kw and set(kw) <= {'sep', 'maxsplit'} and isinstance(s, str) and all(
        isinstance(a, (str, int, type(None))) for a in list(args) + list(kw.values())):
      return I.mklist(getattr(s, name)(*args, **kw))
    if all(isinstance(a, (str, int, type(None))) or (isinstance(a, tuple) and all(isinstance(b, str) for b in a)) for a in args) and not kw and isinstance(s, str):
      try:
        if name == 'split':
          return I.mklist(s.split(*args))
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'startswith', 'endswith', 'find', 'rfind',
                    'format', 'title', 'capitalize', 'count', 'index', 'rindex', 'zfill', 'isdigit', 'isalpha', 'isalnum',
                    'isnumeric', 'isdecimal', 'isupper', 'islower', 'isspace', 'partition', 'rpartition', 'swapcase',
                    'casefold', 'removeprefix', 'removesuffix', 'ljust', 'rjust', 'center', 'expandtabs'):
          return getattr(s, name)(*args)
        if name in ('splitlines', 'rsplit'):
          return I.mklist(getattr(s, name)(*args))
      except Exception:
        return I.unk('str.' + name)
    if name == 'join' and args:
      items = I.unpack(args[0], None) if isinstance(args[0], (tuple, Ref)) else None
      if items is not None and all(isinstance(i, str) for i in items):
        return s.join(items)
    I.blurred = True
    return I.opaque('str.' + name, s, *args)

  def tuple_method(self, t, name, args, kw):
    I = self.I
    if name == 'index':
      for i, x in enumerate(t):
        if I.truth(I.compare('Eq', x, args[0])) is True:
          return i
    if name == 'count':
      return sum(1 for x in t if I.truth(I.compare('Eq', x, args[0])) is True)
    return I.unk('tuple.' + name)

  # ------------------------------------------------------------ wrappers
  def call_wrap(self, w, args, kw):
    I = self.I
    if w.kind in ('jit', 'pmap'):
      if not w.info.get('static') and any(self.has_str(a) for a in list(args) + list(kw.values())):
        raise PyRaise(Sure('TypeError'))
      I.jit += 1
      try:
        if w.kind == 'pmap':
          return self.vmap(w, args, kw, all_axes=True)
        return I.call(w.f, args, kw)
      finally:
        I.jit -= 1
    if w.kind == 'vmap':
      return self.vmap(w, args, kw)
    if w.kind in ('grad', 'value_and_grad'):
      return self.grad(w, args, kw)
    return I.call(w.f, args, kw)

  def has_str(self, v):
    if isinstance(v, str):
      return True
    if isinstance(v, Ref):
      o = self.I.obj(v)
      return isinstance(o, ListObj) and any(isinstance(x, str) for x in o.items)
    return isinstance(v, tuple) and any(isinstance(x, str) for x in v)

  def tree_map(self, f, v, *rest):
    I = self.I
    if isinstance(v, tuple):
      return tuple(self.tree_map(f, x, *[r[i] if isinstance(r, tuple) else r for r in rest]) for i, x in enumerate(v))
    if isinstance(v, Ref):
      o = I.obj(v)
      if isinstance(o, DictObj):
        n = DictObj({}, o.attr)
        n.open, n.tag = o.open, o.tag
        n.default = o.default
        r = I.new(n)
        for k, x in list(o.items.items()):
          y = self.tree_map(f, x, *[I.getitem(q, k) if isinstance(q, Ref) else q for q in rest])
          I.obj(r).items[k] = y
        return r
      if isinstance(o, ListObj) and o.concrete():
        return I.mklist([self.tree_map(f, x, *[I.getitem(q, i) for q in rest]) for i, x in enumerate(o.items)])
      if isinstance(o, Inst) and getattr(o.cls, 'dataclass', False):
        n = Inst(o.cls)
        r = I.new(n)
        for k, x in list(o.attrs.items()):
          I.obj(r).attrs[k] = self.tree_map(f, x, *[I.getattr(q, k) for q in rest])
        return r
    if v is None:
      return None
    if isinstance(v, Choice):
      return I.merge_val(v.c, self.tree_map(f, v.a, *rest), self.tree_map(f, v.b, *rest))
    return f(v, *rest)

  def vmap(self, w, args, kw, all_axes=False):
    """Map over axis 0: analyse the body for one symbolic lane."""
    I = self.I
    in_axes = w.info.get('in_axes', 0)
    out_axes = w.info.get('out_axes', 0)
    lane = [None]
    site = '%s:%d' % (I.mod.path if I.mod else '?', I.line)
    names = [site, I.loopdepth + 1]
    n = [None]

    def find(v, ax):
      def chk(x):
        if isinstance(x, Arr) and x.shape is not None and len(x.shape) > 0 and n[0] is None and ax is not None:
          a = norm_axis(ax, len(x.shape))
          n[0] = x.shape[a]
        return x
      self.tree_map(chk, v)

    axes = []
    if isinstance(in_axes, (tuple, Ref)):
      axes = I.unpack(in_axes, None)
    for i, v in enumerate(args):
      ax = axes[i] if axes else in_axes
      if isinstance(ax, tuple) and len(ax) == 1:
        ax = ax[0]
      if ax is not None and isinstance(ax, int):
        find(v, ax)
    for v in kw.values():
      find(v, 0)
    if n[0] is None:
      nn = X.node('lanes', (site,), (), False, True)
      n[0] = nn
    j = X.atom(('lane', site, I.loopdepth + 1, X.lift(n[0]).id) + ((len(I.lanes),) if I.fresh_lanes else ()), (), lo=0, hi=X.sub(X.lift(n[0]), X.const(1)), isint=True)

    def lane_of(v, ax):
      def pick(x):
        if isinstance(x, Arr):
          if x.shape is not None and len(x.shape) > 0:
            return self.elem(x, norm_axis(ax, len(x.shape)), j)
          if x.shape is None:
            return Arr(X.node('elem', (x.t, ax, j), None), None, x.dtype)
        return x
      return self.tree_map(pick, v)

    nargs = []
    for i, v in enumerate(args):
      ax = axes[i] if axes and i < len(axes) else (in_axes if not axes else 0)
      if isinstance(ax, tuple) and len(ax) == 1:
        ax = ax[0]
      nargs.append(v if ax is None else lane_of(v, ax if isinstance(ax, int) else 0))
    nkw = {k: lane_of(v, 0) for k, v in kw.items()}
    I.loopdepth += 1
    ev0 = len(I.events)
    I.lane_stack.append((j, n[0]))
    try:
      r = I.call(w.f, nargs, nkw)
    finally:
      I.loopdepth -= 1
      I.lane_stack.pop()
    I.lanes.append(dict(site=site, idx=j, trip=n[0], carried={}, evs=(ev0, len(I.events)), events=I.events[ev0:],
                        file=I.mod.path if I.mod else '?', line=I.line, func=I.frames[-1][1] if I.frames else ''))

    def lift(x):
      a = I.num(x)
      if a is None:
        return x
      if a.shape is None:
        return Arr(X.node('map', (j, a.t, X.lift(n[0])), None), None, a.dtype)
      return Arr(self.mapterm(j, n[0], a), (n[0],) + a.shape, a.dtype)

    def place(v, ax):
      if isinstance(ax, tuple) and isinstance(v, tuple) and len(ax) == len(v):
        return tuple(place(x, q) for x, q in zip(v, ax))
      out = self.tree_map(lift, v)
      if isinstance(ax, int) and ax != 0:
        return self.tree_map(lambda x: self.np_moveaxis(x, 0, ax) if isinstance(x, Arr) else x, out)
      if ax == 0:
        return out
      if ax is None:
        return self.tree_map(lambda x: self.index(x, (0,)) if isinstance(x, Arr) else x, out)
      return I.unk('out_axes', out)
    if isinstance(out_axes, Ref):
      out_axes = tuple(I.unpack(out_axes, None) or ())
    return place(r, out_axes)

  def mapterm(self, j, n, a):
    """[a(0), ..., a(n-1)] as one term."""
    t = a.full()
    if not X.contains(t, {j}):
      return X.bcast(t, (n,) + a.shape) if False else t
    if t.op == 'elem' and t.args[1] == 0 and t.args[2] is j and t.args[0].shape is not None and t.args[0].shape[0] == n \
        and not X.contains(t.args[0], {j}):
      return t.args[0]
    if t is j:
      return X.iota(n)
    if a.shape == () and t.op in X.ELEMWISE:
      # elementwise over scalar lanes: lift leafwise
      def up(u):
        if not X.contains(u, {j}):
          return u
        if u is j:
          return X.iota(n)
        return self.mapterm(j, n, Arr(u, u.shape, None))
      if all(u.shape == () for u in X.operands(t)):
        return X.remap(t, up)
    return X.node('map', (j, t, X.lift(n)), (n,) + a.shape, t.is01, t.isint)

  def grad(self, w, args, kw):
    I = self.I
    argnums = w.info.get('argnums', 0)
    has_aux = w.info.get('has_aux', False)
    if not isinstance(argnums, int):
      return I.unk('grad-argnums')
    x = args[argnums]
    # the function is analysed at a generic real point, so that simplifications valid for
    # integers only do not leak into the derivative
    zs, back = [], {}

    def lift(leaf):
      a = I.num(leaf)
      if a is None or a.shape is None or a.dtype == 'key':
        return leaf
      f = a.full()
      if f.op == 'atom' and not f.isint and not f.is01:
        return Arr(f, a.shape, a.dtype)
      z = X.atom(('gz', f.id), a.shape)
      back[z] = f
      return Arr(z, a.shape, a.dtype)
    xz = self.tree_map(lift, x)
    self.ingrad = getattr(self, 'ingrad', 0) + 1
    try:
      r = I.call(w.f, list(args[:argnums]) + [xz] + list(args[argnums + 1:]), kw)
    finally:
      self.ingrad -= 1

    def down(leaf):
      a = leaf if isinstance(leaf, Arr) else None
      if a is None or not back:
        return leaf
      return Arr(X.subst(a.t, back), a.shape, a.dtype)
    aux = None
    val = r
    if has_aux:
      val, aux = I.unpack(r, 2)
      aux = self.tree_map(down, aux)
    va = I.num(val)
    if va is not None and va.shape is not None and va.shape != ():
      I.event('grad_nonscalar', shape=va.shape)
    val = self.tree_map(down, val)

    def g(leaf):
      a = I.num(leaf)
      if a is None or va is None:
        return I.unk('grad', leaf)
      if va.t.op == 'top':
        return I.unk('grad', leaf)
      f = a.full()
      z = X.atom(('gz', f.id), a.shape) if a.shape is not None and f is not None and X.atom(('gz', f.id), a.shape) in back else f
      return Arr(X.node('gradz', (va.t, z, f), a.shape), a.shape, a.dtype)
    gr = self.tree_map(g, x)
    I.event('grad', val=va, wrt=x, res=gr, aux=aux)
    if w.kind == 'grad':
      return (gr, aux) if has_aux else gr
    return ((val, aux), gr) if has_aux else (val, gr)

  # ------------------------------------------------------------ loops (lax)
  def lax_loop(self, site, trip, fbody, init, idxlo=0, cond=None):
    """fbody(idx, carry) -> (carry', y).  Returns (eta carry, ys-map)."""
    I = self.I
    I.loopdepth += 1
    hi = X.add(X.lift(idxlo), X.sub(X.lift(trip), X.const(1))) if trip is not None else None
    j = X.atom(('i', site, I.loopdepth, X.lift(idxlo).id, X.lift(trip).id if trip is not None else None), (),
               lo=idxlo, hi=hi, isint=True)
    leaves = []

    def collect(x, path=''):
      if isinstance(x, tuple):
        return tuple(collect(v, path + '.%d' % i) for i, v in enumerate(x))
      if isinstance(x, Ref):
        o = I.obj(x)
        if isinstance(o, DictObj):
          return ('__dict__', x, {k: collect(v, path + '.%s' % k) for k, v in o.items.items()})
        if isinstance(o, ListObj) and o.concrete():
          return tuple(collect(v, path + '.%d' % i) for i, v in enumerate(o.items))
      leaves.append((path, x))
      return ('__leaf__', len(leaves) - 1)

    struct = collect(init)

    def build(s, vals):
      if isinstance(s, tuple) and len(s) == 2 and s[0] == '__leaf__':
        return vals[s[1]]
      if isinstance(s, tuple) and len(s) == 3 and s[0] == '__dict__':
        src = I.obj(s[1])
        d = DictObj({k: build(v, vals) for k, v in s[2].items()}, src.attr)
        d.origin, d.open, d.default = None, src.open, src.default
        return I.new(d)
      return tuple(build(v, vals) for v in s)

    def flat(s, v, out):
      if isinstance(s, tuple) and len(s) == 2 and s[0] == '__leaf__':
        out[s[1]] = v
        return
      if isinstance(s, tuple) and len(s) == 3 and s[0] == '__dict__':
        for k in s[2]:
          try:
            flat(s[2][k], I.getitem(v, k), out)
          except PyRaise:
            flat(s[2][k], I.unk('carry'), out)
        return
      vals = I.unpack(v, len(s))
      for a, b in zip(s, vals):
        flat(a, b, out)

    inits = [x for _, x in leaves]
    inv = [False] * len(leaves)
    shapeless = [False] * len(leaves)
    mus = [None] * len(leaves)
    y = None
    nxt = None
    for it in range(6):
      ev, lp, im = len(I.events), len(I.loops), len(I.imprecise)
      stsave = I.st.clone()
      for k, (path, x) in enumerate(leaves):
        if inv[k]:
          mus[k] = x
        else:
          a = I.num(x)
          if a is None:
            mus[k] = x
            continue
          sh = None if shapeless[k] else a.shape
          key = ('mu', site, I.loopdepth, path, tuple(X.lift(d).id for d in sh) if sh is not None else None, a.dtype, a.t.isint)
          mus[k] = Arr(X.atom(key, sh, isint=a.t.isint and a.dtype != 'float' or a.dtype in ('int', 'bool'), exact=False, mu=True, init=a.full()), sh, a.dtype)
      carry = build(struct, mus)
      cnd = None
      if cond is not None:
        cnd = I.call(cond, [build(struct, mus)], {})
      nc, y = fbody(Arr(j, (), 'int'), carry)
      nxt = [None] * len(leaves)
      flat(struct, nc, nxt)
      changed = False
      for k in range(len(leaves)):
        a, m = I.num(nxt[k]), mus[k]
        if inv[k]:
          continue
        if I.same(nxt[k], m):
          inv[k] = True
          changed = True
        elif a is not None and isinstance(m, Arr) and a.shape != m.shape and not shapeless[k]:
          if a.shape is not None and m.shape is not None:
            I.event('carry_shape', a=a.shape, b=m.shape)
          shapeless[k] = True
          changed = True
      if not changed:
        break
      del I.events[ev:]
      del I.loops[lp:]
      del I.imprecise[im:]
      I.st = stsave
    I.loopdepth -= 1
    res = []
    rec = dict(site=site, idx=j, trip=trip, lo=idxlo, carried={}, func=I.frames[-1][1] if I.frames else '', lax=True,
               file=I.mod.path if I.mod else '?', line=I.line, evs=(ev, len(I.events)), lists={}, cond=cnd,
               stack=tuple(f[1] for f in I.frames), brk=[])
    for k, (path, x) in enumerate(leaves):
      if inv[k] or not isinstance(mus[k], Arr):
        res.append(x)
        continue
      n = I.num(nxt[k])
      m = mus[k]
      t = X.node('eta', (site, path, I.as_term(x), m.t, I.as_term(nxt[k]), X.lift(trip) if trip is not None else 'while'),
                 m.shape, isint=m.t.isint)
      # range invariant: init and next within bounds assuming mu within bounds
      r0, r1 = X.rng(I.num(x).t), X.rng(n.t) if n is not None else (None, None)
      t.meta = {'rng': self._eta_rng(I.num(x).t, m.t, n.t if n is not None else None), 'mu': m.t}
      e = Arr(t, m.shape, m.dtype)
      rec['carried'][path] = dict(init=x, mu=m, next=nxt[k], eta=e)
      res.append(e)
    I.loops.append(rec)
    out = build(struct, res)
    return out, y, j

  def _eta_rng(self, init, mu, nxt):
    if nxt is None:
      return (None, None)
    r0 = X.rng(init)
    # assume mu in r0, check next in r0
    save = {}
    lo, hi = r0
    m2 = X.atom(('rngmu', mu.id, lo.id if lo is not None else None, hi.id if hi is not None else None), mu.shape, lo=lo, hi=hi,
                isint=mu.isint, is01=mu.is01, exact=False)
    n2 = X.subst(nxt, {mu: m2})
    r1 = X.rng(n2)
    lo2 = lo if lo is not None and r1[0] is not None and X.nonneg(X.sub(r1[0], lo)) else None
    hi2 = hi if hi is not None and r1[1] is not None and X.nonneg(X.sub(hi, r1[1])) else None
    return (lo2, hi2)

  # ------------------------------------------------------------ random
  def draw(self, kind, key, params, shape, dtype, where=None, n=None, isint=False, is01=False):
    I = self.I
    kt = I.as_term(key)
    I.event('draw', dist=kind, key=kt, params=params, shape=shape)
    t = X.node('draw', (kind, kt) + tuple(params) + (shape if shape is None else tuple(shape),), shape, is01, isint)
    return Arr(t, shape, dtype)

  def key_shape(self, k):
    return k.shape

  # ------------------------------------------------------------ external calls
  def call_ext(self, path, args, kw):
    I = self.I
    f = self.overrides.get(path)
    if f is not None:
      r = f(I, args, kw)
      if r is not NotImplemented:
        return r
    if path.startswith('builtins.str.') and args and isinstance(args[0], str):
      return self.str_method(args[0], path[13:], list(args[1:]), kw)
    if path in ('re.findall', 're.split', 're.sub') and all(isinstance(a, str) for a in args) and not kw:
      import re
      r = getattr(re, path[3:])(*args)
      return I.mklist(list(r)) if isinstance(r, list) else r
    if path.startswith(('numpy.random.', 'random.', 'secrets.', 'uuid.', 'os.urandom', 'os.getpid')):
      I.event('ambient', call=path)
    short = None
    for p in NPNAMES:
      if path.startswith(p):
        short = path[len(p):]
    m = None
    if short is not None and '.' not in short:
      m = getattr(self, 'np_' + short, None)
    if m is None:
      m = getattr(self, 'x_' + path.replace('.', '_'), None)
    if m is not None:
      # distribute over joined non-numeric alternatives
      for i, a in enumerate(args):
        if isinstance(a, Choice) and not path.startswith('builtins.'):
          k = I.pcfact(a.c)
          if k is not None:
            return self.call_ext(path, args[:i] + [a.a if k else a.b] + args[i + 1:], kw)
          return I.either(a.c, lambda: self.call_ext(path, args[:i] + [a.a] + args[i + 1:], kw),
                          lambda: self.call_ext(path, args[:i] + [a.b] + args[i + 1:], kw))
      if path.startswith('numpy.') and I.jit:
        pass
      sa = self._sig(m, path, args, kw)
      if sa is None:
        return self.unknown_ext(path, args, kw)
      return m(*sa)
    if path in IDENT:
      return args[0] if args else None
    if any(path.startswith(h) for h in HOST_EFFECT):
      I.event('host', call=path, args=args)
    return self.unknown_ext(path, args, kw)

  def unknown_ext(self, path, args, kw):
    I = self.I
    I.event('ext_call', call=path, args=args, kw=kw)
    ts = [I.as_term(a) for a in args] + [X.node('kw', (k, I.as_term(v)), None) for k, v in sorted(kw.items())]
    return Arr(X.node('ext', (path,) + tuple(ts), None), None, None)

  def _sig(self, m, path, args, kw):
    """Map args/kw on the python signature of the model function."""
    import inspect
    sig = _SIGS.get(m.__func__)
    if sig is None:
      sig = list(inspect.signature(m).parameters.values())
      _SIGS[m.__func__] = sig
    names = [p.name for p in sig if p.kind == p.POSITIONAL_OR_KEYWORD]
    out = []
    kw = dict(kw)
    args = list(args)
    hasvar = any(p.kind == p.VAR_POSITIONAL for p in sig)
    if hasvar:
      self._kw = kw
      return args
    for i, p in enumerate(sig):
      if p.name == 'kw_':
        out.append(kw)
        kw = {}
        continue
      if p.kind == p.VAR_KEYWORD:
        continue
      if i < len(args):
        out.append(args[i])
      else:
        alias = ALIAS.get(p.name, ())
        hit = next((k for k in (p.name, p.name.rstrip('_')) + tuple(alias) if k in kw), None)
        if hit is not None:
          out.append(kw.pop(hit))
        elif p.default is not p.empty:
          out.append(p.default)
        else:
          return None
    if len(args) > len(sig) or any(k not in BENIGN_KW for k in kw):
      return None
    return out

  # ---- elementwise
  def _ew(self, f, v, dt='same'):
    a = self.arr(v)
    if a is None:
      return self.I.unk('ew', v)
    return Arr(f(a.t), a.shape, a.dtype if dt == 'same' else dt)

  def np_exp(self, x):
    return self._ew(X.exp, x, 'float')

  def np_log(self, x):
    return self._ew(X.log, x, 'float')

  def np_log1p(self, x):
    return self._ew(lambda t: X.log(X.add(t, X.const(1))), x, 'float')

  def np_expm1(self, x):
    return self._ew(lambda t: X.sub(X.exp(t), X.const(1)), x, 'float')

  def np_log2(self, x):
    return self._ew(lambda t: X.fn1('log2', t), x, 'float')

  def np_sqrt(self, x):
    return self._ew(lambda t: X.power(t, Fraction(1, 2)), x, 'float')

  def np_square(self, x):
    return self._ew(lambda t: X.power(t, 2), x)

  def np_abs(self, x):
    return self._ew(X.tabs, x)

  np_absolute = np_abs
  np_fabs = np_abs
  x_builtins_abs = np_abs

  def np_sign(self, x):
    return self._ew(X.sign, x)

  def np_negative(self, x):
    return self._ew(X.neg, x)

  def np_reciprocal(self, x):
    return self._ew(lambda t: X.div(X.const(1), t), x, 'float')

  def np_round(self, x, decimals=0):
    if isinstance(x, float) and isinstance(decimals, int):
      return float(round(x, decimals))
    if decimals not in (0, None):
      if isinstance(decimals, int) and not isinstance(decimals, bool):
        k = X.const(Fraction(10) ** decimals)
        return self._ew(lambda t: t if t.isint and decimals > 0 else X.div(X.rnd(X.mul(t, k)), k), x, 'float')
      return self.I.opaque('round', x, decimals, shape=getattr(x, 'shape', ()))
    return self._ew(X.rnd, x)

  np_around = np_round
  np_rint = np_round

  def x_builtins_round(self, x, n=None):
    return self.np_round(x, n if n is not None else 0)

  def np_floor(self, x):
    return self._ew(X.floor, x)

  def np_ceil(self, x):
    return self._ew(X.ceil, x)

  def np_logical_not(self, x):
    return self._ew(X.lnot, x, 'bool')

  def np_isnan(self, x):
    return self._ew(lambda t: X.fn1('isnan', t, True, True), x, 'bool')

  def np_isfinite(self, x):
    return self._ew(lambda t: X.fn1('isfinite', t, True, True), x, 'bool')

  def np_tanh(self, x):
    return self._ew(lambda t: X.fn1('tanh', t), x, 'float')

  def x_jax_nn_relu(self, x):
    return self._ew(X.relu, x)

  def x_jax_nn_softplus(self, x):
    return self._ew(X.softplus, x, 'float')

  def x_jax_nn_sigmoid(self, x):
    return self._ew(lambda t: X.exp(X.neg(X.softplus(X.neg(t)))), x, 'float')

  x_jax_scipy_special_expit = x_jax_nn_sigmoid

  def x_jax_nn_log_sigmoid(self, x):
    return self._ew(lambda t: X.neg(X.softplus(X.neg(t))), x, 'float')

  def x_jax_lax_lgamma(self, x):
    return self._ew(lambda t: X.fn1('lgamma', t), x, 'float')

  x_jax_scipy_special_gammaln = x_jax_lax_lgamma

  def x_jax_lax_exp(self, x):
    return self.np_exp(x)

  def x_jax_lax_log(self, x):
    return self.np_log(x)

  def _ew2(self, f, a, b, dt=None):
    x, y = self.arr(a), self.arr(b)
    if x is None or y is None:
      return self.I.unk('ew2', a, b)
    return self.mk(f(x.t, y.t), x, y, dt or promote(x.dtype, y.dtype))

  def np_add(self, a, b):
    return self.I.binop('Add', a, b)

  def np_subtract(self, a, b):
    return self.I.binop('Sub', a, b)

  def np_multiply(self, a, b):
    return self.I.binop('Mult', a, b)

  def np_divide(self, a, b):
    return self.I.binop('Div', a, b)

  np_true_divide = np_divide

  def np_floor_divide(self, a, b):
    return self.I.binop('FloorDiv', a, b)

  def np_mod(self, a, b):
    return self.I.binop('Mod', a, b)

  np_remainder = np_mod

  def np_power(self, a, b):
    return self.I.binop('Pow', a, b)

  def np_matmul(self, a, b):
    return self.I.binop('MatMult', a, b)

  def np_dot(self, a, b):
    return self.I.binop('MatMult', a, b)

  def np_maximum(self, a, b):
    return self._ew2(X.maximum, a, b)

  def np_minimum(self, a, b):
    return self._ew2(X.minimum, a, b)

  x_jax_lax_max = np_maximum
  x_jax_lax_min = np_minimum

  def np_less(self, a, b):
    return self.I.compare('Lt', a, b)

  def np_less_equal(self, a, b):
    return self.I.compare('LtE', a, b)

  def np_greater(self, a, b):
    return self.I.compare('Gt', a, b)

  def np_greater_equal(self, a, b):
    return self.I.compare('GtE', a, b)

  def np_equal(self, a, b):
    return self.I.compare('Eq', a, b)

  def np_not_equal(self, a, b):
    return self.I.compare('NotEq', a, b)

  def np_logical_and(self, a, b):
    return self._ew2(X.land, a, b, 'bool')

  def np_logical_or(self, a, b):
    return self._ew2(X.lor, a, b, 'bool')

  def np_logaddexp(self, a, b):
    return self._ew2(lambda x, y: X.add(y, X.softplus(X.sub(x, y))), a, b, 'float')

  def np_clip(self, a, a_min=None, a_max=None):
    x = self.arr(a)
    if x is None:
      return self.I.unk('clip', a)
    r = x
    if a_min is not None:
      r = self.np_maximum(r, a_min)
    if a_max is not None:
      r = self.np_minimum(r, a_max)
    return r

  def x_jax_lax_clamp(self, lo, x, hi):
    return self.np_clip(x, lo, hi)

  def np_where(self, c, a=UNDEF, b=UNDEF):
    I = self.I
    if a is UNDEF:
      return I.unk('where1', c)
    cc = self.arr(c)
    if cc is None:
      r = I.truth(c)
      cc = I.num(r) if not isinstance(r, T) else Arr(r, (), 'bool')
    if isinstance(a, (tuple, Ref)) or isinstance(b, (tuple, Ref)):
      a, b = self.arr(a), self.arr(b)
    x, y = self.arr(a), self.arr(b)
    if x is None or y is None:
      return I.unk('where', c, a, b)
    sh = X.bshape(X.bshape(cc.shape, x.shape), y.shape)
    dt = promote(x.dtype, y.dtype)
    k = X.const_val(X.tobool(cc.t)) if cc.shape is not None else None
    if sh is None:
      if k is not None:
        return x if k else y
      return Arr(X.node('where?', (cc.full(), x.full(), y.full()), None), None, dt)
    for p, q in ((cc, x), (cc, y), (x, y)):
      if X.shapes_conflict(p.shape, q.shape):
        if k is not None:
          # decided selector: conflicting alternative is still broadcast by jax
          pass
        I.event('shape_conflict', a=p.shape, b=q.shape)
    return Arr(X.where(cc.t, x.t, y.t), sh, dt)

  def x_jax_lax_select(self, c, a, b):
    return self.np_where(c, a, b)

  # ---- constructors
  def _fill(self, v, shape, dtype, dflt='float'):
    sh = self.shape_of(shape)
    a = self.arr(v)
    d = self.dtype_of(dtype) or (a.dtype if a is not None and dtype is None and dflt is None else dflt)
    if sh is None:
      return Arr(X.node('fill?', (a.t, self.I.as_term(shape)), None), None, d)
    return Arr(a.t, sh, d)

  def np_zeros(self, shape, dtype=None):
    return self._fill(0, shape, dtype)

  def np_ones(self, shape, dtype=None):
    if isinstance(dtype, (int,)) or (isinstance(dtype, Arr) and dtype.t.op != 'dtype' and dtype.t.op != 'lit'):
      self.I.event('bad_dtype', val=dtype)
    return self._fill(1, shape, dtype)

  def np_empty(self, shape, dtype=None):
    return self._fill(0, shape, dtype)

  def np_full(self, shape, fill_value, dtype=None):
    return self._fill(fill_value, shape, dtype, None)

  def np_zeros_like(self, x, dtype=None):
    a = self.arr(x)
    if a is None:
      return self.I.unk('zeros_like', x)
    return Arr(X.ZERO, a.shape, self.dtype_of(dtype) or a.dtype)

  def np_ones_like(self, x, dtype=None):
    a = self.arr(x)
    if a is None:
      return self.I.unk('ones_like', x)
    return Arr(X.const(1), a.shape, self.dtype_of(dtype) or a.dtype)

  def np_full_like(self, x, v, dtype=None):
    a, b = self.arr(x), self.arr(v)
    return Arr(b.t, a.shape, self.dtype_of(dtype) or a.dtype)

  def np_arange(self, start, stop=None, step=1, dtype=None):
    I = self.I
    if stop is None:
      start, stop = 0, start
    a, b = I.num(start), I.num(stop)
    if a is None or b is None or step != 1 or a.shape != () or b.shape != ():
      return I.opaque('arange', start, stop, step, shape=None, dtype='int')
    n = X.dim(X.sub(b.t, a.t))
    return Arr(X.add(a.t, X.iota(n)), (n,), self.dtype_of(dtype) or 'int')

  def np_linspace(self, a, b, n=50, **k):
    nn = self.I.num(n)
    return self.I.opaque('linspace', a, b, n, shape=(X.dim(nn.t),) if nn is not None else None, dtype='float')

  def np_eye(self, n, m=None, dtype=None):
    d = X.dim(self.I.num(n).t)
    t = X.onehot(X.iota(d), (d,), d)
    return Arr(t, (d, d), self.dtype_of(dtype) or 'float')

  np_identity = np_eye

  def np_array(self, v, dtype=None, copy=None):
    I = self.I
    a = self.array(v) if isinstance(v, (Arr, int, float, bool, tuple, Ref, RangeV, Choice)) else None
    if a is None:
      return I.opaque('array', v)
    if dtype is not None:
      return self.cast(a, dtype)
    return a

  np_asarray = np_array
  np_float32 = np_array

  def np_int32(self, v):
    return self.cast(self.arr(v), ExtV('x.int32'))

  def np_indices(self, shape, dtype=None):
    sh = self.shape_of(shape)
    if sh is None:
      return self.I.unk('indices')
    outs = []
    for i, d in enumerate(sh):
      v = Arr(X.iota(d), (d,), 'int')
      for _ in range(len(sh) - 1 - i):
        v = self.expand(v, len(v.shape))
      outs.append(Arr(v.t, sh, 'int'))
    return self.stack(outs, 0, 'int')

  # ---- shape
  def np_expand_dims(self, a, axis):
    I = self.I
    x = self.arr(a)
    if x is None:
      return I.unk('expand_dims', a)
    if isinstance(axis, RangeV):
      axis = I.iterate(axis)
      if not isinstance(axis, list):
        return I.unk('expand_dims')
    elif isinstance(axis, (tuple, Ref)):
      axis = I.unpack(axis, None)
    else:
      axis = [axis]
    if x.shape is None:
      return Arr(X.node('expand?', (x.t, tuple(axis)), None, x.t.is01, x.t.isint), None, x.dtype)
    R = len(x.shape) + len(axis)
    for ax in sorted(norm_axis(int(k) if not isinstance(k, Arr) else int(X.const_val(k.t)), R) for k in axis):
      x = self.expand(x, ax)
    return x

  def np_squeeze(self, a, axis=None):
    x = self.arr(a)
    if x.shape is None:
      return Arr(X.node('squeeze?', (x.t, self.I.as_term(axis)), None), None, x.dtype)
    if axis is None:
      axes = tuple(i for i, d in enumerate(x.shape) if d == 1)
    else:
      axes = self.axes(axis, len(x.shape))
    sh = tuple(d for i, d in enumerate(x.shape) if i not in axes)
    return self.reshape(x, sh)

  def np_reshape(self, a, newshape, order=None):
    x = self.arr(a)
    if x is None:
      return self.I.unk('reshape', a)
    return self.reshape_o(x, self.shape_of(newshape), order)

  def reshape_o(self, x, sh, order):
    if order in (None, 'C'):
      return self.reshape(x, sh)
    if order != 'F' or x.shape is None or not isinstance(sh, tuple):
      return self.I.opaque('reshape', x, order)
    return self.np_transpose(self.reshape(self.np_transpose(x), tuple(reversed(sh))))

  def np_ravel(self, a):
    return self.reshape(self.arr(a), (-1,))

  def np_transpose(self, a, axes=None):
    x = self.arr(a)
    if x.shape is None:
      return Arr(X.node('transpose?', (x.t, self.I.as_term(axes)), None), None, x.dtype)
    if axes is None:
      p = tuple(reversed(range(len(x.shape))))
    else:
      ax = self.I.unpack(axes, None)
      p = tuple(norm_axis(int(k), len(x.shape)) for k in ax)
    return self.transpose(x, p)

  def np_swapaxes(self, a, i, j):
    x = self.arr(a)
    if x.shape is None:
      return self.I.unk('swapaxes', a)
    p = list(range(len(x.shape)))
    i, j = norm_axis(i, len(p)), norm_axis(j, len(p))
    p[i], p[j] = p[j], p[i]
    return self.transpose(x, tuple(p))

  def np_moveaxis(self, a, src, dst):
    x = self.arr(a)
    if x.shape is None or not isinstance(src, int) or not isinstance(dst, int):
      return self.I.unk('moveaxis', a)
    p = list(range(len(x.shape)))
    s = p.pop(norm_axis(src, len(p)))
    p.insert(norm_axis(dst, len(x.shape)), s)
    return self.transpose(x, tuple(p))

  def np_broadcast_to(self, a, shape):
    x = self.arr(a)
    sh = self.shape_of(shape)
    return Arr(x.t, sh, x.dtype)

  def np_flip(self, a, axis=None):
    x = self.arr(a)
    if x.shape is None:
      return Arr(X.node('flip?', (x.t, self.I.as_term(axis)), None), None, x.dtype)
    return self.flip(x, self.axes(axis, len(x.shape)))

  def np_repeat(self, a, repeats, axis=None, total_repeat_length=None):
    I = self.I
    x = self.arr(a)
    n = I.num(repeats)
    if x is None or n is None or x.shape is None:
      return I.unk('repeat', a)
    nd = X.dim(n.t)
    if axis is None:
      x = self.reshape(x, (-1,)) if x.shape != () else Arr(x.t, (1,), x.dtype)
      axis = 0
    ax = norm_axis(axis, len(x.shape))
    sh = x.shape[:ax] + (X.dim_mul(x.shape[ax], nd),) + x.shape[ax + 1:]
    if x.shape[ax] == 1:
      return Arr(x.t if not X.depends_axis(x.t, ax, len(x.shape)) else x.t, sh, x.dtype)
    return Arr(X.node('repeat', (x.full(), nd, ax), sh, x.t.is01, x.t.isint), sh, x.dtype)

  def np_tile(self, a, reps):
    I = self.I
    x = self.arr(a)
    r = self.shape_of(reps)
    if x is None or x.shape is None or r is None:
      return I.unk('tile', a)
    L = max(len(r), len(x.shape))
    xs = (1,) * (L - len(x.shape)) + x.shape
    rr = (1,) * (L - len(r)) + r
    sh = tuple(X.dim_mul(p, q) for p, q in zip(xs, rr))
    if all(p == 1 or q == 1 for p, q in zip(xs, rr)):
      return Arr(x.t, sh, x.dtype)
    return Arr(X.node('tile', (x.full(), rr), sh, x.t.is01, x.t.isint), sh, x.dtype)

  def np_concatenate(self, arrays, axis=0, dtype=None):
    I = self.I
    items = I.unpack(arrays, None) if isinstance(arrays, (tuple, Ref)) else None
    if items is None:
      return I.unk('concat', arrays)
    xs = [self.arr(i) for i in items]
    if any(x is None for x in xs):
      return I.unk('concat', *items)
    dt = xs[0].dtype
    for x in xs:
      dt = promote(dt, x.dtype)
    if any(x.shape is None for x in xs):
      return Arr(X.node('concat', (tuple(x.full() for x in xs), axis), None), None, dt)
    ax = norm_axis(axis, len(xs[0].shape))
    d = 0
    for x in xs:
      d = X.dim(X.add(X.lift(d), X.lift(x.shape[ax])))
    sh = xs[0].shape[:ax] + (d,) + xs[0].shape[ax + 1:]
    return Arr(X.node('concat', (tuple(x.full() for x in xs), ax), sh, all(x.t.is01 for x in xs), all(x.t.isint for x in xs)), sh, dt)

  def np_stack(self, arrays, axis=0):
    I = self.I
    items = I.unpack(arrays, None) if isinstance(arrays, (tuple, Ref)) else None
    if items is None:
      return self.array(arrays) if axis == 0 else I.unk('stack', arrays)
    xs = [self.arr(i) for i in items]
    if any(x is None for x in xs) or any(x.shape is None or x.shape != xs[0].shape for x in xs):
      return I.unk('stack', *items)
    dt = xs[0].dtype
    for x in xs:
      dt = promote(dt, x.dtype)
    return self.stack(xs, norm_axis(axis, len(xs[0].shape) + 1), dt)

  def np_vstack(self, arrays):
    return self.np_concatenate(arrays, 0)

  def np_split(self, a, n, axis=0):
    return self.I.unk('split', a)

  # ---- reductions
  def np_sum(self, a, axis=None, dtype=None, keepdims=False):
    x = self.arr(a)
    if x is None:
      return self.I.unk('sum', a)
    return self.reduction('sum', x, axis, keepdims)

  def np_mean(self, a, axis=None, dtype=None, keepdims=False):
    x = self.arr(a)
    if x is None:
      return self.I.unk('mean', a)
    return self.reduction('mean', x, axis, keepdims)

  def np_max(self, a, axis=None, keepdims=False):
    x = self.arr(a)
    if x is None:
      return self.I.unk('max', a)
    return self.reduction('max', x, axis, keepdims)

  np_amax = np_max

  def np_min(self, a, axis=None, keepdims=False):
    x = self.arr(a)
    if x is None:
      return self.I.unk('min', a)
    return self.reduction('min', x, axis, keepdims)

  np_amin = np_min

  def np_prod(self, a, axis=None, keepdims=False):
    I = self.I
    if isinstance(a, (tuple, Ref)) and axis is None:
      items = I.unpack(a, None)
      if items is not None:
        r = X.const(1)
        for i in items:
          r = X.mul(r, I.num(i).t)
        return Arr(r, (), 'int')
    return self.reduction('prod', self.arr(a), axis, keepdims)

  def np_any(self, a, axis=None, keepdims=False):
    return self.reduction('any', self.arr(a), axis, keepdims)

  def np_all(self, a, axis=None, keepdims=False):
    return self.reduction('all', self.arr(a), axis, keepdims)

  def np_nan_to_num(self, x, copy=True, nan=0.0, posinf=None, neginf=None):
    return self.arr(x)  # finite values

  def np_std(self, a, axis=None, keepdims=False):
    return self.reduction('std', self.arr(a), axis, keepdims)

  def np_var(self, a, axis=None, keepdims=False):
    return self.reduction('var', self.arr(a), axis, keepdims)

  def np_median(self, a, axis=None, keepdims=False):
    return self.reduction('median', self.arr(a), axis, keepdims)

  def x_jax_scipy_special_logsumexp(self, a, axis=None, keepdims=False):
    return self.reduction('lse', self.arr(a), axis, keepdims)

  x_jax_nn_logsumexp = x_jax_scipy_special_logsumexp

  def x_jax_nn_log_softmax(self, x, axis=-1):
    a = self.arr(x)
    if a is None or a.shape is None:
      return self.I.opaque('log_softmax', x, axis)
    z = self.reduction('lse', a, axis, True)
    return Arr(X.sub(a.t, z.t), a.shape, 'float')

  def x_jax_nn_softmax(self, x, axis=-1):
    r = self.x_jax_nn_log_softmax(x, axis)
    return self.np_exp(r)

  def np_argmax(self, a, axis=None, keepdims=False):
    return self._arg('argmax', a, axis, keepdims)

  def np_argmin(self, a, axis=None, keepdims=False):
    return self._arg('argmin', a, axis, keepdims)

  def _arg(self, nm, a, axis, keep):
    x = self.arr(a)
    if x is None or x.shape is None:
      return self.I.opaque(nm, a, axis, dtype='int')
    if axis is None:
      x = self.reshape(x, (-1,))
      axis = 0
    ax = norm_axis(axis, len(x.shape))
    sh = x.shape[:ax] + x.shape[ax + 1:]
    t = argmax_t(x.full(), ax, nm)
    r = Arr(t, sh, 'int')
    return self.keepdims(r, (ax,), len(x.shape)) if keep else r

  def np_argsort(self, a, axis=-1, kind=None, order=None, stable=None, descending=False):
    x = self.arr(a)
    if x is None or x.shape is None or not isinstance(descending, bool) or axis is None:
      return self.I.opaque('argsort', a, axis, descending, dtype='int')
    ax = norm_axis(axis, len(x.shape))
    t = argsort_t(X.neg(x.full()) if descending else x.full(), ax, x.shape)
    return Arr(t, x.shape, 'int')

  def np_sort(self, a, axis=-1, kind=None, order=None, stable=None, descending=False):
    x = self.arr(a)
    if x is None or x.shape is None or not isinstance(descending, bool) or axis is None:
      return self.I.opaque('sort', a, axis, descending)
    ax = norm_axis(axis, len(x.shape))
    t = X.node('sort', (x.full(), ax), x.shape, x.t.is01, x.t.isint)
    if descending:
      t = flip_t(t, x.shape, ax)
    return Arr(t, x.shape, x.dtype)

  def np_cumsum(self, a, axis=None):
    x = self.arr(a)
    if x.shape is None:
      return self.I.opaque('cumsum', a, axis)
    if axis is None:
      x = self.reshape(x, (-1,))
      axis = 0
    if x.shape[norm_axis(axis, len(x.shape))] == 1:
      return x
    return Arr(X.node('cumsum', (x.full(), norm_axis(axis, len(x.shape))), x.shape, False, x.t.isint), x.shape, x.dtype)

  def np_take_along_axis(self, a, idx, axis=-1):
    I = self.I
    x, i = self.arr(a), self.arr(idx)
    if x is None or i is None or x.shape is None or i.shape is None or axis is None:
      return I.opaque('take_along_axis', a, idx, axis)
    ax = norm_axis(axis, len(x.shape))
    entries = []
    for d in range(len(x.shape)):
      if d == ax:
        entries.append(i)
      else:
        v = Arr(X.iota(x.shape[d]), (x.shape[d],), 'int')
        for _ in range(len(x.shape) - 1 - d):
          v = self.expand(v, len(v.shape))
        # broadcast singleton index dims: jax take_along_axis broadcasts idx
        entries.append(v)
    return self.gather(x, entries)

  def np_take(self, a, idx, axis=None):
    I = self.I
    x, i = self.arr(a), self.arr(idx)
    if x is None or i is None or x.shape is None or i.shape is None:
      return I.opaque('take', a, idx, axis)
    if axis is None:
      x = self.reshape(x, (-1,))
      axis = 0
    ax = norm_axis(axis, len(x.shape))
    if i.shape == ():
      return self.elem(x, ax, i.t)
    ent = [None] * len(x.shape)
    ent[ax] = i
    return self.gather(x, ent)

  def np_einsum(self, spec, *ops):
    I = self.I
    if not isinstance(spec, str) or '->' not in spec or '...' in spec:
      return I.opaque('einsum', spec, *ops)
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    arrs = [self.arr(o) for o in ops]
    if any(a is None or a.shape is None or len(a.shape) != len(s) for a, s in zip(arrs, ins)) or any(len(set(s)) != len(s) for s in ins):
      return I.opaque('einsum', spec, *ops)
    letters = list(out) + [c for c in dict.fromkeys(''.join(ins)) if c not in out]
    acc = None
    for a, s in zip(arrs, ins):
      perm = sorted(range(len(s)), key=lambda i: letters.index(s[i]))
      b = self.transpose(a, tuple(perm)) if perm != list(range(len(s))) else a
      s2 = [s[p] for p in perm]
      for ax, c in enumerate(letters):
        if c not in s2:
          b = self.expand(b, ax)
          s2.insert(ax, c)
      acc = b if acc is None else I.binop('Mult', acc, b)
    axes = tuple(range(len(out), len(letters)))
    return self.sum_(acc, axes) if axes else acc

  def x_jax_lax_top_k(self, operand, k):
    I = self.I
    x = self.arr(operand)
    kk = I.num(k)
    if x.shape is None:
      return (I.opaque('topk_val', operand, k), I.opaque('topk_idx', operand, k, dtype='int'))
    sh = x.shape[:-1] + (X.dim(kk.t),)
    return (Arr(X.node('topk_val', (x.full(), kk.t), sh), sh, x.dtype),
            Arr(X.node('topk_idx', (x.full(), kk.t, x.shape[-1]), sh, False, True), sh, 'int'))

  def x_jax_nn_one_hot(self, x, num_classes, dtype=None, axis=-1):
    I = self.I
    a, n = self.arr(x), I.num(num_classes)
    d = self.dtype_of(dtype) or 'float'
    if a is None or n is None:
      return I.unk('one_hot', x)
    if a.shape is None:
      return Arr(X.node('onehot', (a.t, X.dim(n.t)), None, True, True), None, d)
    nd = X.dim(n.t)
    return Arr(X.onehot(a.t, a.shape, nd), a.shape + (nd,), d)

  # ---- jax transforms
  def x_jax_jit(self, f, static_argnums=None, static_argnames=None, kw_=None, **k):
    return WrapV('jit', f, {'static': static_argnums is not None or static_argnames is not None})

  def x_jax_pmap(self, f, axis_name=None, in_axes=0, out_axes=0, static_broadcasted_argnums=None):
    return WrapV('pmap', f, {'in_axes': in_axes, 'static': static_broadcasted_argnums is not None})

  def x_jax_vmap(self, f, in_axes=0, out_axes=0):
    return WrapV('vmap', f, {'in_axes': in_axes, 'out_axes': out_axes})

  def x_jax_lax_stop_gradient(self, x):
    def f(leaf):
      a = self.arr(leaf)
      if a is None or not getattr(self, 'ingrad', 0):
        return leaf
      return Arr(X.node('stopgrad', (a.t,), a.t.shape, a.t.is01, a.t.isint), a.shape, a.dtype)
    return self.tree_map(f, x)

  def x_jax_grad(self, f, argnums=0, has_aux=False):
    return WrapV('grad', f, {'argnums': argnums, 'has_aux': has_aux})

  def x_jax_value_and_grad(self, f, argnums=0, has_aux=False):
    return WrapV('value_and_grad', f, {'argnums': argnums, 'has_aux': has_aux})

  def x_functools_partial(self, *args):
    kw = self._kw
    f = args[0]
    return PartialV(f, list(args[1:]), dict(kw))

  def x_jax_tree_map(self, *args):
    I = self.I
    f = args[0]
    return self.tree_map(lambda *v: I.call(f, list(v), {}), *args[1:])

  x_jax_tree_util_tree_map = x_jax_tree_map

  def x_dataclasses_replace(self, v, **kw):
    return self.I.call(self.I.getattr(v, 'replace'), [], kw)

  x_jax_tree_map_ = x_jax_tree_map

  def x_jax_tree_util_tree_leaves(self, v):
    out = []
    self.tree_map(lambda x: out.append(x) or x, v)
    return self.I.mklist(out)

  def x_jax_tree_util_tree_flatten(self, v):
    I = self.I
    leaves = []
    self.tree_map(lambda x: leaves.append(x) or x, v)
    td = Inst(None)
    td.origin = 'treedef'
    td.attrs['shape_of'] = v

    def unflatten(I_, args, kw):
      it = I.iterate(args[0])
      if not isinstance(it, list):
        return I.unk('unflatten')
      q = list(it)
      return self.tree_map(lambda x: q.pop(0), v)

    def extra(I_, ref, name):
      return NativeV('unflatten', unflatten) if name == 'unflatten' else UNDEF
    td.extra = extra
    return (I.mklist(leaves), I.new(td))

  x_jax_tree_flatten = x_jax_tree_util_tree_flatten

  def x_jax_tree_util_tree_unflatten(self, td, leaves):
    I = self.I
    return I.call(I.getattr(td, 'unflatten'), [leaves], {})

  x_jax_tree_unflatten = x_jax_tree_util_tree_unflatten

  def x_jax_tree_util_tree_structure(self, v):
    return self.x_jax_tree_util_tree_flatten(v)[1]

  x_jax_tree_structure = x_jax_tree_util_tree_structure

  def x_jax_device_put_replicated(self, v, devs):
    I = self.I
    n = X.atom('NDEV', (), lo=1, isint=True)

    def rep(x):
      a = self.arr(x)
      if a is None or a.shape is None:
        return I.opaque('replicated', x)
      return Arr(a.t, (n,) + a.shape, a.dtype)
    return self.tree_map(rep, v)

  def x_jax_local_device_count(self, *a):
    return Arr(X.atom('NDEV', (), lo=1, isint=True), (), 'int')

  x_jax_device_count = x_jax_local_device_count

  def x_jax_process_index(self, *a):
    return 0

  def x_jax_process_count(self, *a):
    return 1

  def x_jax_local_devices(self, *a):
    return self.I.opaque('devices')

  x_jax_devices = x_jax_local_devices

  def x_jax_lax_scan(self, f, init, xs=None, length=None, reverse=False, unroll=1):
    I = self.I
    site = '%s:%d' % (I.mod.path if I.mod else '?', I.line)
    trip = None

    def trips(x):
      nonlocal trip
      a = I.num(x)
      if a is not None and a.shape:
        trip = a.shape[0]
      return x
    if xs is not None:
      if not isinstance(xs, (tuple, Ref, Arr)):
        xs = self.arr(xs)
      self.tree_map(trips, xs)
    if trip is None:
      trip = X.dim(I.num(length).t) if length is not None else X.node('len', (I.as_term(xs),), (), False, True)

    def body(i, carry):
      el = None if xs is None else self.tree_map(lambda a: self.index(a, (i,)) if isinstance(a, Arr) else a, xs)
      r = I.call(f, [carry, el], {})
      c, y = I.unpack(r, 2)
      return c, y

    out, y, j = self.lax_loop(site, trip, body, init)

    def lift(x):
      a = I.num(x)
      if a is None:
        return x
      if a.shape is None:
        return Arr(X.node('map', (j, a.t, X.lift(trip)), None), None, a.dtype)
      return Arr(self.mapterm(j, trip, a), (trip,) + a.shape, a.dtype)
    return (out, self.tree_map(lift, y))

  def x_jax_lax_fori_loop(self, lower, upper, body_fun, init_val):
    I = self.I
    site = '%s:%d' % (I.mod.path if I.mod else '?', I.line)
    lo, hi = I.num(lower).t, I.num(upper).t
    trip = X.dim(X.sub(hi, lo))
    out, _, _ = self.lax_loop(site, trip, lambda i, c: (I.call(body_fun, [i, c], {}), None), init_val, idxlo=X.dim(lo))
    return out

  def x_jax_lax_while_loop(self, cond_fun, body_fun, init_val):
    I = self.I
    site = '%s:%d' % (I.mod.path if I.mod else '?', I.line)
    out, _, _ = self.lax_loop(site, None, lambda i, c: (I.call(body_fun, [c], {}), None), init_val, cond=cond_fun)
    return out

  def x_jax_lax_map(self, f, xs):
    g = NativeV('lax.map', lambda I, a, k: (a[0], I.call(f, [a[1]], {})))
    return self.x_jax_lax_scan(g, None, xs)[1]

  def x_jax_lax_cond(self, pred, tf, ff, *ops):
    I = self.I
    c = I.truth(pred)
    if c is True:
      return I.call(tf, list(ops), {})
    if c is False:
      return I.call(ff, list(ops), {})
    return I.either(c, lambda: I.call(tf, list(ops), {}), lambda: I.call(ff, list(ops), {}))

  def x_jax_lax_all_gather(self, x, axis_name, **k):
    return self.I.opaque('all_gather', x)

  # ---- random
  def x_jax_random_PRNGKey(self, seed):
    I = self.I
    s = I.as_term(seed)
    return Arr(X.node('PRNGKey', (s,), ()), (), 'key')

  x_jax_random_key = x_jax_random_PRNGKey

  def x_jax_random_split(self, key, num=2):
    I = self.I
    n = I.num(num)
    nd = X.dim(n.t) if n is not None and n.shape == () else (X.node('splitn', (I.as_term(num),), (), False, True))
    I.event('derive', how='split', key=I.as_term(key), n=nd)
    return Arr(X.node('split', (I.as_term(key), nd), (nd,)), (nd,), 'key')

  def x_jax_random_fold_in(self, key, data):
    I = self.I
    I.event('derive', how='fold_in', key=I.as_term(key), n=I.as_term(data))
    return Arr(X.node('fold_in', (I.as_term(key), I.as_term(data)), ()), (), 'key')

  def x_jax_random_uniform(self, key, shape=(), dtype=None, minval=0.0, maxval=1.0):
    lo, hi = self.arr(minval), self.arr(maxval)
    return self.draw('uniform', key, (lo.t, hi.t), self.shape_of(shape), 'float')

  def x_jax_random_normal(self, key, shape=(), dtype=None):
    return self.draw('normal', key, (), self.shape_of(shape), 'float')

  def x_jax_random_gumbel(self, key, shape=(), dtype=None):
    u = self.draw('uniform', key, (X.ZERO, X.const(1)), self.shape_of(shape), 'float')
    return Arr(X.neg(X.log(X.neg(X.log(u.t)))), u.shape, 'float')

  def x_jax_random_randint(self, key, shape=(), minval=0, maxval=None, dtype=None):
    lo, hi = self.arr(minval), self.arr(maxval)
    return self.draw('randint', key, (lo.t, hi.t), self.shape_of(shape), 'int', isint=True)

  def x_jax_random_bernoulli(self, key, p=0.5, shape=None):
    a = self.arr(p)
    sh = self.shape_of(shape) if shape is not None else (a.shape if a is not None else None)
    r = self.draw('bernoulli', key, (a.t if a is not None else self.I.as_term(p),), sh, 'bool', is01=True, isint=True)
    return r

  def x_jax_random_categorical(self, key, logits, axis=-1, shape=None):
    I = self.I
    a = self.arr(logits)
    if a is None or a.shape is None:
      sh = self.shape_of(shape) if shape is not None else None
      return self.draw('categorical', key, (I.as_term(logits), axis, None), sh, 'int', isint=True)
    ax = norm_axis(axis, len(a.shape))
    bs = a.shape[:ax] + a.shape[ax + 1:]
    sh = self.shape_of(shape) if shape is not None else bs
    return self.draw('categorical', key, (a.full(), ax - len(a.shape), a.shape[ax]), sh, 'int', isint=True)

  def x_jax_random_choice(self, key, a, shape=(), replace=True, p=None, axis=0):
    I = self.I
    x = self.arr(a)
    if x is not None and x.shape == ():
      n = X.dim(x.t)
      x = Arr(X.iota(n), (n,), 'int')
    pt = I.as_term(p)
    return self.draw('choice', key, (x.full() if x is not None else I.as_term(a), I.as_term(replace), pt), self.shape_of(shape),
                     x.dtype if x is not None else None, isint=x is not None and x.t.isint)

  def x_jax_random_permutation(self, key, x, axis=0, independent=False):
    a = self.arr(x)
    if a is not None and a.shape == ():
      n = X.dim(a.t)
      a = Arr(X.iota(n), (n,), 'int')
    return self.draw('permutation', key, (a.full(),), a.shape, a.dtype, isint=a.t.isint)

  x_jax_random_shuffle = x_jax_random_permutation

  # ---- python builtins
  def x_builtins_len(self, v):
    I = self.I
    if isinstance(v, (tuple, str)):
      return len(v)
    if isinstance(v, Ref):
      o = I.obj(v)
      if isinstance(o, ListObj):
        if o.concrete():
          return len(o.items)
        return Arr(X.node('len', (I.as_term(v),), (), False, True), (), 'int')
      if isinstance(o, DictObj) and not o.open:
        return len(o.items)
      if isinstance(o, Inst) and o.cls is not None:
        m = I.find_method(o.cls, '__len__')
        if m is not None:
          return I.call(BoundV(m, v), [], {})
      if isinstance(o, Inst) and o.extra is not None:
        f = o.extra(I, v, '__len__')
        if f is not UNDEF:
          return I.call(f, [], {})
      return Arr(X.node('len', (I.as_term(v),), (), False, True), (), 'int')
    if isinstance(v, Arr):
      if v.shape:
        return self.dimv(v.shape[0])
      return Arr(X.node('len', (v.t,), (), False, True), (), 'int')
    if isinstance(v, RangeV):
      return I.binop('Sub', v.hi, v.lo)
    if isinstance(v, Choice):
      return I.merge_val(v.c, self.x_builtins_len(v.a), self.x_builtins_len(v.b))
    return I.opaque('len', v, shape=(), dtype='int')

  def x_builtins_range(self, *a):
    I = self.I
    def cv(x):
      n = I.num(x)
      c = X.const_val(n.t) if n is not None else None
      return int(c) if c is not None else x
    a = [cv(x) for x in a]
    if len(a) == 1:
      return RangeV(0, a[0])
    if len(a) == 2:
      return RangeV(a[0], a[1])
    return RangeV(a[0], a[1], a[2])

  def x_builtins_enumerate(self, v, start=0):
    I = self.I
    it = I.iterate(v)
    if isinstance(it, list):
      return tuple((start + i if isinstance(start, int) else I.binop('Add', start, i), x) for i, x in enumerate(it))
    return SymIter(it.trip, lambda i: (I.binop('Add', Arr(X.sub(i.t, X.lift(it.lo)), (), 'int'), start), it.elem(i)), lo=it.lo)

  def x_builtins_zip(self, *vs):
    I = self.I
    its = [I.iterate(v) for v in vs]
    if all(isinstance(i, list) for i in its):
      return tuple(zip(*its))
    conc = [len(i) for i in its if isinstance(i, list)]
    syms = [i for i in its if isinstance(i, SymIter)]
    trip = syms[0].trip

    def el(i):
      out = []
      for it in its:
        if isinstance(it, list):
          out.append(I.getitem(I.mklist(it), Arr(X.sub(i.t, X.lift(syms[0].lo)), (), 'int')))
        else:
          out.append(it.elem(Arr(X.add(X.sub(i.t, X.lift(syms[0].lo)), X.lift(it.lo)), (), 'int')))
      return tuple(out)
    return SymIter(trip, el, lo=syms[0].lo)

  def x_builtins_map(self, f, *vs):
    I = self.I
    its = [I.iterate(v) for v in vs]
    if all(isinstance(i, list) for i in its):
      return I.mklist([I.call(f, list(a), {}) for a in zip(*its)])
    return I.opaque('map', *vs)

  def x_builtins_filter(self, f, v):
    I = self.I
    it = I.iterate(v)
    if isinstance(it, list) and not any(isinstance(x, Seg) for x in it):
      out = []
      for x in it:
        r = I.truth(x if f is None else I.call(f, [x], {}))
        if not isinstance(r, bool):
          return I.opaque('filter', v)
        if r:
          out.append(x)
      return I.mklist(out)
    return I.opaque('filter', v)

  def x_builtins_list(self, v=None):
    I = self.I
    if v is None:
      return I.mklist([])
    it = I.iterate(v)
    if isinstance(it, list):
      return I.mklist(it)
    if isinstance(v, Ref) and isinstance(I.obj(v), ListObj):
      return I.mklist(I.obj(v).items)
    if isinstance(v, RangeV) or isinstance(v, Arr):
      a = self.arr(v)
      return a
    return I.mklist([Seg('from', [v])])

  def x_builtins_tuple(self, v=None):
    I = self.I
    if v is None:
      return ()
    it = I.iterate(v)
    if isinstance(it, list):
      return tuple(it)
    return I.opaque('tuple', v)

  def mkset(self, items):
    I = self.I
    items = list(items)
    if all(_concrete_key(x) for x in items):
      seen, out = set(), []
      for x in items:
        if _hk(x) not in seen:
          seen.add(_hk(x))
          out.append(x)
      items = out
    elif items and not (len(items) == 1 and isinstance(items[0], Seg)):
      items = [Seg('set', items)]
    r = I.mklist(items)
    I.obj(r).isset = True
    return r

  def x_builtins_set(self, v=None):
    return self.mkset(self.I.obj(self.x_builtins_list(v)).items)

  def x_builtins_frozenset(self, v=None):
    return self.x_builtins_set(v)

  def setkeys(self, v):
    I = self.I
    it = I.iterate(v)
    if isinstance(it, list) and all(_concrete_key(x) for x in it):
      return {_hk(x): x for x in it}
    return None

  def setop(self, op, a, b):
    I = self.I
    x, y = self.setkeys(a), self.setkeys(b)
    if x is None or y is None:
      return self.mkset([Seg('setop', [a, b])])
    if op == 'difference':
      return self.mkset([v for k, v in x.items() if k not in y])
    if op == 'intersection':
      return self.mkset([v for k, v in x.items() if k in y])
    if op == 'union':
      return self.mkset(list(x.values()) + [v for k, v in y.items() if k not in x])
    return self.mkset([v for k, v in x.items() if k not in y] + [v for k, v in y.items() if k not in x])

  def isset(self, v):
    return isinstance(v, Ref) and isinstance(self.I.obj(v), ListObj) and self.I.obj(v).isset

  def counts(self, d, it, sign=1):
    I = self.I
    o = I.obj(d)
    if isinstance(it, Ref) and isinstance(I.obj(it), DictObj):
      add = I.obj(it).items.items()
      if I.obj(it).open:
        o.open = True
    else:
      it = I.iterate(it)
      if not isinstance(it, list) or not all(_concrete_key(x) for x in it):
        o.open = True
        o.default = None
        return
      add = [(_hk(x), 1) for x in it]
    for k, n in add:
      o.items[k] = self.binop('Add', o.items.get(k, 0), self.binop('Mult', sign, n))

  def x_collections_Counter(self, v=None):
    I = self.I
    d = I.mkdict({})
    I.obj(d).default = lambda I, k: 0
    I.obj(d).tag = 'Counter'
    if v is not None:
      self.counts(d, v)
    for k, n in (self._kw or {}).items():
      I.obj(d).items[k] = n
    return d

  def x_collections_defaultdict(self, f=None, v=None):
    I = self.I
    d = self.x_builtins_dict(v) if v is not None else I.mkdict({})
    if f is not None:
      def dflt(I, k):
        r = I.call(f, [], {})
        I.obj(d).items[k] = r
        return r
      I.obj(d).default = dflt
    return d

  def x_builtins_dict(self, *a):
    I = self.I
    kw = self._kw
    d = {}
    op = False
    if a:
      if isinstance(a[0], Ref) and isinstance(I.obj(a[0]), DictObj):
        o = I.obj(a[0])
        d.update(o.items)
        op = o.open
      else:
        it = I.iterate(a[0])
        if isinstance(it, list):
          for p in it:
            kv = I.unpack(p, 2)
            d[_hk(kv[0])] = kv[1]
        else:
          op = True
    d.update(kw)
    r = I.mkdict(d)
    I.obj(r).open = op
    if a and isinstance(a[0], Ref) and isinstance(I.obj(a[0]), DictObj):
      I.obj(r).default = I.obj(a[0]).default
    return r

  def x_builtins_int(self, v=0, base=10):
    I = self.I
    if isinstance(v, (int, float)):
      return int(v)
    if isinstance(v, str):
      try:
        return int(v)
      except ValueError:
        raise PyRaise('ValueError')
    a = I.num(v)
    if a is None:
      return I.opaque('int', v, shape=(), dtype='int')
    if a.shape is None:
      return Arr(X.node('ext', ('int', a.t), (), False, True), (), 'int')
    return Arr(X.trunc(a.t), (), 'int')

  def x_builtins_float(self, v=0):
    I = self.I
    if isinstance(v, (int, float)):
      return float(v)
    if isinstance(v, str):
      try:
        return float(v)
      except ValueError:
        raise PyRaise('ValueError')
    a = I.num(v)
    if a is None or a.shape is None:
      return I.opaque('float', v, shape=(), dtype='float')
    return Arr(a.t, (), 'float')

  def x_builtins_bool(self, v=False):
    r = self.I.truth(v)
    return r if isinstance(r, bool) else Arr(r, (), 'bool')

  def x_builtins_str(self, v=''):
    if isinstance(v, (str, int, bool)) or v is None:
      return str(v)
    return self.I.opaque('str', v)

  def x_builtins_repr(self, v=''):
    return self.I.opaque('repr', v)

  def x_builtins_sum(self, v, start=0):
    I = self.I
    if isinstance(v, Arr) and v.shape is not None and len(v.shape) >= 1:
      return self.reduction('sum', v, 0, False)
    it = I.iterate(v)
    if isinstance(it, list):
      r = start
      for x in it:
        r = I.binop('Add', r, x)
      return r
    return I.opaque('sum', v)

  def x_builtins_max(self, *a):
    return self._mm(a, self.np_maximum, 'max')

  def x_builtins_min(self, *a):
    return self._mm(a, self.np_minimum, 'min')

  def _mm(self, a, f, nm):
    I = self.I
    if self._kw:
      return I.opaque('builtin_' + nm, *a)
    if len(a) == 1:
      it = I.iterate(a[0])
      if not isinstance(it, list) or not it:
        return I.opaque('builtin_' + nm, *a)
      a = it
    if all(isinstance(x, (int, float)) for x in a):
      return max(a) if nm == 'max' else min(a)
    r = a[0]
    for x in a[1:]:
      r = f(r, x)
    return r

  def x_builtins_any(self, v):
    return self._aa(v, False)

  def x_builtins_all(self, v):
    return self._aa(v, True)

  def _aa(self, v, isall):
    I = self.I
    it = I.iterate(v)
    if not isinstance(it, list):
      return I.opaque('all' if isall else 'any', v, shape=(), dtype='bool')
    acc = X.const(1) if isall else X.ZERO
    for x in it:
      r = I.truth(x)
      t = X.const(int(r)) if isinstance(r, bool) else r
      acc = X.land(acc, t) if isall else X.lor(acc, t)
    d = X.decide(acc)
    return d if d is not None else Arr(acc, (), 'bool')

  def x_builtins_isinstance(self, v, c):
    I = self.I
    cs = I.unpack(c, None) if isinstance(c, tuple) else [c]
    names = [k.path.split('.')[-1] if isinstance(k, ExtV) else k for k in cs]
    py = {'int': int, 'float': float, 'str': str, 'bool': bool, 'tuple': tuple}
    for n in names:
      if isinstance(n, str) and n in py and isinstance(v, py[n]):
        return True
      if isinstance(v, Ref):
        o = I.obj(v)
        if n == 'list' and isinstance(o, ListObj):
          return True
        if n in ('dict', 'ConfigDict', 'Mapping') and isinstance(o, DictObj):
          return True
        if isinstance(n, ClassV) and isinstance(o, Inst) and o.cls is not None and n in o.cls.mro():
          return True
      if n in ('ndarray', 'Array', 'ArrayLike') and isinstance(v, Arr) and v.shape is not None:
        return True
    if isinstance(v, (int, float, str, bool, tuple, type(None))):
      return False
    if isinstance(v, Ref) and not isinstance(I.obj(v), Inst):
      return False
    if isinstance(v, Ref) and all(isinstance(n, ClassV) for n in names):
      return False
    if isinstance(v, Arr) and v.shape is not None and all(n in ('dict', 'list', 'tuple', 'str', 'set', 'bytes', 'Mapping', 'ConfigDict') for n in names):
      return False
    return I.opaque('isinstance', v, c, shape=(), dtype='bool')

  def x_builtins_hasattr(self, o, name):
    r = self.I.hasattr(o, name)
    if isinstance(r, bool):
      return r
    if isinstance(r, T):
      return Arr(r, (), 'bool')
    return Arr(X.node('hasattr', (self.I.as_term(o), str(name)), (), True, True), (), 'bool')

  def x_builtins_getattr(self, o, name, default=UNDEF):
    I = self.I
    if not isinstance(name, str):
      return I.opaque('getattr', o, name)
    if default is UNDEF:
      return I.getattr(o, name)
    r = I.hasattr(o, name)
    if r is True:
      return I.getattr(o, name)
    if r is False:
      return default
    return I.opaque('getattr', o, name, default)

  def x_builtins_setattr(self, o, name, v):
    if isinstance(name, str):
      self.I.setattr(o, name, v)
    return None

  def x_builtins_callable(self, v):
    return isinstance(v, (FuncV, BoundV, NativeV, PartialV, WrapV, ClassV, ExtV))

  def x_builtins_type(self, v, *a):
    I = self.I
    if isinstance(v, Ref) and isinstance(I.obj(v), Inst):
      return I.obj(v).cls
    return I.opaque('type', v)

  def x_builtins_print(self, *a):
    self.I.event('host', call='print', args=a)
    return None

  def x_builtins_open(self, *a):
    I = self.I
    I.event('host', call='open', args=list(a), kw=dict(self._kw))
    return I.opaque('open', *a)

  def x_builtins_iter(self, v):
    I = self.I
    gi = Inst(None)
    gi.origin = 'iter'
    gi.attrs['src'] = v
    if isinstance(v, Ref) and isinstance(I.obj(v), Inst) and 'yields' in I.obj(v).attrs:
      return v
    if not isinstance(v, (SymIter, Choice)):
      its = I.iterate(v)
      if isinstance(its, list):
        gi.attrs.update(yields=tuple(its), exact=True, pos=0)
    return I.new(gi)

  def x_builtins_next(self, v, *d):
    I = self.I
    I.event('next', it=v)
    if isinstance(v, Ref) and isinstance(I.obj(v), Inst):
      o = I.obj(v)
      if 'on_next' in o.attrs:
        return I.call(o.attrs['on_next'], [], {})
      if o.cls is not None:
        m = I.find_method(o.cls, '__next__')
        if m is not None:
          return I.call(BoundV(m, v), [], {})
      if o.attrs.get('exact'):
        p = o.attrs['pos']
        if p < len(o.attrs['yields']):
          o.attrs['pos'] = p + 1
          return o.attrs['yields'][p]
        if d:
          return d[0]
        raise PyRaise('StopIteration')
      if o.attrs.get('yields'):
        return o.attrs['yields'][0]
    return I.opaque('next', X.node('ref', (v.id,), None) if isinstance(v, Ref) else v)

  def x_builtins_sorted(self, v, key=None, reverse=False):
    I = self.I
    it = I.iterate(v)
    if isinstance(it, list) and key is None and all(isinstance(x, (int, float)) for x in it) or (
        isinstance(it, list) and key is None and all(isinstance(x, str) for x in it)):
      return I.mklist(sorted(it, reverse=bool(reverse)))
    if isinstance(it, list) and it and not any(isinstance(x, Seg) for x in it) and isinstance(reverse, bool):
      ks = []
      for x in it:
        k = x if key is None else I.call(key, [x], {})
        ks.append(self._plain(k))
      if all(k is not None for k in ks):
        try:
          order = sorted(range(len(it)), key=lambda i: ks[i][0], reverse=reverse)
          return I.mklist([it[i] for i in order])
        except TypeError:
          pass
    I.event('sorted', src=v, key=key, reverse=reverse)
    src = I.iterate(v)
    return I.mklist([Seg('sorted', src if isinstance(src, list) else [v], (key, reverse))])

  def _plain(self, k):
    """(python value,) of a concrete value, or None."""
    if isinstance(k, (bool, int, float, str)):
      return (k,)
    if isinstance(k, tuple):
      q = [self._plain(z) for z in k]
      return None if any(z is None for z in q) else (tuple(z[0] for z in q),)
    if isinstance(k, Arr) and k.shape == ():
      c = X.const_val(k.t)
      if c is not None:
        return (c,)
    return None

  def x_builtins_reversed(self, v):
    I = self.I
    it = I.iterate(v)
    if isinstance(it, list):
      return I.mklist(list(reversed(it)))
    return I.opaque('reversed', v)

  def x_builtins_slice(self, *a):
    a = list(a)
    if len(a) == 1:
      return SliceV(None, a[0], None)
    return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

  def x_builtins_id(self, v):
    return self.I.opaque('id', v)

  def x_builtins_pow(self, a, b):
    return self.I.binop('Pow', a, b)

  def x_builtins_divmod(self, a, b):
    return (self.I.binop('FloorDiv', a, b), self.I.binop('Mod', a, b))

  def x_builtins_object(self):
    return self.I.opaque('object')

  # ---- stdlib
  def x_math_log(self, x, base=None):
    a = self.I.num(x)
    if a is None:
      return self.I.unk('log', x)
    return Arr(X.log(a.t), a.shape if a.shape is not None else (), 'float')

  def x_math_exp(self, x):
    return self.np_exp(x)

  def x_math_sqrt(self, x):
    return self.np_sqrt(x)

  def _round(self, x, f, g):
    import math
    if isinstance(x, (int, float)):
      return f(x)
    a = self.I.num(x)
    c = X.const_val(a.t) if a is not None else None
    if c is not None:
      return int(f(c))
    r = g(x)
    return Arr(r.t, r.shape, 'int') if isinstance(r, Arr) else r

  def x_math_floor(self, x):
    import math
    return self._round(x, math.floor, self.np_floor)

  def x_math_ceil(self, x):
    import math
    return self._round(x, math.ceil, self.np_ceil)

  def x_math_prod(self, it):
    return self.np_prod(it)

  def x_math_factorial(self, x):
    I = self.I
    if isinstance(x, int):
      import math
      return math.factorial(x)
    t = I.num(x).t
    return Arr(X.node('factorial', (t,), (), False, True), (), 'int')

  def x_math_comb(self, n, k):
    I = self.I
    if k == 1:
      return n
    if isinstance(n, int) and isinstance(k, int):
      import math
      return math.comb(n, k)
    return Arr(X.node('comb', (I.num(n).t, I.num(k).t), (), False, True), (), 'int')

  def x_itertools_product(self, *its):
    I = self.I
    rep = self._kw.get('repeat', 1)
    if len(its) == 1 and isinstance(its[0], RangeV) and its[0].lo == 0:
      n, k = I.num(its[0].hi).t, I.num(rep).t
      if X.const_val(n) is not None and X.const_val(k) is not None:
        import itertools
        return I.mklist([tuple(x) for x in itertools.product(range(int(X.const_val(n))), repeat=int(X.const_val(k)))])
      sh = (X.dim(X.power(n, k)), X.dim(k))
      return Arr(X.atom(('product', n.id, k.id), sh, lo=0, hi=X.sub(n, X.const(1)), isint=True, enum=(n, k)), sh, 'int')
    lists = [I.iterate(x) for x in its]
    if all(isinstance(l, list) for l in lists) and isinstance(rep, int):
      import itertools
      return I.mklist([tuple(x) for x in itertools.product(*lists, repeat=rep)])
    return I.opaque('product', *its)

  def _lists(self, its):
    r = [self.I.iterate(x) for x in its]
    return r if all(isinstance(x, list) for x in r) else None

  def x_itertools_chain(self, *its):
    ls = self._lists(its)
    return self.I.opaque('chain', *its) if ls is None else self.I.mklist([x for l in ls for x in l])

  def x_itertools_chain_from_iterable(self, its):
    out = self.I.iterate(its)
    return self.x_itertools_chain(*out) if isinstance(out, list) else self.I.opaque('chain', its)

  def _picks(self, name, it, r):
    import itertools
    ls = self._lists([it])
    if ls is None or not (isinstance(r, int) or r is None):
      return self.I.opaque(name, it, r)
    return self.I.mklist([tuple(x) for x in getattr(itertools, name)(*([ls[0]] + ([r] if r is not None else [])))])

  def x_itertools_combinations(self, it, r):
    return self._picks('combinations', it, r)

  def x_itertools_combinations_with_replacement(self, it, r):
    return self._picks('combinations_with_replacement', it, r)

  def x_itertools_permutations(self, it, r=None):
    return self._picks('permutations', it, r)

  def x_itertools_islice(self, it, *a):
    ls = self._lists([it])
    if ls is None or not all(isinstance(x, int) or x is None for x in a):
      return self.I.opaque('islice', it, *a)
    return self.I.mklist(ls[0][slice(*a)])

  def x_itertools_starmap(self, f, it):
    ls = self._lists([it])
    rows = self._lists(ls[0]) if ls is not None else None
    if rows is None:
      return self.I.opaque('starmap', f, it)
    return self.I.mklist([self.I.call(f, list(r), {}) for r in rows])

  def x_itertools_repeat(self, v, times=None):
    if isinstance(times, int):
      return self.I.mklist([v] * times)
    return self.I.opaque('repeat', v, times)

  def x_copy_deepcopy(self, v):
    return self.tree_map(lambda x: x, v) if isinstance(v, (Ref, tuple)) else v

  def x_copy_copy(self, v):
    I = self.I
    if isinstance(v, Ref):
      n = I.obj(v).copy()
      n.origin = None
      return I.new(n)
    return v

  def x_operator_add(self, a, b):
    return self.I.binop('Add', a, b)

  def x_functools_reduce(self, f, it, init=UNDEF):
    I = self.I
    l = I.iterate(it)
    if not isinstance(l, list):
      return I.opaque('reduce', it)
    if init is UNDEF:
      r, l = l[0], l[1:]
    else:
      r = init
    for x in l:
      r = I.call(f, [r, x], {})
    return r

  def x_operator_mul(self, a, b):
    return self.I.binop('Mult', a, b)

  def x_time_time(self):
    I = self.I
    I.event('host', call='time.time', args=[])
    I.clock = getattr(I, 'clock', 0) + 1
    return Arr(X.atom(('clock', I.site()), (), exact=True), (), 'float')

  x_time_perf_counter = x_time_time

  def x_ml_collections_ConfigDict(self, *a):
    I = self.I
    d = I.mkdict({}, attr=True)
    if a and isinstance(a[0], Ref) and isinstance(I.obj(a[0]), DictObj):
      src = I.obj(a[0])
      for k, v in src.items.items():
        if isinstance(v, Ref) and isinstance(I.obj(v), DictObj) and not I.obj(v).attr:
          v = self.x_ml_collections_ConfigDict(v)
        I.obj(d).items[k] = v
    for k, v in self._kw.items() if not a else ():
      I.obj(d).items[k] = v
    return d

  x_ml_collections_config_dict_ConfigDict = x_ml_collections_ConfigDict

  def x_ml_collections_config_dict_config_dict_ConfigDict(self, *a):
    return self.x_ml_collections_ConfigDict(*a)

  def x_flax_core_frozen_dict_unfreeze(self, v):
    I = self.I
    if isinstance(v, Ref) and isinstance(I.obj(v), DictObj):
      n = I.obj(v).copy()
      n.origin = None
      return I.new(n)
    return v

  x_flax_core_frozen_dict_freeze = x_flax_core_frozen_dict_unfreeze

  def x_os_path_join(self, *a):
    if all(isinstance(x, str) for x in a):
      import posixpath
      return posixpath.join(*a)
    return self.I.opaque('path.join', *a)

  def x_importlib_import_module(self, name):
    I = self.I
    if isinstance(name, str):
      I.event('import_module', name=name)
      if name in I.repo.mods:
        return I.import_name(name)
      raise PyRaise('ImportError')
    I.event('import_module', name=name)
    return I.opaque('import_module', name)


_SIGS = {}
ALIAS = {'a_min': ('min',), 'a_max': ('max',), 'newshape': ('shape',), 'c': ('condition',), 'a': ('x', 'a', 'arr', 'arys'),
         'x': ('a', 'x', 'operand', 'pytree'), 'idx': ('indices',), 'arrays': ('arys',), 'b': ('y', 'x2'), 'v': ('object', 'obj'),
         'f': ('fun', 'f', 'body'), 'replace': ('replace',), 'shape': ('shape',), 'operand': ('operand', 'x')}


# ------------------------------------------------------------------ term level structural ops
def elem_t(t, full, ax, i):
  """Index axis ax of t (right aligned within shape full) at scalar i."""
  if t.shape is None:
    return X.node('elem', (t, ax, i), None, t.is01, t.isint)
  R = len(full)
  la = ax - (R - len(t.shape))
  if la < 0:
    return t
  if t.op in X.ELEMWISE:
    return X.remap(t, lambda u: elem_t(u, full, ax, i))
  if t.shape[la] == 1:
    return X.reshape_leaf(t, t.shape[:la] + t.shape[la + 1:])
  sh = t.shape[:la] + t.shape[la + 1:]
  c = X.const_val(i)
  if t.op == 'iota':
    return i
  if t.op == 'bcast':
    inner = t.args[0]
    return X.bcast(elem_t(inner, t.shape, la, i), sh)
  if t.op == 'stack' and t.args[1] == la and c is not None:
    k = int(c)
    if 0 <= k < len(t.args[0]):
      return t.args[0][k]
  if t.op == 'concat' and t.args[1] == la and c is not None and c >= 0:
    k = int(c)
    for u in t.args[0]:
      n = u.shape[la] if u.shape is not None and len(u.shape) == len(t.shape) else None
      if not isinstance(n, int):
        break
      if k < n:
        return elem_t(u, u.shape, la, X.const(k))
      k -= n
  if t.op == 'scatter_set' and la == 0 and len(t.shape) == 1 and c is not None and len(t.args) == 3 and isinstance(t.args[1], tuple) and len(
      t.args[1]) == 1 and isinstance(t.args[1][0], X.T) and isinstance(t.args[2], X.T) and t.args[2].shape == ():
    k = X.const_val(t.args[1][0])
    if k is not None and k >= 0 and c >= 0:
      return t.args[2] if k == c else elem_t(t.args[0], t.args[0].shape, 0, i)
  if t.op == 'onehot' and la == len(t.shape) - 1:
    return X.eq(t.args[0], i)
  if t.op == 'map' and la == 0:
    return X.subst(t.args[1], {t.args[0]: i})
  if t.op == 'slice' and len(t.args) == 4 and t.args[1] == la:
    return elem_t(t.args[0], t.args[0].shape, la, X.add(i, t.args[2]))
  return X.node('elem', (t, la - len(t.shape), i), sh, t.is01, t.isint)


def _rb_elem(t, ax, i):
  if t.shape is None or not isinstance(ax, int):
    return X.node('elem', (t, ax, i), None, t.is01, t.isint)
  return elem_t(t, t.shape, ax + len(t.shape) if ax < 0 else ax, i)


def slice_t(t, full, ax, lo, hi):
  if t.shape is None:
    return X.node('slice', (t, ax, lo, hi), None, t.is01, t.isint)
  R = len(full)
  la = ax - (R - len(t.shape))
  if la < 0 or t.shape[la] == 1:
    return t
  if t.op in X.ELEMWISE:
    return X.remap(t, lambda u: slice_t(u, full, ax, lo, hi))
  if X.const_val(lo) == 0 and X.dim(hi) == t.shape[la]:
    return t
  sh = t.shape[:la] + (X.dim(X.sub(hi, lo)),) + t.shape[la + 1:]
  if t.op == 'iota':
    return X.add(lo, X.iota(sh[0]))
  if t.op == 'bcast':
    return X.bcast(slice_t(t.args[0], t.shape, la, lo, hi), sh)
  if t.op == 'slice' and len(t.args) == 4 and t.args[1] == la:
    return slice_t(t.args[0], t.args[0].shape, la, X.add(t.args[2], lo), X.add(t.args[2], hi))
  return X.node('slice', (t, la, lo, hi), sh, t.is01, t.isint)


def flip_t(t, full, ax):
  R = len(full)
  if t.shape is None:
    return X.node('flip', (t, ax), None, t.is01, t.isint)
  la = ax - (R - len(t.shape))
  if la < 0 or t.shape[la] == 1:
    return t
  if t.op in X.ELEMWISE:
    return X.remap(t, lambda u: flip_t(u, full, ax))
  if t.op == 'flip' and t.args[1] == la:
    return t.args[0]
  return X.node('flip', (t, la), t.shape, t.is01, t.isint)


def argsort_t(t, ax, full):
  """argsort with a canonical direction: argsort(-t) = flip(argsort(t)) (no ties)."""
  t = X.bcast(t, full)
  if t.op == 'poly' and X.lead_sign(t) < 0:
    return flip_t(X.node('argsort', (X.neg(t), ax, full[ax]), full, False, True), full, ax)
  return X.node('argsort', (t, ax, full[ax]), full, False, True)


def _rb_argsort(t, ax, n):
  return argsort_t(t, ax, t.shape)


def transpose_t(t, full, perm):
  if perm == tuple(range(len(full))):
    return t
  if t.shape == ():
    return t
  if t.op in X.ELEMWISE and t.shape is not None and X.leaves_full(t, full):
    return X.remap(t, lambda u: transpose_t(u, full, perm))
  b = X.bcast(t, full)
  if b.op == 'transpose':
    p0 = b.args[1]
    comp = tuple(p0[p] for p in perm)
    if comp == tuple(range(len(comp))):
      return b.args[0]
    b, perm = b.args[0], comp
  sh = tuple(b.shape[p] for p in perm)
  return X.node('transpose', (b, perm), sh, t.is01, t.isint)


def gather_t(t, full, idx, sh, ish):
  """Advanced indexing of t viewed with shape full."""
  if t.shape == ():
    return t
  if t.op in X.ELEMWISE and t.shape is not None and X.leaves_full(t, full):
    return X.remap(t, lambda u: gather_t(u, full, idx, sh, ish))
  b = X.bcast(t, full)
  if b.op == 'scatter_set' and b.args[1] == idx:
    v = b.args[2]
    return v
  # identity gather: all indices are the aligned iotas
  ki = tuple(idx)
  if all(k != ':' for k in ki) and sh == full and len(ki) == len(full):
    ok = True
    for d, k in enumerate(ki):
      want = X.iota(full[d])
      for _ in range(len(full) - 1 - d):
        want = X.expand(want, len(want.shape), len(want.shape))
      if k is not want:
        ok = False
    if ok:
      return b
  if b.op == 'iota' and len(ki) == 1:
    return ki[0]
  return X.node('gather', (b, ki, tuple(sh)), tuple(sh), t.is01, t.isint)


def scatter_t(x, key, v):
  """x.at[key].set(v)"""
  if x.op == 'scatter_set' and x.args[1] == key:
    x = x.args[0]
  return X.node('scatter_set', (x, key, v), x.shape, x.is01 and v.is01, x.isint and v.isint)


def argmax_t(t, ax, nm='argmax'):
  """argmax along ax; argmax of a one-hot encoding is its index."""
  n = t.shape[ax]
  sh = t.shape[:ax] + t.shape[ax + 1:]
  if nm == 'argmax' and ax == len(t.shape) - 1:
    r = _unhot(t)
    if r is not None:
      return r
  return X.node(nm, (t, ax, n), sh, False, True)


def _unhot(t):
  """Index encoded by a one-hot (last axis) term, or None."""
  if t.op == 'onehot':
    return t.args[0]
  if t.op == 'bcast':
    return None
  if t.op == 'reshape' and t.args[0].op in ('onehot',) and t.args[0].shape[-1] == t.shape[-1]:
    return X.reshape(t.args[0].args[0], t.args[0].args[0].shape, t.shape[:-1])
  if t.op == 'poly' and t.shape is not None:
    # convex 0/1 combination of one-hots: c*h1 + (1-c)*h2
    fs = {}
    for m, _ in t.args:
      for f, e in m:
        if f.is01 and f.shape is not None and (f.shape == () or f.shape[-1] == 1) and e == 1:
          fs[f] = fs.get(f, 0) + 1
    for f in sorted(fs, key=lambda z: -fs[z]):
      a, b = X._set_factor(t, f, 1), X._set_factor(t, f, 0)
      ua, ub = _unhot(a), _unhot(b)
      if ua is not None and ub is not None:
        fi = X.squeeze_axes(f, (len(t.shape) - 1,), len(t.shape)) if f.shape != () else f
        return X.where(fi, ua, ub)
  return None


def _rb_argmax(t, ax, n):
  return argmax_t(t, ax)


def _rb_scatter(x, key, v):
  return scatter_t(x, key, v)


def _rb_gather(t, idx, sh):
  return gather_t(t, t.shape, idx, sh, None)


def _rb_slice(t, ax, lo, hi, *r):
  if r:
    return None
  return slice_t(t, t.shape, ax, lo, hi)


def _rb_map(j, b, n):
  if b.op == 'elem' and b.args[1] == -len(b.args[0].shape) and b.args[2] is j and not X.contains(b.args[0], {j}):
    return b.args[0]
  return X.node('map', (j, b, n), (X.dim(n),) + b.shape if b.shape is not None else None, b.is01, b.isint)


def _rb_gradz(v, z, x):
  return X.node('gradz', (v, z, x), x.shape)


X.REBUILD.update({
    'elem': _rb_elem,
    'slice': _rb_slice,
    'flip': lambda t, ax: flip_t(t, t.shape, ax),
    'transpose': lambda t, p: transpose_t(t, t.shape, p),
    'gather': _rb_gather,
    'scatter_set': _rb_scatter,
    'argmax': _rb_argmax,
    'argsort': _rb_argsort,
    'map': _rb_map,
})
