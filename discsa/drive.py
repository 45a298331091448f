"""Scenario drivers: abstract inputs for the entry points of the repository.

A scenario is a symbolic configuration (sizes and numeric hyper-parameters are
unknown positive quantities; only the switches that select code are concrete)
plus symbolic arguments.  One abstract run of a scenario covers every concrete
run with that choice of switches.
"""
from . import interp as IN
from . import terms as X
from .interp import Arr, Ref, NativeV, DictObj, Inst, UNDEF, PyRaise


def ip(name, lo=1, hi=None, **k):
  return X.atom(name, (), lo=lo, hi=hi, isint=True, **k)


def dimA(name, lo=1):
  return Arr(ip(name, lo), (), 'int')


def params_arr(name='theta'):
  return Arr(X.atom(name, None), None, None)


class Sc:
  """One abstract run of a sampler's step."""

  def __init__(self, repo, name, over=None, C=2, nd=1, exp=None, mask=False, keepnum=()):
    def sv(v):
      return X.show(v.t) + '>=%s' % v.t.meta.get('lo') if isinstance(v, Arr) else v
    self.repo, self.name = repo, name
    self.I = I = IN.Interp(repo)
    self.label = '%s(C=%s,nd=%d%s%s%s)' % (name, C if isinstance(C, int) else 'K', nd, ''.join(
        ',%s=%s' % (k, sv(v)) for k, v in sorted((over or {}).items())), ''.join(
            ',%s=%s' % kv for kv in sorted((exp or {}).items())), ',mask' if mask else '')
    self.B = ip('B')
    self.dims = tuple(ip('D%d' % i) for i in range(nd))
    self.D = X.dim_prod(self.dims)
    self.C = X.const(2) if C == 2 else ip('C', 3)
    self.err = None
    self.over, self.exp, self.mask = over or {}, exp or {}, mask
    self.keepnum = keepnum

  def cval(self):
    return 2 if X.is_const(self.C) else Arr(self.C, (), 'int')

  def config(self):
    I = self.I
    cm = I.module('discs.common.configs')
    cfg = I.call(cm.globals['get_config'], [], {})
    sm = I.module('discs.samplers.configs.%s_config' % self.name)
    if sm is None:
      raise KeyError('no config module for sampler ' + self.name)
    sc = I.call(sm.globals['get_config'], [], {})
    co = I.obj(cfg)
    samp = I.obj(co.items['sampler'])
    for k, v in I.obj(sc).items.items():
      samp.items[k] = v
    for k, v in self.over.items():
      samp.items[k] = v
    for k, v in list(samp.items.items()):
      if k in self.over or isinstance(v, (bool, str)) or k in self.keepnum:
        continue
      if isinstance(v, int):
        samp.items[k] = Arr(ip('cfg_' + k, 1, None), (), 'int')
      elif isinstance(v, float):
        hi = 1 if k == 'target_acceptance_rate' else None
        samp.items[k] = Arr(X.atom('cfg_' + k, (), lo=0, hi=hi, pos=True), (), 'float')
    mod = I.obj(co.items['model'])
    mod.items['shape'] = tuple(Arr(d, (), 'int') for d in self.dims)
    mod.items['num_categories'] = self.cval()
    mod.items['name'] = 'm'
    ex = I.obj(co.items['experiment'])
    for k, v in self.exp.items():
      ex.items[k] = v
    self.cfg = cfg
    return cfg

  def model(self):
    I = self.I
    C = self.C
    calls = self.fcalls = []

    def fwd_term(p, x):
      b = x.shape[0] if x.shape else None
      return X.node('F', (I.as_term(p), x.full()), None if b is None else (b,))

    def forward(I_, args, kw):
      p, x = args[0], args[1]
      x = I.lib.arr(x)
      calls.append(('forward', x, I.loopdepth, I.st.pc, I.site()))
      I.event('model_call', what='forward', x=x)
      return Arr(fwd_term(p, x), None if x.shape is None else (x.shape[0],), 'float')

    def gvg(I_, args, kw):
      p, x = args[0], args[1]
      x = I.lib.arr(x)
      calls.append(('grad', x, I.loopdepth, I.st.pc, I.site()))
      I.event('model_call', what='get_value_and_grad', x=x)
      g = X.node('G', (I.as_term(p), x.full()), x.shape)
      return (Arr(fwd_term(p, x), None if x.shape is None else (x.shape[0],), 'float'), Arr(g, x.shape, 'float'))

    def neigh(I_, args, kw):
      p, x = args[0], args[1]
      x = I.lib.arr(x)
      I.event('model_call', what='logratio_in_neighborhood', x=x)
      n = Arr(ip('n_neigh_calls'), (), 'int')
      lr = Arr(X.node('LR', (I.as_term(p), x.full()), x.shape), x.shape, 'float')

      def getn(I__, a, k):
        xx, ii = I.lib.arr(a[1]), I.lib.arr(a[2])
        I.event('neighbor', x=xx, idx=ii)
        return Arr(X.node('NB', (I.as_term(a[0]), xx.full(), ii.full()), xx.shape), xx.shape, xx.dtype)
      return (Arr(fwd_term(p, x), (x.shape[0],), 'float'), lr, n, NativeV('fn_get_neighbor', getn))

    tab = {'forward': forward, 'get_value_and_grad': gvg, 'logratio_in_neighborhood': neigh}
    for nm in ('step_h', 'step_v'):
      def mk(nm):
        def f(I_, args, kw):
          p, key, x = args[0], args[1], I.lib.arr(args[2])
          kt = I.as_term(key)
          I.event('draw', dkind=nm, key=kt, term=X.node(nm, (I.as_term(p), kt, x.full()), None), params=(), shape=None)
          return Arr(X.node(nm, (I.as_term(p), kt, x.full()), None), None, 'int')
        return f
      tab[nm] = mk(nm)

    def extra(I_, ref, name):
      if name in tab:
        return NativeV('model.' + name, tab[name])
      return UNDEF

    m = Inst(None)
    m.extra = extra
    m.origin = 'model'
    self.mref = I.new(m)
    return self.mref

  def build(self):
    I = self.I
    cfg = self.config()
    m = I.module('discs.samplers.' + self.name)
    if m is None:
      raise KeyError('no sampler module ' + self.name)
    if 'build_sampler' not in m.globals:
      raise KeyError('no build_sampler in ' + self.name)
    self.sampler = I.call(m.globals['build_sampler'], [cfg], {})
    return self.sampler

  def symstate(self, init):
    """Generalise an initial sampler state to an arbitrary reachable one."""
    I = self.I
    self.svars = {}
    o = I.obj(init) if isinstance(init, Ref) else None
    if not isinstance(o, DictObj):
      return init
    d = DictObj({})
    d.tag = 'state'
    d.origin = 'state'
    for k, v in o.items.items():
      a = I.lib.arr(v)
      if a is None or a.shape is None:
        d.items[k] = v
        continue
      lo = hi = None
      isint = a.dtype in ('int', 'bool')
      if k in ('steps', 'num_ll_calls'):
        lo = 1 if k == 'steps' else 0
        isint = True
      elif k == 'index':
        lo, hi, isint = 0, X.sub(X.lift(self.D), X.const(1)), True
      elif k == 'radius':
        lo, hi, isint = 1, X.lift(self.D), False
      elif k in ('log_tau', 'log_z'):
        isint = False
      t = X.atom('st_' + k, a.shape, lo=lo, hi=hi, isint=isint, state=k)
      self.svars[k] = t
      d.items[k] = Arr(t, a.shape, 'int' if isint else 'float')
    return I.new(d)

  def run(self, first=False):
    I = self.I
    try:
      self.build()
      self.key0 = Arr(X.atom('rng0', ()), (), 'key')
      mi = I.getattr(self.sampler, 'make_init_state')
      self.init = I.call(mi, [self.key0], {})
      self.init_items = dict(I.obj(self.init).items) if isinstance(self.init, Ref) and isinstance(I.obj(self.init), DictObj) else None
      self.state = self.init if first else self.symstate(self.init)
      self.model()
      self.xt = X.atom('x', (self.B,) + self.dims, lo=0, hi=X.sub(self.C, X.const(1)), isint=True, is01=X.is_const(self.C))
      self.x = Arr(self.xt, (self.B,) + self.dims, 'int')
      self.p = params_arr()
      self.key = Arr(X.atom('rng', ()), (), 'key')
      self.heap0 = {i: (o.copy() if hasattr(o, 'copy') else o) for i, o in I.st.heap.items()}
      self.maxid0 = I.nextid
      self.mark = len(I.events)
      kw = {}
      if self.mask:
        kw['x_mask'] = Arr(X.atom('xmask', (self.B,) + self.dims, is01=True), (self.B,) + self.dims, 'int')
      self.step = I.getattr(self.sampler, 'step')
      self.out = I.call(self.step, [self.mref, self.key, self.x, self.p, self.state], kw)
      self.evs = I.events[self.mark:]
    except PyRaise as e:
      self.err = e
      self.out = None
      self.evs = I.events[getattr(self, 'mark', 0):]
    return self

  def outx(self):
    if isinstance(self.out, tuple) and self.out:
      return self.I.lib.arr(self.out[0])
    return None

  def outstate(self):
    if isinstance(self.out, tuple) and len(self.out) > 1:
      v = self.out[1]
      if isinstance(v, Ref) and isinstance(self.I.obj(v), DictObj):
        return self.I.obj(v).items
    return None
