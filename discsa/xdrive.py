"""Scenario driver for the experiments.

The experiment, saver and evaluator classes of the repository are analysed as they
are.  The sampler and the model are uninterpreted functions of everything they are
given; the chain length is a small number so that the step loop unrolls, every
other quantity (sizes, states, parameters, scores) is symbolic.  What reaches the
outside world (pickle files, CSV rows, plots) is recorded as events.
"""
from . import interp as IN
from . import terms as X
from .drive import ip
from .interp import Arr, Ref, NativeV, DictObj, ListObj, Inst, Choice, UNDEF, PyRaise, WrapV, BoundV, Seg


def snap(I, v, depth=0):
  """Deep copy of a value with containers as python objects."""
  if depth > 6:
    return v
  if isinstance(v, tuple):
    return tuple(snap(I, x, depth + 1) for x in v)
  if isinstance(v, Ref):
    o = I.st.heap.get(v.id)
    if isinstance(o, ListObj):
      return [snap(I, x, depth + 1) for x in o.items]
    if isinstance(o, DictObj):
      return {k: snap(I, x, depth + 1) for k, x in o.items.items()}
  return v


SCORES = [-3.5021, -3.503, -3.5024, -7.75, -0.5, -4.0, -6.25, -5.0, -9.0, -8.5]


class Xp:

  def __init__(self, repo, cls, exp=None, model=None, sampler=None, batches=None, M=1, nd=1, maskless=False, ndev=1, dup=None):
    self.dup = dup    # text: chains that are equal modulo this number end in the same sentence
    self.repo, self.cls = repo, cls
    self.I = I = IN.Interp(repo)
    I.unroll_while = 40
    self.exp, self.modelcfg, self.samplercfg = exp or {}, model or {}, sampler or {}
    self.M, self.nbatch, self.maskless, self.ndev = M, batches, maskless, ndev
    self.label = '%s(%s)' % (cls, ','.join('%s=%s' % (k, v.t if isinstance(v, Arr) else v) for k, v in
                             sorted(list(self.exp.items()) + list(self.modelcfg.items()) + list(self.samplercfg.items())) +
                             ([('M', M)] if M != 1 else []) + ([('nd', nd)] if nd != 1 else []) + ([('nomask', 1)] if maskless else []) + ([('devices', ndev)] if ndev != 1 else []) + ([('equal sentences', dup)] if dup else [])))
    self.text = cls.startswith('Text')
    self.B = X.const(1) if self.text else ip('B', 4) if ndev == 1 else X.mul(X.const(ndev), ip('Bh', 2))
    self.dims = tuple(ip('D%d' % i, 2) for i in range(nd))
    self.err = None
    self.steps = []      # calls of the sampler's step
    self.out = []        # (kind, path, value)
    self.clock = []
    self.models = []
    self.seq = 0

  # ------------------------------------------------------------ configuration
  def config(self):
    I = self.I
    cfg = I.call(I.module('discs.common.configs').globals['get_config'], [], {})
    co = I.obj(cfg)
    ex, mo, sa = (I.obj(co.items[k]) for k in ('experiment', 'model', 'sampler'))
    ex.items['batch_size'] = Arr(self.B, (), 'int') if not self.text else 1
    ex.items['num_models'] = self.M
    if self.cls == 'CO_Experiment':
      m = I.module('discs.experiment.configs.co_experiment')
      ex.items.update(I.obj(I.call(m.globals['get_co_default_config'], [], {})).items)
      for k in ('init_temperature', 'final_temperature', 'decay_rate'):
        ex.items[k] = Arr(X.atom('cfg_' + k, (), lo=0, pos=True), (), 'float')
    ex.items.update(self.exp)
    mo.items['name'] = 'm'
    mo.items['shape'] = tuple(Arr(d, (), 'int') for d in self.dims)
    mo.items['num_categories'] = 2
    mo.items.update(self.modelcfg)
    sa.items['name'] = 's'
    sa.items.update(self.samplercfg)
    self.cfg = cfg
    return cfg

  def tick(self):
    self.seq += 1
    return self.seq

  # ------------------------------------------------------------ probes
  def probe(self, tab, origin):
    I = self.I

    def extra(I_, ref, name):
      if name in tab:
        return NativeV('%s.%s' % (origin, name), tab[name])
      return UNDEF
    m = Inst(None)
    m.extra = extra
    m.origin = origin
    return I.new(m)

  def mk_sampler(self):
    I = self.I

    def init(I_, args, kw):
      k = I.as_term(args[0] if args else kw.get('rng', kw.get('rnd')))
      out = {n: Arr(X.node('S0', (n, k), (), False, True), (), 'int') for n in ('steps', 'num_ll_calls')}
      self.states.append(dict(key=k, out=out, **self.here()))
      return I.mkdict(out)

    def step(I_, args, kw):
      names = ('model', 'rng', 'x', 'model_param', 'state', 'x_mask')
      a = dict(zip(names, args))
      for k, v in kw.items():
        if k not in names:
          raise PyRaise('TypeError')
        a[k] = v
      for k in names[:5]:
        if k not in a:
          raise PyRaise('TypeError')
      x = I.lib.arr(a['x'])
      key, p, st, mk = I.as_term(a['rng']), I.as_term(a['model_param']), I.as_term(a['state']), I.as_term(a.get('x_mask'))
      arg = (key, x.full(), p, st, mk)
      b = x.shape[0] if x.shape else None
      nx = Arr(X.node('Sx', arg, x.shape, False, True), x.shape, 'int')
      ns = I.mkdict({n: Arr(X.node('Ss', (n,) + arg, (), False, True), (), 'int') for n in ('steps', 'num_ll_calls')})
      acc = Arr(X.node('Sa', arg, (b,)), (b,), 'float')
      rec = dict(key=key, x=x, p=snap(I, a['model_param']), pterm=p, st=st, mask=a.get('x_mask'), nx=nx, ns=ns, nst=I.as_term(ns), acc=acc,
                 stv=snap(I, a['state']), nsv=snap(I, ns), pc=I.st.pc, **self.here())
      self.steps.append(rec)
      I.event('xstep')
      return (nx, ns, acc)
    self.states = []
    return self.probe({'make_init_state': init, 'step': step}, 'sampler')

  def mk_model(self):
    I = self.I
    tab = {}
    self.initkeys = []
    self.paramkeys = []

    self.insts = []

    def init_samples(I_, args, kw):
      a = dict(zip(('rng', 'num_samples'), args))
      a.update(kw)
      n = I.num(a['num_samples'])
      key = I.as_term(a['rng'])
      sh = (X.dim(n.t),) + self.dims
      t = X.node('X0', (key, n.t) + tuple(X.lift(d) for d in self.dims), sh, False, True)
      self.initkeys.append(dict(key=key, n=n, out=Arr(t, sh, 'int'), **self.here()))
      return Arr(t, sh, 'int')

    def init_params(I_, args, kw):
      k = I.as_term(args[0]) if args else None
      self.paramkeys.append(dict(key=k, **self.here()))
      if self.cls == 'CO_Experiment':
        b = len(self.models)
        if b >= (self.nbatch or 1):
          return None
        self.models.append(b)
        rows = []
        for i in range(self.M):
          nm = 'b%di%d' % (b, i)
          N = self.dims[0]
          d = {'data': Arr(X.atom('inst_' + nm, (ip('E'),)), (ip('E'),), 'float'),
               'mask': None if self.maskless else Arr(X.atom('mask_' + nm, (N,), is01=True), (N,), 'bool')}
          idx = Arr(X.atom('idx_' + nm, (), lo=-1, hi=1, isint=True), (), 'int')
          ref = Arr(X.atom('ref_' + nm, (), lo=0, pos=True), (), 'float')
          self.insts.append(dict(d, idx=idx, ref=ref, batch=b + 1))
          rows.append((idx, I.mkdict(d), ref))
        return I.mklist(rows)
      if self.nbatch is not None:
        if len(self.models) >= self.nbatch:
          return None
        self.models.append(len(self.models))
        return I.mkdict({'params': self.theta(len(self.models))})
      return I.mkdict({'params': self.theta(0)})

    def forward(I_, args, kw):
      a = dict(zip(('params', 'x'), args))
      a.update(kw)
      x = I.lib.arr(a['x'])
      p = I.as_term(a['params'])
      self.fwds.append(dict(p=snap(I, a['params']), x=x, pterm=p, **self.here()))
      if self.text:
        # a score table: the same final sample always gets the same number
        k = self.scored.setdefault(x.full(), len(self.scored))
        k = k % self.dup if self.dup else k
        v = SCORES[k % len(SCORES)]
        return Arr(X.const(v), (x.shape[0],), 'float')
      return Arr(X.node('Fx', (p, x.full()), (x.shape[0],)), (x.shape[0],), 'float')

    def evaluate(I_, args, kw):
      a = dict(zip(('params', 'x'), args))
      a.update(kw)
      x = I.lib.arr(a['x'])
      p = I.as_term(a['params'])
      self.evals.append(dict(p=snap(I, a['params']), x=x, seq=self.tick(), site=I.site(), lanes=tuple(I.lane_stack)))
      q = snap(I, a['params'])
      dt = I.as_term(q.get('data')) if isinstance(q, dict) and 'data' in q else p
      return Arr(X.node('Fe', (dt, x.full()), (x.shape[0],)), (x.shape[0],), 'float')

    def decode(I_, args, kw):
      a = dict(zip(('x', 'params'), args))
      a.update(kw)
      x = I.lib.arr(a['x'])
      if self.text:
        n = len(self.decoded)
        n = n % self.dup if self.dup else n
        s = 'the %d cat' % (n * n + 3)
        self.decoded.append(dict(x=x, p=snap(I, a['params']), s=s, **self.here()))
        return s
      args = [a['x'], a.get('params')]
      return Arr(X.node('ext', ('decode', x.full(), I.as_term(args[1] if len(args) > 1 else None)), None), None, None)
    self.fwds, self.evals, self.decoded, self.scored = [], [], [], {}
    tab.update(get_init_samples=init_samples, make_init_params=init_params, forward=forward, evaluate=evaluate, decode=decode)
    return self.probe(tab, 'model')

  def here(self):
    return dict(seq=self.tick(), site=self.I.site(), batch=len(self.models), lanes=tuple(self.I.lane_stack))

  def theta(self, b):
    return Arr(X.atom('theta_b%d' % b, self.dims), self.dims, 'float')

  def pvals(self, b):
    """Model parameters of a batch: name -> value, or a list of values, one per instance."""
    if self.cls != 'CO_Experiment':
      return {'params': self.theta(b)}
    rows = [d for d in self.insts if d['batch'] == b]
    return {n: [d[n] for d in rows] if rows and rows[0][n] is not None else None for n in ('data', 'mask')}

  # ------------------------------------------------------------ outside world
  def world(self):
    I = self.I
    ov = I.lib.overrides
    ov['jax.local_device_count'] = ov['jax.device_count'] = lambda I_, a, k: self.ndev
    if self.ndev != 1:
      def repl(I_, a, k):
        def f(v):
          q = I.num(v)
          if q is None or q.shape is None:
            return I.unk('replicate', v)
          return Arr(q.t if not q.shape else X.bcast(q.full(), (self.ndev,) + q.shape), (self.ndev,) + q.shape, q.dtype)
        return I.lib.tree_map(f, a[0])
      ov['jax.device_put_replicated'] = ov['flax.jax_utils.replicate'] = repl
      ov['jax.local_devices'] = ov['jax.devices'] = lambda I_, a, k: I.mklist(['dev%d' % i for i in range(self.ndev)])
    ov['os.path.isdir'] = ov['os.path.exists'] = lambda I_, a, k: True

    def join(I_, a, k):
      if all(isinstance(x, str) for x in a):
        return '/'.join(a)
      return NotImplemented
    ov['os.path.join'] = join

    def open_(I_, a, k):
      f = Inst(None)
      f.origin = 'file'
      f.attrs['path'] = a[0] if a else k.get('file')
      f.attrs['mode'] = a[1] if len(a) > 1 else k.get('mode', 'r')
      self.out.append(('open', f.attrs['path'], f.attrs['mode'], I.site()))

      def extra(I__, ref, name):
        if name in ('close', 'flush'):
          return NativeV('close', lambda i, aa, kk: None)
        if name in ('write', 'writelines'):
          def write(i, aa, kk):
            o = I.obj(aa[0]) if isinstance(aa[0], Ref) else None
            if isinstance(o, Inst) and 'dumped' in o.attrs:
              self.out.append(('dump', f.attrs['path'], o.attrs['dumped'], I.site()))
            else:
              self.out.append((name, f.attrs['path'], snap(I, aa[0]), I.site()))
          return NativeV(name, write)
        return UNDEF
      f.extra = extra
      return I.new(f)
    ov['builtins.open'] = open_

    def pathof(f):
      o = I.st.heap.get(f.id) if isinstance(f, Ref) else None
      return o.attrs.get('path') if isinstance(o, Inst) else None

    def dump(I_, a, k):
      self.out.append(('dump', pathof(a[1] if len(a) > 1 else k.get('file')), snap(I, a[0]), I.site()))
      return None
    ov['pickle.dump'] = ov['json.dump'] = dump

    def dumps(I_, a, k):
      d = Inst(None)
      d.origin = 'dumped'
      d.attrs['dumped'] = snap(I, a[0])
      return I.new(d)
    ov['pickle.dumps'] = ov['json.dumps'] = dumps

    def dictwriter(I_, a, k):
      path = pathof(a[0])

      def row(i, aa, kk):
        self.out.append(('row', path, snap(I, aa[0]), I.site()))
      return self.probe({'writerow': row, 'writeheader': lambda i, aa, kk: self.out.append(('header', path, None, I.site()))}, 'csv')
    ov['csv.DictWriter'] = dictwriter

    def plainwriter(I_, a, k):
      path, head = pathof(a[0]), []

      def row(i, aa, kk):
        vs = I.iterate(aa[0])
        if not isinstance(vs, list):
          self.out.append(('write', path, None, I.site()))
        elif not head:
          head.append(vs)
          self.out.append(('header', path, None, I.site()))
        elif len(vs) == len(head[0]) and all(isinstance(h, str) for h in head[0]):
          self.out.append(('row', path, snap(I, I.mkdict(dict(zip(head[0], vs)))), I.site()))
        else:
          self.out.append(('write', path, None, I.site()))

      def rows(i, aa, kk):
        for r in I.iterate(aa[0]) or []:
          row(i, [r], {})
      return self.probe({'writerow': row, 'writerows': rows}, 'csv')
    ov['csv.writer'] = plainwriter

    def plot(I_, a, k):
      self.plots.append([snap(I, x) for x in a])
    self.plots = []
    ov['matplotlib.pyplot.plot'] = plot

    def savefig(I_, a, k):
      self.out.append(('fig', a[0] if a else None, list(self.plots), I.site()))
      self.plots = []
    ov['matplotlib.pyplot.savefig'] = savefig

    def imsave(I_, a, k):
      self.out.append(('image', a[0] if a else k.get('fname'), snap(I, a[1] if len(a) > 1 else k.get('arr')), I.site()))
    ov['matplotlib.pyplot.imsave'] = imsave

    def now(I_, a, k):
      n = self.tick()
      t = X.atom('clock%d' % n, ())
      self.clock.append((n, t))
      return Arr(t, (), 'float')
    for nm in ('time.time', 'time.perf_counter', 'time.monotonic'):
      ov[nm] = now

    def ess(I_, a, k):
      x = I.lib.arr(a[0] if a else k.get('states'))
      if x is None or x.shape is None:
        return NotImplemented
      self.ess.append(x)
      return Arr(X.node('ESS', (x.full(),), x.shape[1:]), x.shape[1:], 'float')
    self.ess = []
    ov['tensorflow_probability.substrates.jax.mcmc.effective_sample_size'] = ess

    def sched(kind):
      def f(I_, a, k):
        vals = [I.num(v) for v in a]
        kws = {n: I.num(v) for n, v in k.items()}

        def call(i, aa, kk):
          s = I.num(aa[0])
          return Arr(schedule(kind, s.t, [v.t for v in vals], {n: v.t for n, v in kws.items() if v is not None}), s.shape, 'float')
        return NativeV('schedule', call)
      return f
    for n in ('linear_schedule', 'exponential_decay'):
      ov['optax.' + n] = sched(n)

    def ident(I_, a, k):
      return a[0]
    for n in ('jax.device_put', 'jax.device_get', 'tqdm.tqdm', 'jax.block_until_ready', 'flax.core.frozen_dict.unfreeze', 'flax.core.unfreeze', 'flax.core.freeze'):
      ov[n] = ident

  def build(self):
    I = self.I
    self.world()
    cfg = self.config()
    m = I.module('discs.experiment.sampling')
    if m is None or self.cls not in m.globals:
      raise KeyError('no experiment class ' + self.cls)
    self.mref, self.sref = self.mk_model(), self.mk_sampler()
    if self.text:
      m2 = I.module('discs.experiment.configs.lm_experiment')
      lm = I.obj(I.obj(I.call(m2.globals['get_config'], [], {})).items['experiment']).items
      for k, v in lm.items():
        if k not in self.exp and k != 'save_root':
          I.obj(I.obj(cfg).items['experiment']).items[k] = v
    ename = I.obj(I.obj(cfg).items['experiment']).items['evaluator']
    em = I.module('discs.evaluators.%s' % ename)
    sm = I.module('discs.common.experiment_saver')
    self.ref = I.call(m.globals[self.cls], [cfg], {})
    if self.text:
      def ev(I_, a, k):
        self.judged.append((snap(I, a[0] if a else k.get('sentences')), self.here()))
        return I.mkdict({'infill_sents': a[0] if a else k.get('sentences')})
      self.judged = []
      self.evaluator = self.probe({'evaluate': ev}, 'evaluator')
    else:
      self.evaluator = I.call(em.globals['build_evaluator'], [cfg], {})
    self.saver = I.call(sm.globals['build_saver'], [cfg], {})

  def run(self):
    I = self.I
    try:
      self.build()
      self.mark = len(I.events)
      I.call(I.getattr(self.ref, 'get_results'), [self.mref, self.sref, self.evaluator, self.saver], {})
      self.evs = I.events[self.mark:]
    except PyRaise as e:
      self.err = e
    return self

  # ------------------------------------------------------------ reading the outputs
  def lift(self, rec, v):
    """Value over all lanes of the call that recorded rec."""
    I = self.I
    a = I.num(v) if not isinstance(v, X.T) else Arr(v, v.shape, None)
    if a is None or a.shape is None:
      return None
    for d, (j, n) in reversed(list(enumerate(rec['lanes']))):
      c = X.atom(('lane', 'canon', d, X.lift(n).id), (), lo=0, hi=X.sub(X.lift(n), X.const(1)), isint=True)
      t = X.subst(a.full(), {j: c})
      a = Arr(I.lib.mapterm(c, n, Arr(t, a.shape, a.dtype)), (n,) + a.shape, a.dtype)
    return a

  def files(self, kind, name):
    return [o for o in self.out if o[0] == kind and isinstance(o[1], str) and o[1].split('/')[-1] == name]


def schedule(kind, s, v, k):
  """The two optax schedules the repository uses, as terms."""
  if kind == 'linear_schedule':
    names = ('init_value', 'end_value', 'transition_steps', 'transition_begin')
  else:
    names = ('init_value', 'transition_steps', 'decay_rate', 'transition_begin', 'staircase', 'end_value')
  a = dict(zip(names, v))
  a.update(k)
  s0 = X.sub(s, a.get('transition_begin', X.ZERO))
  if kind == 'linear_schedule':
    c = X.maximum(X.minimum(s0, a['transition_steps']), X.ZERO)
    f = X.sub(X.const(1), X.div(c, a['transition_steps']))
    return X.add(X.mul(X.sub(a['init_value'], a['end_value']), f), a['end_value'])
  e = X.div(s0, a['transition_steps'])
  if a.get('staircase') is not None and a['staircase'] is not X.ZERO:
    e = X.floor(e) if X.is_const(a['staircase']) else X.where(a['staircase'], X.floor(e), e)
  r = X.mul(a['init_value'], X.exp(X.mul(e, X.log(a['decay_rate']))))
  t = X.where(X.le(s0, X.ZERO), a['init_value'], r)
  if 'end_value' in a:
    b = a['end_value']
    # lower bound when decaying, upper bound when growing
    dec = X.lt(a['decay_rate'], X.const(1))
    t = X.where(dec, X.maximum(t, b), X.minimum(t, b))
  return t
