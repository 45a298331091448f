"""Scenario driver for training: the trainer classes with an uninterpreted model and sampler.

The optimiser is a fixed generic linear map of gradient, state and parameters; the
gradient of a loss is the loss times a fixed generic direction.  Both are enough to tell
apart any two update rules that differ in what they feed to the optimiser.
"""
from . import interp as IN
from . import terms as X
from .drive import ip
from .interp import Arr, Ref, NativeV, Inst, UNDEF, PyRaise, DictObj
from .xdrive import Xp, snap, schedule


class Tr(Xp):

  def __init__(self, repo, kind, steps=3, ndev=2, pcd=2, batches=None, first=0, proc=0):
    super().__init__(repo, 'Trainer', ndev=ndev)
    self.I.exact_try = True
    self.I.fresh_lanes = True
    self.proc = proc
    self.kind, self.T, self.pcd, self.avail, self.first = kind, steps, pcd, batches, first
    self.label = '%s trainer(steps=%d,pcd=%d,devices=%d%s%s)' % (kind, steps, pcd, ndev, ',data=%d' % batches if batches is not None else '', ',from=%d' % first if first else '')
    self.opt, self.losses, self.saved, self.logged, self.bufs, self.built, self.served = [], [], [], [], [], [], []

  # parts
  def atom(self, name, shape=None):
    return Arr(X.atom(name, self.dims if shape is None else shape), self.dims if shape is None else shape, 'float')

  def mk_sampler(self):
    r = super().mk_sampler()
    if self.kind == 'rbm':
      I = self.I
      o = I.obj(r)
      old = o.extra

      def extra(I_, ref, name):
        f = old(I_, ref, name)
        if name == 'step' and isinstance(f, NativeV):
          return NativeV('step', lambda i, a, k: I.call(f, a, k)[:2])
        return f
      o.extra = extra
    return r

  def train_world(self):
    I = self.I
    ov = I.lib.overrides
    A, L = I.lib.arr, I.lib

    def opt_init(i, a, k):
      return Arr(X.atom('O0', ()), (), 'float')

    def leaf(v):
      d = I.obj(v).items
      return A(d['params'])

    def opt_update(i, a, k):
      d = dict(zip(('grads', 'state', 'params'), a))
      d.update(k)
      g, p, o = leaf(d['updates'] if 'updates' in d else d['grads']), leaf(d['params']) if d.get('params') is not None else None, A(d['state'])
      self.opt.append(dict(g=g, p=p, o=o, **self.here()))
      u = X.add(X.mul(g.full(), X.atom('ou1', self.dims)), X.mul(X.bcast(o.t, self.dims), X.atom('ou2', self.dims)))
      if p is not None:
        u = X.add(u, X.mul(p.full(), X.atom('ou3', self.dims)))
      n = X.add(X.mul(o.t, X.atom('oo1', ())), L.np_sum(Arr(X.mul(g.full(), X.atom('oo2', self.dims)), self.dims, 'float')).t)
      return (I.mkdict({'params': Arr(u, self.dims, 'float')}), Arr(n, (), 'float'))
    opt = self.probe({'init': opt_init, 'update': opt_update}, 'optimizer')

    def chain(i, a, k):
      self.built.append(list(a))
      return opt
    ov['optax.chain'] = chain
    ov['optax.constant_schedule'] = lambda i, a, k: NativeV('constant_schedule', lambda i_, aa, kk: a[0] if a else k['value'])

    def part(n):
      def f(i, a, k):
        return self.probe({}, ('opt', n, tuple(snap(I, x) for x in a), tuple(sorted((q, snap(I, v)) for q, v in k.items()))))
      return f
    for n in ('adam', 'adamw', 'lamb', 'sgd', 'clip_by_global_norm', 'rmsprop'):
      ov['optax.' + n] = part(n)

    def apply(i, a, k):
      p, u = leaf(a[0] if a else k['params']), leaf(a[1] if len(a) > 1 else k['updates'])
      return I.mkdict({'params': Arr(X.add(p.full(), u.full()), self.dims, 'float')})
    ov['optax.apply_updates'] = apply

    def vag(has_aux, grad_only):
      def mk(i, a, k):
        f = a[0]
        aux = k.get('has_aux', False)

        def call(i_, aa, kk):
          r = I.call(f, list(aa), kk)
          loss, ax = (I.unpack(r, 2)) if aux else (r, None)
          lt = A(loss)
          p = aa[0] if aa else list(kk.values())[0]
          self.losses.append(dict(loss=lt, p=snap(I, p), pt=I.as_term(p), **self.here()))
          g = I.mkdict({'params': Arr(X.mul(X.bcast(lt.t, self.dims), X.atom('gdir', self.dims)), self.dims, 'float')})
          if grad_only:
            return (g, ax) if aux else g
          return ((loss, ax) if aux else loss, g)
        return NativeV('vag', call)
      return mk
    ov['jax.value_and_grad'] = vag(True, False)
    ov['jax.grad'] = vag(True, True)

    def pmean(mean):
      def f(i, a, k):
        v = a[0] if a else k.get('x')
        if not I.lane_stack:
          raise PyRaise('NameError')
        j, n = I.lane_stack[-1]

        def one(x):
          q = I.num(x)
          if q is None or q.shape is None:
            return I.unk('pmean', x)
          # a bound index of its own: the mapped value is the same for every lane
          self.npm = getattr(self, 'npm', 0) + 1
          c = X.atom(('lane', 'pmean', self.npm), (), lo=0, hi=X.sub(X.lift(n), X.const(1)), isint=True)
          m = Arr(L.mapterm(c, n, Arr(X.subst(q.full(), {j: c}), q.shape, 'float')), (n,) + q.shape, 'float')
          m = Arr(m.full(), m.shape, 'float')
          return (L.np_mean if mean else L.np_sum)(m, axis=0)
        return L.tree_map(one, v)
      return f
    ov['jax.lax.pmean'] = pmean(True)
    ov['jax.lax.psum'] = pmean(False)

    def unrep(i, a, k):
      return L.tree_map(lambda v: L.index(A(v), (0,)) if isinstance(v, Arr) else v, a[0])
    ov['flax.jax_utils.unreplicate'] = unrep
    if self.ndev == 1:
      ov['flax.jax_utils.replicate'] = lambda i, a, k: L.tree_map(lambda v: Arr(I.num(v).full(), (1,) + I.num(v).shape, I.num(v).dtype), a[0])
    ov['jax.process_index'] = lambda i, a, k: self.proc
    ov['jax.process_count'] = lambda i, a, k: 1

    def save(i, a, k):
      d = dict(zip(('dir', 'target', 'step', 'prefix', 'keep'), a))
      d.update(k)
      self.saved.append(dict(dir=d.get('dir', d.get('ckpt_dir')), step=I.num(d['step']), target=self.tree(d['target'])))
    ov['flax.training.checkpoints.save_checkpoint'] = save
    ov['clu.metric_writers.ensure_flushes'] = lambda i, a, k: self.probe({'__enter__': lambda i_, aa, kk: None, '__exit__': lambda i_, aa, kk: None}, 'cm')
    for n in ('info', 'warning', 'debug'):
      ov['absl.logging.' + n] = lambda i, a, k: None
    ov['os.path.join'] = lambda i, a, k: '/'.join(a) if all(isinstance(x, str) for x in a) else NotImplemented

  def tree(self, v):
    """Dataclass or container as python data."""
    I = self.I
    if isinstance(v, Ref):
      o = I.st.heap.get(v.id)
      if isinstance(o, Inst):
        return {k: self.tree(x) for k, x in o.attrs.items()}
    return snap(I, v)

  def tconfig(self):
    I = self.I
    m = I.module('discs.learning.%s.exp_config' % ('rbm' if self.kind == 'rbm' else 'binary_ebm'))
    cfg = I.call(m.globals['get_config'], ['mnist-2-25' if self.kind == 'rbm' else 'static_mnist-8'], {})
    e = I.obj(I.obj(cfg).items['experiment']).items
    e.update(batch_size=Arr(self.B, (), 'int'), pcd_steps=self.pcd, total_train_steps=self.T, log_every_steps=2, save_every_steps=2, plot_every_steps=1,
             ema_decay=Arr(X.atom('ema', (), lo=0, hi=1), (), 'float'), save_root='/out', fig_folder='/out/fig')
    self.cfg = cfg
    return cfg

  def build(self):
    I = self.I
    self.world()
    self.train_world()
    cfg = self.tconfig()
    mod, cls = ('discs.learning.rbm.main_rbm_training', 'RBMTrainer') if self.kind == 'rbm' else ('discs.learning.binary_ebm.main_binary_training', 'EBMTrainer')
    m = I.module(mod)
    if m is None or cls not in m.globals:
      raise KeyError(cls)
    self.mref, self.sref = self.mk_model(), self.mk_sampler()
    args = [cfg, self.mref, self.sref]
    if self.kind != 'rbm':
      rb = I.module('discs.learning.replay_buffer')

      def sample(i, a, k):
        n = len(self.bufs)
        sz = I.num(a[0] if a else k['batch_size'])
        sh = (X.dim(sz.t),) + self.dims
        out, idx = Arr(X.atom('buf%d' % n, sh), sh, 'int'), Arr(X.atom('bidx%d' % n, sh[:1]), sh[:1], 'int')
        self.bufs.append(dict(out=out, idx=idx, upd=None, size=sz, **self.here()))
        return (out, idx)

      def update(i, a, k):
        d = dict(zip(('x', 'buffer_inds'), a))
        d.update(k)
        self.bufs[-1]['upd'] = (A_(d['x']), A_(d['buffer_inds'])) if self.bufs else None
        self.updates += 1
      A_ = I.lib.arr
      self.updates = 0
      rb.globals['ReplayBuffer'] = NativeV('ReplayBuffer', lambda i, a, k: self.probe({'sample': sample, 'update': update}, 'buffer'))
      args.append(self.atom('x_train', (ip('Ntr', 8),) + self.dims))
    self.ref = I.call(m.globals[cls], args, {})

  def run(self):
    I = self.I
    try:
      self.build()
      ks = X.node('split', (X.node('PRNGKey', (X.const(1),), ()), 2), (2,))
      key, k1 = I.unpack(Arr(ks, (2,), 'key'), 2)
      gs, ls = I.unpack(I.call(I.getattr(self.ref, 'init_states'), [k1], {}), 2)
      self.gs0, self.ls0 = self.tree(gs), self.tree(ls)
      if self.first:
        I.obj(gs).attrs['step'] = self.first

      def nxt(i, a, k):
        n = len(self.served)
        if self.avail is not None and n >= self.avail:
          raise PyRaise(IN.Sure('StopIteration'))
        sh = (self.ndev, ip('Bh', 2)) + self.dims if self.ndev != 1 else (1, self.B) + self.dims
        v = Arr(X.atom('data%d' % n, sh), sh, 'int')
        self.served.append(dict(v=v, **self.here()))
        return v
      loader = self.probe({'__next__': nxt}, 'loader')

      def bnext(i, a, k):
        if not (isinstance(a[0], Ref) and a[0].id == loader.id):
          return NotImplemented
        if len(a) > 1 and self.avail is not None and len(self.served) >= self.avail:
          return a[1]
        return nxt(i, a, k)
      I.lib.overrides['builtins.next'] = bnext
      logger = self.probe({'write_scalars': lambda i, a, k: self.logged.append((snap(I, a[0]), snap(I, a[1])))}, 'logger')
      self.plotted = []
      fp = NativeV('fn_plot', lambda i, a, k: self.plotted.append(snap(I, a[0])))
      out = I.call(I.getattr(self.ref, 'train_loop'), [logger, key, gs, ls, loader], {'fn_plot': fp})
      self.final = self.tree(out)
    except PyRaise as e:
      self.err = e
    return self


class Mn(Tr):
  """The main program of a training, with model, trainer, data and file system as recorded seams."""

  def __init__(self, repo, kind):
    super().__init__(repo, kind)
    self.label = '%s training program' % kind
    self.rec, self.files, self.dumped = {}, [], []

  def run(self):
    I = self.I
    try:
      self.world()
      self.train_world()
      ov = I.lib.overrides
      cfg = self.tconfig()
      o = I.obj(cfg)
      flags = self.probe_attrs({'save_root': '/out', 'seed': Arr(X.atom('seed', (), isint=True), (), 'int')})
      for p in ('ml_collections.config_flags', 'ml_collections.config_flags.config_flags'):
        ov[p + '.DEFINE_config_file'] = lambda i, a, k: self.probe_attrs({'value': cfg})
      ov['absl.flags.FLAGS'] = flags
      ov['jax.process_index'] = lambda i, a, k: 0
      ov['jax.process_count'] = lambda i, a, k: 1
      ov['os.path.exists'] = lambda i, a, k: False
      ov['os.makedirs'] = lambda i, a, k: None

      def open_(i, a, k):
        def write(i_, aa, kk):
          o = I.st.heap.get(aa[0].id) if isinstance(aa[0], Ref) else None
          if getattr(o, 'origin', None) == 'dumped':
            self.dumped.append((('file', a[0]), o.attrs['dumped']))
          else:
            self.rec.setdefault('written', []).append(a[0])
        return self.probe({'write': write, 'close': lambda i_, aa, kk: None}, ('file', a[0]))
      ov['builtins.open'] = open_
      for n in ('clu.metric_writers.create_default_writer', 'clu.metric_writers.summary_writer.SummaryWriter'):
        ov[n] = lambda i, a, k: self.probe({}, 'writer')
      data = self.probe({}, 'dataset')
      ov['tensorflow_datasets.load'] = lambda i, a, k: (self.rec.__setitem__('load', (list(a), dict(k))), data)[1]
      ov['tensorflow.config.list_physical_devices'] = lambda i, a, k: I.mklist([None, None])
      ov['tensorflow.config.experimental.set_memory_growth'] = lambda i, a, k: None
      xt = self.atom('x_train', (ip('Ntr', 8),) + self.dims)
      ov['tensorflow.data.Dataset.from_tensor_slices'] = lambda i, a, k: (self.rec.__setitem__('slices', a[0]), data)[1]
      ov['pickle.dump'] = lambda i, a, k: self.dumped.append((I.obj(a[1]).origin if isinstance(a[1], Ref) else None, snap(I, a[0])))

      def dumps(i, a, k):
        d = Inst(None)
        d.origin = 'dumped'
        d.attrs['dumped'] = snap(I, a[0])
        return I.new(d)
      ov['pickle.dumps'] = dumps
      ov['flax.core.frozen_dict.unfreeze'] = ov['flax.core.unfreeze'] = lambda i, a, k: a[0]
      mod, cls = ('discs.learning.rbm.main_rbm_training', 'RBMTrainer') if self.kind == 'rbm' else ('discs.learning.binary_ebm.main_binary_training', 'EBMTrainer')
      m = I.module(mod)
      m.globals['FLAGS'] = flags
      tr = I.module('discs.learning.train')
      dm = Arr(X.atom('dmean', self.dims), self.dims, 'float')
      tr.globals['get_data_mean'] = NativeV('get_data_mean', lambda i, a, k: dm)
      tr.globals['load_numpyds'] = NativeV('load_numpyds', lambda i, a, k: xt)
      self.mref, self.sref = self.probe({}, 'themodel'), self.probe({}, 'thesampler')
      for nm in ('rbm', 'resnet'):
        I.module('discs.models.' + nm).globals['build_model'] = NativeV('build_model', lambda i, a, k: (self.rec.__setitem__('model', a[0]), self.mref)[1])
      I.module('discs.samplers.dlmc').globals['build_sampler'] = NativeV('build_sampler', lambda i, a, k: (self.rec.__setitem__('sampler', a[0]), self.sref)[1])
      if 'RBMBlockGibbsSampler' in m.globals:
        m.globals['RBMBlockGibbsSampler'] = NativeV('S', lambda i, a, k: self.sref)
      dl = I.module('discs.common.data_loader')

      def prep(i, a, k):
        d = dict(zip(('dataset', 'config', 'fn_preprocess', 'drop_remainder', 'repeat'), a))
        d.update(k)
        self.rec['data'] = d
        return self.probe({}, 'prepared')
      dl.globals['prepare_dataloader'] = NativeV('prepare_dataloader', prep)
      dl.globals['numpy_iter'] = NativeV('numpy_iter', lambda i, a, k: self.probe({}, ('iter', I.obj(a[0]).origin)))
      names = ('w', 'b_v', 'b_h')
      reps = lambda p: I.mkdict({n: Arr(X.atom('%s_%s' % (p, n), (self.ndev,) + self.dims), (self.ndev,) + self.dims, 'float') for n in names})
      gs, ls = self.probe({}, 'gs'), self.probe({}, 'ls')

      def init_states(i, a, k):
        self.rec['init'] = I.as_term(a[0] if a else k['rng'])
        return (gs, ls)

      def loop(i, a, k):
        d = dict(zip(('logger', 'global_key', 'shared_state', 'local_state', 'train_loader', 'fn_plot'), a))
        d.update(k)
        self.rec['loop'] = d
        return self.probe_attrs({'params': reps('fin'), 'ema_params': reps('ema'), 'opt_state': Arr(X.atom('os', (self.ndev,)), (self.ndev,), 'float'),
                                 'step': Arr(X.atom('st', (self.ndev,)), (self.ndev,), 'int')}, True)

      def trainer(i, a, k):
        d = dict(zip(('config', 'model', 'sampler', 'x_train'), a))
        d.update(k)
        self.rec['trainer'] = d
        return self.probe({'init_states': init_states, 'train_loop': loop, 'plot_batch': lambda i_, aa, kk: None}, 'trainer')
      m.globals[cls] = NativeV(cls, trainer)
      ov['flax.jax_utils.unreplicate'] = self.unrep
      self.gs, self.ls, self.data, self.xt, self.dm = gs, ls, data, xt, dm
      I.call(m.globals['main'], [I.mklist(['prog'])], {})
    except PyRaise as e:
      self.err = e
    return self

  def probe_attrs(self, attrs, tree=False):
    o = Inst(None)
    o.origin = 'state' if tree else 'probe'
    o.attrs.update(attrs)
    return self.I.new(o)

  def unrep(self, i, a, k):
    I = self.I
    L = I.lib
    f = lambda v: L.index(L.arr(v), (0,)) if isinstance(v, Arr) else v
    if isinstance(a[0], Ref) and isinstance(I.st.heap.get(a[0].id), Inst) and I.obj(a[0]).origin == 'state':
      return self.probe_attrs({n: L.tree_map(f, v) for n, v in I.obj(a[0]).attrs.items()}, True)
    return L.tree_map(f, a[0])
