"""Scenario driver for the assembly of a run: main_sampling.main over the config files.

The main function is interpreted with the configuration files of the repository as
flag values.  Building the model (which needs data files) is a recorded seam that
returns a probe and, like the real models do, enters the size of the data into the
configuration; so is building the sampler. Experiment and saver are the repository's own.
The run itself (get_results) is a seam as well.
"""
from . import interp as IN
from .interp import FuncV, PartialV, BoundV, Arr, Ref, NativeV, DictObj, ListObj, Inst, ClassV, PropV, UNDEF, PyRaise

SHAPE = (17, 3)


def plain(I, v):
  """Configuration value as python data (None for what is not plain)."""
  if isinstance(v, Ref):
    o = I.st.heap.get(v.id)
    if isinstance(o, DictObj):
      return {k: plain(I, x) for k, x in o.items.items()}
    if isinstance(o, ListObj) and o.concrete():
      return [plain(I, x) for x in o.items]
    return UNDEF
  if isinstance(v, tuple):
    return tuple(plain(I, x) for x in v)
  if v is None or isinstance(v, (bool, int, float, str)):
    return v
  return UNDEF


class As:

  def __init__(self, repo, model, sampler, gtype=None, exp=None, over=None, local=True):
    """exp: module of the experiment configuration; over: flag overrides {'model_config.x': v}."""
    self.repo, self.model, self.sampler, self.gtype, self.over, self.local = repo, model, sampler, gtype, over or {}, local
    self.label = '%s%s/%s' % (model, '.' + gtype if gtype else '', sampler)
    self.exp = exp
    self.I = I = IN.Interp(repo)
    I.exact_try = True
    self.built = {}
    self.got = []
    self.files = []
    self.err = None

  def load(self, mod):
    I = self.I
    m = I.module(mod) if mod in self.repo.mods else None
    if m is None or 'get_config' not in m.globals:
      raise KeyError(mod)
    return I.call(m.globals['get_config'], [], {})

  def probe(self, attrs=None, methods=None):
    o = Inst(None)
    o.origin = 'probe'
    o.attrs.update(attrs or {})
    ms = methods or {}
    o.extra = lambda I_, ref, name: NativeV(name, ms[name]) if name in ms else UNDEF
    return self.I.new(o)

  def flags(self):
    I = self.I
    ov = I.lib.overrides
    cfgs = {'config': self.load(self.exp), 'model_config': self.load('discs.models.configs.%s_config' % self.model),
            'sampler_config': self.load('discs.samplers.configs.%s_config' % self.sampler)}
    for k, v in self.over.items():
      path = k.split('.')
      d = cfgs[path[0]]
      for q in path[1:-1]:
        d = I.obj(d).items[q]
      I.obj(d).items[path[-1]] = v
    self.given = {k: plain(I, v) for k, v in cfgs.items()}

    def cf(I_, a, k):
      n = a[0] if a else k.get('name')
      return self.probe({'value': cfgs.get(n)})
    for p in ('ml_collections.config_flags', 'ml_collections.config_flags.config_flags'):
      ov[p + '.DEFINE_config_file'] = cf

    def fl(I_, a, k):
      n = a[0] if a else k.get('name')
      d = a[1] if len(a) > 1 else k.get('default')
      return self.probe({'value': self.local if n == 'run_local' else d})
    for n in ('boolean', 'bool', 'string', 'integer', 'float'):
      ov['absl.flags.DEFINE_' + n] = fl
    ov['jax.process_index'] = lambda I_, a, k: 0
    ov['jax.process_count'] = lambda I_, a, k: 1
    ov['jax.device_count'] = ov['jax.local_device_count'] = lambda I_, a, k: 1
    ov['os.path.exists'] = ov['os.path.isdir'] = lambda I_, a, k: False
    ov['os.makedirs'] = lambda I_, a, k: self.files.append(('mkdir', a[0]))
    ov['builtins.open'] = lambda I_, a, k: (self.files.append(('open', a[0])), self.probe({}, {'write': lambda i, aa, kk: None, 'close': lambda i, aa, kk: None}))[1]
    for n in ('clu.metric_writers.create_default_writer', 'clu.metric_writers.summary_writer.SummaryWriter'):
      ov[n] = lambda I_, a, k: self.probe()
    for n in ('info', 'warning', 'debug'):
      ov['absl.logging.' + n] = lambda I_, a, k: None
    ov['builtins.print'] = lambda I_, a, k: None

  def hook(self, mod, name, seam=None):
    """Record the calls of a builder function; seam replaces it."""
    I = self.I
    m = I.module(mod) if mod in self.repo.mods else None
    if m is None or name not in m.globals:
      return False
    orig = m.globals[name]

    def f(I_, a, k):
      cfg = a[0] if a else k.get('config')
      rec = dict(mod=mod, cfg=plain(I, cfg), ref=cfg)
      r = seam(cfg) if seam else I.call(orig, a, k)
      rec['out'] = r
      self.got.append((name, rec))
      return r
    m.globals[name] = NativeV(name, f)
    return True

  def run(self):
    I = self.I
    try:
      self.flags()
      if 'discs.experiment.main_sampling' not in self.repo.mods:
        raise KeyError('main_sampling')

      def model(cfg):
        m = I.obj(I.obj(cfg).items['model']).items if isinstance(cfg, Ref) else {}
        if self.gtype or self.model in ('rbm', 'resnet'):
          m['shape'] = SHAPE
        return self.probe({'_model': True})
      for n in sorted(self.repo.mods):
        if n.startswith('discs.models.') and n.count('.') == 2:
          self.hook(n, 'build_model', model)
        elif n.startswith('discs.samplers.') and n.count('.') == 2:
          self.hook(n, 'build_sampler', lambda cfg: self.probe({'_sampler': True}))
        elif n.startswith('discs.evaluators.') and n.count('.') == 2:
          self.hook(n, 'build_evaluator', lambda cfg: self.probe({'_evaluator': True}))
      self.hook('discs.common.experiment_saver', 'build_saver')
      ex = I.module('discs.experiment.sampling')

      def results(cls):
        def f(I_, a, k):
          names = ('model', 'sampler', 'evaluator', 'saver')
          d = dict(zip(names, a[1:]))
          d.update(k)
          cls_ = I.obj(a[0]).cls
          self.got.append(('run', dict(cls=cls_.name if cls_ is not None else cls, attrs={q: plain(I, v) for q, v in I.obj(a[0]).attrs.items()}, args=d)))
          return None
        return f
      seen = False
      for n, c in ex.globals.items():
        if isinstance(c, ClassV) and any('get_results' in b.ns for b in c.mro()):
          f = results(n)
          c.ns['get_results'] = PropV(NativeV('get', lambda I_, a, k, f=f: NativeV('get_results', lambda i, aa, kk: f(i, list(a) + list(aa), kk))))
          seen = True
      if not seen:
        raise KeyError('get_results')
      m = I.module('discs.experiment.main_sampling')
      I.call(m.globals['main'], [None], {})
    except PyRaise as e:
      self.err = e
    return self

class Xm(As):
  """The launcher over one predefined sweep: the jobs it starts."""

  def __init__(self, repo, job):
    super().__init__(repo, '', '', exp=job)
    self.label = job[len('discs.run_configs.'):]
    self.jobs = []
    self.cfg = None

  def any(self, name='any'):
    """Outside object of no consequence."""
    o = Inst(None)
    o.origin = 'probe'
    o.extra = lambda I_, ref, n: NativeV(n, lambda i, a, k: self.any()) if n == '__call__' else UNDEF if isinstance(n, tuple) or n.startswith('__') else self.any(n)
    return self.I.new(o)

  def run(self):
    I = self.I
    ov = I.lib.overrides
    cfg = self.load(self.exp)
    self.cfg = plain(I, cfg)
    pat = '/gcs/xcloud-shared/{user}/results/discs/{exp_name}_{exp_id}'
    cell = {'job': None, 'n': 0}

    def package(i, a, k):
      return (self.any(),)

    def add(i, a, k):
      f = a[0] if a else k.get('job')
      kw = a[1] if len(a) > 1 else k.get('args')
      if isinstance(f, (FuncV, PartialV, BoundV)):
        cell['n'] += 1
        wu = self.probe({'work_unit_id': cell['n']}, {'add': lambda i_, aa, kk: self.jobs.append((cell['n'], plain(I, kw), plain(I, cell['job'])))})
        I.call(f, [wu], dict(I.obj(kw).items) if isinstance(kw, Ref) else {})
      return None

    def job(I_, a, k):
      cell['job'] = k.get('args')
      return self.any()
    ov['xmanager.xm.Job'] = job
    exp = self.probe({'experiment_id': 77}, {'add': add, 'package': package, '__enter__': lambda i, a, k: exp, '__exit__': lambda i, a, k: None})
    mk = lambda I_, a, k: exp
    ov['xmanager.xm_abc.create_experiment'] = ov['xmanager.xm_local.create_experiment'] = mk

    def hstack(I_, a, k):
      out = []
      for x in I.iterate(a[0]):
        out += I.iterate(x)
      return I.mklist(out)
    ov['numpy.hstack'] = ov['numpy.concatenate'] = hstack
    ov['getpass.getuser'] = lambda I_, a, k: 'me'
    for n in ('xmanager.xm.python_container', 'xmanager.xm.JobRequirements', 'xmanager.xm_abc.Gcp', 'xmanager.xm_local.Local', 'xmanager.xm.ModuleName',
              'xmanager.contrib.framework_defaults.base_image'):
      ov[n] = lambda I_, a, k: self.any()

    def fl(I_, a, k):
      n = a[0] if a else k.get('name')
      d = a[1] if len(a) > 1 else k.get('default')
      return self.probe({'value': d})
    for n in ('boolean', 'bool', 'string', 'integer', 'float'):
      ov['absl.flags.DEFINE_' + n] = fl
    for p in ('ml_collections.config_flags', 'ml_collections.config_flags.config_flags'):
      ov[p + '.DEFINE_config_file'] = lambda I_, a, k: self.probe({'value': cfg})
      ov[p + '.get_config_filename'] = lambda I_, a, k: '/workdir/' + self.exp.replace('.', '/') + '.py'
    ov['builtins.print'] = lambda I_, a, k: None
    try:
      m = I.module('discs.xm_launcher')
      flags = Inst(None)
      flags.origin = 'probe'
      flags.attrs.update(config=cfg, save_folder_pattern=pat)
      flags.extra = lambda I_, ref, n: self.any() if isinstance(n, tuple) else NativeV(n, lambda i, a, k: I.mkdict({})) if n == 'flag_values_dict' else UNDEF
      m.globals['FLAGS'] = I.new(flags)
      I.call(m.globals['main'], [I.mklist(['prog'])], {})
    except PyRaise as e:
      self.err = e
    return self
