"""Scenario driver for the energy models."""
from . import interp as IN
from . import terms as X
from .drive import ip
from .interp import Arr, Ref, NativeV, DictObj, ListObj, Inst, UNDEF, PyRaise

GRAPH = ('maxcut', 'mis', 'maxclique', 'normcut')
KINDS = {'bernoulli': 'b', 'ising': 'b', 'maxcut': 'b', 'mis': 'b', 'maxclique': 'b', 'resnet': 'b', 'categorical': 'c', 'potts': 'c',
         'normcut': 'c', 'fhmm': 'bc', 'rbm': 'bc'}
NDIM = {'ising': 2, 'potts': 2, 'fhmm': 2}


class Mo:
  """One abstract model: symbolic configuration, parameters and states."""

  def __init__(self, repo, name, C=2, over=None, mean=False, temp=False, tie=False):
    self.temp, self.tie = temp, tie
    self.repo, self.name, self.over, self.mean = repo, name, over or {}, mean
    self.I = IN.Interp(repo)
    self.label = '%s(C=%s%s%s)' % (name, C if isinstance(C, int) else 'K', ''.join(
        ',%s=%s' % (k, v if not isinstance(v, Arr) else X.show(v.t)) for k, v in sorted(self.over.items())), (',data_mean' if mean else '') + (',temperature' if temp else '') + (',last dimension = C' if tie else ''))
    self.B = ip('B')
    self.C = X.const(2) if C == 2 else ip('C', 3)
    self.graph = name in GRAPH
    if name in GRAPH:
      self.dims = (ip('N', 2),)
    else:
      self.dims = tuple(ip('D%d' % i, 2) for i in range(NDIM.get(name, 1)))
    if tie:
      self.dims = self.dims[:-1] + (self.C,)
    if name == 'resnet':
      self.dims = (X.dim_mul(ip('H', 4), ip('W', 4)),)
    self.err = None

  def da(self, d):
    return Arr(X.lift(d), (), 'int') if not isinstance(d, int) else d

  def config(self):
    I = self.I
    cfg = I.call(I.module('discs.common.configs').globals['get_config'], [], {})
    m = I.module('discs.models.configs.%s_config' % self.name)
    if m is None:
      raise KeyError('no config for model ' + self.name)
    mc = I.call(m.globals['get_config'], [], {})
    co = I.obj(cfg)
    mod = I.obj(co.items['model'])
    mod.items.update(I.obj(mc).items)
    it = mod.items
    for k, v in list(it.items()):
      if isinstance(v, bool) or isinstance(v, str) or k in self.over:
        continue
      if isinstance(v, (int, float)):
        hi = 1 if k in ('alpha', 'beta') else None
        it[k] = Arr(X.atom('cfg_' + k, (), lo=0, hi=hi, pos=True), (), 'float')
    it['shape'] = tuple(self.da(d) for d in self.dims)
    it['num_categories'] = 2 if X.is_const(self.C) else self.da(self.C)
    if self.graph:
      it['max_num_nodes'] = self.da(self.dims[0])
      it['max_num_edges'] = self.da(ip('E', 1))
      it['num_models'] = self.da(ip('M', 1))
    if self.name in ('rbm', 'resnet'):
      it.pop('data_path', None)
      it['num_visible'] = self.da(self.dims[0])
      it['num_hidden'] = self.da(ip('H', 2))
      it['n_channels'] = self.da(ip('NC', 2))
      it['image_shape'] = (self.da(ip('H', 4)), self.da(ip('W', 4)))
      if self.mean:
        dm = Arr(X.atom('data_mean', self.dims, lo=0, hi=1, pos=True), self.dims, 'float')
        if self.name == 'resnet':
          it['data_mean'] = dm
    it.update(self.over)
    self.cfg = cfg
    return cfg

  def build(self):
    I = self.I
    cfg = self.config()
    m = I.module('discs.models.' + self.name)
    if m is None or 'build_model' not in m.globals:
      raise KeyError('no build_model in ' + self.name)
    if self.graph:
      for nm in ('discs.models.comb_ebm',):
        g = I.module(nm)
        if g is not None and 'get_datagen' in g.globals:
          g.globals['get_datagen'] = NativeV('get_datagen', lambda I_, a, k: I.opaque('datagen'))
    self.m = I.call(m.globals['build_model'], [cfg], {})
    return self.m

  def dict(self, items, tag='params'):
    d = DictObj(dict(items))
    d.tag = tag
    return self.I.new(d)

  def params(self):
    I = self.I
    self.pat = {}

    def at(nm, sh, dt='float', **k):
      t = X.atom('p_' + nm, sh, **k)
      self.pat[nm] = t
      return Arr(t, sh, dt)
    if self.graph:
      E, N = ip('E', 1), self.dims[0]
      hi = X.sub(N, X.const(1))
      it = {
          'edge_from': at('edge_from', (E,), 'int', lo=0, hi=hi, isint=True),
          'edge_to': at('edge_to', (E,), 'int', lo=0, hi=hi, isint=True),
          'edge_mask': at('edge_mask', (E,), 'int', is01=True),
          'edge_weight': at('edge_weight', (E,)),
          'mask': at('mask', (N,), 'int', is01=True),
          'temperature': at('temperature', (), pos=True, lo=0),
          'num_edges': at('num_edges', (1,), 'int', isint=True, lo=1, hi=E),
          'num_nodes': at('num_nodes', (1,), 'int', isint=True, lo=1, hi=N),
      }
      cc = lambda a, b: I.lib.np_concatenate((it[a], it[b]))
      it['bidir_edge_from'] = cc('edge_from', 'edge_to')
      it['bidir_edge_to'] = cc('edge_to', 'edge_from')
      it['bidir_edge_weight'] = cc('edge_weight', 'edge_weight')
      it['node_degrees'] = at('node_degrees', (N,))
      self.p = self.dict(it)
      return self.p
    if self.name in ('rbm', 'resnet'):
      t = X.atom('theta', None)
      self.p = Arr(t, None, None)
      if self.name == 'resnet':
        it = {'net': Arr(t, None, None)}
        if self.temp:
          it['temperature'] = at('temperature', (), pos=True, lo=0, hi=1)
        self.p = self.dict(it)
      if self.name == 'rbm':
        N, H, C = self.dims[0], ip('H', 2), self.C
        two = X.is_const(C)
        self.p = self.dict({
            'b_v': at('b_v', (N,) if two else (N, C)),
            'b_h': at('b_h', (H,)),
            'w': at('w', (N, H) if two else (H, N, C)),
        })
      return self.p
    ini = self.init_params
    o = I.obj(ini) if isinstance(ini, Ref) else None
    if not isinstance(o, DictObj):
      raise KeyError('parameters are not a dict')
    it = {}
    for k, v in o.items.items():
      a = I.lib.arr(v)
      if a is None or a.shape is None:
        raise KeyError('parameter %s of unknown shape' % k)
      it[k] = at(k, a.shape)
    self.p = self.dict(it)
    return self.p

  def setup(self):
    I = self.I
    try:
      self.build()
      self.key0 = Arr(X.atom('rng0', ()), (), 'key')
      mark = len(I.events)
      self.init_err = None
      if not self.graph:
        try:
          self.init_params = I.call(I.getattr(self.m, 'make_init_params'), [self.key0], {})
        except PyRaise as e:
          self.init_err, self.init_params = e, None
      self.init_evs = I.events[mark:]
      self.params()
      sh = (self.B,) + self.dims
      self.xt = X.atom('x', sh, lo=0, hi=X.sub(self.C, X.const(1)), isint=True, is01=X.is_const(self.C))
      self.x = Arr(self.xt, sh, 'int')
      self.xf = Arr(self.xt, sh, 'float')
      if not X.is_const(self.C):
        self.oh = Arr(X.onehot(self.xt, sh, self.C), sh + (self.C,), 'float')
        self.z = Arr(X.atom('z', sh + (self.C,)), sh + (self.C,), 'float')
      else:
        self.oh = None
        self.z = Arr(X.atom('z', sh), sh, 'float')
    except PyRaise as e:
      self.err = e
    return self

  def call(self, name, *args, **kw):
    """Abstract call of a model method; returns (value, events) or raises PyRaise."""
    I = self.I
    mark = len(I.events)
    f = I.getattr(self.m, name)
    r = I.call(f, list(args), kw)
    return r, I.events[mark:]

  def has(self, name):
    I = self.I
    o = I.obj(self.m)
    return I.find_method(o.cls, name) is not None


def variants():
  out = []
  for n, k in sorted(KINDS.items()):
    for c in k:
      C = 2 if c == 'b' else 'K'
      if n == 'normcut':
        one = Arr(X.atom('cfg_penalty', (), lo=0, pos=True), (), 'float')
        tol = Arr(X.atom('cfg_tolerance', (), lo=0, pos=True, hi=1), (), 'float')
        out.append((n, C, {'penalty': 0.0}, False))
        out.append((n, C, {'penalty': one, 'tolerance': tol, 'stype': 'quad'}, False))
        out.append((n, C, {'penalty': one, 'tolerance': tol, 'stype': 'span'}, False))
      elif n == 'maxclique':
        out.append((n, C, {'penalty': Arr(X.atom('cfg_penalty', (), lo=0, pos=True), (), 'float')}, False))
        out.append((n, C, {}, False))
      elif n == 'resnet':
        out.append((n, C, {}, False))
        out.append((n, C, {}, True))
        out.append((n, C, {}, True, True))
      else:
        out.append((n, C, {}, False))
        if C == 'K':
          out.append((n, C, {}, False, False, True))   # samples whose last dimension equals the number of categories
  return out


_CACHE = {}


def models(ctx):
  for v in variants():
    k = (id(ctx.repo), repr(v))
    m = _CACHE.get(k)
    if m is None:
      m = Mo(ctx.repo, *v)
      try:
        m.setup()
      except Exception as e:
        m.err = e
        ctx.notes.append('analysis failed on %s: %r' % (m.label, e))
      _CACHE[k] = m
      ctx.saw(m.I)
    yield m


class Tx(Mo):
  """The text-infilling model over an uninterpreted masked language model.

  Tasks with fixed sentences and infill positions; the vocabulary size, the
  batch size, the samples and the language model are symbolic.
  """
  TASKS = [dict(sentence='the [MASK] sat on [MASK] mat', infill_pos=[2, 5]), dict(sentence='a [MASK] [MASK] ran [MASK]', infill_pos=[2, 3, 5]),
           dict(sentence='[MASK] end', infill_pos=[1]),
           dict(sentence=' '.join(['[MASK]' if i % 4 < 2 else 'w%d' % i for i in range(20)]) + ' and so on', infill_pos=[i + 1 for i in range(20) if i % 4 < 2])]
  LEN = [9, 7, 4, 46]

  def __init__(self, repo, random_init=False):
    super().__init__(repo, 'text_infilling', 'K', {'random_init_sample': random_init})
    self.C = ip('C', 104)
    self.I.exact_try = True
    self.calls = []
    self.decoded = []
    self.opened = []

  def probe(self, methods, attrs=None):
    I = self.I
    o = Inst(None)
    o.origin = 'probe'
    o.attrs.update(attrs or {})
    fs = {k: NativeV(k, f) for k, f in methods.items()}
    o.extra = lambda I_, ref, name: fs.get(name, UNDEF)
    return I.new(o)

  def build(self):
    I = self.I
    ov = I.lib.overrides
    cfg = I.call(I.module('discs.common.configs').globals['get_config'], [], {})
    mc = I.call(I.module('discs.models.configs.text_infilling_config').globals['get_config'], [], {})
    it = I.obj(I.obj(cfg).items['model']).items
    it.update(I.obj(mc).items)
    it['num_categories'] = Arr(self.C, (), 'int')
    it.update(self.over)
    self.cfg = cfg
    m = I.module('discs.models.text_infilling')
    ov['os.path.exists'] = ov['os.path.isdir'] = lambda I_, a, k: True
    ov['os.path.join'] = lambda I_, a, k: '/'.join(a) if all(isinstance(q, str) for q in a) else NotImplemented
    ov['builtins.open'] = lambda I_, a, k: (self.opened.append(a[0]), self.probe({'close': lambda *z: None}))[1]
    ov['json.load'] = lambda I_, a, k: I.mklist([I.mkdict({'sentence': t['sentence'], 'infill_pos': I.mklist(list(t['infill_pos']))}) for t in self.TASKS])

    def tok(I_, a, k):
      s = a[0] if a else k.get('text')
      j = [t['sentence'] for t in self.TASKS].index(s)
      L = self.LEN[j]
      mk = lambda n, hi: Arr(X.atom('%s%d' % (n, j), (1, L), lo=0, hi=hi, isint=True), (1, L), 'int')
      return I.mkdict({'input_ids': mk('ids', X.sub(self.C, X.const(1))), 'attention_mask': mk('att', X.const(1)), 'token_type_ids': mk('tt', X.const(1))})

    def dec(I_, a, k):
      self.decoded.append(a[0] if a else k.get('token_ids'))
      self.skipped = bool(a[1] if len(a) > 1 else k.get('skip_special_tokens', False))
      return 'DECODED'
    self.tokenizer = self.probe({'__call__': tok, 'decode': dec})

    def lm(I_, a, k):
      k = dict(k)
      names = ('input_ids', 'attention_mask', 'infill_one_hots', 'infill_pos', 'token_type_ids', 'position_ids')
      for n, v in zip(names, a):
        k[n] = v
      ids, oh = I.lib.arr(k['input_ids']), I.lib.arr(k['infill_one_hots'])
      pos = k.get('infill_pos')
      pos = tuple(I.obj(pos).items) if isinstance(pos, Ref) and isinstance(I.obj(pos), ListObj) else pos
      if ids is None or oh is None or oh.shape is None or ids.shape is None or len(ids.shape) != 2 or not isinstance(pos, tuple) or not all(isinstance(q, int) for q in pos):
        return self.probe({}, {'logits': I.unk('language model')})
      if k.get('position_ids') is not None or set(k) - set(names):
        return self.probe({}, {'logits': I.unk('language model')})
      sh = (ids.shape[0], ids.shape[1], self.C)
      ex = [I.lib.arr(k.get(n)) for n in ('attention_mask', 'token_type_ids')]
      t = X.node('bert', (oh.full(), ids.full(), pos) + tuple(e.full() if e is not None else X.ZERO for e in ex), sh)
      self.calls.append((oh, pos))
      return self.probe({}, {'logits': Arr(t, sh, 'float')})
    self.lm = self.probe({'__call__': lm})
    g = m.globals
    pre = lambda r: self.probe({'from_pretrained': lambda I_, a, k: r})
    if 'BertTokenizer' not in g or 'FlaxBertForMaskedLM_Infilling' not in g:
      raise KeyError('language model of text_infilling')
    g['BertTokenizer'] = pre(self.tokenizer)
    g['FlaxBertForMaskedLM_Infilling'] = pre(self.lm)
    self.m = I.call(g['build_model'], [cfg], {})
    return self.m

  def task(self, key):
    """Next task: make_init_params; returns its parameters."""
    r, _ = self.call('make_init_params', key)
    return r

  def sample(self, n):
    sh = (self.B, n)
    self.xt = X.atom('x', sh, lo=0, hi=X.sub(self.C, X.const(1)), isint=True)
    self.x = Arr(self.xt, sh, 'int')
    self.oh = Arr(X.onehot(self.xt, sh, self.C), sh + (self.C,), 'float')
    self.z = Arr(X.atom('z', sh + (self.C,)), sh + (self.C,), 'float')
