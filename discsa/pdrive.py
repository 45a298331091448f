"""Scenario driver for collecting results: plot_results.main over a folder of result folders.

The folders are those the launcher creates for a predefined sweep; each holds the result
files the savers write, with numbers of its own.  File system, csv, pickle and matplotlib
are recorded seams; everything else is the repository's code.
"""
from . import interp as IN
from .adrive import As, plain
from .interp import NativeV, Ref, ListObj, DictObj, Inst, UNDEF, PyRaise, Arr


class Pl(As):

  def __init__(self, repo, label, path, folders, files, etype, key, mod='discs.plot_results.plot_results', flags=None):
    """folders: names in listing order; files: {(folder, file): python data}."""
    super().__init__(repo, '', '')
    self.label, self.path, self.folders, self.files_, self.etype, self.key, self.mod = label, path, folders, files, etype, key, mod
    self.flagsv = flags or {}
    self.rows, self.bars, self.figs, self.lines = [], [], [], []
    self.cur = None

  def lift(self, v):
    I = self.I
    if isinstance(v, dict):
      return I.mkdict({k: self.lift(x) for k, x in v.items()})
    if isinstance(v, list):
      return I.mklist([self.lift(x) for x in v])
    return v

  def down(self, v):
    I = self.I
    if isinstance(v, Ref):
      o = I.st.heap.get(v.id)
      if isinstance(o, ListObj) and o.concrete():
        return [self.down(x) for x in o.items]
      if isinstance(o, DictObj):
        return {k: self.down(x) for k, x in o.items.items()}
      raise ValueError('value of results')
    if isinstance(v, tuple):
      return [self.down(x) for x in v]
    return v

  def run(self):
    I = self.I
    ov = I.lib.overrides
    root = self.path.rstrip('/')

    def rel(p):
      p = p.replace('//', '/')
      return tuple(p[len(root) + 1:].split('/', 1)) if p.startswith(root + '/') else None
    ov['os.listdir'] = lambda i, a, k: I.mklist(list(self.folders))
    known = lambda p: p is not None and (p in self.files_ or (len(p) == 1 and p[0] in self.folders))
    ov['os.path.exists'] = ov['os.path.isfile'] = ov['os.path.isdir'] = lambda i, a, k: known(rel(a[0]))
    ov['os.makedirs'] = lambda i, a, k: None

    def op(i, a, k):
      p, mode = a[0], a[1] if len(a) > 1 else k.get('mode', 'r')
      if not isinstance(p, str):
        raise ValueError('open')
      if 'r' in mode:
        q = rel(p)
        if q not in self.files_:
          raise PyRaise(IN.Sure('FileNotFoundError'))
        h = self.probe({'data': q, 'name': p})
      else:
        h = self.probe({'data': None, 'name': p})
      o = I.obj(h)
      ms = {'close': lambda i_, aa, kk: None, '__enter__': lambda i_, aa, kk: h, '__exit__': lambda i_, aa, kk: None}
      o.extra = lambda I_, ref, n: NativeV(n, ms[n]) if n in ms else UNDEF
      return h
    ov['builtins.open'] = op
    ov['pickle.load'] = lambda i, a, k: self.lift(self.files_[I.obj(a[0]).attrs['data']])
    ov['csv.DictReader'] = lambda i, a, k: self.lift([dict(self.files_[I.obj(a[0]).attrs['data']])])

    def writer(i, a, k):
      name = I.obj(a[0]).attrs['name']

      def row(i_, aa, kk):
        self.rows.append((name, self.down(aa[0])))
      return self.probe({}, {'writeheader': lambda i_, aa, kk: None, 'writerow': row, 'writerows': lambda i_, aa, kk: [row(i_, [x], {}) for x in I.iterate(aa[0])] and None})
    ov['csv.DictWriter'] = writer

    def red(f):
      def g(i, a, k):
        ax = a[1] if len(a) > 1 else k.get('axis')
        v = self.down(a[0])

        def flat(x):
          return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
        if ax is None:
          return f(flat(v))
        if ax in (-1, 1) and all(isinstance(r, list) and not isinstance(r[0], list) for r in v):
          return I.mklist([f(r) for r in v])
        if ax == 0 and all(isinstance(r, list) for r in v):
          return I.mklist([f(list(c)) for c in zip(*v)])
        raise ValueError('reduction')
      return g
    mean = lambda x: sum(x) / len(x)
    ov['numpy.mean'] = red(mean)
    ov['numpy.std'] = red(lambda x: (sum((y - mean(x)) ** 2 for y in x) / len(x)) ** .5)
    ov['numpy.array'] = ov['numpy.asarray'] = lambda i, a, k: a[0]
    ov['numpy.unique'] = lambda i, a, k: I.mklist(sorted(set(I.iterate(a[0]))))

    def clip(i, a, k):
      lo = k.get('a_min', a[1] if len(a) > 1 else None)
      hi = k.get('a_max', a[2] if len(a) > 2 else None)
      if hi is not None:
        raise ValueError('clip')
      f = lambda x: [f(y) for y in x] if isinstance(x, list) else max(x, lo)
      return self.lift(f(self.down(a[0])))
    ov['numpy.clip'] = clip
    any_ = lambda i, a, k: self.anyv()
    for n in ('figure yscale xscale ylabel xlabel title xticks yticks legend grid show clf close ylim xlim axhline fill_between gca subplots tight_layout').split():
      ov['matplotlib.pyplot.' + n] = any_

    def bar(i, a, k):
      d = dict(zip(('x', 'height', 'width'), a))
      d.update(k)
      self.bars.append({n: self.down(d[n]) if n in d else None for n in ('height', 'label', 'yerr')})
      return self.anyv()
    ov['matplotlib.pyplot.bar'] = bar

    def fig(i, a, k):
      self.figs.append((a[0], list(self.bars), list(self.lines)))
      if a[0].endswith('.png') or a[0].endswith('.pdf'):
        self.last = a[0]
      return None
    ov['matplotlib.pyplot.savefig'] = fig

    def newfig(i, a, k):
      self.bars, self.lines = [], []
      return self.anyv()
    ov['matplotlib.pyplot.figure'] = ov['matplotlib.pyplot.clf'] = ov['matplotlib.pyplot.close'] = newfig

    def plot(i, a, k):
      self.lines.append((a[0], self.down(a[1]), k.get('label')))
      return self.anyv()
    ov['matplotlib.pyplot.plot'] = plot

    def gca(i, a, k):
      h = self.anyv()
      o = I.obj(h)
      old = o.extra
      ms = {'get_xticklabels': lambda i_, aa, kk: I.mklist([]), 'get_yticklabels': lambda i_, aa, kk: I.mklist([]),
            'get_legend_handles_labels': lambda i_, aa, kk: (I.mklist([self.anyv() for _ in self.lines]), I.mklist([l for _, _, l in self.lines]))}
      o.extra = lambda I_, ref, n: NativeV(n, ms[n]) if n in ms else old(I_, ref, n)
      return h
    ov['matplotlib.pyplot.gca'] = gca
    for n in ('boolean', 'bool', 'string', 'integer', 'float'):
      ov['absl.flags.DEFINE_' + n] = lambda i, a, k: self.probe({'value': self.flagsv.get(a[0] if a else k.get('name'), a[1] if len(a) > 1 else k.get('default'))})
    ov['builtins.print'] = lambda i, a, k: None
    try:
      m = I.module(self.mod)
      m.globals['FLAGS'] = self.probe(dict({'gcs_results_path': self.path, 'evaluation_type': self.etype, 'key': self.key}, **self.flagsv))
      I.call(m.globals['main'], [I.mklist(['prog'])], {})
    except PyRaise as e:
      self.err = e
    return self

  def anyv(self):
    o = Inst(None)
    o.origin = 'probe'
    o.extra = lambda I_, ref, n: NativeV(n, lambda i, a, k: self.anyv()) if n == '__call__' else UNDEF if isinstance(n, tuple) or n.startswith('__') else self.anyv()
    return self.I.new(o)
