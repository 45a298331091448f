"""Scenario driver for the graph loaders.

The loader classes and the batching code of the repository are interpreted over a
family of abstract data sets: a directory listing and files whose graphs have a fixed
structure, while edge weights and reference solutions are symbolic.  networkx objects
met on the way are library values (their calls have networkx's meaning).
"""
import os.path

import networkx as nx

from . import interp as IN
from . import terms as X
from .interp import Arr, Ref, NativeV, DictObj, ListObj, Inst, UNDEF, PyRaise, Sure, RangeV

VIEWS = (nx.classes.reportviews.NodeView, nx.classes.reportviews.NodeDataView, nx.classes.reportviews.OutEdgeView,
         nx.classes.reportviews.OutEdgeDataView, nx.classes.reportviews.DiDegreeView, nx.classes.coreviews.AtlasView,
         nx.classes.coreviews.AdjacencyView)


class Lost(Exception):
  pass


def graphs(weighted, named=False):
  """Graphs of different sizes; node numbers do not follow the order of appearance."""
  es = [
      [(3, 1), (0, 2), (2, 3), (0, 1)],
      [(1, 0), (2, 1)],
      [(4, 2), (2, 0), (5, 1), (3, 4), (0, 5), (1, 2), (4, 0)],
      [(0, 1), (1, 2), (2, 0), (3, 0), (3, 1), (2, 3), (5, 0), (4, 1), (4, 5), (2, 5), (4, 3), (1, 5), (0, 4)],
      [(2, 4), (0, 3), (1, 4)],
  ]
  out = []
  for k, e in enumerate(es):
    g = nx.Graph()
    if k in (0, 3):
      g.add_nodes_from(range(1 + max(max(p) for p in e)))
    for i, (a, b) in enumerate(e):
      if weighted:
        g.add_edge(a, b, weight=Arr(X.atom('w%d_%d' % (k, i), ()), (), 'float'))
      else:
        g.add_edge(a, b)
    out.append(g)
  return out


class Gl:

  def __init__(self, repo, label, model, gtype, rand='', files=None, dirs=None, sizes=(0, 0, 0), M=2, order=0, nproc=1, C=2):
    self.repo, self.label = repo, label
    self.I = I = IN.Interp(repo)
    I.exact_try = True
    I.unroll_while = 40
    self.model, self.gtype, self.rand = model, gtype, rand
    self.files = files if files is not None else {}
    self.dirs = dirs or {}
    self.sizes, self.M, self.order, self.nproc, self.C = sizes, M, order, nproc, C
    self.opened = []
    self.overwritten = []
    self.lost = None

  # ------------------------------------------------------------ values
  def wrap(self, v):
    I = self.I
    if isinstance(v, (Arr, Ref)) or v is None or isinstance(v, (bool, int, float, str)):
      return v
    if isinstance(v, tuple):
      return tuple(self.wrap(x) for x in v)
    if isinstance(v, (list, set, frozenset)):
      return I.mklist([self.wrap(x) for x in v])
    if isinstance(v, dict):
      return I.mkdict({k: self.wrap(x) for k, x in v.items()})
    o = Inst(None)
    o.origin = 'nx'
    o.attrs['_nx'] = v
    o.attrs['_view'] = isinstance(v, VIEWS)

    def extra(I_, ref, name):
      if isinstance(name, tuple):
        try:
          return self.wrap(v[self.plain(name[1])])
        except (KeyError, IndexError):
          raise PyRaise(Sure('KeyError'))
      if name in ('__iter__', '__len__', '__call__', '__contains__') or not name.startswith('_'):
        a = getattr(v, name, UNDEF)
        if a is UNDEF:
          return UNDEF
        if name == '__iter__':
          return NativeV('iter', lambda i, aa, kk: I.mklist([self.wrap(x) for x in v]))
        if callable(a) and not isinstance(a, VIEWS) and not isinstance(a, nx.Graph):
          return NativeV(name, lambda i, aa, kk: self.wrap(a(*[self.plain(x) for x in aa], **{k: self.plain(x, True) for k, x in kk.items()})))
        return self.wrap(a)
      return UNDEF
    o.extra = extra
    return I.new(o)

  def plain(self, v, data=False):
    I = self.I
    if v is None or isinstance(v, (bool, int, float, str)):
      return v
    if isinstance(v, Arr):
      c = X.const_val(v.t)
      if c is not None and v.shape == ():
        return int(c) if v.dtype in ('int', 'bool') else float(c)
      if data:
        return v
      self.lost = 'symbolic value given to networkx'
      raise Lost(self.lost)
    if isinstance(v, tuple):
      # (u, v, w) and (u, v, {...}) edges may carry symbolic data
      return tuple(self.plain(x, data or i >= 2) for i, x in enumerate(v))
    if isinstance(v, RangeV):
      r = I.iterate(v)
      if isinstance(r, list):
        return r
    if isinstance(v, Ref):
      o = I.obj(v)
      if isinstance(o, Inst) and '_nx' in o.attrs:
        return o.attrs['_nx']
      if isinstance(o, ListObj) and o.concrete():
        return [self.plain(x, data) for x in o.items]
      if isinstance(o, DictObj):
        return {k: self.plain(x, True) for k, x in o.items.items()}
    r = I.iterate(v)
    if isinstance(r, list):
      return [self.plain(x, data) for x in r]
    self.lost = 'unknown value given to networkx'
    raise Lost(self.lost)

  def probe(self, tab, **attrs):
    I = self.I
    o = Inst(None)
    o.attrs.update(attrs)
    o.extra = lambda I_, ref, name: NativeV(name, tab[name]) if name in tab else UNDEF
    return I.new(o)

  # ------------------------------------------------------------ outside world
  def world(self):
    I = self.I
    ov = I.lib.overrides

    def need(*a):
      if not all(isinstance(x, str) for x in a):
        self.lost = 'unknown path'
        raise Lost(self.lost)

    def join(I_, a, k):
      need(*a)
      return os.path.join(*a)
    ov['os.path.join'] = join
    ov['os.path.dirname'] = lambda I_, a, k: os.path.dirname(a[0])
    ov['os.path.realpath'] = ov['os.path.abspath'] = lambda I_, a, k: a[0]
    ov['os.path.basename'] = lambda I_, a, k: os.path.basename(a[0])
    norm = os.path.normpath

    def listdir(I_, a, k):
      need(*a)
      d = norm(a[0])
      if d not in self.dirs:
        self.opened.append(('dir', d))
        raise PyRaise(Sure('FileNotFoundError'))
      r = list(self.dirs[d])
      if self.order:
        r = r[::-1]
      return I.mklist(r)
    ov['os.listdir'] = listdir
    ov['os.path.exists'] = ov['os.path.isfile'] = ov['os.path.isdir'] = lambda I_, a, k: norm(a[0]) in self.files or norm(a[0]) in self.dirs

    def open_(I_, a, k):
      p = a[0] if a else k.get('file')
      need(p)
      p = norm(p)
      self.opened.append(('file', p))
      if p not in self.files:
        raise PyRaise(Sure('FileNotFoundError'))
      data = self.files[p]
      st = {'i': 0}

      def readline(i, aa, kk):
        st['i'] += 1
        return data[st['i'] - 1] if st['i'] <= len(data) else ''

      def rest(i, aa, kk):
        r, st['i'] = list(data[st['i']:]), len(data)
        return I.mklist(r)

      def load(i, aa, kk):
        st['i'] += 1
        if st['i'] > len(data):
          raise PyRaise(Sure('EOFError'))
        return self.wrap(data[st['i'] - 1])
      return self.probe({'readline': readline, '__iter__': rest, 'readlines': rest, 'close': lambda *z: None, '_load': load}, path=p)
    ov['builtins.open'] = open_

    def load(I_, a, k):
      o = I.obj(a[0])
      f = o.extra(I, a[0], '_load') if isinstance(o, Inst) and o.extra is not None else UNDEF
      if f is UNDEF:
        self.lost = 'pickle source'
        raise Lost(self.lost)
      return I.call(f, [], {})
    ov['pickle5.load'] = ov['pickle.load'] = load

    def cnf(I_, a, k):
      p = a[0] if a else k.get('from_file')
      need(p)
      nv, cl = self.files[norm(p)][0]
      return self.probe({}, nv=nv, clauses=self.wrap([list(c) for c in cl]))
    ov['pysat.formula.CNF'] = cnf
    ov['networkx.Graph'] = lambda I_, a, k: self.wrap(nx.Graph(*[self.plain(x) for x in a]))
    for n in ('from_edgelist', 'number_of_nodes', 'number_of_edges', 'nodes', 'edges', 'degree', 'convert_node_labels_to_integers', 'relabel_nodes',
              'get_node_attributes', 'get_edge_attributes', 'connected_components', 'number_connected_components', 'is_connected', 'is_directed', 'density',
              'neighbors', 'all_neighbors', 'subgraph', 'selfloop_edges', 'isolates', 'to_edgelist', 'compose', 'add_path', 'add_cycle', 'add_star'):
      ov['networkx.' + n] = lambda I_, a, k, f=getattr(nx, n): self.wrap(f(*[self.plain(x) for x in a], **{q: self.plain(x) for q, x in k.items()}))
    ov['jax.process_index'] = lambda I_, a, k: self.proc
    ov['jax.process_count'] = lambda I_, a, k: self.nproc
    self.nrand = 0

    def draw(I_, a, k):
      if a and not all(isinstance(q, (int, float)) for q in a) or 'size' in k:
        self.lost = 'random numbers'
        raise Lost(self.lost)
      self.nrand += 1
      return Arr(X.atom('rnd%d' % self.nrand, ()), (), 'float')
    ov['numpy.random.randn'] = lambda I_, a, k: draw(I_, a, k if not a else {'size': a})
    ov['numpy.random.rand'] = ov['numpy.random.random'] = ov['numpy.random.randn']
    ov['numpy.random.normal'] = ov['numpy.random.uniform'] = draw
    ov['builtins.print'] = lambda I_, a, k: None

  def config(self):
    I = self.I
    cfg = I.call(I.module('discs.common.configs').globals['get_config'], [], {})
    mo = I.obj(I.obj(cfg).items['model'])
    mo.items.update(I.obj(I.call(I.module('discs.models.configs.%s_config' % self.model).globals['get_config'], [], {})).items)
    mo.items['graph_type'] = self.gtype
    mc = I.call(I.module('discs.models.configs.%s.%s' % (self.model, self.gtype)).globals['get_model_config'], ['r-%s' % self.rand], {})
    mo.items.update(I.obj(mc).items)
    if self.sizes is not None:
      mo.items['max_num_nodes'], mo.items['max_num_edges'], mo.items['num_instances'] = self.sizes
    mo.items['num_models'] = self.M
    mo.items['num_categories'] = self.C
    mo.items['data_root'] = '/data'
    self.cfg = cfg
    return cfg

  def run(self, sharding=None):
    """(loader, batches): batches as tuples of items, per call of the iterator."""
    I = self.I
    self.proc = 0
    self.world()
    cfg = self.config()
    if sharding is None:
      it = I.call(I.module('discs.common.utils').globals['get_datagen'], [cfg], {})
    else:
      self.proc = sharding
      l = I.call(I.module('discs.graph_loader.graph_gen').globals['get_graphs'], [cfg], {})
      it = I.call(I.getattr(l, 'get_iterator'), ['test', self.M, True], {})
    o = I.obj(it) if isinstance(it, Ref) else None
    if not isinstance(o, Inst) or not o.attrs.get('exact'):
      raise Lost('the batches are not enumerable')
    out = [s if s is not None else v if isinstance(v, tuple) else None for v, s in zip(o.attrs['yields'], o.attrs['snaps'])]
    # batches kept by the consumer still hold what was served
    for k, (v, s) in enumerate(zip(o.attrs['yields'], out)):
      q = I.obj(v) if isinstance(v, Ref) else None
      if s is not None and isinstance(q, ListObj) and q.concrete() and (len(q.items) != len(s) or any(a is not b and a != b for a, b in zip(q.items, s))):
        self.overwritten.append(k)
    return out
