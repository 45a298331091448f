"""Graph instances: loading, encoding, batching (P23)."""
import math

import networkx as nx
import numpy as np

from .. import gdrive as G
from .. import terms as X
from ..interp import Arr, Ref, DictObj, PyRaise
from ..valu import Ev, Unsup

CLAUSES = [
    (4, [[1, -2, 3], [-1, 2, 4], [-3, -4, 1]]),
    (3, [[-1, 2, 3], [1, -2, -3]]),
    (3, [[1, 2, 3], [-1, -2, -3], [2, -3, 1], [-2, 3, -1]]),
]


def sat_graph(nv, cl):
  g = nx.Graph()
  lit = []
  for i, c in enumerate(cl):
    for k, l in enumerate(c):
      lit.append(l)
    g.add_edges_from([(3 * i, 3 * i + 1), (3 * i, 3 * i + 2), (3 * i + 1, 3 * i + 2)])
  for a in range(len(lit)):
    for b in range(a):
      if lit[a] == -lit[b]:
        g.add_edge(a, b)
  return g


def sol(i):
  return Arr(X.atom('sol%d' % i, (), lo=0, pos=True), (), 'float')


def mc(g):
  ls = ['%d %d\n' % (len(g), g.number_of_edges())]
  for i, (a, b) in enumerate(g.edges()):
    ls.append('%d %d %d\n' % (a + 1, b + 1, (i % 3) - 1))
  return ls


def deg(gs):
  """Computation graphs carry attributes that are no part of the problem."""
  for g in gs:
    for k, (a, b) in enumerate(g.edges()):
      g.edges[a, b]['weight'] = 0.5 + k
  return gs


def datasets():
  """name -> keyword arguments of Gl and the expected [(graph, reference)] in index order."""
  out = []
  W = lambda: G.graphs(True)
  U = lambda: G.graphs(False)

  for t in ('ba', 'er'):
    gs = W()
    rand = '%s-4-n-16-20' % t
    d = '/data/maxcut-%s/maxcut-%s' % (t, rand)
    out.append((t, dict(model='maxcut', gtype=t, rand=rand, dirs={d: ['test-2.pkl', 'train-1.pkl', 'test-1.pkl', 'README']}, files={
        d + '/test-1.pkl': [(gs[0], [sol(0), sol(90)]), (gs[1], [sol(1)]), (gs[2], [sol(2)])],
        d + '/test-2.pkl': [(gs[3], [sol(3), sol(91)]), (gs[4], [sol(4)])],
        d + '/train-1.pkl': [(nx.complete_graph(9), [sol(99)])]}), [(gs[i], sol(i)) for i in range(5)]))
  gs = W() + W() + W()[:2]
  out.append(('optsicom b', dict(model='maxcut', gtype='optsicom', rand='b', files={'/data/optsicom/b.pkl': [(g, [sol(i), sol(90)]) for i, g in enumerate(gs)]}),
              [(g, sol(i)) for i, g in enumerate(gs)]))
  gs = U()
  fs, ex = {}, []
  for i, n in enumerate(['1000', '2000', '3000', '4000', '5000', '6000', '7000', '8000', '9000', '10000']):
    g = gs[i % 5]
    h = nx.Graph()
    for k, (a, b) in enumerate(g.edges()):
      h.add_edge(a, b, weight=float(k % 3 - 1))
    fs['optsicom/sg3dl05%s.mc' % n] = mc(g)
    ex.append((h, 1.0))
  out.append(('optsicom perturbed', dict(model='maxcut', gtype='optsicom', rand='0.1', files=fs), ex))
  gs = U()
  for i, g in enumerate(gs):
    if i < 3:
      for v in g.nodes():
        if i < 2 or v % 2:
          g.nodes[v]['label'] = 1 if i < 2 and v in (0, 2) or i == 2 and v == 1 else 0
  d = '/data/er_800_test'
  names = ['ER_e.pkl', 'ER_b.pkl', 'ER_a.pkl', 'notes.txt', 'ER_d.pkl', 'ER_c.pkl']
  srt = sorted(n for n in names if n.startswith('ER'))
  ref = lambda g: sum(q.get('label', 0) for _, q in g.nodes(data=True)) or 1
  out.append(('ertest', dict(model='mis', gtype='ertest', rand='800', dirs={d: names}, files={d + '/' + n: [g] for n, g in zip(srt, gs)}), [(g, ref(g)) for g in gs]))
  gs = U() + U() + U()[1:4]
  out.append(('er_density', dict(model='mis', gtype='er_density', rand='0.1', files={'/data/er_700_800/ER-700-800-0.1.pkl': [list(gs)]}), [(g, 1) for g in gs]))
  d = '/data/satlib_test'
  nm = ['c.cnf', 'a.cnf', 'readme.txt', 'b.cnf']
  out.append(('satlib', dict(model='mis', gtype='satlib', dirs={d: nm}, files={d + '/' + n: [c] for n, c in zip(('a.cnf', 'b.cnf', 'c.cnf'), CLAUSES)}),
              [(sat_graph(*c), 1) for c in CLAUSES]))
  gs = U() + U()[1:] + U()
  d = '/data/RB_test'
  out.append(('rb', dict(model='maxclique', gtype='rb', dirs={d: ['RB2', 'x.txt', 'RB1']}, files={
      d + '/RB1': [[(sol(0), gs[0]), (sol(1), gs[1])]], d + '/RB2': [[(sol(i), gs[i]) for i in range(2, len(gs))]]}), [(g, sol(i)) for i, g in enumerate(gs)]))
  gs = U() + U()[2:] + U()
  d = '/data/twitter'
  out.append(('twitter', dict(model='maxclique', gtype='twitter', dirs={d: ['twitter_2', 'other', 'twitter_1']}, files={
      d + '/twitter_1': [(gs[:3], [sol(0), sol(1), sol(2)])], d + '/twitter_2': [(gs[3:], [sol(i) for i in range(3, len(gs))])]}), [(g, sol(i)) for i, g in enumerate(gs)]))
  gs = deg(U())
  out.append(('nets', dict(model='normcut', gtype='nets', rand='INCEPTION', C=3, files={'/data/nets/INCEPTION.pkl': [gs[2]]}), [(gs[2], 1)]))
  gs = deg(U())
  d = '/data/gap_rand/test-1000'
  out.append(('gap_rand', dict(model='normcut', gtype='gap_rand', C=3, preset=True, dirs={d: ['3.pkl', '1.pkl', 'a.txt', '2.pkl']}, files={
      d + '/%d.pkl' % (i + 1): [gs[i]] for i in range(3)}), [(g, 1) for g in gs[:3]]))
  return out


def scenarios(ctx):
  for name, kw, exp in datasets():
    pre = kw.pop('preset', False)
    mn, me = max(len(g) for g, _ in exp), max(g.number_of_edges() for g, _ in exp)
    full = (mn + 2, me + 3, len(exp))
    vs = [dict(M=2), dict(M=3, sizes=full), dict(M=len(exp) + 2), dict(M=len(exp) + 19), dict(M=1, order=1)]
    if ctx.tier == 'thorough':
      vs += [dict(M=m, sizes=s, order=o) for m in (1, 2, 4, len(exp), len(exp) + 1) for s in ((0, 0, 0), full) for o in (0, 1)]
    vs += [dict(M=2, nproc=2)]
    if not pre:
      vs += [dict(M=4, sizes=(mn + 2, me + 3, 0))]
    for v in vs:
      v = dict(v)
      if pre:
        v['sizes'] = full
      k = dict(kw, **v)
      if name.startswith('optsicom p'):
        f = ctx.repo.mods['discs.graph_loader.maxcut_loader'].path if hasattr(ctx.repo, 'mods') and 'discs.graph_loader.maxcut_loader' in ctx.repo.mods else None
        k['files'] = files_at(kw['files'])
      lab = '%s(%s)' % (name, ','.join('%s=%s' % q for q in sorted(v.items())))
      yield name, G.Gl(ctx.repo, lab, **k), exp


def files_at(fs):
  """The text files of optsicom lie beside the loader, wherever that is."""
  class D(dict):
    def _k(self, k):
      return next((q for q in fs if k.endswith('/' + q)), None)

    def __contains__(self, k):
      return self._k(k) is not None

    def __getitem__(self, k):
      return fs[self._k(k)]
  return D()


def p23(ctx):
  rule = 'every instance is loaded once'
  where = 'discs/graph_loader'
  for name, g, exp in scenarios(ctx):
    try:
      if g.nproc == 1:
        bs = [g.run()]
      else:
        bs = [g.run(sharding=p) for p in range(g.nproc)]
    except PyRaise as ex:
      st = False if ex.args and str(ex.args[0]) in ('TypeError', 'IndexError', 'KeyError', 'ValueError', 'FileNotFoundError', 'EOFError', 'AttributeError', 'NameError',
                                                    'UnboundLocalError', 'AssertionError', 'NotImplementedError') and getattr(ex, 'sure', False) else None
      ctx.ob('%s loads' % g.label, st, rule, where, 'loading raises %s%s' % (ex, '' if not g.opened else ' (last access: %s)' % (g.opened[-1],)))
      continue
    except Exception as ex:
      ctx.ob('%s loads' % g.label, None, rule, where, 'analysis limit: %r' % ex)
      continue
    finally:
      ctx.saw(g.I)
    internal = [w for _, w in g.I.imprecise if str(w).startswith('internal:')]
    if g.lost or internal:
      ctx.ob('%s loads' % g.label, None, rule, where, 'analysis limit: %s' % (g.lost or internal[0]))
      continue
    judge(ctx, g, exp, bs)


class Bad(Exception):
  pass


def judge(ctx, g, exp, bs):
  I = g.I
  e = Ev(3)

  def num(v):
    if isinstance(v, (bool, int, float)):
      return np.asarray(v)
    a = I.lib.arr(v) if not isinstance(v, Arr) else v
    if a is None or a.shape is None:
      raise Unsup('not an array')
    return np.asarray(e.full(a.full()))

  def ob(what, rule, f):
    try:
      f()
    except Bad as ex:
      ctx.ob('%s %s' % (g.label, what), False, rule, 'discs/graph_loader', str(ex))
    except Exception as ex:
      ctx.ob('%s %s' % (g.label, what), None, rule, 'discs/graph_loader', 'analysis limit: %r' % ex)
    else:
      ctx.ob('%s %s' % (g.label, what), 'generic', rule, 'discs/graph_loader')

  lb = g.M // g.nproc
  items = []

  def batches():
    for b in bs:
      want = math.ceil(len(exp) / g.M)
      if len(b) != want:
        raise Bad('%d batches of %d instances in steps of %d instead of %d' % (len(b), len(exp), g.M, want))
      for k, x in enumerate(b):
        if x is None:
          raise Unsup('batch')
        if len(x) != lb:
          raise Bad('batch %d has %d entries instead of %d' % (k, len(x), lb))
    if g.overwritten:
      raise Bad('batch %d changes after it was served' % g.overwritten[0])
  ob('batches are full', 'batches have the configured size', batches)
  try:
    for b in bs:
      for x in b:
        for it in x:
          i = num(it[0])
          items.append((int(i), it[1], it[2]))
  except Exception as ex:
    ctx.ob('%s entries' % g.label, None, 'every instance is loaded once', 'discs/graph_loader', repr(ex))
    return

  def once():
    ix = sorted(i for i, _, _ in items if i >= 0)
    if ix != list(range(len(exp))):
      raise Bad('indices %s instead of 0..%d once each' % (ix, len(exp) - 1))
    if any(i < -1 for i, _, _ in items):
      raise Bad('padding entries have index -1')
    for b in bs:
      fl = [int(num(it[0])) for x in b for it in x]
      if -1 in fl and any(q >= 0 for q in fl[fl.index(-1):]):
        raise Bad('padding before the last instance: %s' % fl)
  ob('indices', 'every instance is loaded once; padding is marked -1', once)

  sh = {}

  def shapes():
    for i, p, _ in items:
      d = pdict(I, p)
      for k in d:
        if d[k] is None:
          continue
        v = num(d[k])
        if sh.setdefault(k, v.shape) != v.shape:
          raise Bad('%s has shapes %s and %s in one data set' % (k, sh[k], v.shape))
      if set(d) != set(pdict(I, items[0][1])):
        raise Bad('instances have different parameters')
  ob('common size', 'all instances share one size', shapes)

  def enc():
    for i, p, s in items:
      if i < 0 or i >= len(exp):
        continue
      gr, ref = exp[i]
      check_params(I, num, pdict(I, p), gr, i, g)
      w = float(e.ev(ref.t)) if isinstance(ref, Arr) else float(ref)
      if abs(float(num(s)) - w) > 1e-9:
        raise Bad('instance %d comes with reference %s instead of %s' % (i, float(num(s)), w))
  ob('encoding', 'the arrays describe the graph and its reference', enc)

  def dummy():
    for i, p, s in items:
      if i < 0:
        check_params(I, num, pdict(I, p), None, i, g)
  if any(i < 0 for i, _, _ in items):
    ob('padding instances', 'padding instances are valid', dummy)
  if g.nproc == 1:
    def cfg():
      m = I.obj(I.obj(g.cfg).items['model']).items
      N, E = int(num(m['max_num_nodes'])), int(num(m['max_num_edges']))
      mn, me = max(len(q) for q, _ in exp), max(q.number_of_edges() for q, _ in exp)
      if N < mn or E < me:
        raise Bad('model sizes %d nodes, %d edges although instances have up to %d, %d' % (N, E, mn, me))
      if sh.get('edge_from') is not None and sh['edge_from'] != (E,):
        raise Bad('%s edges although the model is built for %d' % (sh['edge_from'], E))
      if 'mask' in sh and sh['mask'] != (N,):
        raise Bad('node mask of shape %s although the model is built for %d nodes' % (sh['mask'], N))
      s = m['shape']
      if not isinstance(s, tuple) or len(s) != 1 or int(num(s[0])) != N:
        raise Bad('sample shape %s for %d nodes' % (s, N))
    ob('model size', 'the model is sized for the data', cfg)


def pdict(I, p):
  o = I.obj(p) if isinstance(p, Ref) else None
  if not isinstance(o, DictObj):
    raise Unsup('parameters')
  return o.items


def check_params(I, num, d, gr, i, g):
  m = I.obj(I.obj(g.cfg).items['model']).items
  N = int(num(m['max_num_nodes'])) if g.nproc == 1 else None
  for k in ('edge_from', 'edge_to'):
    if k not in d:
      raise Bad('no %s' % k)
  ef, et = num(d['edge_from']).astype(int), num(d['edge_to']).astype(int)
  em = num(d['edge_mask']).astype(int) if d.get('edge_mask') is not None else None
  w = num(d['edge_weight']).astype(float) if d.get('edge_weight') is not None else None
  if ef.shape != et.shape or (em is not None and em.shape != ef.shape) or (w is not None and w.shape != ef.shape):
    raise Bad('instance %d: edge arrays of different lengths' % i)
  if em is None and w is None:
    raise Bad('instance %d: padding edges cannot be told from edges' % i)
  if em is not None and not set(em.tolist()) <= {0, 1}:
    raise Bad('instance %d: edge mask %s' % (i, em.tolist()))
  ok = em.astype(bool) if em is not None else w != 0
  if (ef < 0).any() or (et < 0).any() or (N is not None and ((ef >= N).any() or (et >= N).any())):
    raise Bad('instance %d: an edge ends outside the graph' % i)
  if w is not None and em is not None and (w[~ok] != 0).any():
    raise Bad('instance %d: a padding edge has weight %s' % (i, w[~ok].tolist()))
  got = {}
  for a, b, k in zip(ef[ok], et[ok], np.flatnonzero(ok)):
    q = (min(a, b), max(a, b))
    if q in got:
      raise Bad('instance %d: edge %s twice' % (i, q))
    got[q] = None if w is None else float(w[k])
  if gr is not None:
    want = {}
    for a, b, q in gr.edges(data=True):
      v = q.get('weight')
      want[(min(a, b), max(a, b))] = None if w is None or v is None else float(num(v))
    if set(want) != set(got):
      raise Bad('instance %d: edges %s instead of %s' % (i, sorted((int(a), int(b)) for a, b in got), sorted(want)))
    if w is not None and any(want[q] is not None and abs(want[q] - got[q]) > 1e-9 for q in want):
      raise Bad('instance %d: edge weights do not belong to their edges' % i)
  if d.get('bidir_edge_from') is not None and d.get('bidir_edge_to') is not None:
    bf, bt = num(d['bidir_edge_from']).astype(int), num(d['bidir_edge_to']).astype(int)
    if bf.shape != (2 * len(ef),) or bt.shape != bf.shape:
      raise Bad('instance %d: bidirectional edges of shape %s' % (i, bf.shape))
    bw = num(d['bidir_edge_weight']).astype(float) if d.get('bidir_edge_weight') is not None else None
    ww = w if w is not None and bw is not None else np.zeros(len(ef))
    bw = bw if bw is not None and w is not None else np.zeros(len(bf))
    A = sorted(zip(bf.tolist(), bt.tolist(), np.round(bw, 9).tolist()))
    B = sorted(list(zip(ef.tolist(), et.tolist(), np.round(ww, 9).tolist())) + list(zip(et.tolist(), ef.tolist(), np.round(ww, 9).tolist())))
    if A != B:
      raise Bad('instance %d: the bidirectional list is not every edge once per direction' % i)
  n = len(gr) if gr is not None else None
  if d.get('num_edges') is not None and int(num(d['num_edges']).reshape(-1)[0]) != int(ok.sum()):
    raise Bad('instance %d: num_edges is %s' % (i, num(d['num_edges'])))
  if d.get('num_nodes') is not None and n is not None and int(num(d['num_nodes']).reshape(-1)[0]) != n:
    raise Bad('instance %d: num_nodes is %s instead of %d' % (i, num(d['num_nodes']), n))
  if d.get('mask') is not None:
    mk = num(d['mask']).astype(int)
    if n is not None and mk.tolist() != [1] * n + [0] * (len(mk) - n):
      raise Bad('instance %d: node mask %s for %d nodes' % (i, mk.tolist(), n))
    used = np.concatenate([ef[ok], et[ok]])
    if len(used) and (used >= len(mk)).any():
      raise Bad('instance %d: an edge ends outside the graph' % i)
    if len(used) and not mk[used].all():
      raise Bad('instance %d: an edge ends at a masked node' % i)
  elif g.model != 'maxcut':
    raise Bad('instance %d: no node mask' % i)
  if d.get('node_degrees') is not None:
    nd = num(d['node_degrees']).astype(float)
    if N is not None and nd.shape != (N,):
      raise Bad('instance %d: node degrees of shape %s' % (i, nd.shape))
    if gr is not None:
      for v in range(n):
        if nd[v] != gr.degree(v):
          raise Bad('instance %d: node %d has degree %s instead of %s' % (i, v, nd[v], gr.degree(v)))
      if nd[n:].any():
        raise Bad('instance %d: padding nodes have a degree' % i)
