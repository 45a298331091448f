"""Checks of the experiments (P16-P19): chain protocol, annealing runs, reported metrics, AIS.

Every experiment class of the repository is analysed with its real saver and
evaluator and with an uninterpreted sampler and model (xdrive).  The number of
steps is fixed and small so that the chain loop unrolls; everything else stays
symbolic.  The derived terms are compared with the specification at generic
points (random interpretation): the probes are arbitrary functions of all they
are given, so two different protocols give different values.
"""
import re

import numpy as np

from .. import terms as X
from .. import valu
from .. import xdrive as XD
from ..interp import Arr, Ref, PyRaise
from ..valu import Ev, Unsup

POINTS = [
    dict(B=5, D0=3, D1=2, E=4), dict(B=4, D0=5, D1=3, E=3), dict(B=7, D0=2, D1=4, E=5),
]
TEXTPOINTS = [dict(D0=3, D1=2, E=4), dict(D0=5, D1=3, E=3)]


class Bad(Exception):
  """A definite deviation from the specification."""


def val(e, v):
  """Numpy value of a recorded value at a generic point."""
  if isinstance(v, Arr):
    return np.asarray(e.full(v.t, v.shape) if v.shape is not None else e.ev(v.t))
  if isinstance(v, X.T):
    return np.asarray(e.full(v) if v.shape is not None else e.ev(v))
  if isinstance(v, (list, tuple)):
    return np.array([val(e, z) for z in v]) if len(v) else np.zeros((0,))
  if isinstance(v, (int, float, bool, np.ndarray)):
    return np.asarray(v)
  raise Unsup('value of kind %s' % type(v).__name__)


def same(got, want, tol=1e-6):
  """None if equal, else a description."""
  got, want = np.asarray(got, float), np.asarray(want, float)
  if got.shape != want.shape:
    if got.size == want.size:
      got = got.reshape(want.shape)
    else:
      return 'has %s entries instead of %s' % (got.shape, want.shape)
  fin = np.isfinite(want)
  if fin.any() and not np.isfinite(got[fin]).all():
    return 'is not finite'
  d = np.abs(np.where(fin, got, 0) - np.where(fin, want, 0))
  if d.size and (d > tol * (1 + np.abs(np.where(fin, want, 0)))).any():
    k = np.unravel_index(np.argmax(d), d.shape)
    return 'is %.6g instead of %.6g' % (got[k], want[k])
  return None


def over(got, want):
  """A value replicated over devices is compared with every copy."""
  if got.size != want.size and got.ndim > want.ndim:
    try:
      want = np.broadcast_to(want, got.shape)
    except ValueError:
      pass
  return got, want


def names(x, i, sz):
  nm = dict(sz)
  if x.ndev != 1:
    nm['Bh'] = np.asarray(sz['B'] // x.ndev)
  if x.cls == 'CO_Experiment':
    nm['Fe_shift'] = (0, -60, 60)[i % 3]     # objectives of either sign
    for b in range(x.nbatch or 1):
      for j in range(x.M):
        nm['idx_b%di%d' % (b, j)] = np.asarray(b * x.M + j)
    if i and x.M > 1:
      nm['idx_b%di%d' % ((x.nbatch or 1) - 1, x.M - 1)] = np.asarray(-1)
      if i > 1 and x.M > 2:
        nm['idx_b%di%d' % ((x.nbatch or 1) - 1, x.M - 2)] = np.asarray(-1)
  return nm


def points(x):
  for i, sz in enumerate(x.points):
    if x.ndev != 1:
      sz = dict(sz, B=sz['B'] * x.ndev)
    e = Ev(i + 1, names=names(x, i, sz))
    e.tame = False
    yield e, sz


def judge(ctx, x, key, rule, where, f):
  """f(e, sz) raises Bad at a generic point where the rule is broken."""
  n, why = 0, ''
  for e, sz in points(x):
    try:
      with np.errstate(all='ignore'):
        f(e, sz)
      n += 1
    except Bad as ex:
      if x.pcs:
        ctx.ob('%s %s' % (x.label, key), None, rule, where, 'on an undecided path: %s' % ex)
        return None
      ctx.ob('%s %s' % (x.label, key), False, rule, where, '%s (sizes %s)' % (ex, sz))
      return False
    except Unsup as ex:
      why = 'not interpretable: %s' % ex
    except Exception as ex:
      why = repr(ex)
      if isinstance(ex, ValueError) and ('cannot reshape' in str(ex) or 'broadcast' in str(ex)) and not x.pcs:
        ctx.ob('%s %s' % (x.label, key), False, rule, where, 'the run fails on the shapes of its arrays: %s (sizes %s)' % (ex, sz))
        return False
  ctx.ob('%s %s' % (x.label, key), 'generic' if n else None, rule, where, why)
  return 'generic' if n else None


_CACHE = {}


def run(ctx, cls, points=None, **kw):
  k = (id(ctx.repo), cls, repr(sorted(kw.items(), key=lambda z: z[0])))
  x = _CACHE.get(k)
  if x is None:
    x = XD.Xp(ctx.repo, cls, **kw)
    x.fail = None
    try:
      x.run()
    except Exception as ex:
      x.fail = ex
      ctx.notes.append('analysis failed on %s: %r' % (x.label, ex))
    x.points = points or (TEXTPOINTS if cls.startswith('Text') else POINTS)
    x.pcs = bool(len(x.I.loops)) or any(s['pc'] for s in x.steps)
    _CACHE[k] = x
    ctx.saw(x.I)
  return x


def usable(ctx, x, rule):
  w = 'discs/experiment/sampling.py ' + x.cls
  if x.fail is not None:
    ctx.ob(x.label + ' analysed', None, rule, w, 'analysis limit: %r' % x.fail)
    return False
  if x.err is not None:
    ctx.ob(x.label + ' runs', False if getattr(x.err, 'sure', False) else None, rule, w, 'the run raises %s' % getattr(x.err, 'what', x.err))
    return False
  u = undefined(x)
  if u:
    ctx.ob(x.label + ' names', False, rule, w, 'the run reads the undefined name %s' % u)
    return False
  if x.pcs:
    ctx.ob(x.label + ' followed', None, rule, w, 'the chain loop could not be followed step by step')
  if any(r.get('trip') is None and not r.get('lax') for r in x.I.loops):
    ctx.ob(x.label + ' followed', None, rule, w, 'a loop of the run could not be followed pass by pass')
    return False
  o = odd_output(x)
  if o:
    ctx.ob(x.label + ' output', None, rule, w, 'output written in an unrecognised way: %s' % (o,))
    return False
  return True


def odd_output(x):
  """A file written by a call whose format is not modelled."""
  known = {o[1] for o in x.out if o[0] in ('dump', 'row', 'header', 'fig', 'image')}
  for o in x.out:
    if o[0] in ('write', 'writelines') or (o[0] == 'open' and 'r' not in (o[2] if isinstance(o[2], str) else '') and o[1] not in known):
      return o[1]
  for ev in x.I.events:
    if ev['kind'] == 'ext_call' and any(isinstance(a, str) and '/' in a for a in list(ev['args']) + list(ev['kw'].values())):
      return ev['call']
  return None


def undefined(x, mark=0):
  """A name read on a certain path that the file never binds."""
  import ast
  import builtins
  for ev in x.I.events[mark:]:
    if ev['kind'] != 'undef' or ev.get('pc') or hasattr(builtins, ev['name']):
      continue
    for m in x.I.repo.mods.values():
      if getattr(m, 'path', None) == ev['file'] and getattr(m, 'tree', None) is not None:
        bound = {n.id for n in ast.walk(m.tree) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | {
            n.arg for n in ast.walk(m.tree) if isinstance(n, ast.arg)} | {
                n.name for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.ExceptHandler))} | {
                    (a.asname or a.name.split('.')[0]) for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        if ev['name'] not in bound and '*' not in bound:
          return '%s at %s:%s' % (ev['name'], ev['file'], ev['line'])
  return None


def site(rec):
  return rec['site']


def stepx(e, x, rec, f='x'):
  return val(e, x.lift(rec, rec[f]))


SAMPLING = [
    dict(exp=dict(chain_length=4, ess_ratio=0.5, get_additional_metrics=True, save_samples=True, save_every_steps=2), model=dict(name='rbm')),
    dict(exp=dict(chain_length=5, ess_ratio=0.5, get_additional_metrics=False, save_samples=True, save_every_steps=1), model=dict(name='resnet'), nd=2),
    dict(exp=dict(chain_length=8, ess_ratio=0.25, get_additional_metrics=True, save_samples=False), model=dict(name='ising'), nd=2),
    dict(exp=dict(chain_length=6, ess_ratio=0.5, get_estimation_error=True, save_every_steps=3), model=dict(name='bernoulli')),
    dict(exp=dict(chain_length=8, ess_ratio=0.5, get_additional_metrics=True, save_samples=True, save_every_steps=3), model=dict(name='rbm')),
    dict(exp=dict(chain_length=4, ess_ratio=0.75, get_additional_metrics=True), model=dict(name='potts')),
    dict(exp=dict(chain_length=7, ess_ratio=0.25, get_additional_metrics=True), model=dict(name='fhmm')),
]
DEVS = [
    ('Sampling_Experiment', dict(exp=dict(chain_length=4, ess_ratio=0.5, get_additional_metrics=True, save_samples=True, save_every_steps=2), model=dict(name='rbm'), ndev=2)),
    ('CO_Experiment', dict(exp=dict(chain_length=4, log_every_steps=2, t_schedule='linear', save_samples=True, get_additional_metrics=True), model=dict(name='maxcut'), M=4,
                           batches=2, ndev=2)),
    ('CO_Experiment', dict(exp=dict(chain_length=4, log_every_steps=2, t_schedule='linear', save_samples=True), model=dict(name='maxcut'), M=1, batches=2, ndev=2)),
    ('CO_Experiment', dict(exp=dict(chain_length=2, log_every_steps=1, t_schedule='linear', save_samples=True), model=dict(name='maxcut'), M=2, batches=1, ndev=4)),
    ('EBM_Experiment', dict(exp=dict(chain_length=4), ndev=2)),
]
COS = [
    dict(exp=dict(chain_length=4, log_every_steps=1, t_schedule='linear', get_additional_metrics=True, save_samples=True), model=dict(name='maxcut'), M=3, batches=2),
    dict(exp=dict(chain_length=4, log_every_steps=2, t_schedule='exp_decay', save_samples=False), model=dict(name='mis'), M=2, batches=1),
    dict(exp=dict(chain_length=3, log_every_steps=1, t_schedule='constant', save_samples=False), model=dict(name='normcut'), M=2, batches=1, maskless=True),
    dict(exp=dict(chain_length=6, log_every_steps=2, t_schedule='linear', save_samples=True, ess_ratio=0.25, get_additional_metrics=True),
         model=dict(name='maxclique'), M=1, batches=2),
    dict(exp=dict(chain_length=1, log_every_steps=1, t_schedule='linear', save_samples=False), model=dict(name='maxcut'), M=1, batches=18),
]
EBMS = [dict(exp=dict(chain_length=4)), dict(exp=dict(chain_length=2), nd=2)]
TEXTS = [dict(exp=dict(chain_length=4, ess_ratio=0.5, num_same_resample=3, use_topk=True, topk_num=2), batches=2),
         dict(exp=dict(chain_length=1, ess_ratio=0.5, num_same_resample=12, use_topk=True, topk_num=3), batches=1),
         dict(exp=dict(chain_length=2, ess_ratio=0.5, num_same_resample=4, use_topk=True, topk_num=2), batches=2, dup=2),
         dict(exp=dict(chain_length=3, ess_ratio=0.5, num_same_resample=2, use_topk=False, get_additional_metrics=True), batches=2),
         dict(exp=dict(chain_length=1, ess_ratio=0.5, num_same_resample=7, use_topk=True, topk_num=6), batches=1),
         dict(exp=dict(chain_length=1, ess_ratio=0.5, num_same_resample=1, use_topk=False), batches=18)]


# thorough only: longer chains, other ratios, intervals and device counts
DEEP = {
    'Sampling_Experiment': [
        dict(exp=dict(chain_length=t, ess_ratio=r, get_additional_metrics=True, save_samples=True, save_every_steps=k), model=dict(name='rbm'), nd=nd, ndev=d)
        for t, r, k, nd, d in ((1, .5, 1, 1, 1), (2, .5, 2, 1, 1), (3, .5, 5, 1, 1), (7, .5, 2, 1, 1), (9, .25, 4, 2, 1), (10, .9, 3, 1, 1), (8, .5, 3, 2, 2), (12, .5, 5, 1, 1))] + [
        dict(exp=dict(chain_length=t, ess_ratio=.5, get_estimation_error=True, save_every_steps=k), model=dict(name='bernoulli')) for t, k in ((4, 1), (9, 2), (10, 4))],
    'CO_Experiment': [
        dict(exp=dict(chain_length=t, log_every_steps=k, t_schedule=sc, save_samples=sv, get_additional_metrics=True), model=dict(name=m), M=M, batches=b, ndev=d)
        for t, k, sc, sv, m, M, b, d in ((6, 3, 'exp_decay', True, 'maxcut', 2, 3, 1), (5, 2, 'linear', True, 'mis', 3, 2, 1), (7, 3, 'constant', False, 'maxclique', 1, 3, 1),
                                         (4, 2, 'exp_decay', True, 'mis', 4, 2, 2), (4, 1, 'linear', True, 'maxclique', 2, 2, 4), (8, 4, 'linear', False, 'maxcut', 1, 1, 1))],
    'EBM_Experiment': [dict(exp=dict(chain_length=t), ndev=d) for t, d in ((1, 1), (3, 1), (6, 1), (3, 2), (4, 4))],
    'Text_Infilling_Experiment': [
        dict(exp=dict(chain_length=t, ess_ratio=.5, num_same_resample=r, use_topk=True, topk_num=k), batches=b, dup=d)
        for t, r, k, b, d in ((5, 2, 1, 3, None), (2, 5, 5, 2, None), (3, 11, 10, 1, None), (2, 6, 3, 2, 3))],
}


def runs(ctx, cls, table):
  for kw in table + (DEEP[cls] if ctx.tier == 'thorough' else []):
    yield run(ctx, cls, **kw)
  for c, kw in DEVS:
    if c == cls:
      yield run(ctx, cls, **kw)


def all_runs(ctx):
  for cls, tab in (('Sampling_Experiment', SAMPLING), ('CO_Experiment', COS), ('EBM_Experiment', EBMS), ('Text_Infilling_Experiment', TEXTS)):
    for x in runs(ctx, cls, tab):
      yield x


def chains(x):
  """Steps grouped into the chains they form: (batch, list of steps)."""
  T = x.exp['chain_length']
  by = {}
  for s in x.steps:
    by.setdefault(s['batch'], []).append(s)
  R = x.exp.get('num_same_resample', 1)
  return by, T, R


# ---------------------------------------------------------------- P16
def p16(ctx):
  rule = 'chain protocol'
  for x in all_runs(ctx):
    if not usable(ctx, x, rule):
      continue
    w = 'discs/experiment/sampling.py ' + x.cls + '._compute_chain'
    by, T, R = chains(x)
    want = x.nbatch or 1
    def count(e, sz):
      if x.I.loops:
        raise Unsup('loop')
      if sorted(len(v) for v in by.values()) != [T * R] * want:
        raise Bad('%s sampler steps instead of %d for each of %d batches' % ([len(v) for v in by.values()], T * R, want))
    if judge(ctx, x, 'number of steps', 'chain_length steps per chain', w, count) is not False:
      threading(ctx, x, by, T, R)
    keys(ctx, x)


def threading(ctx, x, by, T, R):
  for b, ss in by.items():
    for r in range(0, len(ss), T):
      ch = ss[r:r + T]
      tag = 'batch %d chain %d' % (b, r // T)

      def first(e, sz, ch=ch, b=b):
        got = stepx(e, x, ch[0]).reshape(-1)
        ini = [i for i in x.initkeys if i['seq'] < ch[0]['seq']]
        if not ini:
          raise Bad('the chain starts without initial samples')
        cand = [i for i in ini if i['batch'] == b or x.nbatch is None] or ini
        vals = [val(e, x.lift(i, i['out'])).reshape(-1) for i in cand]
        if not any(v.shape == got.shape and (v == got).all() for v in vals):
          if len([v for v in vals if v.size != got.size]) > 1:
            raise Unsup('several initial draws')
          raise Bad('the first step does not start at the initial samples')
      judge(ctx, x, tag + ' starts at the initial samples', 'the chain starts at get_init_samples', site(ch[0]), first)

      def thread(e, sz, ch=ch):
        for k in range(1, len(ch)):
          m = same(stepx(e, x, ch[k]), stepx(e, x, ch[k - 1], 'nx'))
          if m:
            raise Bad('step %d does not continue from the state step %d returned: it %s' % (k + 1, k, m))
      judge(ctx, x, tag + ' threads the samples', 'every step continues from the previous one', site(ch[0]), thread)

      def state(e, sz, ch=ch):
        for k in range(1, len(ch)):
          for nm in ('steps', 'num_ll_calls'):
            m = same(val(e, x.lift(ch[k], ch[k]['stv'][nm])), val(e, x.lift(ch[k - 1], ch[k - 1]['nsv'][nm])))
            if m:
              raise Bad('the sampler state given to step %d is not the one step %d returned: %s %s' % (k + 1, k, nm, m))
        for nm in ('steps', 'num_ll_calls'):
          got = val(e, x.lift(ch[0], ch[0]['stv'][nm])).reshape(-1)
          vs = [val(e, x.lift(i, i['out'][nm])).reshape(-1) for i in x.states if i['seq'] < ch[0]['seq']]
          if not any(got.size % v.size == 0 and (v.reshape(1, -1) == got.reshape(-1, v.size)).all() for v in vs):
            raise Bad('the first sampler state is not one make_init_state returned')
      judge(ctx, x, tag + ' threads the sampler state', 'the sampler state is carried along', site(ch[0]), state)

      def params(e, sz, ch=ch, b=b):
        for k, s in enumerate(ch):
          p = s['p']
          if not isinstance(p, dict):
            raise Unsup('parameters')
          for nm, want in x.pvals(b).items():
            if nm not in p:
              raise Bad('step %d is not given the model parameter %s' % (k + 1, nm))
            if want is None:
              if p[nm] is not None:
                raise Unsup('mask')
              continue
            m = same(*over(val(e, x.lift(s, p[nm])), val(e, want)))
            if m:
              raise Bad('step %d runs with a different model parameter %s: it %s' % (k + 1, nm, m))
            if nm == 'mask':
              if s['mask'] is None:
                raise Bad('step %d is not given the mask of the instance' % (k + 1))
              m = same(*over(val(e, x.lift(s, s['mask'])), val(e, want)))
              if m:
                raise Bad('step %d is given a different mask: it %s' % (k + 1, m))
      judge(ctx, x, tag + ' uses the parameters of the model', 'every step targets the given model', site(ch[0]), params)


def keys(ctx, x):
  def f(e, sz):
    seen = {}
    for kind, rec, k in [('step', s, s['key']) for s in x.steps] + [('initial samples', i, i['key']) for i in x.initkeys] + [
        ('sampler state', i, i['key']) for i in x.states] + [('model parameters', i, i['key']) for i in x.paramkeys]:
      if k is None or k.shape is None:
        continue
      v = val(e, x.lift(rec, k)).reshape(-1)
      lanes = [q for q in v]
      for q in lanes:
        o = seen.get(int(q))
        if o is not None and not (kind != 'step' and o[0] != 'step'):
          # a key array handed over as a whole may be seen again by mapped calls
          raise Bad('%s at %s and %s at %s use the same random key' % (o[0], o[1].get('site'), kind, rec.get('site')))
        seen[int(q)] = (kind, rec)
  roots = set()
  for i in x.initkeys + x.states:
    roots |= {u for u in X.subterms(i['key']) if u.op == 'PRNGKey'}

  def lineage(e, sz):
    for s in x.steps:
      r = {u for u in X.subterms(s['key']) if u.op == 'PRNGKey'}
      if X.contains(s['key'], lambda u: u.op in ('top', 'ext')):
        raise Unsup('key')
      if not r or not r <= roots:
        raise Bad('the keys of the steps do not descend from the key of the run that initialised the chain')
  judge(ctx, x, 'key lineage', 'the keys of the steps descend from the key of the run', site(x.steps[0]) if x.steps else '', lineage)
  judge(ctx, x, 'fresh keys', 'every step of every chain has its own random key', 'discs/experiment/sampling.py ' + x.cls, f)


# ---------------------------------------------------------------- reported values
def timing(ctx, x, steps, value, counted, what, where):
  """Each counted step's duration is in the reported time exactly once, the others not at all."""
  if value is None:
    return

  def f(e0, sz):
    clocks = {t.args[0]: n for n, t in x.clock}
    for s in steps:
      e = Ev(e0.seed, names=dict(e0.names, **{c: np.asarray(1.0 if n > s['seq'] else 0.0) for c, n in clocks.items()}))
      e.tame = False
      v = float(val(e, value).reshape(()))
      want = 1.0 if s in counted else 0.0
      if abs(v - want) > 1e-6:
        raise Bad('the time of a %s step enters the reported time %g times' % ('mixing' if want else 'burn-in', v))
  judge(ctx, x, what, 'the reported time covers the mixing steps and nothing else', where, f)


def mixing(x, T):
  """Index of the first mixing step."""
  return int(T * x.exp.get('ess_ratio', 0.5))


def figures(ctx, x, by, T):
  figs = [o for o in x.out if o[0] == 'fig']
  rule = 'plotted metrics are those of the steps'
  metrics = bool(x.exp.get('get_additional_metrics'))
  if not metrics:
    return
  for nm, part in (('acceptance', 'Acc'), ('hops', 'Hop')):
    fs = [o for o in figs if isinstance(o[1], str) and part in o[1].split('/')[-1]]

    def f(e, sz, fs=fs, part=part):
      if not fs:
        raise Bad('no figure of the %s is written' % nm)
      if len(fs) != len(by):
        raise Unsup('number of figures')
      for o, (b, ss) in zip(fs, sorted(by.items())):
        if len(o[2]) != 1 or len(o[2][0]) < 2:
          raise Unsup('plot')
        xs, ys = val(e, o[2][0][0]), val(e, o[2][0][1])
        if part == 'Acc':
          want = [stepx(e, x, s, 'acc').mean() for s in ss]
        else:
          want = [np.abs(stepx(e, x, s) - stepx(e, x, s, 'nx')).sum() / (sz['B'] * x.M) for s in ss]
        m = same(ys, want)
        if m:
          raise Bad('the plotted %s %s' % (nm, m))
        m = same(xs, np.arange(1, len(want) + 1))
        if m:
          raise Bad('the step axis of the plotted %s %s' % (nm, m))
    judge(ctx, x, 'plot of ' + nm, rule, fs[0][3] if fs else 'discs/common/experiment_saver.py Saver', f)


def p18(ctx):
  rule = 'reported metrics'
  for x in runs(ctx, 'Sampling_Experiment', SAMPLING):
    if not usable(ctx, x, rule):
      continue
    by, T, _ = chains(x)
    ss = x.steps
    if len(ss) != T:
      ctx.ob(x.label + ' steps', None, rule, 'discs/experiment/sampling.py', 'number of steps')
      continue
    figures(ctx, x, by, T)
    ess_row(ctx, x, ss, T)
    saved(ctx, x, ss, T)
  labels(ctx)
  images(ctx)


def images(ctx):
  """dump_samples(visualize=True) writes one image per step and chain into the save directory."""
  rule = 'images of the saved samples'
  w = 'discs/common/experiment_saver.py Saver.dump_samples'
  x = XD.Xp(ctx.repo, 'Sampling_Experiment', exp=dict(chain_length=2, ess_ratio=0.5, save_root='SAVE'), model=dict(name='resnet'))
  x.points, x.pcs, x.fail = POINTS, False, None
  try:
    x.build()
    I = x.I
    xs = [Arr(X.atom('shown%d' % k, (3, 9), is01=True, isint=True), (3, 9), 'int') for k in range(2)]
    n = len(x.out)
    I.call(I.getattr(x.saver, 'dump_samples'), [I.mklist(xs)], {'visualize': True})
    ims = [o for o in x.out[n:] if o[0] == 'image']
    dumps = [o for o in x.out[n:] if o[0] == 'dump']
  except PyRaise as ex:
    ctx.ob('images', False if ex.sure else None, rule, w, 'raises %s' % ex)
    return
  except Exception as ex:
    ctx.ob('images', None, rule, w, repr(ex))
    return
  x.label = 'Saver.dump_samples'
  u = undefined(x)
  if u:
    ctx.ob('images', False, rule, w, 'the undefined name %s is read' % u)
    return

  def f(e, sz):
    if not ims:
      raise Unsup('no images followed')
    if len(ims) != 6 or len({o[1] for o in ims}) != 6:
      raise Bad('%d images under %d names for 2 steps of 3 chains' % (len(ims), len({o[1] for o in ims})))
    vs = [val(e, q) for q in xs]
    left = [(a_, c) for a_ in range(2) for c in range(3)]
    for o in ims:
      if not isinstance(o[1], str):
        raise Unsup('path')
      if not o[1].startswith('SAVE/'):
        raise Bad('an image is written to %s, outside of the save directory' % o[1])
      hit = [p for p in left if not same(val(e, o[2]), vs[p[0]][p[1]].reshape(3, 3))]
      if not hit:
        raise Bad('%s shows no saved sample, or one that was already shown' % o[1])
      nums = tuple(int(q) for q in re.findall(r'\d+', o[1]))
      if len(nums) == 2 and nums in [(a_, c) for a_ in range(2) for c in range(3)] and nums not in hit:
        raise Bad('%s shows the sample of step %d, chain %d' % ((o[1],) + hit[0]))
      left.remove(nums if nums in hit else hit[0])
  judge(ctx, x, 'images', rule, ims[0][3] if ims else w, f)


LABELS = ([dict(name='gwg', adaptive=a, balancing_fn_type=b) for a in (True, False) for b in ('SQRT', 'RATIO', 'MAX', 'MIN')] +
          [dict(name='dlmc', adaptive=a, solver=s, balancing_fn_type=b) for a, s, b in ((False, 'euler_forward', 'RATIO'), (True, 'interpolate', 'MAX'),
                                                                                       (True, 'euler_forward', 'SQRT'), (False, 'interpolate', 'SQRT'))] +
          [dict(name='gibbs'), dict(name='randomwalk', adaptive=True), dict(name='randomwalk', adaptive=False)])


def labels(ctx):
  """Distinct sampler configurations get distinct, truthful labels."""
  rule = 'the row names the sampler variant'
  seen = {}
  for sa in LABELS:
    x = run(ctx, 'Sampling_Experiment', exp=dict(chain_length=2, ess_ratio=0.5), model=dict(name='ising'), sampler=sa)
    if not usable(ctx, x, rule):
      continue
    rows = x.files('row', 'results.csv')

    def f(e, sz):
      if len(rows) != 1 or not isinstance(rows[0][2], dict) or not isinstance(rows[0][2].get('sampler'), str):
        raise Unsup('label')
      l = rows[0][2]['sampler']
      if sa['name'] not in l:
        raise Bad('the label %r does not name the sampler %s' % (l, sa['name']))
      if l.startswith('a_') != bool(sa.get('adaptive')):
        raise Bad('the label %r is wrong about adaptation' % l)
      if 'balancing_fn_type' in sa and '(%s)' % sa['balancing_fn_type'].lower() not in l:
        raise Bad('the label %r does not name the balancing function %s' % (l, sa['balancing_fn_type']))
      if seen.setdefault(l, sa) != sa:
        raise Bad('two different samplers share the label %r' % l)
    judge(ctx, x, 'sampler label', rule, rows[0][3] if rows else '', f)


def ess_row(ctx, x, ss, T):
  w = 'discs/common/experiment_saver.py Saver._save_ess_results'
  rows = x.files('row', 'results.csv')
  opens = x.files('open', 'results.csv')

  def wr(e, sz):
    if len(rows) != 1:
      raise Bad('%d rows are written to results.csv' % len(rows))
    if not x.files('header', 'results.csv'):
      raise Bad('results.csv has no header')
    if any('r' in (o[2] or '') for o in opens):
      raise Unsup('mode')
  judge(ctx, x, 'results.csv is written', 'one result row per run', w, wr)
  if len(rows) != 1 or not isinstance(rows[0][2], dict):
    return
  row = rows[0][2]
  w = rows[0][3]
  nb = mixing(x, T)
  mix = ss[nb:]

  def cfgvals(e, sz):
    cf = x.I.obj(x.cfg).items
    ex, mo, sa = (x.I.obj(cf[k]).items for k in ('experiment', 'model', 'sampler'))
    for k, src in (('batch_size', ex), ('chain_length', ex), ('ess_ratio', ex)):
      if k in row:
        m = same(val(e, row[k]), val(e, src[k]))
        if m:
          raise Bad('column %s %s' % (k, m))
    if 'shape' in row:
      m = same(val(e, row['shape']), [sz['D%d' % i] for i in range(len(x.dims))])
      if m:
        raise Bad('column shape %s' % m)
    if row.get('model') != mo['name']:
      raise Bad('column model is %r' % (row.get('model'),))
    for k in ('sampler', 'model', 'ESS', 'ESS_M-H', 'ESS_T', 'ESS_EE', 'Time', 'batch_size', 'chain_length', 'shape', 'num_categories'):
      if k not in row:
        raise Bad('column %s is missing' % k)
  judge(ctx, x, 'row describes the run', 'the row carries the configuration of the run', w, cfgvals)
  init1 = [i for i in x.initkeys]

  def ess(e, sz):
    got = {k: val(e, row[k]) for k in ('ESS', 'ESS_M-H', 'ESS_EE')}
    outs = [stepx(e, x, s, 'nx').reshape(sz['B'], -1).astype(float) for s in mix]
    ok, msg = False, ''
    for i in init1:
      v = val(e, x.lift(i, i['out'])).astype(float)
      if v.size != outs[0].shape[1]:
        continue
      mapped = np.array([np.abs(o - v.reshape(1, -1)).sum(-1) for o in outs])
      t = X.node('ESS', (X.atom('probe_ess', mapped.shape),), (mapped.shape[1],))
      e2 = Ev(e.seed, names=dict(e.names, probe_ess=mapped))
      E = e2.ev(t)
      want = np.array([E.mean(), E.std()])
      m = same(got['ESS'], want)
      if not m:
        ok = want
        break
      msg = m
    if ok is False:
      raise Bad('column ESS %s (mean and deviation over the chains of the effective sample size of the distance to a fixed sample, over the post-burn-in steps)' % msg)
    r = x.exp.get('ess_ratio', 0.5)
    if r:
      m = same(got['ESS_M-H'], ok / (T * r))
      if m:
        raise Bad('column ESS_M-H %s' % m)
      ns = val(e, x.lift(ss[-1], ss[-1]['nsv']['num_ll_calls'])).reshape(-1)
      ms = [same(got['ESS_EE'], ok / (n * r)) for n in ns]
      if all(ms):
        raise Bad('column ESS_EE %s' % ms[0])
  judge(ctx, x, 'effective sample size', 'ESS is over the post-burn-in samples of all chains', w, ess)

  def perT(e, sz):
    g, t, E = val(e, row['ESS_T']), float(val(e, row['Time']).reshape(())), val(e, row['ESS'])
    m = same(g, E / t)
    if m:
      raise Bad('column ESS_T %s' % m)
  judge(ctx, x, 'effective sample size per second', 'ESS_T is ESS divided by the running time', w, perT)
  timing(ctx, x, ss, row.get('Time'), mix, 'running time', w)


def saved(ctx, x, ss, T):
  dumps = x.files('dump', 'samples.pkl')
  name = x.modelcfg.get('name')
  want_file = (x.exp.get('save_samples') and name in ('rbm', 'resnet')) or (x.exp.get('get_estimation_error') and name == 'bernoulli')
  w = dumps[0][3] if dumps else 'discs/experiment/sampling.py Sampling_Experiment._compute_chain'
  every = x.exp.get('save_every_steps')

  def f(e, sz):
    if not want_file:
      return
    if len(dumps) != 1:
      raise Bad('%d sample files are written' % len(dumps))
    d = dumps[0][2]
    if not isinstance(d, dict) or 'trajectory' not in d:
      raise Bad('samples.pkl has no trajectory')
    tr = val(e, d['trajectory'])
    ks = [k for k in range(1, T + 1) if k % every == 0]
    if tr.shape[0] != len(ks):
      raise Bad('%d snapshots are saved instead of %d' % (tr.shape[0], len(ks)))
    idx = None
    for q, k in enumerate(ks):
      st = stepx(e, x, ss[k - 1], 'nx').reshape(sz['B'], -1).astype(float)
      ids = []
      for r in tr[q].reshape(tr[q].shape[0], -1):
        hit = [b for b in range(sz['B']) if st.shape[1] == r.size and (st[b] == r).all()]
        if not hit:
          raise Bad('snapshot %d holds something that is not the state of a chain after step %d' % (q + 1, k))
        ids.append(hit[0])
      if len(set(ids)) != len(ids):
        raise Bad('the same chain is saved twice')
      if idx is not None and ids != idx:
        raise Bad('snapshots do not follow the same chains')
      idx = ids
  judge(ctx, x, 'saved samples', 'saved snapshots follow the same distinct chains', w, f)
  if x.exp.get('get_estimation_error') and name == 'bernoulli':
    dp = x.files('dump', 'params.pkl')

    def g(e, sz):
      if len(dp) != 1 or not isinstance(dp[0][2], dict) or 'params' not in dp[0][2]:
        raise Bad('the model parameters are not saved with the samples')
      m = same(val(e, dp[0][2]['params']), val(e, x.theta(0)))
      if m:
        raise Bad('the saved parameters are not those of the model: they %s' % m)
    judge(ctx, x, 'saved parameters', 'the parameters are saved with the samples', w, g)


# ---------------------------------------------------------------- P17
def p17(ctx):
  rule = 'annealing run'
  for x in runs(ctx, 'CO_Experiment', COS):
    if not usable(ctx, x, rule):
      continue
    by, T, _ = chains(x)
    if sorted(len(v) for v in by.values()) != [T] * x.nbatch:
      ctx.ob(x.label + ' steps', None, rule, 'discs/experiment/sampling.py', 'number of steps')
      continue
    temperature(ctx, x, by, T)
    co_results(ctx, x, by, T)
    figures(ctx, x, by, T)


def temperature(ctx, x, by, T):
  def f(e, sz):
    i, fi, d = (float(val(e, x.I.obj(x.I.obj(x.cfg).items['experiment']).items[k])) for k in ('init_temperature', 'final_temperature', 'decay_rate'))
    for b, ss in by.items():
      for k, s in enumerate(ss, 1):
        ts = x.exp['t_schedule']
        if ts == 'constant':
          want = i
        elif ts == 'linear':
          want = i + (fi - i) * k / T
        else:
          want = i * d ** (k / T)
          want = max(want, fi) if d < 1 else min(want, fi)
        p = s['p'].get('temperature') if isinstance(s['p'], dict) else None
        if p is None:
          raise Bad('step %d is given no temperature' % k)
        m = same(*over(val(e, x.lift(s, p)), np.full(x.M, want)))
        if m:
          raise Bad('the temperature of step %d of %d %s' % (k, T, m))
  s = x.steps[0]
  judge(ctx, x, 'temperature', 'the temperature follows the configured schedule', site(s), f)


def best(e, sz, x, ss):
  """Running best per instance over the logged steps, and the samples attaining it."""
  b = ss[0]['batch']
  rows = [d for d in x.insts if d['batch'] == b]
  br = np.full(x.M, -1e9)
  bs = [None] * x.M
  tr = []
  log = x.exp['log_every_steps']
  for k, s in enumerate(ss, 1):
    if k % log:
      continue
    nx = stepx(e, x, s, 'nx')
    if 1 < x.M < x.ndev:
      nx = np.moveaxis(nx, 1, 0)
    nx = nx.reshape((x.M, sz['B'], -1))
    for i, d in enumerate(rows):
      t = X.node('Fe', (x.I.as_term(d['data']), X.atom('probe_x', nx[i].shape)), (sz['B'],))
      v = Ev(e.seed, names=dict(e.names, probe_x=nx[i])).ev(t)
      ref = 1.0 if x.modelcfg['name'] == 'mis' else float(val(e, d['ref']))
      v = v / ref
      if v.max() > br[i]:
        br[i] = v.max()
        bs[i] = nx[i][int(np.argmax(v))]
    tr.append(br.copy())
  real = [int(val(e, d['idx'])) >= 0 for d in rows]
  return np.array(tr), br, bs, np.array(real)


def co_results(ctx, x, by, T):
  dumps = x.files('dump', 'results.pkl')
  w = dumps[-1][3] if dumps else 'discs/common/experiment_saver.py Saver.save_co_resuts'

  def need(k):
    if not dumps:
      raise Bad('no results file is written')
    d = dumps[-1][2]
    if not isinstance(d, dict) or k not in d:
      raise Bad('the results file has no %s' % k)
    return d[k]

  def ratio(e, sz):
    tr, br = [], []
    for b, ss in sorted(by.items()):
      t, r, _, real = best(e, sz, x, ss)
      tr.append(t[:, real])
      br.append(r[real])
    m = same(val(e, need('best_ratio')), np.concatenate(br))
    if m:
      raise Bad('best_ratio of the results file %s (best objective over the logged steps relative to the reference, one per real instance of all batches)' % m)
    m = same(val(e, need('best_ratio_mean')), np.mean(np.concatenate(br)))
    if m:
      raise Bad('best_ratio_mean %s' % m)
    got = val(e, need('trajectory'))
    want = np.concatenate(tr, -1)
    if got.shape != want.shape:
      raise Bad('trajectory of the results file has shape %s instead of %s' % (got.shape, want.shape))
    m = same(got, want)
    if m:
      raise Bad('trajectory of the results file %s' % m)
  judge(ctx, x, 'best ratios', 'reported ratios are the best objective seen so far over the reference', w, ratio)
  if x.exp.get('save_samples') or x.modelcfg.get('name') == 'normcut':
    def smp(e, sz):
      got = val(e, need('best_samples'))
      al, re = [], []
      for b, ss in sorted(by.items()):
        _, _, bs, real = best(e, sz, x, ss)
        al += bs
        re += [v for v, q in zip(bs, real) if q]
      for want in (al, re):
        if len(want) == got.shape[0] and not same(got.reshape(got.shape[0], -1), np.array(want)):
          return
      raise Bad('best_samples of the results file are not the samples that attain the best objective')
    judge(ctx, x, 'best samples', 'best_samples attain the reported best objective', w, smp)
  d = dumps[-1][2].get('running_time') if dumps and isinstance(dumps[-1][2], dict) else None
  nb = mixing(x, T)
  timing(ctx, x, x.steps, d if d is None or isinstance(d, (Arr, float, int)) else None, [s for ss in by.values() for s in ss[nb:]], 'running time', w)


# ---------------------------------------------------------------- P19
def p19(ctx):
  rule = 'annealed importance sampling'
  for x in runs(ctx, 'EBM_Experiment', EBMS):
    if not usable(ctx, x, rule):
      continue
    T = x.exp['chain_length']
    ss = x.steps
    if len(ss) != T:
      ctx.ob(x.label + ' steps', None, rule, 'discs/experiment/sampling.py', 'number of steps')
      continue

    def temps(e, sz):
      for k, s in enumerate(ss, 1):
        p = s['p'].get('temperature') if isinstance(s['p'], dict) else None
        if p is None:
          raise Bad('step %d has no temperature' % k)
        m = same(val(e, p), k / T)
        if m:
          raise Bad('the temperature of step %d of %d %s' % (k, T, m))
    judge(ctx, x, 'temperatures', 'step k of T runs at temperature k/T', site(ss[0]), temps)
    dumps = x.files('dump', 'logz.pkl')
    w = dumps[-1][3] if dumps else 'discs/common/experiment_saver.py Saver.save_logz'

    def logz(e, sz):
      if len(dumps) != 1 or not isinstance(dumps[0][2], dict) or 'logz' not in dumps[0][2]:
        raise Bad('the log partition estimates are not written')
      lw = np.zeros(sz['B'])
      want = []
      for k, s in enumerate(ss, 1):
        xv = stepx(e, x, s).reshape((sz['B'],) + tuple(sz['D%d' % i] for i in range(len(x.dims))))
        v = []
        for tt in (k / T, (k - 1) / T):
          p = x.I.as_term(x.I.mkdict({'params': x.theta(0), 'temperature': tt}))
          e2 = Ev(e.seed, names=dict(e.names, probe_x=xv))
          v.append(e2.ev(X.node('Fx', (p, X.atom('probe_x', xv.shape)), (sz['B'],))))
        lw = lw + v[0] - v[1]
        m = lw.max()
        want.append(m + np.log(np.exp(lw - m).sum()) - np.log(sz['B']))
      m = same(val(e, dumps[0][2]['logz']), want)
      if m:
        raise Bad('the saved log partition estimate %s (log mean of the importance weights after each step)' % m)
    judge(ctx, x, 'log partition estimates', 'log mean of the importance weights after each step', w, logz)


# ---------------------------------------------------------------- P27
def p27(ctx):
  rule = 'text infilling results'
  for x in runs(ctx, 'Text_Infilling_Experiment', TEXTS):
    if not usable(ctx, x, rule):
      continue
    by, T, R = chains(x)
    if sorted(len(v) for v in by.values()) != [T * R] * x.nbatch or x.pcs:
      ctx.ob(x.label + ' steps', None, rule, 'discs/experiment/sampling.py', 'number of steps')
      continue
    w = 'discs/experiment/sampling.py Text_Infilling_Experiment'
    last = [ch[r + T - 1] for b, ch in sorted(by.items()) for r in range(0, len(ch), T)]

    def dec(e, sz):
      if len(x.decoded) != len(last):
        raise Bad('%d sentences are decoded from %d chains' % (len(x.decoded), len(last)))
      for d, s in zip(x.decoded, last):
        m = same(val(e, d['x']), val(e, s['nx']))
        if m:
          raise Bad('the decoded sample is not the last state of its chain: it %s' % m)
        m = same(val(e, d['p']['params']), val(e, x.theta(s['batch'])))
        if m:
          raise Bad('the sample is decoded into another sentence')
    judge(ctx, x, 'decoded', 'every chain contributes its last state as a sentence', w, dec)

    def out(e, sz):
      sents = [d['s'] for d in x.decoded]
      d = x.files('dump', 'results.pkl')
      if len(d) != 1 or not isinstance(d[0][2], dict):
        raise Bad('%d result files are written' % len(d))
      if d[0][2].get('infill_sents') != sents:
        raise Bad('the evaluated sentences are %r instead of %r' % (d[0][2].get('infill_sents'), sents))
    judge(ctx, x, 'sentences evaluated', 'all sentences of all tasks are evaluated', w, out)
    if x.exp['use_topk']:
      k = x.exp['topk_num']

      def top(e, sz):
        d = x.files('dump', 'results_topk.pkl')
        if len(d) != 1 or not isinstance(d[0][2], dict):
          raise Bad('%d top-k result files are written' % len(d))
        got = d[0][2].get('infill_sents')
        if not isinstance(got, list) or not all(isinstance(s, str) for s in got):
          raise Unsup('sentences')
        if len(got) != k * x.nbatch:
          raise Bad('%d top sentences instead of %d per task' % (len(got), k))
        sc = {}
        for f in x.fwds:
          q = x.scored[f['x'].full()]
          sc[len(sc)] = float(XD.SCORES[(q % x.dup if x.dup else q) % len(XD.SCORES)])
        if len(sc) != len(x.decoded):
          raise Unsup('scores')
        for b in range(x.nbatch):
          me = list(range(b * R, (b + 1) * R))
          want = sorted(x.decoded[i]['s'] for i in sorted(me, key=lambda i: sc[i])[-k:])
          if sorted(got[b * k:(b + 1) * k]) != want:
            raise Bad('the top sentences %r are not the %d most likely ones %r' % (got[b * k:(b + 1) * k], k, want))
        for f, s in zip(x.fwds, last):
          m = same(val(e, f['x']), val(e, s['nx']))
          if m:
            raise Bad('the scored sample is not the last state of the chain')
      judge(ctx, x, 'top sentences', 'the top sentences are those of highest likelihood', w, top)
