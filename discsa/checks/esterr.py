"""Estimation errors of the Bernoulli evaluator (P34)."""
import numpy as np

from .. import interp as IN
from .. import terms as X
from ..interp import Arr, NativeV, PyRaise
from ..pdrive import Pl
from ..valu import Ev, Unsup
from .exps import same

EV = 'discs/evaluators/bernoulli_eval.py'
PE = 'discs/plot_results/plot_estimation_error.py'
NAMES = ('average error of the mean', 'largest error of the mean', 'average error of the variance', 'largest error of the variance',
         'average error of the mean over the last samples', 'average error of the variance over the last samples')


def ref(s, logit):
  """The errors of samples (time, chains, sites) against exact moments."""
  p = 1 / (1 + np.exp(-logit))
  m = s.mean(0)
  v = ((s - m) ** 2).sum(0) / (s.shape[0] - 1)
  em, ev = (m - p) ** 2, (v - p * (1 - p)) ** 2
  return em.mean(), em.max(), ev.mean(), ev.max()


def whole(s, logit):
  a = ref(s, logit)
  b = ref(s[-1][:, None], logit)
  return a + (b[0], b[2])


def build(I, D):
  cfg = I.call(I.module('discs.common.configs').globals['get_config'], [], {})
  bc = I.call(I.module('discs.models.configs.bernoulli_config').globals['get_config'], [], {})
  it = I.obj(I.obj(cfg).items['model']).items
  it.update(I.obj(bc).items)
  it['shape'] = (D,)
  return cfg


def moments(ctx):
  rule = 'estimation errors compare the samples with the exact moments'
  T, B, D = X.dim(X.atom('NT', (), lo=2, isint=True, size=True)), X.dim(X.atom('NB', (), lo=2, isint=True, size=True)), X.dim(X.atom('ND', (), lo=1, isint=True, size=True))
  for form, sh in (('symbolic numbers of saved states, chains and sites', (T, B, D)), ('3 saved states of 4 chains', (3, 4, 5))):
    I = IN.Interp(ctx.repo)
    I.exact_try = True
    try:
      d = Arr(X.lift(sh[2]), (), 'int') if not isinstance(sh[2], int) else sh[2]
      cfg = build(I, d)
      ev = I.call(I.module('discs.evaluators.bernoulli_eval').globals['build_evaluator'], [cfg], {})
      mo = I.call(I.module('discs.models.bernoulli').globals['build_model'], [cfg], {})
      sh = tuple(X.dim(q) if isinstance(q, int) else q for q in sh)
      st = X.atom('samples', sh, is01=True)
      lt = X.atom('logit', (sh[2],))
      out = I.call(I.getattr(ev, 'evaluate'), [Arr(st, sh, 'int'), mo, I.mkdict({'params': Arr(lt, (sh[2],), 'float')})], {})
      ctx.saw(I)
    except PyRaise as e:
      ctx.ob(form, False if e.sure else None, rule, EV, 'raises %s' % e.what)
      continue
    except Exception as e:
      ctx.ob(form, None, rule, EV, 'analysis limit: %r' % e)
      continue
    if not isinstance(out, tuple) or len(out) != 6:
      ctx.ob(form, False if isinstance(out, tuple) else None, rule, EV, 'the evaluation returns %s values instead of six' % (len(out) if isinstance(out, tuple) else '?'))
      continue
    for i, nm in enumerate(NAMES):
      bad, pts = None, 0
      for seed, sz in enumerate(({'NT': 4, 'NB': 3, 'ND': 2}, {'NT': 7, 'NB': 2, 'ND': 5}, {'NT': 2, 'NB': 6, 'ND': 1}, {'NT': 3, 'NB': 3, 'ND': 3}, {'NT': 40, 'NB': 5, 'ND': 4})):
        e = Ev(seed + 1, names=dict(sz))
        try:
          g = np.asarray(e.ev(I.num(out[i]).t), float)
          w = whole(np.asarray(e.full(st), float), np.asarray(e.full(lt), float))[i]
        except (Unsup, AttributeError) as ex:
          pts = 0
          break
        pts += 1
        r = same(g, w)
        if r:
          bad = 'the %s %s (%d states, %d chains, %d sites)' % ((nm, r) + tuple(e.shp(sh)))
          break
      ctx.ob('%s: %s' % (form, nm), False if bad else 'generic' if pts else None, rule, EV + ':evaluate', bad or '')


class Pe(Pl):
  """The estimation-error plot over a folder of runs with symbolic samples."""

  def lift(self, v):
    if isinstance(v, dict):
      return self.I.mkdict({k: self.lift(x) for k, x in v.items()})
    if isinstance(v, list):
      return self.I.mklist([self.lift(x) for x in v])
    return v

  def down(self, v):
    return v


def curves(ctx):
  rule = 'each curve shows the windowed errors of the run it is named after'
  runs = [("1_config.name='randomwalk'", 'rmw'), ("2_config.name='gwg',sampler_config.balancing_fn_type='RATIO'", None),
          ("3_config.name='dlmc',sampler_config.solver='euler_forward',sampler_config.balancing_fn_type='SQRT'", None)]
  lens = (27, 20, 43)
  for order, win in (((0, 1, 2), None), ((2, 0, 1), (6, 4))):
    label = 'error curves, listing order %s%s' % (order, ', window %d stride %d' % win if win else '')
    D = 6
    files, at = {}, {}
    for k, (f, _) in enumerate(runs):
      sh = tuple(X.dim(q) for q in (lens[k], 4, D))
      at[k] = (X.atom('s%d' % k, sh, is01=True), X.atom('l%d' % k, (sh[2],)), sh)
      files[(f, 'samples.pkl')] = {'trajectory': Arr(at[k][0], sh, 'int')}
      files[(f, 'params.pkl')] = {'params': Arr(at[k][1], (sh[2],), 'float')}
    p = Pe(ctx.repo, label, './ee_sweep', [runs[i][0] for i in order], files, '', '', mod='discs.plot_results.plot_estimation_error')
    I = p.I
    try:
      if win:
        g = I.module('discs.common.configs').globals
        gc = g['get_config']

        def conf(i, a, k, gc=gc, I=I, win=win):
          c = I.call(gc, a, k)
          I.obj(I.obj(c).items['experiment']).items.update(window_size=win[0], window_stride=win[1])
          return c
        g['get_config'] = NativeV('get_config', conf)
      p.run()
      ctx.saw(I)
    except PyRaise as e:
      p.err = e
    except Exception as e:
      ctx.ob(label, None, rule, PE, 'analysis limit: %r' % e)
      continue
    if p.err is not None:
      ctx.ob(label, False if p.err.sure else None, rule, PE, 'raises %s' % p.err.what)
      continue
    ls = p.figs[-1][2] if p.figs else p.lines
    if len(ls) != 3:
      ctx.ob(label, False if p.figs and not I.loops else None, rule, PE, '%d curves for 3 runs' % len(ls))
      continue
    bad, pts = None, 0
    try:
      cfg = I.obj(I.obj(I.call(I.module('discs.common.configs').globals['get_config'], [], {})).items['experiment']).items
      W, S = cfg['window_size'], cfg['window_stride']
      labs = [l for _, _, l in ls]
      for seed in (1, 2):
        e = Ev(seed)
        for pos, k in enumerate(order):
          s, l = np.asarray(e.full(at[k][0]), float), np.asarray(e.full(at[k][1]), float)
          want = [ref(s[q:q + W], l)[0] for q in range(0, len(s), S) if len(s) - q >= W]
          mine = [q for q in ls if own(q[2], runs[k][0])]
          if len(mine) != 1:
            bad = 'no curve (or several) with the sampler of the run %s among %s' % (runs[k][0], labs)
            break
          y = I.lib.arr(mine[0][1])
          g = np.asarray(e.full(y.full()), float)
          pts += 1
          r = same(g, want)
          if r:
            bad = 'the curve of %s %s' % (mine[0][2], r)
            break
        if bad:
          break
    except Exception as ex:
      ctx.ob(label, None, rule, PE, 'analysis limit: %r' % ex)
      continue
    ctx.ob(label, False if bad else 'generic' if pts else None, rule, EV + ':plot_mixing_time_graph_over_chain', bad or '')


def own(label, folder):
  for key, nm in (('randomwalk', 'rmw'), ('gwg', 'gwg'), ('dlmc', 'dlmc')):
    if "name='%s'" % key in folder:
      return isinstance(label, str) and label.startswith(nm)
  return False


def p34(ctx):
  moments(ctx)
  curves(ctx)
