"""Collecting the results of sweeps (P22)."""
from .. import adrive as A
from .. import pdrive as D
from ..interp import UNDEF

W = 'discs/plot_results/plot_results.py'
WT = 'discs/plot_results/plot_co_through_time.py'
SHORT = {'hammingball': 'hb', 'blockgibbs': 'bg', 'randomwalk': 'rwm', 'path_auxiliary': 'pas', 'gwg': 'gwg', 'dmala': 'dmala', 'dlmc': 'dlmc'}
KEYS = ('shape', 'balancing_fn_type', 'num_categories', 'chain_length')


def sig(n, sci=False):
  """Result files of job n (numbers of its own), as the savers write them."""
  a = lambda x: ('%.4e' if sci else '%.4f') % x
  r = n + .1357
  pkl = {'best_ratio': [r, r + .5], 'running_time': 3. * n + .25, 'trajectory': [[r / 2, r / 3], [-r, 2 * r]], 'best_ratio_mean': r + .25}
  one = '[%s %s]' if n % 2 else '[%s  %s ]'
  many = '[[%s %s]]' if n % 2 else '[[ %s   %s]]'
  fmt = many if n % 3 == 0 else one
  csv = {'ESS_M-H': fmt % (a(r + .9), a(r + .8)), 'ESS_EE': fmt % (a(r), a(r / 8)), 'ESS_T': fmt % (a(r + 2000), a(r / 16))}
  lm = {'infill_sents': ['x'], 'self_bleu': r + .125, 'unique_2': r + .0625}
  return pkl, csv, lm


def near(a, b):
  return isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


class Bad(Exception):
  pass


def tasks(repo):
  for mod in sorted(m for m in repo.mods if m.startswith('discs.run_configs.')):
    s = mod[len('discs.run_configs.'):]
    if s.startswith('co.'):
      yield mod, 'co', 'name'
      yield mod, 'time', 'name'
    elif '.lm.' in s:
      yield mod, 'lm', 'name'
    elif s.startswith('classical_models.') or '.rbm.' in s:
      k = [q for q in KEYS if s.endswith('.' + q + '_sweep')]
      if s.endswith('.lbf_sweep'):
        k = ['balancing_fn_type']
      if s.endswith('chian_length_sweep'):
        k = ['chain_length']
      yield mod, 'ess', k[0] if k else 'name'


def p22(ctx):
  rule = 'every run of the sweep is reported under its own name, with its own values'
  for mod, et, key in tasks(ctx.repo):
    label = '%s %s by %s' % (mod[len('discs.run_configs.'):], et, key)
    w = WT if et == 'time' else W
    try:
      x = A.Xm(ctx.repo, mod)
      x.run()
      jobs = []
      for n, kw, args in x.jobs:
        jobs.append((n, kw, args['config.experiment.save_root'].rsplit('/', 1)[1]))
      if x.err is not None or len({f for _, _, f in jobs}) != len(jobs):
        raise ValueError('launcher: %s' % x.err)
      if et == 'ess' and all(kw.get('config.experiment.get_estimation_error') for _, kw, _ in jobs):
        continue
      files = {}
      for n, kw, f in jobs:
        pkl, csv, lm = sig(n, n % 5 == 0)
        files[(f, 'results.pkl')] = pkl
        if et not in ('co', 'time'):
          files[(f, 'results.csv')] = csv
        files[(f, 'results_topk.pkl')] = lm
      order = [f for _, _, f in jobs]
      order = order[::2] + order[1::2][::-1]
      model = x.cfg['model']
      p = D.Pl(ctx.repo, label, './discs-%s-sweep_1' % model, order, files, et, key, **(
          dict(mod='discs.plot_results.plot_co_through_time', flags={'graphtype': model}) if et == 'time' else {}))
      p.run()
      ctx.saw(p.I)
    except Exception as e:
      ctx.ob(label, None, rule, w, 'analysis limit: %r' % e)
      continue
    if p.err is not None:
      ctx.ob(label, False if p.err.sure else None, rule, w, 'raises %s' % p.err.what)
      continue
    for what, f in ((rule, values), ('only runs that differ in nothing but the sampler (and the plotted setting) are compared', groups), ('different samplers have different names', names)):
      try:
        f(et, key, jobs, table(et, key, jobs, p))
      except Bad as e:
        ctx.ob('%s: %s' % (label, f.__name__), False, what, w, str(e))
      except Exception as e:
        ctx.ob('%s: %s' % (label, f.__name__), None, what, w, 'analysis limit: %r' % e)
      else:
        ctx.ob('%s: %s' % (label, f.__name__), True, what, w)


def steps(kw):
  c = kw.get('config.experiment.chain_length')
  return 50000 if c is None else c // 2


def table(et, key, jobs, p):
  """[(group, label, metric, [values], [errors])] as reported."""
  out = []
  if et in ('co', 'lm'):
    for f, row in p.rows:
      for m, vs in row.items():
        if m != 'sampler':
          out.append((f, row['sampler'], m, vs if isinstance(vs, list) else [vs], None))
  elif et == 'ess':
    for f, bars, _ in p.figs:
      if not f.endswith('.png'):
        continue
      b = f.rsplit('/', 1)[1]
      m = 'ess_ee' if b.startswith('ess_ee') else 'ess_clock'
      for d in bars:
        out.append((b[len(m):], d['label'], m, d['height'], d['yerr']))
  else:
    for f, _, lines in p.figs:
      if not f.endswith('.png') or not f.rsplit('/', 1)[1].startswith('Steps'):
        continue
      for x, y, l in lines:
        out.append((f, l, 'traj', [y], None))
  if not out:
    raise ValueError('nothing reported')
  return out


def want(et, n, kw):
  pkl, csv, lm = sig(n)
  mean = lambda v: sum(v) / len(v)
  std = lambda v: (sum((y - mean(v)) ** 2 for y in v) / len(v)) ** .5
  r = n + .1357
  if et == 'co':
    return {'best_ratio_mean': mean(pkl['best_ratio']), 'running_time': 2 * pkl['running_time'], 'best_ratio_std': std(pkl['trajectory'][-1])}
  if et == 'lm':
    return {k: v for k, v in lm.items() if k != 'infill_sents'}
  if et == 'ess':
    return {'ess_ee': (r * steps(kw), r / 8 * steps(kw)), 'ess_clock': (r + 2000, r / 16)}
  return {'traj': [mean(t) for t in pkl['trajectory']]}


def close(a, b):
  if isinstance(b, tuple):
    return all(isinstance(q, (int, float)) and abs(q - v) <= 1e-3 * abs(v) for q, v in zip(a, b))
  if isinstance(b, list):
    return isinstance(a, list) and len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
  return near(a, b)


CACHE = {}


def find(et, jobs, metric, v):
  if CACHE.get('j') is not jobs or CACHE['e'] != et:
    CACHE.update(j=jobs, e=et, t=[(n, kw, want(et, n, kw)) for n, kw, _ in jobs])
  for n, kw, w in CACHE['t']:
    if metric in w and close(v, w[metric]):
      return n, kw
  return None


def cells(et, jobs, tab):
  for g, l, m, vs, es in tab:
    for i, v in enumerate(vs):
      v = (v, es[i]) if es is not None else v
      for q in v if isinstance(v, (tuple, list)) else (v,):
        if not isinstance(q, (int, float)):
          raise ValueError('value %s' % type(q).__name__)
      if not isinstance(l, str):
        raise ValueError('name')
      yield g, l, m, i, v


def values(et, key, jobs, tab):
  seen = {}
  for g, l, m, i, v in cells(et, jobs, tab):
    j = find(et, jobs, m, v)
    if j is None:
      if et == 'ess' and v[0] == 0:
        continue
      raise Bad('%s = %s reported for %s in %s is the value of no run' % (m, v, l, g))
    if (m, j[0]) in seen:
      raise Bad('%s of run %d is reported twice' % (m, j[0]))
    seen[(m, j[0])] = (g, l)
  ms = {m for m, _ in seen}
  if ms != set(want(et, *jobs[0][:2])):
    raise Bad('%s not reported' % sorted(set(want(et, *jobs[0][:2])) - ms))
  for n, kw, f in jobs:
    w = [seen.get((m, n)) for m in ms]
    if None in w:
      raise Bad('the results of %s are missing' % f)
    if len(set(w)) > 1:
      raise Bad('the values of %s are reported under different names' % f)


def places(et, key, jobs, tab):
  for g, l, m, i, v in cells(et, jobs, tab):
    j = find(et, jobs, m, v)
    if j is not None:
      yield g, l, m, i, j


def other(key, kw, samp):
  return {k: repr(v) for k, v in kw.items() if k.startswith('sampler_config.') == samp and not k.endswith('.' + key) and not k.endswith('save_samples')}


def groups(et, key, jobs, tab):
  grp = {}
  for g, l, m, i, j in places(et, key, jobs, tab):
    o = grp.setdefault(g, j)
    a, b = other(key, o[1], False), other(key, j[1], False)
    for k in sorted(set(a) & set(b)):
      if a[k] != b[k]:
        raise Bad('runs %d and %d are compared although %s is %s and %s' % (o[0], j[0], k, a[k], b[k]))


def names(et, key, jobs, tab):
  lab, pos = {}, {}
  for g, l, m, i, j in places(et, key, jobs, tab):
    s = j[1].get('sampler_config.name')
    if s is None:
      continue
    sh = SHORT.get(s)
    if sh is not None and not str(l).startswith(sh):
      raise Bad('a run of %s is reported as %s' % (s, l))
    if s == 'dlmc':
      f = 'euler_forward' in str(j[1].get('sampler_config.solver'))
      if str(l).startswith('dlmcf') != f:
        raise Bad('a run of dlmc with solver %s is reported as %s' % (j[1].get('sampler_config.solver'), l))
    k = other(key, j[1], True)
    if key == 'name':
      k['sampler_config.name'] = repr(s)
    o = lab.setdefault((g, m, l), (j[0], k, i))
    if o[1] != k:
      raise Bad('runs %d and %d with different sampler settings %s and %s are both reported as %s' % (o[0], j[0], o[1], k, l))
    if key == 'name' and o[0] != j[0]:
      raise Bad('runs %d and %d are both reported as %s in %s' % (o[0], j[0], l, g))
    if key != 'name':
      q = [v for kk, v in j[1].items() if kk.endswith('.' + key)]
      if q:
        p = pos.setdefault((g, m, i), (j[0], q[0], l))
        if p[1] != q[0]:
          raise Bad('run %d with %s=%s is shown next to run %d with %s=%s' % (j[0], key, q[0], p[0], key, p[1]))
