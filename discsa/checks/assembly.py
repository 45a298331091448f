"""Assembly of runs from configuration files (P20)."""
from .. import adrive as A
from ..interp import PyRaise, UNDEF, Ref

CLASSICAL = ('bernoulli', 'categorical', 'ising', 'potts', 'fhmm')
CO = {'maxcut': {'ba': 'r-ba-4-n-16-20', 'er': 'r-er-0.15-n-16-20', 'optsicom': 'r-b'}, 'maxclique': {'rb': '_', 'twitter': '_'},
      'mis': {'er_density': 'r-0.05', 'ertest': 'r-800', 'satlib': '_'}, 'normcut': {'nets': 'r-INCEPTION', 'gap_rand': '_'}}
SAMPLERS = ('randomwalk', 'gibbs', 'blockgibbs', 'hammingball', 'locallybalanced', 'gwg', 'path_auxiliary', 'dlmc', 'dmala')
WHERE = 'discs/experiment/main_sampling.py'


def merge(a, b):
  """ConfigDict.update."""
  out = dict(a)
  for k, v in b.items():
    if isinstance(v, dict) and isinstance(out.get(k), dict):
      out[k] = merge(out[k], v)
    else:
      out[k] = v
  return out


def clash(a, b, pre=''):
  """Key whose override changes the type (ConfigDict refuses that)."""
  for k, v in b.items():
    o = a.get(k)
    if isinstance(v, dict) and isinstance(o, dict):
      r = clash(o, v, pre + k + '.')
      if r:
        return r
    elif k in a and o is not None and v is not None and isinstance(o, (bool, int, float, str, tuple)) and isinstance(v, (bool, int, float, str, tuple)):
      if isinstance(o, (str, tuple)) != isinstance(v, (str, tuple)) or isinstance(o, str) != isinstance(v, str) or (isinstance(o, int) and isinstance(v, float)):
        return '%s%s: %r over %r' % (pre, k, v, o)
  return None


def expmod(model, gtype):
  if gtype:
    return 'discs.experiment.configs.%s.%s' % (model, gtype)
  return 'discs.experiment.configs.lm_experiment' if model == 'text_infilling' else 'discs.common.configs'


def conf(I, mod, fn='get_config', *a):
  m = I.module(mod)
  return A.plain(I, I.call(m.globals[fn], list(a), {}))


def runs(ctx):
  for m in CLASSICAL:
    for s in SAMPLERS:
      yield A.As(ctx.repo, m, s, exp=expmod(m, None))
  for m, ts in CO.items():
    for t, c in ts.items():
      for s in SAMPLERS if ctx.tier == 'thorough' or t in ('ba', 'nets') else SAMPLERS[-3:]:
        yield A.As(ctx.repo, m, s, t, exp=expmod(m, t), over=dict({'model_config.graph_type': t, 'model_config.cfg_str': c}, **({} if s != 'dlmc' else {'config.experiment.save_root': '/out/q'})), local=s != 'dlmc')
  for m in ('rbm', 'resnet', 'text_infilling'):
    for s in SAMPLERS:
      yield A.As(ctx.repo, m, s, exp=expmod(m, None))
  yield A.As(ctx.repo, 'resnet', 'gwg', exp='discs.common.configs', over={'config.experiment.name': 'EBM_Experiment', 'config.experiment.save_root': '/out/q'}, local=False)
  some = {'config.experiment.chain_length': 7, 'config.experiment.batch_size': 3, 'config.experiment.log_every_steps': 2}
  for m, s, t, o in (('ising', 'dmala', None, {'sampler_config.adaptive': False, 'sampler_config.step_size': 0.7, 'sampler_config.balancing_fn_type': 'MIN',
                                              'config.experiment.run_parallel': False, 'config.experiment.save_samples': True, 'config.experiment.ess_ratio': 0.25,
                                              'model_config.mu': 0.0, 'model_config.shape': (4, 6)}),
                     ('maxcut', 'dlmc', 'ba', {'sampler_config.adaptive': False, 'config.experiment.t_schedule': 'constant', 'config.experiment.decay_rate': 0.0,
                                               'model_config.cfg_str': CO['maxcut']['ba'], 'model_config.graph_type': 'ba', 'model_config.data_root': '/data'}),
                     ('maxclique', 'path_auxiliary', 'rb', {'sampler_config.adaptive': False, 'sampler_config.num_flips': 3, 'model_config.cfg_str': '_',
                                                            'config.experiment.init_temperature': 2.5, 'model_config.graph_type': 'rb'}),
                     ('text_infilling', 'gwg', None, {'sampler_config.adaptive': False, 'sampler_config.num_flips': 2})):
    a = A.As(ctx.repo, m, s, t, exp=expmod(m, t), over=dict(some, **o))
    a.label += ' with given values'
    yield a


def have(got, want, path=''):
  """First key of want that got does not hold."""
  for k, v in want.items():
    if v is UNDEF:
      continue
    if not isinstance(got, dict) or k not in got:
      return '%s%s is missing' % (path, k)
    if got[k] is UNDEF:
      continue
    if isinstance(v, dict):
      r = have(got[k], v, path + k + '.')
      if r:
        return r
    elif list(got[k]) != list(v) if isinstance(v, (list, tuple)) and isinstance(got[k], (list, tuple)) else got[k] != v or isinstance(got[k], bool) != isinstance(v, bool):
      return '%s%s is %r instead of %r' % (path, k, got[k], v)
  return None


class Bad(Exception):
  pass


def judge(ctx, a):
  I = a.I

  def ob(what, rule, f):
    try:
      r = f()
    except Bad as e:
      ctx.ob('%s %s' % (a.label, what), False, rule, WHERE, str(e))
    except Exception as e:
      ctx.ob('%s %s' % (a.label, what), None, rule, WHERE, 'analysis limit: %r' % e)
    else:
      ctx.ob('%s %s' % (a.label, what), None if r == 'undecided' else True, rule, WHERE)

  com = conf(I, 'discs.common.configs')
  ex, mo, sa = com['experiment'], com['model'], com['sampler']
  bad = None

  def mg(x, y):
    nonlocal bad
    bad = bad or clash(x, y)
    return merge(x, y)
  mo = mg(mo, a.given['model_config'])
  if a.gtype:
    mo = mg(mo, conf(I, 'discs.models.configs.%s.%s' % (a.model, a.gtype), 'get_model_config', mo['cfg_str']))
    ex = mg(ex, {'name': 'CO_Experiment', 'evaluator': 'co_eval', 'co_opt_prob': True})
  ex = mg(ex, a.given['config'].get('experiment', {}))
  if a.gtype:
    ex = mg(ex, {'num_models': mo['num_models']})
  shape = A.SHAPE if a.gtype or a.model in ('rbm', 'resnet') else mo['shape']
  if a.local:
    ex['save_root'] = './discs/results/' + mo.get('save_dir_name', mo['name'])
  ex['fig_folder'] = UNDEF
  sa = mg(sa, a.given['sampler_config'])

  def types():
    if bad:
      raise Bad('the configuration cannot be updated: %s has another type' % bad)
  def extra():
    c = mo['cfg_str']
    if UNDEF in (c, mo.get('rand_type')):
      return 'undecided'
    if c.startswith('r-') and mo.get('rand_type', c[2:]) != c[2:]:
      raise Bad('cfg_str %s selects the data %s' % (c, mo['rand_type']))
  if a.gtype:
    ob('data', 'the configuration string selects the data', extra)
  ob('types', 'overrides keep the type of the default', types)

  def one(kind):
    r = [g for n, g in a.got if n == kind]
    if not r:
      if any(n == 'run' for n, _ in a.got):
        return None
      raise KeyError(kind)
    if len(r) > 1:
      raise KeyError(kind + ' twice')
    return r[0]

  def part(kind, key, want, mod):
    r = one(kind)
    if r is None:
      raise KeyError(kind)
    if r['mod'] != mod:
      raise Bad('%s of %s instead of %s' % (kind, r['mod'], mod))
    c = r['cfg']
    if isinstance(c, dict) and key not in c:   # a part of the configuration is handed over
      c = {key: c}
    e = have(c.get(key), want, 'config.%s.' % key) if isinstance(c, dict) else None
    if e:
      raise Bad('the %s is built with %s' % (kind[6:], e))
    return r
  ob('model', 'the configured model is built', lambda: part('build_model', 'model', mo, 'discs.models.' + a.model) and None)

  def sampler():
    r = part('build_sampler', 'sampler', sa, 'discs.samplers.' + a.sampler)
    c = r['cfg']
    if isinstance(c, dict) and isinstance(c.get('model'), dict):
      w = {k: v for k, v in mo.items() if k == 'num_categories'}
      w['shape'] = shape
      e = have(c['model'], w, 'config.model.')
      if e:
        raise Bad('the sampler is built with %s (the model sets the sample shape from its data)' % e)
  ob('sampler', 'the configured sampler is built for the samples of the model', sampler)

  def experiment():
    r = one('run')
    if r['cls'] != ex['name']:
      raise Bad('runs %s instead of %s' % (r['cls'], ex['name']))
    seen = False
    for n, v in r['attrs'].items():
      if isinstance(v, dict) and 'chain_length' in v:
        seen = True
        e = have(v, ex, 'config.experiment.')
        if e:
          raise Bad('the experiment runs with %s' % e)
      elif isinstance(v, dict) and 'num_categories' in v:
        e = have(v, {'shape': shape, 'num_categories': mo.get('num_categories', UNDEF)}, 'config.model.')
        if e:
          raise Bad('the experiment runs with %s' % e)
    if not seen:
      return 'undecided'
  ob('experiment', 'the configured experiment runs', experiment)

  def parts():
    r = one('run')
    for n, k in (('model', 'build_model'), ('sampler', 'build_sampler'), ('evaluator', 'build_evaluator'), ('saver', 'build_saver')):
      b = one(k)
      if n not in r['args']:
        raise Bad('the run gets no %s' % n)
      if b is None:
        raise KeyError(k)
      g, w = r['args'][n], b['out']
      if not (isinstance(g, Ref) and isinstance(w, Ref) and g.id == w.id):
        raise Bad('the run does not get the %s that was built' % n)
    b = one('build_evaluator')
    if b['mod'] != 'discs.evaluators.' + ex['evaluator']:
      raise Bad('evaluator of %s instead of discs.evaluators.%s' % (b['mod'], ex['evaluator']))
    s = one('build_saver')
    c = s['cfg'].get('experiment') if isinstance(s['cfg'], dict) else None
    if isinstance(c, dict):
      e = have(c, {'save_root': ex['save_root']}, 'config.experiment.')
      if e:
        raise Bad('results are saved with %s' % e)
  ob('parts', 'the run gets the parts that were built', parts)

  def record():
    ps = [p for k, p in a.files if k == 'open' and isinstance(p, str) and p.endswith('config.yaml')]
    if ps and ps[-1].replace('//', '/') != (ex['save_root'] + '/config.yaml').replace('//', '/'):
      raise Bad('the configuration is recorded in %s instead of %s' % (ps[-1], ex['save_root']))
    if not ps:
      return 'undecided'
  ob('record', 'the configuration is recorded with the results', record)


def p20(ctx):
  rule = 'every documented combination assembles'
  for a in runs(ctx):
    try:
      a.run()
    except Exception as e:
      ctx.ob('%s assembles' % a.label, None, rule, WHERE, 'analysis limit: %r' % e)
      continue
    finally:
      ctx.saw(a.I)
    if a.err is not None:
      ctx.ob('%s assembles' % a.label, False if getattr(a.err, 'sure', False) else None, rule, WHERE, 'raises %s' % a.err.what)
      continue
    try:
      judge(ctx, a)
    except Exception as e:
      ctx.ob('%s assembles' % a.label, None, rule, WHERE, 'analysis limit: %r' % e)
  sweeps(ctx)


def jobs(ctx):
  """(module, job configuration) of the predefined sweeps."""
  from .. import interp as IN
  import os
  base = ctx.repo.root
  for mod in sorted(m for m in ctx.repo.mods if m.startswith('discs.run_configs.')):
    I = IN.Interp(ctx.repo)
    try:
      yield mod, conf(I, mod), I
    except Exception as e:
      yield mod, e, I
    finally:
      ctx.saw(I)


def sweeps(ctx):
  rule = 'every predefined sweep names existing parts and settings'
  for mod, c, I in jobs(ctx):
    w = mod.replace('.', '/') + '.py'
    short = mod[len('discs.run_configs.'):]
    if isinstance(c, Exception) or not isinstance(c, dict):
      ctx.ob('%s' % short, None, rule, w, 'analysis limit: %r' % c)
      continue
    try:
      bad = sweep(ctx, I, c)
    except Exception as e:
      ctx.ob('%s' % short, None, rule, w, 'analysis limit: %r' % e)
      continue
    ctx.ob('%s' % short, not bad, rule, w, '; '.join(bad[:3]))


def sweep(ctx, I, c):
  bad = []
  gt = c.get('graph_type')
  em, mm = expmod(c['model'], gt), 'discs.models.configs.%s_config' % c['model']
  for m in (em, mm) + (('discs.models.configs.%s.%s' % (c['model'], gt),) if gt else ()):
    if m not in ctx.repo.mods:
      return ['no configuration %s' % m]
  ex, mo = conf(I, em), conf(I, mm)
  for d in c.get('sweep', ()):
    if not all(isinstance(v, (list, tuple)) and len(v) for v in d.values()):
      bad.append('a swept key without values')
      continue
    for s in d.get('sampler_config.name', [c['sampler']]):
      sm = 'discs.samplers.configs.%s_config' % s
      if sm not in ctx.repo.mods:
        bad.append('no sampler configuration %s' % s)
        continue
      tab = {'config': ex, 'model_config': mo, 'sampler_config': conf(I, sm)}
      for k, vs in d.items():
        p = k.split('.')
        o = tab.get(p[0])
        for q in p[1:]:
          o = o.get(q, UNDEF) if isinstance(o, dict) else UNDEF
        if o is UNDEF:
          bad.append('%s is not a setting of %s' % (k, {'config': em, 'model_config': mm, 'sampler_config': sm}.get(p[0], p[0])))
          continue
        for v in vs:
          if isinstance(v, str) and isinstance(o, (tuple, list)):
            continue
          r = clash({k: o}, {k: v})
          if r:
            bad.append(r)
    for v in d.get('model_config.cfg_str', [mo['cfg_str']] if gt else []):
      try:
        conf(I, 'discs.models.configs.%s.%s' % (c['model'], gt), 'get_model_config', v)
      except PyRaise as e:
        if getattr(e, 'sure', False):
          bad.append('cfg_str %s raises %s' % (v, e.what))
  return bad


XW = 'discs/xm_launcher.py'


def p21(ctx):
  """The launcher: jobs of every predefined sweep."""
  import itertools
  for mod in sorted(m for m in ctx.repo.mods if m.startswith('discs.run_configs.')):
    x = A.Xm(ctx.repo, mod)
    try:
      x.run()
      err = None
    except Exception as e:
      err = repr(e)
    ctx.saw(x.I)
    if err or x.err is not None:
      ctx.ob('%s starts' % x.label, False if x.err is not None and getattr(x.err, 'sure', False) else None, 'every sweep can be started', XW,
             err or 'raises %s' % x.err.what)
      continue
    try:
      launched(ctx, x, itertools)
    except Exception as e:
      ctx.ob('%s starts' % x.label, None, 'every sweep can be started', XW, 'analysis limit: %r' % e)


def launched(ctx, x, itertools):
  c = x.cfg
  want = []
  for d in c['sweep']:
    ks = list(d)
    want += [dict(zip(ks, v)) for v in itertools.product(*[d[k] for k in ks])]
  if not all(isinstance(j[1], dict) and isinstance(j[2], dict) for j in x.jobs):
    ctx.ob('%s jobs' % x.label, None, 'jobs', XW, 'analysis limit: job arguments')
    return
  key = lambda d: sorted((k, repr(v)) for k, v in d.items())
  got = [{k: v for k, v in j[1].items()} for j in x.jobs]
  miss = [w for w in want if key(w) not in [key(g) for g in got]]
  ok = sorted(map(key, got)) == sorted(map(key, want))
  ctx.ob('%s jobs' % x.label, ok, 'one job per combination of the swept values', XW,
         '' if ok else '%d jobs for %d combinations%s' % (len(got), len(want), '; none for %s' % miss[0] if miss else ''))
  bad, und = None, None
  roots = {}
  gt = c.get('graph_type')
  univ = {k for d in c['sweep'] for k in d} - {'model_config.graph_type', 'model_config.data_root'}
  for n, kw, args in x.jobs:
    s = kw.get('sampler_config.name', c['sampler'])
    w = {'model_config': 'discs/models/configs/%s_config.py' % c['model'], 'sampler_config': 'discs/samplers/configs/%s_config.py' % s,
         'config': expmod(c['model'], gt).replace('.', '/') + '.py'}
    for k, v in w.items():
      a = args.get(k)
      if a is UNDEF:
        und = k
      elif not isinstance(a, str) or not a.endswith('/' + v):
        bad = bad or 'the job %s starts with %s=%s instead of %s' % (kw, k, a, v)
    if gt and args.get('model_config.graph_type') not in (gt, UNDEF):
      bad = bad or 'the job %s starts with graph type %s instead of %s' % (kw, args.get('model_config.graph_type'), gt)
    for k, v in kw.items():
      if args.get(k) is UNDEF:
        und = k
      elif args.get(k) != v:
        bad = bad or 'the job %s starts with %s=%r' % (kw, k, args.get(k))
    for k in args:
      if k in univ and k not in kw:
        bad = bad or 'the job %s also starts with %s=%r of another job' % (kw, k, args[k])
    r = args.get('config.experiment.save_root')
    if not isinstance(r, str):
      und = 'save_root'
    elif r in roots:
      bad = bad or 'jobs %d and %d write to the same folder %s' % (roots[r], n, r)
    else:
      roots[r] = n
      x.folders = getattr(x, 'folders', []) + [(r, kw)]
  par = {r.rsplit('/', 1)[0] for r in roots}
  if len(par) > 1:
    bad = bad or 'the results folders of one sweep lie in different places: %s' % sorted(par)[:2]
  ctx.ob('%s arguments' % x.label, False if bad else None if und else True, 'every job gets its own combination, configuration files and results folder', XW,
         bad or (und and 'analysis limit: %s' % und) or '')
