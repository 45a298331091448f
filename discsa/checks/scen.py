"""Scenario enumeration for samplers."""
from .. import drive as D
from .. import terms as X
from .. import core
from ..interp import Arr

BAL = ('SQRT', 'RATIO', 'MAX', 'MIN')
K = 'K'


def many(name, lo=2):
  return Arr(D.ip(name, lo), (), 'int')


def sampler_names(repo):
  out = []
  for m in repo.mods:
    p = 'discs.samplers.configs.'
    if m.startswith(p) and m.endswith('_config'):
      n = m[len(p):-len('_config')]
      if 'discs.samplers.' + n in repo.mods:
        out.append(n)
  return sorted(out)


def variants(name, full=True):
  """(over, C, nd, exp, mask) tuples that select different code."""
  V = []

  def add(over=None, C=2, nd=1, exp=None, mask=False):
    V.append((over or {}, C, nd, exp or {}, mask))
  if name == 'randomwalk':
    for ad in (True, False):
      for C in (2, K):
        for nd in (1, 2):
          add({'adaptive': ad}, C, nd)
  elif name == 'gibbs':
    for C in (2, K):
      for nd in (1, 2):
        add({}, C, nd)
  elif name == 'blockgibbs':
    for bs in (1, 2, many('bs')):
      for C in (2, K):
        for nd in (1, 2):
          add({'block_size': bs}, C, nd)
  elif name == 'hammingball':
    for bs in (many('bs', 1),):
      for C in (2, K):
        for nd in (1, 2):
          add({'block_size': bs}, C, nd)
  elif name == 'gwg':
    for b in BAL:
      for ad in (True, False):
        for C in (2, K):
          for nd in (1, 2):
            for nf in ((1, many('nf')) if not ad and C == 2 else (1,)):
              if b == 'SQRT' or nd == 1:
                add({'adaptive': ad, 'balancing_fn_type': b, 'num_flips': nf}, C, nd)
    add({'adaptive': True}, 2, 1, None, True)
    add({'adaptive': False, 'num_flips': 1}, 2, 1, None, True)
  elif name in ('dlmc', 'dmala'):
    for b in BAL:
      for ad in (True, False):
        for co in (True, False):
          for C in (2, K):
            for nd in (1, 2):
              for sol in (('interpolate', 'euler_forward') if name == 'dlmc' else (None,)):
                if (b != 'SQRT' and nd == 2) or (co and not ad and b != 'SQRT'):
                  continue
                o = {'adaptive': ad, 'balancing_fn_type': b}
                if sol:
                  o['solver'] = sol
                add(o, C, nd, {'co_opt_prob': co})
    for C in (2, K):
      add({'adaptive': True, 'reset_z_est': -1}, C, 1)
  elif name == 'path_auxiliary':
    for b in BAL:
      for ad in (True, False):
        for C in (2, K):
          for nd in (1, 2):
            for nf in ((1, many('nf')) if not ad else (many('nf', 1),)):
              for ag in (True, False):
                if (b != 'SQRT' and (nd == 2 or not ag)):
                  continue
                add({'adaptive': ad, 'balancing_fn_type': b, 'num_flips': nf, 'approx_with_grad': ag}, C, nd)
    for ad in (True, False):
      for C in (2, K):
        add({'adaptive': ad, 'num_flips': many('nf', 1) if ad else many('nf')}, C, 1, None, True)
  elif name == 'locallybalanced':
    for b in BAL:
      for C in (2, K):
        add({'balancing_fn_type': b}, C, 1)
  else:
    for C in (2, K):
      for nd in (1, 2):
        add({}, C, nd)
  return V


_CACHE = {}


def runs(ctx, names=None, first=False):
  """Abstract runs of every sampler variant (cached per process)."""
  all_names = sampler_names(ctx.repo)
  if not all_names:
    raise core.Anchor('no sampler with a config module')
  for n in all_names:
    if names is not None and n not in names:
      continue
    for v in variants(n):
      k = (id(ctx.repo), n, first, repr(v))
      s = _CACHE.get(k)
      if s is None:
        s = D.Sc(ctx.repo, n, *v)
        try:
          s.run(first=first)
        except Exception as e:  # analysis limit, not a verdict
          s.err = e
          s.out = None
          s.evs = []
          ctx.notes.append('analysis failed on %s: %r' % (s.label, e))
        _CACHE[k] = s
        ctx.saw(s.I)
      yield s
