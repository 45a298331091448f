"""Obligations, evidence and verdicts."""
import json
import os
import sys
import threading
import time
import traceback

PROVED, VIOLATED, UNDECIDED, GENERIC = 'proved', 'violated', 'undecided', 'generic'
LIMIT = 780
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Anchor(Exception):
  """A public anchor of the property is gone; the check cannot answer."""


class Ob:
  __slots__ = ('key', 'status', 'rule', 'where', 'detail')

  def __init__(self, key, status, rule, where='', detail=''):
    self.key, self.status, self.rule, self.where, self.detail = key, status, rule, where, str(detail)

  def js(self):
    return {k: getattr(self, k)[:1500] for k in self.__slots__ if getattr(self, k)}


class Ctx:
  def __init__(self, repo, tier):
    self.repo, self.tier = repo, tier
    self.obs = []
    self.scen = 0
    self.runs = []
    self.notes = []

  def ob(self, key, status, rule, where='', detail=''):
    if status is True:
      status = PROVED
    elif status is False:
      status = VIOLATED
    elif status is None:
      status = UNDECIDED
    elif status == 'generic':
      status = GENERIC
    self.obs.append(Ob(key, status, rule, where, detail))

  def saw(self, I):
    self.scen += 1
    # the set and the list grow as the run is analysed further
    self.runs.append((I.touched_funcs, I.imprecise))

  @property
  def funcs(self):
    return set().union(*[f for f, _ in self.runs]) if self.runs else set()

  @property
  def imprecise(self):
    return sum(len(i) for _, i in self.runs)


def known():
  p = os.path.join(ROOT, 'known_findings.json')
  try:
    with open(p) as f:
      return json.load(f)
  except FileNotFoundError:
    return {'findings': [], 'fixed': []}


def main(pid, fn, tier, repo_root, explanation):
  from . import interp as IN
  t0 = time.time()
  sys.setrecursionlimit(20000)
  repo = IN.Repo(repo_root)
  ctx = Ctx(repo, tier)
  if tier == 'thorough':
    from . import valu
    valu.DEPTH = 4
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  lock = threading.Lock()

  def late():
    # the analysis does not come to an end on this tree: what is decided so far stands, the rest is undecided
    with lock:
      ctx.ob('analysis completed', None, 'analysis completed', '', 'stopped after %d s' % LIMIT)
      rc = report(pid, ctx, tier, seed, repo, explanation, t0)
      sys.stdout.flush()
      os._exit(rc)
  tm = threading.Timer(LIMIT, late)
  tm.daemon = True
  tm.start()
  rc = 0
  try:
    fn(ctx)
  except Anchor as e:
    print('ERROR property=%s anchor missing: %s' % (pid, e))
    rc = 2
  except Exception as e:
    # an analysis limit, not a verdict
    traceback.print_exc()
    ctx.ob('analysis completed', None, 'analysis completed', '', 'analysis limit: %r' % e)
  tm.cancel()
  with lock:
    return report(pid, ctx, tier, seed, repo, explanation, t0) or rc


def report(pid, ctx, tier, seed, repo, explanation, t0):
  viol = [o for o in ctx.obs if o.status == VIOLATED]
  kn = {f['key']: f for f in known().get('findings', []) if f['property'] == pid}
  new = [o for o in viol if o.key not in kn]
  old = [o for o in viol if o.key in kn]
  proved = sum(o.status == PROVED for o in ctx.obs)
  und = [o for o in ctx.obs if o.status == UNDECIDED]
  evd = os.environ.get('DISCS_EVIDENCE') or os.path.join(ROOT, 'evidence')
  os.makedirs(evd, exist_ok=True)
  by_rule = {}
  for o in ctx.obs:
    d = by_rule.setdefault(o.rule, {'proved': 0, 'generic': 0, 'violated': 0, 'undecided': 0})
    d[o.status] += 1
  ev = {
      'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
      'coverage': {
          'explanation': explanation,
          'obligations': len(ctx.obs), 'discharged_by_normal_form': proved,
          'discharged_at_generic_points': sum(o.status == GENERIC for o in ctx.obs), 'undecided': len(und),
          'abstract_runs': ctx.scen,
          'functions_analysed': len(ctx.funcs),
          'modules_parsed': len(repo.mods),
          'unknown_values_met': ctx.imprecise,
          'by_rule': by_rule,
          'samples': [o.js() for o in ctx.obs if o.status == PROVED][:6],
          'undecided_list': [o.js() for o in und][:40],
          'functions': sorted('%s:%s' % f for f in ctx.funcs)[:200],
          'notes': ctx.notes[:40],
      },
      'violations': [o.js() for o in new],
      'known_findings': [o.js() for o in old],
      'assumptions': ['library calls (jax, numpy, ml_collections, flax) have their documented meaning',
                      'real-number arithmetic: rounding, overflow and epsilon guards below 1e-20 are ignored'],
      'wall_s': round(time.time() - t0, 3),
  }
  with open(os.path.join(evd, pid + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  for o in old:
    print('KNOWN-FINDING: property=%s %s: %s' % (pid, o.key, kn[o.key].get('what', o.detail)[:300]))
  if new:
    rp = os.path.join(evd, pid + '.replay.txt')
    with open(rp, 'w') as f:
      f.write('Re-run: cd /verif && python3 check.py %s\n\n' % pid)
      for o in new:
        f.write('rule:  %s\nwhat:  %s\nwhere: %s\n%s\n\n' % (o.rule, o.key, o.where, o.detail))
    for o in new[:10]:
      print('  violated: %s | %s | %s | %s' % (o.rule, o.key, o.where, o.detail[:400]))
    print('VIOLATION property=%s replay=%s' % (pid, rp))
    return 1
  print('%s: %d obligations, %d proved, %d undecided, %d known findings; %d abstract runs over %d functions; %.1fs' % (
      pid, len(ctx.obs), proved, len(und), len(old), ctx.scen, len(ctx.funcs), time.time() - t0))
  return 0
