"""P01: fresh randomness.

Keys are values of the abstract domain; a draw event records the key term, the
path condition and the enclosing loops.  Rules:
 K1 two draws on compatible paths never use the same key;
 K2 a draw repeated by a loop (or by a mapped lane) uses a key that varies
    with that loop: it mentions the loop index, a mapped element, or a value
    carried by the loop whose next value depends on its previous one or on the
    index;
 K4 a key that is drawn from is not also split (its children would share bits
    with the draw);
 K5 the same holds between a loop and its surroundings: the keys of the first
    two iterations (the carried key replaced by its initial and its next value)
    neither repeat each other nor a key used outside the loop;
 K3 a draw's key descends from the key handed in by the caller.
"""
from .. import terms as X
from ..terms import T
from ..interp import Arr


def exclusive(p, q):
  d = {}
  for c, b in p:
    d[c] = b
  for c, b in q:
    if c in d and d[c] != b:
      return True
  return False


def tainted(t):
  return X.contains(t, lambda u: u.op in ('top', 'ext'))


def atoms(t):
  return {u for u in X.subterms(t) if u.op == 'atom'}


def mu_atoms(rec):
  out = {}
  for nm, c in rec['carried'].items():
    m = c['mu']
    if isinstance(m, Arr):
      out[m.t] = c
  return out


def closure(I, t, seen=None):
  """Terms reachable from t through the initial values of carried variables."""
  recs = getattr(I, '_mutab', None)
  if recs is None or recs[0] != len(I.loops):
    tab = {}
    for r in I.loops:
      for m, c in mu_atoms(r).items():
        tab[m] = c
    I._mutab = recs = (len(I.loops), tab)
  out, todo = set(), [t]
  while todo:
    u = todo.pop()
    for a in X.subterms(u):
      if a in out:
        continue
      out.add(a)
      c = recs[1].get(a)
      if c is not None:
        i = c['init']
        if isinstance(i, Arr):
          todo.append(i.full() if i.shape is not None else i.t)
      elif a.op == 'atom' and isinstance(a.meta.get('init'), T):
        todo.append(a.meta['init'])
  return out


def where(e):
  f = e['file']
  return '%s:%s %s' % (f[f.find('discs/'):] if 'discs/' in f else f, e['line'], e['func'])


def check(ctx, I, label, evs, roots=('rng',), rootless=False, lo=None, base=0):
  """Obligations for one abstract run whose events are evs."""
  draws = [e for e in evs if e['kind'] == 'draw']
  by = {}
  for e in draws:
    by.setdefault(e['key'], []).append(e)
  for k, es in by.items():
    bad = None
    if not tainted(k):
      for i in range(len(es)):
        for j in range(i):
          if not exclusive(es[i]['pc'], es[j]['pc']):
            bad = (es[j], es[i])
    else:
      bad = 0
    e = es[0]
    ctx.ob('%s K1 %s' % (label, where(es[-1])), None if bad == 0 else False if bad else True, 'no key serves two draws',
           where(es[-1]), 'the key is used by the draws at %s and %s' % (where(bad[0]), where(bad[1])) if bad else '')
  der = {}
  for e in evs:
    if e['kind'] == 'derive':
      der.setdefault(e['key'], []).append(e)
  for k, es in by.items():
    if tainted(k):
      continue
    bad = None
    for e in es:
      for d in der.get(k, ()):
        if not exclusive(e['pc'], d['pc']):
          bad = (e, d)
    ctx.ob('%s K4 %s' % (label, where(es[-1])), not bad, 'a key that is split is not also drawn from', where(es[-1]),
           'the key drawn from at %s is also split at %s' % (where(bad[0]), where(bad[1])) if bad else '')
  ids = {id(e): n for n, e in enumerate(evs)}
  for rec in list(I.loops) + list(I.lanes):
    if 'events' in rec:
      inner = [e for e in rec['events'] if e['kind'] == 'draw']
    else:
      a, b = rec['evs']
      inner = [e for e in I.events[a:b] if e['kind'] == 'draw']
    mus = mu_atoms(rec)
    for e in inner:
      if id(e) not in ids:
        continue
      t = rec['trip']
      if t is not None and X.const_val(X.lift(t)) in (0, 1):
        continue
      sub = closure(I, e['key'])
      ok = rec['idx'] in sub
      for m, c in mus.items():
        if ok:
          break
        if m in sub:
          n = c['next']
          nt = n.t if isinstance(n, Arr) else None
          if nt is None or tainted(nt):
            ok = None
            continue
          ns = closure(I, nt)
          if rec['idx'] in ns or any(q in ns for q in mus):
            ok = True
      if not ok and tainted(e['key']):
        ok = None
      ctx.ob('%s K2 %s in %s' % (label, where(e), rec['site'].split('/')[-1]), ok, 'a repeated draw uses a varying key', where(e),
             '' if ok else 'every iteration of the loop at %s draws with the same key' % rec['site'])
  unrolled(ctx, I, label, evs, ids)
  if roots and not rootless:
    for e in draws:
      sub = closure(I, e['key'])
      ok = any(u.op == 'atom' and u.args[0] in roots for u in sub)
      if not ok and tainted(e['key']):
        ok = None
      ctx.ob('%s K3 %s' % (label, where(e)), ok, 'keys descend from the key of the caller', where(e),
             '' if ok else 'the draw uses a key that does not depend on the key passed in')


def unrolled(ctx, I, label, evs, ids):
  for rec in I.loops:
    mus = {m: c for m, c in mu_atoms(rec).items() if isinstance(c['init'], Arr) and isinstance(c['next'], Arr) and not tainted(c['next'].t)}
    inner = rec.get('events')
    if inner is None:
      a, b = rec['evs']
      inner = I.events[a:b]
    inner = [e for e in inner if id(e) in ids and e['kind'] in ('draw', 'derive')]
    used = [e for e in inner if any(m in closure0(e['key']) for m in mus)]
    if not used:
      continue
    inn = {id(e) for e in inner}
    var = set(mus) | {rec['idx']}
    init = {m: c['init'].t for m, c in mus.items()}
    s2 = {m: X.subst(c['next'].t, init) for m, c in mus.items()}
    s2[rec['idx']] = X.add(rec["idx"], X.const(1))
    trip = X.const_val(X.lift(rec['trip'])) if rec['trip'] is not None else None
    outer = [(e, e['key'], 0) for e in evs if id(e) not in inn and e['kind'] in ('draw', 'derive')]
    one = [(e, X.subst(e['key'], init), 1) for e in used]
    two = [(e, X.subst(e['key'], s2), 2) for e in used] if trip != 1 else []
    if trip == 0:
      continue
    tab = {}
    for e, k, it in outer + one + two:
      if not tainted(k):
        tab.setdefault(k, []).append((e, it))
    bad = None
    for k, es in tab.items():
      for i in range(len(es)):
        for j in range(i):
          (p, a), (q, b) = es[i], es[j]
          if a == b or 'draw' not in (p['kind'], q['kind']) or exclusive(p['pc'], q['pc']):
            continue
          if any(u in var for z in (p, q) for c, _ in z['pc'] for u in X.subterms(c)):
            continue
          bad = (q, p, b, a)
    where_ = where(used[0])
    ctx.ob('%s K5 %s' % (label, where_), not bad, 'keys of a loop are fresh', where_,
           'the key used at %s%s is used again at %s in iteration %d of the loop at %s' % (
               where(bad[0]), ' in iteration %d' % bad[2] if bad[2] else '', where(bad[1]), bad[3], rec['site']) if bad else '')


def closure0(t):
  return X.subterms(t)
