"""Checks of the energy models (P10-P14, P26, P28, P29)."""
import numpy as np

from .. import mdrive as MD
from .. import terms as X
from .. import valu
from ..interp import Arr, Ref, DictObj, PyRaise, NativeV, BoundV
from ..valu import Ev, Unsup

SIZES = [
    dict(B=2, D0=3, D1=2, C=3, N=5, E=6, H=4, W=5, NC=2, M=1),
    dict(B=3, D0=2, D1=4, C=4, N=6, E=8, H=5, W=4, NC=3, M=2),
    dict(B=1, D0=4, D1=3, C=5, N=7, E=9, H=4, W=4, NC=2, M=1),
    dict(B=4, D0=2, D1=2, C=4, N=4, E=5, H=6, W=5, NC=2, M=3),
    dict(B=2, D0=4, D1=4, C=4, N=8, E=12, H=4, W=6, NC=4, M=1),   # a size equal to the number of categories
]


def where(m, name):
  I = m.I
  try:
    f = I.find_method(I.obj(m.m).cls, name)
    return 'discs/models/%s %s' % (m.name + '.py', getattr(f, 'qual', name) or name)
  except Exception:
    return m.name + '.' + name


def graph(seed, sz, pad=True):
  """A generic padded instance: names of the parameter atoms."""
  r = np.random.RandomState(900 + seed)
  N, E = sz['N'], sz['E']
  n = N - 1 if pad and N > 3 else N
  pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
  r.shuffle(pairs)
  k = min(len(pairs), E - 2 if pad else E)
  ef, et = np.zeros(E, int), np.zeros(E, int)
  em = np.zeros(E, int)
  w = np.zeros(E)
  for i in range(k):
    a, b = pairs[i]
    if r.rand() < .5:
      a, b = b, a
    ef[i], et[i], em[i], w[i] = a, b, 1, r.normal()
  return {'p_edge_from': ef, 'p_edge_to': et, 'p_edge_mask': em, 'p_edge_weight': w, 'p_mask': (np.arange(N) < n).astype(int),
          'p_num_nodes': np.array([n]), 'p_num_edges': np.array([k]),
          'p_node_degrees': np.bincount(np.concatenate([ef, et])[np.concatenate([em, em]) == 1], minlength=N).astype(float)}


def points(m, n=5, pad=True, extra=None):
  more = []
  i = -1
  n = n * valu.DEPTH
  while i + 1 < n + len(more) or i + 1 == n and extra is not None:
    i += 1
    if i == n:
      more = extra() if extra is not None else []
      if not more:
        return
    sz = SIZES[i % len(SIZES)] if i < n else more[i - n]
    if m.name == 'normcut' and i < n:
      sz = dict(sz, C=3 + i % 2, N=12 + i, E=30 + i)
    nm = dict(sz)
    if m.name == 'normcut':
      rs = np.random.RandomState(i)
      x = np.array([[k % sz['C'] for k in range(sz['N'])] for _ in range(sz['B'])])
      if i % 2 and m.over.get('penalty') != 0.0:   # partitions of unequal sizes
        x[:, sz['C']:] = (rs.random_sample(x[:, sz['C']:].shape) ** 2 * sz['C']).astype(int)
      for r in x:
        rs.shuffle(r)
      nm['x'] = x
      nm['cfg_tolerance'] = (0.01, 0.03, 0.1, 0.4)[i % 4]
    if m.graph:
      nm.update(graph(i, sz, pad))
    if m.graph and i % 2:
      nm['p_temperature'] = (0.0002, 6.0)[i // 2 % 2]     # annealing ends at low temperatures
    if getattr(m, 'temp', False) and not m.graph and i % 2:
      nm['p_temperature'] = (1.0, 0.0)[i // 2 % 2]     # annealing runs from the base distribution to the model
    e = Ev(i + 1, names=nm)
    e.tame = False
    e.mag = 1.0 if m.graph or i >= n else 6.0 if i % 3 == 1 else 60.0 if i % 5 == 3 else 1.0
    e.loops = valu.loop_index(m.I.loops)
    yield i + 1, sz, e


def decide(ctx, m, key, rule, name, f, n=5, tol=1e-5, pad=True, proved=False, names=None):
  """f(e, sz) -> list of (got, want) pairs at a generic point."""
  if proved:
    ctx.ob(m.label + ' ' + key, True, rule, where(m, name))
    return True
  seen, bad, why, misfit = 0, None, '', 0
  met = set()
  for seed, sz, e in points(m, n, pad, lambda: valu.thresholds(met, SIZES)):
    try:
      if names:
        e.names.update(names(seed, sz))
      with np.errstate(all='ignore'):
        prs = f(e, sz)
    except Unsup as ex:
      ctx.ob(m.label + ' ' + key, None, rule, where(m, name), 'not interpretable: %s' % ex)
      return None
    except Misfit as ex:
      misfit += 1
      why = 'sizes %s: shapes do not fit: %s' % (sz, ex)
      continue
    except Exception as ex:
      why = repr(ex)
      continue
    finally:
      met |= valu.conditions(e.memo)
    for got, want in prs:
      got, want = np.asarray(got, float), np.asarray(want, float)
      if got.shape != want.shape:
        try:
          got, want = np.broadcast_arrays(got, want)
        except ValueError:
          bad = 'sizes %s: shape %s instead of %s' % (sz, got.shape, want.shape)
          break
      fin = np.isfinite(got) & np.isfinite(want)
      if np.isfinite(want).any() and not np.isfinite(got)[np.isfinite(want)].all():
        bad = 'sizes %s: not finite where %s is expected' % (sz, want[np.isfinite(want)][:3])
        break
      d = np.where(fin, np.abs(got - want), 0)
      if d.size and (d > tol * (1 + np.where(fin, np.abs(want), 0))).any():
        k = np.unravel_index(np.argmax(d), d.shape)
        bad = 'sizes %s: %.6g instead of %.6g at %s' % (sz, got[k], want[k], tuple(int(q) for q in k))
        break
      if fin.any() or not got.size:
        seen += 1
    if bad:
      break
  if not bad and misfit > 1 and not seen:
    bad = why
  if bad:
    ctx.ob(m.label + ' ' + key, False, rule, where(m, name), bad)
    return False
  ctx.ob(m.label + ' ' + key, 'generic' if seen else None, rule, where(m, name), why)
  return 'generic' if seen else None


def arr(m, v):
  a = m.I.lib.arr(v)
  if a is None:
    raise Unsup('not an array')
  return a


def usable(ctx, m, rule):
  if m.err is not None:
    if isinstance(m.err, PyRaise):
      ctx.ob(m.label + ' builds', None, rule, m.name, 'building the model raises %s' % m.err)
    else:
      ctx.ob(m.label, None, rule, m.name, 'analysis limit: %r' % m.err)
    return False
  return True


def fwd(ctx, m, x, rule, name='forward', what=''):
  """Term of forward(params, x), or None after recording why not."""
  try:
    r, _ = m.call(name, m.p, x)
    a = arr(m, r)
    if X.contains(a.t, lambda u: u.op == 'top'):
      ctx.ob('%s %s%s' % (m.label, name, what), None, rule, where(m, name), 'value unknown to the analysis')
      return None
    return a
  except PyRaise as e:
    ctx.ob('%s %s%s raises' % (m.label, name, what), bad_raise(e), rule, where(m, name), 'raises %s on valid samples' % e)
  except Unsup as e:
    ctx.ob('%s %s%s' % (m.label, name, what), None, rule, where(m, name), str(e))
  except Exception as e:
    ctx.ob('%s %s%s' % (m.label, name, what), None, rule, where(m, name), 'analysis limit: %r' % e)
  return None


def bad_raise(e):
  return False if e.args and e.args[0] in ('TypeError', 'IndexError', 'ValueError', 'NameError', 'AttributeError', 'UnboundLocalError') and getattr(
      e, 'sure', False) else None


def inputs(m):
  out = [('int', m.x), ('float', m.xf if m.oh is None else None)]
  if m.oh is not None:
    out.append(('one-hot', m.oh))
  return [(n, x) for n, x in out if x is not None]


def vag(ctx, m, x, rule, what=''):
  try:
    r, _ = m.call('get_value_and_grad', m.p, x)
    if not isinstance(r, tuple) or len(r) != 2:
      ctx.ob('%s get_value_and_grad%s' % (m.label, what), None, rule, where(m, 'get_value_and_grad'), 'not a pair')
      return None
    return arr(m, r[0]), arr(m, r[1])
  except PyRaise as e:
    ctx.ob('%s get_value_and_grad%s raises' % (m.label, what), bad_raise(e), rule, where(m, 'get_value_and_grad'), 'raises %s' % e)
  except Exception as e:
    ctx.ob('%s get_value_and_grad%s' % (m.label, what), None, rule, where(m, 'get_value_and_grad'), 'analysis limit: %r' % e)
  return None


def p10(ctx):
  """Row locality and shape."""
  from .. import rows
  rule = 'energies are per sample'
  for m in MD.models(ctx):
    if not usable(ctx, m, rule):
      continue
    for what, x in inputs(m):
      F = fwd(ctx, m, x, rule, what=' on %s samples' % what)
      if F is None:
        continue
      if F.shape is not None:
        ok = F.shape == (m.B,)
        ctx.ob('%s forward(%s) has one value per sample' % (m.label, what), ok if ok else False if len(F.shape) != 1 else None,
               'one value per sample', where(m, 'forward'), '' if ok else 'shape %s' % (tuple(X.show(X.lift(d)) for d in F.shape),))
      local(ctx, m, F.full() if F.shape is not None else F.t, 'forward(%s)' % what, 'forward', rule)
    z = m.x if m.oh is None else m.oh
    vg = vag(ctx, m, z, rule)
    if vg is not None:
      for nm, a in (('value', vg[0]), ('gradient', vg[1])):
        want = (m.B,) if nm == 'value' else z.shape
        if a.shape is not None:
          ctx.ob('%s %s shape' % (m.label, nm), True if a.shape == want else False if len(a.shape) != len(want) else None, 'one value per sample',
                 where(m, 'get_value_and_grad'), '')
        local(ctx, m, a.full() if a.shape is not None else a.t, 'get_value_and_grad ' + nm, 'get_value_and_grad', rule)
    if m.has('logratio_in_neighborhood'):
      try:
        r, _ = m.call('logratio_in_neighborhood', m.p, m.x)
        for k, q in enumerate(r[:2]):
          local(ctx, m, arr(m, q).full(), 'logratio_in_neighborhood[%d]' % k, 'logratio_in_neighborhood', rule)
      except Exception as e:
        ctx.ob('%s logratio' % m.label, None, rule, where(m, 'logratio_in_neighborhood'), repr(e))


def local(ctx, m, t, what, name, rule):
  from .. import rows
  try:
    ok = rows.local(t, m.xt, m.B)
  except Exception:
    ok = False

  def f(e, sz):
    base = np.array(e.full(t), float)
    x0 = e.full(m.xt)
    out = []
    r = np.random.RandomState(77)
    hi = 2 if X.is_const(m.C) else sz['C']
    for b in range(sz['B'])[:4]:
      x1 = np.array(x0) if m.name == 'normcut' else r.randint(0, hi, size=x0.shape)
      if m.name == 'normcut':
        for q in x1:
          r.shuffle(q)
      elif b % 2:
        x1[:] = r.randint(0, hi)   # all other samples alike: this one stands out
      x1[b] = x0[b]
      v = e.at(m.xt, x1).full(t)
      if v.shape[:1] != (sz['B'],):
        raise Unsup('shape')
      out.append((v[b], base[b]))
    return out
  decide(ctx, m, what + ' of a sample depends on that sample only', rule, name, f, n=2, proved=ok,
         tol=1e-3 if X.contains(t, lambda u: u.op == 'gradz') else 1e-5)


def p11(ctx):
  rule = 'value and gradient belong to forward'
  for m in MD.models(ctx):
    if not usable(ctx, m, rule):
      continue
    z = m.z
    F = fwd(ctx, m, z, rule, what=' on real points')
    vg = vag(ctx, m, z, rule, ' on real points')
    if F is None or vg is None:
      continue
    V, G = vg
    Ft = F.full() if F.shape is not None else F.t
    eq = X.sub(V.full() if V.shape is not None else V.t, Ft)
    decide(ctx, m, 'value', 'value equals forward', 'get_value_and_grad', lambda e, sz: [(e.ev(eq), 0.0)], n=4, proved=eq is X.ZERO)
    # the gradient is that of the sum over the batch
    S = X.rsum(Ft, F.shape, tuple(range(len(F.shape)))) if F.shape is not None else None
    if S is None:
      ctx.ob(m.label + ' gradient', None, rule, where(m, 'get_value_and_grad'), 'shape unknown')
    else:
      g = G.full()
      pr = g.op == 'gradz' and g.args[2] is z.t and X.subst(g.args[0], {g.args[1]: z.t}) is S and not X.contains(g, lambda u: u.op == 'stopgrad')
      ref = X.node('gradz', (S, z.t, z.t), z.shape)
      decide(ctx, m, 'gradient', 'gradient is that of forward', 'get_value_and_grad', lambda e, sz: [(e.ev(g), e.ev(ref))], n=4, tol=1e-4, proved=pr)
    # integer samples: value equals forward at the same sample, gradient as at the float sample
    for what, x in inputs(m):
      if what == 'int' and m.oh is not None:
        continue
      Fi = fwd(ctx, m, x, rule, what=' on %s samples' % what)
      vi = vag(ctx, m, x, rule, ' on %s samples' % what)
      if Fi is None or vi is None:
        continue
      d = X.sub(vi[0].full() if vi[0].shape is not None else vi[0].t, Fi.full() if Fi.shape is not None else Fi.t)
      decide(ctx, m, 'value on %s samples' % what, 'value equals forward', 'get_value_and_grad', lambda e, sz: [(e.ev(d), 0.0)], n=4, proved=d is X.ZERO)
      refg = X.node('gradz', (S, z.t, x.full()), x.shape) if S is not None else None
      if refg is not None:
        gi = vi[1].full()
        if refg.args[0].op and X.contains(S, lambda u: u is z.t):
          pr = gi.op == 'gradz' and gi.args[2] is refg.args[2] and not X.contains(gi, lambda u: u.op == 'stopgrad') and (
              X.subst(gi.args[0], {gi.args[1]: z.t}) is S)
          decide(ctx, m, 'gradient on %s samples' % what, 'gradient is that of forward', 'get_value_and_grad',
                 lambda e, sz: [(e.ev(gi), e.ev(refg))], n=4, tol=1e-4, proved=pr)


def enc(e, a, b):
  """The value of a; nan-free stand-in of another shape when its shapes do not fit although those of b do."""
  e.ev(b)
  try:
    return e.ev(a)
  except ValueError as ex:
    if 'broadcast' not in str(ex):
      raise
    raise Misfit(str(ex))


class Misfit(Exception):
  pass


def p14(ctx):
  rule = 'encodings of a sample agree'
  for m in MD.models(ctx):
    if not usable(ctx, m, rule):
      continue
    fi = fwd(ctx, m, m.x, rule, what=' on integer samples')
    other, nm = (m.xf, 'float') if m.oh is None else (m.oh, 'one-hot')
    fo = fwd(ctx, m, other, rule, what=' on %s samples' % nm)
    if fi is None or fo is None:
      continue
    a = fi.full() if fi.shape is not None else fi.t
    b = fo.full() if fo.shape is not None else fo.t
    d = X.sub(a, b)
    decide(ctx, m, 'integer and %s samples have the same energy' % nm, rule, 'forward', lambda e, sz: [(enc(e, a, b), e.ev(b))], proved=d is X.ZERO)
    if m.oh is not None and fi.shape is not None:
      ctx.ob('%s shape on integer samples' % m.label, fi.shape == fo.shape or (False if len(fi.shape) != len(fo.shape) else None), rule,
             where(m, 'forward'))


def co_models(ctx, rule):
  n = 0
  for m in MD.models(ctx):
    if m.graph and usable(ctx, m, rule):
      n += 1
      yield m


def p13(ctx):
  rule = 'temperature only scales'
  for m in co_models(ctx, rule):
    T = m.pat['temperature']
    F = fwd(ctx, m, m.x, rule)
    if F is None:
      continue
    FT = X.mul(F.full(), T)
    F1 = X.subst(F.full(), {T: X.ONE if hasattr(X, 'ONE') else X.const(1)})
    free = not X.contains(FT, lambda u: u is T)
    d = X.sub(FT, F1)
    decide(ctx, m, 'forward times temperature is the objective at temperature one', 'energy is objective over temperature', 'forward',
           lambda e, sz: [(e.ev(FT), e.ev(F1))], proved=free and d is X.ZERO)
    if m.has('evaluate'):
      V = fwd(ctx, m, m.x, rule, 'evaluate')
      if V is not None:
        v = V.full()
        dd = X.sub(v, F1)
        decide(ctx, m, 'evaluate returns the objective at temperature one', 'evaluation undoes the temperature', 'evaluate',
               lambda e, sz: [(e.ev(v), e.ev(F1))], proved=dd is X.ZERO)
    vg = vag(ctx, m, m.z, rule)
    if vg is not None:
      for nm, a in (('value', vg[0]), ('gradient', vg[1])):
        at = a.full()
        a1 = X.subst(at, {T: X.const(1)})
        d2 = X.sub(X.mul(at, T), a1)
        decide(ctx, m, nm + ' scales with one over temperature', 'energy is objective over temperature', 'get_value_and_grad',
               lambda e, sz: [(e.ev(at) * e.ev(T), e.ev(a1))], n=2, tol=1e-4, proved=d2 is X.ZERO)
    if m.has('logratio_in_neighborhood'):
      try:
        r, _ = m.call('logratio_in_neighborhood', m.p, m.x)
        lr = arr(m, r[1]).full() if len(r) == 4 else None
        if lr is not None:
          l1 = X.subst(lr, {T: X.const(1)})

          def g(e, sz):
            a, b = e.ev(lr) * e.ev(T), e.ev(l1)
            keep = (np.abs(a) < 1e6) & (np.abs(b) < 1e6)
            return [(np.where(keep, a, 0), np.where(keep, b, 0))]
          decide(ctx, m, 'log ratios scale with one over temperature', 'energy is objective over temperature', 'logratio_in_neighborhood', g)
      except PyRaise as e:
        pass


def p12(ctx):
  rule = 'padding has no effect'
  for m in co_models(ctx, rule):
    todo = [('forward', fwd(ctx, m, m.x, rule))]
    vg = vag(ctx, m, m.x, rule)
    if vg is not None:
      todo.append(('get_value_and_grad', vg[0]))
    if m.has('evaluate'):
      todo.append(('evaluate', fwd(ctx, m, m.x, rule, 'evaluate')))
    for name, F in todo:
      if F is None:
        continue
      t = F.full()

      def f(e, sz, t=t):
        base = np.array(e.full(t), float)
        x0 = np.array(e.full(m.xt))
        mk = np.asarray(e.names['p_mask'])
        pads = np.where(mk == 0)[0]
        out = []
        if m.name != 'normcut':
          hi = 2
          for v in range(hi):
            x1 = x0.copy()
            x1[:, pads] = v
            out.append((e.at(m.xt, x1).full(t), base))
        return out or [(base, base)]
      if m.name != 'normcut':
        decide(ctx, m, name + ': values of padded nodes', 'padded nodes have no effect', name, f)

      def g(e, sz, t=t):
        base = np.array(e.full(t), float)
        out = []
        em = np.asarray(e.names['p_edge_mask'])
        keep = np.where(em == 1)[0]
        # the same graph with fewer padding entries
        nm = dict(e.names)
        for k in ('p_edge_from', 'p_edge_to', 'p_edge_mask', 'p_edge_weight'):
          nm[k] = np.concatenate([np.asarray(e.names[k])[keep], np.zeros(1, np.asarray(e.names[k]).dtype)])
        nm['E'] = len(keep) + 1
        e2 = Ev(e.seed, names=nm)
        e2.tame = False
        e2.env = {m.xt: e.full(m.xt), m.pat['temperature']: e.ev(m.pat['temperature'])}
        out.append((e2.full(t), base))
        nm = dict(nm)
        for k in ('p_edge_from', 'p_edge_to', 'p_edge_mask', 'p_edge_weight'):
          nm[k] = np.asarray(e.names[k])[keep]
        nm['E'] = len(keep)
        e3 = Ev(e.seed, names=nm)
        e3.tame = False
        e3.env = dict(e2.env)
        out.append((e3.full(t), base))
        return out
      decide(ctx, m, name + ': number of padded edges', 'padded edges have no effect', name, g)
      # the graph without any padding at all, through the reference objective
      if name == 'forward':
        decide(ctx, m, name + ' sees real edges and nodes only', 'padded edges have no effect', name,
               lambda e, sz, t=t: [(e.full(t), reference(m, e))])


def reference(m, e):
  """The objective named by the model, written over the real part of a padded instance."""
  nm = e.names
  x = np.array(e.full(m.xt))
  n = m.name
  if m.graph:
    T = float(e.ev(m.pat['temperature']))
    em = np.asarray(nm['p_edge_mask']) == 1
    ef, et, w = np.asarray(nm['p_edge_from'])[em], np.asarray(nm['p_edge_to'])[em], np.asarray(nm['p_edge_weight'])[em]
    mk = np.asarray(nm['p_mask'])
    pen = m.I.obj(m.m).attrs.get('penalty_coeff')
    pc = float(e.ev(m.I.lib.arr(pen).t)) if pen is not None else None
    if n == 'maxcut':
      return np.array([sum(w[k] for k in range(len(w)) if r[ef[k]] != r[et[k]]) for r in x]) / T
    if n == 'mis':
      cfgp = float(e.ev(X.atom('cfg_penalty', (), lo=0, hi=None, pos=True)))
      return np.array([(r * mk).sum() - cfgp * sum(r[ef[k]] * r[et[k]] for k in range(len(w))) for r in x]) / T
    if n == 'maxclique':
      cfgp = float(e.ev(m.over['penalty'].t)) if 'penalty' in m.over else 2.0
      out = []
      for r in x:
        k = (r * mk).sum()
        out.append(k - cfgp * (k * (k - 1) / 2 - sum(r[ef[j]] * r[et[j]] for j in range(len(w)))))
      return np.array(out) / T
    if n == 'normcut':
      C = int(e.names['C'])
      N = x.shape[1]
      deg = np.bincount(np.concatenate([ef, et]), minlength=N)
      res = []
      pen = m.over['penalty']
      for r in x:
        cut = np.zeros(C)
        for k in range(len(ef)):
          if r[ef[k]] != r[et[k]]:
            cut[r[ef[k]]] += 1
            cut[r[et[k]]] += 1
        if isinstance(pen, float):
          vol = np.array([deg[r == c].sum() for c in range(C)])
          res.append(-sum(cut[c] / vol[c] if vol[c] else np.nan for c in range(C)))
        else:
          p = float(e.ev(pen.t))
          tol = float(e.ev(m.over['tolerance'].t)) * N
          sz = np.array([(r == c).sum() for c in range(C)])
          if m.over['stype'] == 'quad':
            nc = ((sz - N / C) ** 2).sum()
          else:
            nc = (np.maximum(sz - N / C - tol, 0) ** 2 + np.maximum(N / C - tol - sz, 0) ** 2).sum()
          res.append(-(cut.sum() + p * nc))
      return np.array(res) / T
  P = {k: np.array(e.full(t), float) for k, t in m.pat.items()}
  cf = lambda k, **q: float(e.ev(X.atom('cfg_' + k, (), **dict(dict(lo=0, hi=None, pos=True), **q))))
  if n == 'bernoulli':
    return (x * P['params']).sum(-1)
  if n == 'categorical':
    return np.array([sum(P['params'][i, r[i]] for i in range(len(r))) for r in x])
  if n == 'ising':
    s = 2 * x - 1
    wh, wv, b = P['params']
    return -((wh[:, :-1] * s[:, :, 1:] * s[:, :, :-1]).sum((1, 2)) + (wv[:-1] * s[:, 1:] * s[:, :-1]).sum((1, 2)) + (b * s).sum((1, 2)))
  if n == 'potts':
    wh, wv, b = P['params']
    out = []
    for r in x:
      t = 0.0
      for i in range(r.shape[0]):
        for j in range(r.shape[1]):
          t += b[i, j, r[i, j]]
          if j + 1 < r.shape[1] and r[i, j] == r[i, j + 1]:
            t += wh[i, j, r[i, j]]
          if i + 1 < r.shape[0] and r[i, j] == r[i + 1, j]:
            t += wv[i, j, r[i, j]]
      out.append(-t)
    return np.array(out)
  if n == 'fhmm':
    al, be, sg = cf('alpha', hi=1), cf('beta', hi=1), cf('sigma')
    out = []
    L, K = x.shape[1:]
    y = P['y'].reshape(-1)
    b0 = P['b'].reshape(-1)[0]
    if X.is_const(m.C):
      w = P['w'].reshape(-1)
      for r in x:
        t = sum(np.log(al) if v else np.log(1 - al) for v in r[0])
        for l in range(1, L):
          t += sum(np.log(be) if r[l, k] == r[l - 1, k] else np.log(1 - be) for k in range(K))
        t -= ((y - r @ w - b0) ** 2).sum() / (2 * sg ** 2)
        out.append(t)
      return np.array(out)
    C = int(e.names['C'])
    la, w = P['alpha'].reshape(-1), P['w']
    for r in x:
      t = sum(la[v] for v in r[0])
      for l in range(1, L):
        t += sum(np.log(be) if r[l, k] == r[l - 1, k] else np.log((1 - be) / (C - 1)) for k in range(K))
      mean = np.array([sum(w[k, r[l, k]] for k in range(K)) for l in range(L)])
      t -= ((y - mean - b0) ** 2).sum() / (2 * sg ** 2)
      out.append(t)
    return np.array(out)
  if n == 'rbm':
    if X.is_const(m.C):
      return np.logaddexp(0, x @ P['w'] + P['b_h']).sum(-1) + x @ P['b_v']
    out = []
    for r in x:
      h = P['b_h'] + sum(P['w'][:, i, r[i]] for i in range(len(r)))
      out.append(np.logaddexp(0, h).sum() + sum(P['b_v'][i, r[i]] for i in range(len(r))))
    return np.array(out)
  raise Unsup('no reference for ' + n)


def p26(ctx):
  rule = 'energy is that of the named distribution'
  for m in MD.models(ctx):
    if not usable(ctx, m, rule):
      continue
    F = fwd(ctx, m, m.x, rule)
    if F is None:
      continue
    t = F.full() if F.shape is not None else F.t
    if m.name == 'resnet':
      resnet(ctx, m, t)
      continue
    decide(ctx, m, 'forward', rule, 'forward', lambda e, sz: [(e.full(t), reference(m, e))], pad=m.name != 'normcut')
    if m.name == 'normcut' and m.over.get('penalty') == 0.0:
      def empty(seed, sz):        # every node outside the last part
        return {'x': np.array([[(k + b) % (sz['C'] - 1) for k in range(sz['N'])] for b in range(sz['B'])])}

      def worse(e, sz):
        got = np.asarray(e.full(t), float) * float(e.ev(m.pat['temperature']))
        return [(got < -sz['C'], np.ones(got.shape))]       # without empty parts, no energy is below this
      decide(ctx, m, 'a division with an empty part is worse than any other', rule, 'forward', worse, pad=False, names=empty)
    if m.name == 'bernoulli':
      for nm, f in (('get_expected_val', lambda p: 1 / (1 + np.exp(-p))), ('get_var', lambda p: np.exp(-p) / (1 + np.exp(-p)) ** 2)):
        try:
          r, _ = m.call(nm, m.p)
          a = arr(m, r).full()
          decide(ctx, m, nm, 'exact moments of the factorised distribution', nm, lambda e, sz: [(e.ev(a), f(e.full(m.pat['params'])))])
        except PyRaise as e:
          ctx.ob(m.label + ' ' + nm, None, rule, where(m, nm), str(e))
    if m.name == 'rbm' and X.is_const(m.C):
      rbm_cond(ctx, m)


def resnet(ctx, m, t):
  rule = 'deep energy is network plus base distribution'
  I = m.I
  try:
    net = I.getattr(m.m, 'net')
    v = arr(m, I.call(I.getattr(net, 'apply'), [I.mkdict({'params': m.p})], {'x': m.x}))
    nt = v.full()
  except Exception as e:
    ctx.ob(m.label + ' forward', None, rule, where(m, 'forward'), repr(e))
    return

  def f(e, sz):
    x = np.array(e.full(m.xt), float)
    n = np.array(e.full(nt), float)
    if not m.mean:
      return [(e.full(t), n)]
    dm = np.array(e.full(X.atom('data_mean', m.dims, lo=0, hi=1, pos=True)), float)
    base = (x * np.log(dm) + (1 - x) * np.log(1 - dm)).sum(-1)
    b = float(e.ev(m.pat['temperature'])) if m.temp else 1.0
    return [(e.full(t), base + b * n)]
  decide(ctx, m, 'forward', rule, 'forward', f)


def rbm_cond(ctx, m):
  rule = 'conditionals of the joint behind the free energy'
  Hd = m.pat['b_h'].shape
  h = Arr(X.atom('h', (m.B,) + Hd, lo=0, hi=1, isint=True, is01=True), (m.B,) + Hd, 'int')
  key = Arr(X.atom('rng', ()), (), 'key')
  sg = lambda v: 1 / (1 + np.exp(-v))
  for nm, x, ref in (('step_h', m.x, lambda e: sg(e.full(m.xt) @ e.full(m.pat['w']) + e.full(m.pat['b_h']))),
                     ('step_v', h, lambda e: sg(e.full(h.t) @ e.full(m.pat['w']).T + e.full(m.pat['b_v'])))):
    try:
      r, evs = m.call(nm, m.p, key, x)
      a = arr(m, r)
    except PyRaise as e:
      ctx.ob(m.label + ' ' + nm, None, rule, where(m, nm), str(e))
      continue
    t = a.t
    if t.op != 'draw' or t.args[0] != 'bernoulli':
      dr = [u for u in X.subterms(t) if u.op == 'draw']
      ctx.ob(m.label + ' ' + nm, None, rule, where(m, nm), 'not a single Bernoulli draw (%d draws)' % len(dr))
      continue
    p = t.args[2]
    decide(ctx, m, nm, rule, nm, lambda e, sz: [(np.broadcast_to(e.ev(p), ref(e).shape), ref(e))])


def p28(ctx):
  rule = 'neighbourhood log ratios are energy differences'
  for m in MD.models(ctx):
    if not usable(ctx, m, rule) or not m.has('logratio_in_neighborhood'):
      continue
    F = fwd(ctx, m, m.x, rule)
    if F is None:
      continue
    ft = F.full()
    nm = 'logratio_in_neighborhood'
    try:
      r, _ = m.call(nm, m.p, m.x)
    except PyRaise as e:
      ctx.ob('%s %s raises' % (m.label, nm), bad_raise(e), rule, where(m, nm), str(e))
      continue
    if not isinstance(r, tuple):
      ctx.ob('%s %s' % (m.label, nm), None, rule, where(m, nm), 'unknown result')
      continue
    ok = len(r) == 4
    ctx.ob('%s %s returns energy, log ratios, cost and move' % (m.label, nm), ok, 'interface of the neighbourhood', where(m, nm),
           '' if ok else '%d values are returned, the samplers unpack 4' % len(r))
    if not ok:
      continue
    try:
      ll, lr = arr(m, r[0]).full(), arr(m, r[1]).full()
    except Exception as e:
      ctx.ob('%s %s' % (m.label, nm), None, rule, where(m, nm), repr(e))
      continue
    pc = m.name == 'normcut'
    d = X.sub(ll, ft)
    ref = ft
    decide(ctx, m, 'energy of the current sample', rule, nm, lambda e, sz: [(e.full(ll), e.full(ft))], proved=d is X.ZERO, pad=not pc)

    def f(e, sz):
      base = np.array(e.full(ft), float)
      L = np.array(e.full(lr), float)
      x0 = np.array(e.full(m.xt))
      mk = np.asarray(e.names.get('p_mask', np.ones(x0.shape[1])))
      got, want = [], []
      for i in range(x0.shape[1]):
        if not mk[i]:
          continue
        if L.ndim == 3:
          for c in range(L.shape[2]):
            x1 = x0.copy()
            x1[:, i] = c
            got.append(L[:, i, c])
            want.append(e.at(m.xt, x1).full(ft) - base)
        else:
          x1 = x0.copy()
          x1[:, i] = 1 - x1[:, i]
          got.append(L[:, i])
          want.append(e.at(m.xt, x1).full(ft) - base)
      g, w = np.array(got), np.array(want)
      if pc:  # volumes near zero make the objective blow up
        k = (np.abs(g) < 1e5) & (np.abs(w) < 1e5)
        g, w = np.where(k, g, 0), np.where(k, w, 0)
      return [(g, w)]
    decide(ctx, m, 'log ratio of every single-site change', rule, nm, f, tol=1e-4, pad=not pc)
    c = m.I.lib.arr(r[2])
    ctx.ob('%s cost of a neighbourhood evaluation' % m.label, True if c is not None and X.nonneg(c.t) else None, 'interface of the neighbourhood', where(m, nm))
    if r[3] is not None and not pc:
      idx = Arr(X.atom('nidx', (m.B,), lo=0, hi=X.sub(m.dims[0], X.const(1)), isint=True), (m.B,), 'int')
      try:
        y = arr(m, m.I.call(r[3], [m.p, m.x, idx], {})).full()
      except PyRaise as e:
        ctx.ob('%s move' % m.label, bad_raise(e), rule, where(m, nm), 'the move function raises %s' % e)
        continue

      def h(e, sz):
        x0 = np.array(e.full(m.xt))
        ii = np.array(e.full(idx.t))
        want = x0.copy()
        want[np.arange(len(ii)), ii] = 1 - want[np.arange(len(ii)), ii]
        return [(e.full(y), want)]
      decide(ctx, m, 'the move flips the chosen site of each sample', 'neighbour move', nm, h)


def p29(ctx):
  rule = 'initial samples are valid'
  for m in MD.models(ctx):
    if not usable(ctx, m, rule):
      continue
    nm = 'get_init_samples'
    n = Arr(MD.ip('B'), (), 'int')
    try:
      r, evs = m.call(nm, Arr(X.atom('rng', ()), (), 'key'), n)
      a = arr(m, r)
    except PyRaise as e:
      ctx.ob('%s %s raises' % (m.label, nm), bad_raise(e), rule, where(m, nm), str(e))
      continue
    except Exception as e:
      ctx.ob('%s %s' % (m.label, nm), None, rule, where(m, nm), repr(e))
      continue
    want = (m.B,) + m.dims
    if a.shape is None:
      ctx.ob('%s init shape' % m.label, None, rule, where(m, nm))
    else:
      same = len(a.shape) == len(want) and all(X.sub(X.lift(p), X.lift(q)) is X.ZERO for p, q in zip(a.shape, want))
      st = True if same else False if len(a.shape) != len(want) else None
      if st is None:
        try:
          e = next(points(m))[2]
          st = False if e.shp(a.shape) != e.shp(want) else None
        except Exception:
          pass
      ctx.ob('%s init shape' % m.label, st, 'one sample of the model\'s shape per chain', where(m, nm),
             '' if same else 'shape %s' % (tuple(X.show(X.lift(d)) for d in a.shape),))
    ctx.ob('%s init dtype' % m.label, True if a.dtype == 'int' else False if a.dtype == 'float' else None, 'integer categories', where(m, nm), a.dtype)
    lo, hi = X.rng(a.t)
    top = X.sub(m.C, X.const(1))
    inr = lo is not None and hi is not None and X.nonneg(lo) and X.nonneg(X.sub(top, hi))

    def f(e, sz):
      v = np.array(e.full(a.full() if a.shape is not None else a.t))
      C = 2 if X.is_const(m.C) else sz['C']
      return [(np.minimum(v, 0), np.zeros(v.shape)), (np.maximum(v - (C - 1), 0), np.zeros(v.shape)), (v - np.round(v), np.zeros(v.shape))]
    decide(ctx, m, 'init values are categories', 'valid categories', nm, f, proved=inr)

    def g(e, sz):
      C = 2 if X.is_const(m.C) else sz['C']
      seen = set()
      col = [set() for _ in range(int(np.prod(e.shp(a.shape)[1:])))]
      for k in range(300):
        if k > 10 and all(len(c) >= C for c in col):
          break
        e2 = Ev(1000 + k, names=e.names)
        v = np.array(e2.full(a.full() if a.shape is not None else a.t))
        seen |= set(np.unique(np.round(v)).astype(int).tolist())
        for j, c in enumerate(v.reshape(v.shape[0], -1).T):
          col[j] |= set(np.round(c).astype(int).tolist())
      full = set(range(C))
      return [([len(full - seen), max(len(full - c) for c in col)], [0, 0])]
    decide(ctx, m, 'every category is possible at every site', 'no category is unreachable at the start', nm, g, n=2)
    if m.name == 'normcut':
      def h(e, sz):
        v = np.array(e.full(a.full() if a.shape is not None else a.t))
        return [([len(np.unique(q)) for q in v], [min(sz['C'], v.shape[1])] * len(v))]
      decide(ctx, m, 'every partition starts non-empty', 'no empty partition at the start', nm, h)
    # chains are drawn independently
    def ind(e, sz):
      # no chain's start may determine that of another one
      vs = [np.array(Ev(2000 + k, names=e.names).full(a.full() if a.shape is not None else a.t)) for k in range(48)]
      vs = np.round(np.stack([v.reshape(v.shape[0], -1) for v in vs])).astype(int)

      def fixed(p, q):
        mp = {}
        return len(set(p)) > 1 and all(mp.setdefault(u, w) == w for u, w in zip(p, q))
      bad = [(i, j) for i in range(vs.shape[1]) for j in range(i) if any(fixed(vs[:, i, k], vs[:, j, k]) for k in range(vs.shape[2]))]
      return [([float(len(bad))], [0.0])]
    decide(ctx, m, 'chains start independently', 'chains start independently', nm, ind, n=4)


def p01m(ctx):
  from . import rng
  for m in MD.models(ctx):
    if not usable(ctx, m, 'fresh randomness'):
      continue
    if not m.graph:
      if m.init_err is None:
        rng.check(ctx, m.I, m.label + ' make_init_params', m.init_evs, roots=('rng0',))
    try:
      mark = len(m.I.events)
      m.call('get_init_samples', Arr(X.atom('rng', ()), (), 'key'), Arr(MD.ip('B'), (), 'int'))
      rng.check(ctx, m.I, m.label + ' get_init_samples', m.I.events[mark:], roots=('rng',))
    except Exception as e:
      ctx.ob(m.label + ' keys', None, 'fresh randomness', where(m, 'get_init_samples'), repr(e))


def p30(ctx):
  """Parameters made by make_init_params."""
  rule = 'initial parameters fit the model'
  for m in MD.models(ctx):
    if m.graph or not usable(ctx, m, rule):
      continue
    nm = 'make_init_params'
    if m.init_err is not None:
      ctx.ob('%s %s' % (m.label, nm), bad_raise(m.init_err), rule, where(m, nm), 'raises %s' % m.init_err)
      continue
    for ev in m.init_evs:
      if ev['kind'] != 'netinit':
        continue
      try:
        a = arr(m, ev['out'])
        t = a.full() if a.shape is not None else a.t
      except Exception as ex:
        ctx.ob('%s network is initialised on a valid sample' % m.label, None, rule, where(m, nm), repr(ex))
        continue

      def f(e, sz):
        try:
          v = np.asarray(e.full(t), float)
        except ValueError as ex:
          if 'broadcast' in str(ex) or 'shape' in str(ex):
            return [([1.0], [0.0])]
          raise
        return [(np.isfinite(v), np.ones(v.shape)), ([v.size], [1])]
      decide(ctx, m, 'network is initialised on a valid sample', rule, nm, f)
    o = m.I.obj(m.init_params) if isinstance(m.init_params, Ref) else None
    if not isinstance(o, DictObj):
      continue
    # the parameters and the samples a run starts from are accepted by forward
    try:
      x0, _ = m.call('get_init_samples', Arr(X.atom('rng', ()), (), 'key'), Arr(MD.ip('B'), (), 'int'))
      F, _ = m.call('forward', m.init_params, x0)
      F = arr(m, F)
      T = F.full() if F.shape is not None else F.t

      def g(e, sz):
        try:
          v = np.asarray(e.full(T), float)
        except ValueError as ex:
          if 'broadcast' in str(ex):
            return [([1.0], [0.0])]
          raise
        return [(np.isfinite(v), np.ones(v.shape)), (v.shape, (sz['B'],))]
      if any(isinstance(v, Arr) and v.t.op == 'ext' for v in o.items.values()):
        raise Unsup('opaque parameters')
      decide(ctx, m, 'energy of the initial samples under the initial parameters', rule, 'forward', g)
    except PyRaise as ex:
      ctx.ob('%s forward on the initial state' % m.label, bad_raise(ex), rule, where(m, 'forward'), str(ex))
    except Exception as ex:
      ctx.ob('%s forward on the initial state' % m.label, None, rule, where(m, 'forward'), repr(ex))
    init_ref(ctx, m, o)


def init_ref(ctx, m, o):
  rule = 'initial parameters follow the configuration'
  nm = 'make_init_params'

  def get(k):
    a = arr(m, o.items[k])
    return a.full()

  def other(e, **k):
    e2 = Ev(e.seed, names=dict(e.names, **{'cfg_' + q: p for q, p in k.items()}))
    e2.tame, e2.loops = e.tame, e.loops
    return e2

  def cfg(e, k):
    return float(e.ev(X.atom('cfg_' + k, (), lo=0, hi=1 if k in ('alpha', 'beta') else None, pos=True)))
  try:
    if m.name in ('bernoulli', 'categorical'):
      t = get('params')

      def f(e, sz):
        s = cfg(e, 'init_sigma')
        v = np.asarray(e.full(t), float)
        w = np.asarray(other(e, init_sigma=2 * s).full(t), float)
        return [(w, 2 * v), ([np.std(v) > 0], [1])]
      decide(ctx, m, 'parameters scale with init_sigma', rule, nm, f)
    elif m.name in ('ising', 'potts'):
      t = get('params')

      def f(e, sz):
        lam, mu, s = cfg(e, 'lambdaa'), cfg(e, 'mu'), cfg(e, 'init_sigma')
        v = np.asarray(e.full(t), float)
        z = np.asarray(other(e, init_sigma=0.0).full(t), float)
        sh = v.shape[1:]
        ii = np.indices(sh)
        io = np.where((ii[0] / sh[0] - .5) ** 2 + (ii[1] / sh[1] - .5) ** 2 < .5 / np.pi, 1, -1)
        return [(v[:2], np.full((2,) + sh, -lam)), (z[2], mu * io), (np.abs(v[2] - z[2]) <= s + 1e-9, np.ones(sh)),
                ([np.std((v[2] - z[2]).reshape(-1)) > 1e-3 * s], [1])]
      decide(ctx, m, 'couplings, field and its spread', rule, nm, f)
    elif m.name == 'fhmm':
      y, w, b = get('y'), get('w'), get('b')

      def f(e, sz):
        def val(t, **k):
          return np.asarray(other(e, **k).full(t), float)
        y0 = val(y, sigma=0.0).reshape(-1)
        y1, y2 = val(y, sigma=1.0).reshape(-1), val(y, sigma=2.0).reshape(-1)
        stay = val(y, sigma=0.0, beta=1.0).reshape(-1)
        out = [(y2 - y0, 2 * (y1 - y0)), (stay, np.full(stay.shape, stay[0])), ([np.abs(y1 - y0).max() > 1e-3], [1])]
        if X.is_const(m.C):
          W, Bb = np.asarray(e.full(w), float), np.asarray(e.full(b), float)
          one = val(y, sigma=0.0, beta=1.0, alpha=1.0).reshape(-1)
          out.append((one, np.full(one.shape, W.sum() + Bb.sum())))
          zero = val(y, sigma=0.0, beta=1.0, alpha=0.0).reshape(-1)
          out.append((zero, np.full(zero.shape, Bb.sum())))
          alt = val(y, sigma=0.0, beta=0.0, alpha=1.0).reshape(-1)
          out.append((alt, np.array([(W.sum() if i % 2 == 0 else 0) + Bb.sum() for i in range(len(alt))])))
        return out
      decide(ctx, m, 'observations are generated by the model', rule, nm, f)
      if not X.is_const(m.C):
        al = get('alpha')

        def g(e, sz):
          v = np.exp(np.asarray(e.full(al), float))
          return [(v.sum(), 1.0), (v[0], 1 - cfg(e, 'alpha')), (v > 0, np.ones(v.shape))]
        decide(ctx, m, 'initial state distribution', rule, nm, g)
  except Exception as ex:
    ctx.ob('%s %s' % (m.label, nm), None, rule, where(m, nm), repr(ex))


def lsm(v):
  m = v.max(-1, keepdims=True)
  return v - m - np.log(np.exp(v - m).sum(-1, keepdims=True))


MASK = 103       # id of [MASK] in the BERT vocabulary


def p31(ctx):
  """Text infilling: pseudo-log-likelihood of the masked language model, task by task."""
  rule = 'pseudo-log-likelihood of the masked language model'
  T = MD.Tx
  for rand in (False, True):
    m = T(ctx.repo, rand)
    m.label = 'text_infilling(random_init=%s)' % rand
    key = lambda n: Arr(X.atom(n, ()), (), 'key')
    try:
      m.build()
      m.err = None
    except Exception as ex:
      ctx.ob(m.label + ' builds', bad_raise(ex) if isinstance(ex, PyRaise) else None, rule, 'discs/models/text_infilling.py', repr(ex))
      continue
    for j in range(len(T.TASKS) + 1):
      try:
        p = m.task(key('rng%d' % j))
      except PyRaise as ex:
        ctx.ob('%s task %d' % (m.label, j), bad_raise(ex), 'tasks are served one by one', where(m, 'make_init_params'), 'raises %s' % ex)
        break
      except Exception as ex:
        ctx.ob('%s task %d' % (m.label, j), None, 'tasks are served one by one', where(m, 'make_init_params'), repr(ex))
        break
      if j == len(T.TASKS):
        ctx.ob('%s ends after the last task' % m.label, True if p is None else False if isinstance(p, Ref) else None, 'every task is served exactly once, then None',
               where(m, 'make_init_params'))
        break
      if p is None:
        ctx.ob('%s task %d' % (m.label, j), False, 'every task is served exactly once, then None', where(m, 'make_init_params'), 'None although tasks remain')
        break
      task(ctx, m, j, p, rand, key)
    ctx.saw(m.I)


def task(ctx, m, j, p, rand, key):
  rule = 'pseudo-log-likelihood of the masked language model'
  T = MD.Tx
  pos, L = tuple(T.TASKS[j]['infill_pos']), T.LEN[j]
  n = len(pos)
  lab = m.label
  sz = [dict(B=2, C=105), dict(B=3, C=104)]

  def dec(what, rule, name, f, proved=False):
    if proved:
      ctx.ob('%s task %d %s' % (lab, j, what), True, rule, where(m, name))
      return
    seen, bad = 0, None
    try:
      for i, s in enumerate(sz):
        e = Ev(i + 1, names=dict(s))
        e.tame = False
        e.loops = valu.loop_index(m.I.loops)
        with np.errstate(all='ignore'):
          for got, want in f(e, s):
            got, want = np.asarray(got, float), np.asarray(want, float)
            if got.shape != want.shape:
              bad = 'shape %s instead of %s' % (got.shape, want.shape)
            elif not np.allclose(got, want, rtol=1e-4, atol=1e-4):
              k = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
              bad = '%.6g instead of %.6g' % (got[k], want[k])
            else:
              seen += 1
            if bad:
              ctx.ob('%s task %d %s' % (lab, j, what), False, rule, where(m, name), bad)
              return
    except Exception as ex:
      ctx.ob('%s task %d %s' % (lab, j, what), None, rule, where(m, name), repr(ex))
      return
    ctx.ob('%s task %d %s' % (lab, j, what), 'generic' if seen else None, rule, where(m, name))

  def ids(e):
    return [e.full(X.atom('%s%d' % (q, j), (1, L), lo=0, hi=X.sub(m.C, X.const(1)) if q == 'ids' else X.const(1), isint=True)) for q in ('ids', 'att', 'tt')]

  def ref(e, z, C):
    i, a, t = ids(e)
    out = []
    for row in np.asarray(z, float):
      tot = 0.0
      for k in range(n):
        y = np.array(row)[None]
        y[0, k] = np.eye(C)[MASK]
        tot += float(lsm(e.bertf(y, i, pos, a, t)[0, pos[k]]) @ row[k])
      out.append(tot)
    return np.array(out)
  m.sample(n)
  for what, x in (('integer', m.x), ('one-hot', m.oh)):
    def run(nm, *a):
      try:
        r, _ = m.call(nm, *a)
        return r
      except PyRaise as ex:
        ctx.ob('%s task %d %s(%s)' % (lab, j, nm, what), bad_raise(ex), rule, where(m, nm), 'raises %s' % ex)
      except Exception as ex:
        ctx.ob('%s task %d %s(%s)' % (lab, j, nm, what), None, rule, where(m, nm), 'analysis limit: %r' % ex)
      return None
    F = run('forward', p, x)
    if F is not None:
      try:
        F = arr(m, F)
        z = m.oh if what == 'integer' else x
        dec('energy of %s samples' % what, rule, 'forward', lambda e, s: [(e.full(F.full()), ref(e, e.full(z.full()), s['C']))])
      except Exception as ex:
        ctx.ob('%s task %d energy' % (lab, j), None, rule, where(m, 'forward'), repr(ex))
    if what == 'integer':
      continue
    r = run('get_value_and_grad', p, x)
    if r is not None:
      try:
        V, G = (arr(m, q) for q in r)
        dec('value at %s samples' % what, 'value equals forward', 'get_value_and_grad', lambda e, s: [(e.full(V.full()), ref(e, e.full(x.full()), s['C']))])

        def g(e, s):
          z0 = np.array(e.full(x.full()), float)
          got = np.asarray(e.full(G.full()), float)
          if got.shape != z0.shape:
            return [(got, z0)]
          out = []
          rr = np.random.RandomState(5)
          for _ in range(6):        # directional derivatives
            d = rr.normal(size=z0.shape)
            h = 1e-4
            num = (ref(e, z0 + h * d, s['C']) - ref(e, z0 - h * d, s['C'])) / (2 * h)
            out.append(((got * d).sum((1, 2)), num))
          return out
        if not rand and n < 6:
          dec('gradient at %s samples' % what, 'gradient is that of forward', 'get_value_and_grad', g)
      except Exception as ex:
        ctx.ob('%s task %d value and gradient' % (lab, j), None, rule, where(m, 'get_value_and_grad'), repr(ex))
  # start
  rule = 'a run starts from valid tokens'
  mark = len(m.I.events)
  try:
    r, _ = m.call('get_init_samples', key('rngi'), 1)
    a = arr(m, r)
    dec('initial sample shape', rule, 'get_init_samples', lambda e, s: [(e.shp(a.shape), (1, n))], proved=a.shape == (1, n))
    lo, hi = X.rng(a.t)
    inr = lo is not None and hi is not None and X.nonneg(lo) and X.nonneg(X.sub(X.sub(m.C, X.const(1)), hi))
    dec('initial tokens are in the vocabulary', rule, 'get_init_samples',
        lambda e, s: [(np.clip(e.full(a.full()), 0, s['C'] - 1), e.full(a.full()))], proved=inr)
    ds = [ev for ev in m.I.events[mark:] if ev['kind'] == 'draw']
    u = a.t
    while u.op in ('reshape', 'bcast', 'transpose'):
      u = u.args[0]
    if not inr and u.op == 'draw' and u.args[0] == 'randint':      # every value of the range is drawn
      dec('range of the initial tokens', rule, 'get_init_samples',
          lambda e, s: [([float(e.ev(lo)) >= 0, float(e.ev(hi)) <= s['C'] - 1], [1, 1])])
    if not X.contains(a.t, {key('rngi').t}) and not X.contains(a.t, lambda u: u.op in ('top', 'ext', 'call', 'item')):
      ctx.ob('%s task %d initial tokens are drawn' % (lab, j), False, rule, where(m, 'get_init_samples'), 'the initial tokens do not depend on the random key')
    if not rand and len(ds) == 1 and ds[0].get('dist') == 'categorical':
      lg = logits(m, ds[0])
      if lg is not None:
        def f(e, s):
          i, at, t = ids(e)
          y = np.zeros((1, n, s['C']))
          y[:, :, MASK] = 1
          return [(lsm(np.asarray(e.full(lg), float)), lsm(e.bertf(y, i, pos, at, t)[:, list(pos)]))]
        dec('initial tokens follow the masked language model', rule, 'get_init_samples', f)
  except PyRaise as ex:
    ctx.ob('%s task %d get_init_samples' % (lab, j), bad_raise(ex), rule, where(m, 'get_init_samples'), 'raises %s' % ex)
  except Exception as ex:
    ctx.ob('%s task %d get_init_samples' % (lab, j), None, rule, where(m, 'get_init_samples'), repr(ex))
  # decode
  rule = 'the sampled tokens fill the blanks of the sentence'
  try:
    s_ = X.atom('s', (1, n), lo=0, hi=X.sub(m.C, X.const(1)), isint=True)
    k0 = len(m.decoded)
    r, _ = m.call('decode', Arr(s_, (1, n), 'int'), p)
    if len(m.decoded) == k0 + 1:
      a = m.I.lib.arr(m.decoded[-1])

      def f(e, s):
        i = np.array(ids(e)[0])
        i[0, list(pos)] = e.full(s_)[0]
        return [(np.asarray(e.full(a.full())).reshape(-1), i[0, 1:-1])]
      dec('decoded tokens', rule, 'decode', f)
      if m.skipped:
        ctx.ob('%s task %d special tokens' % (lab, j), False, rule, where(m, 'decode'), 'tokens of the sentence or the filling that are special (such as [UNK]) are dropped')
      if isinstance(r, str):
        ctx.ob('%s task %d decoded sentence is returned' % (lab, j), r == 'DECODED' or None, rule, where(m, 'decode'))
    else:
      ctx.ob('%s task %d decode' % (lab, j), None, rule, where(m, 'decode'), 'tokenizer not used')
  except PyRaise as ex:
    ctx.ob('%s task %d decode' % (lab, j), bad_raise(ex), rule, where(m, 'decode'), 'raises %s' % ex)
  except Exception as ex:
    ctx.ob('%s task %d decode' % (lab, j), None, rule, where(m, 'decode'), repr(ex))


def logits(m, ev):
  t = ev['params'][0] if ev.get('params') else None
  return t if isinstance(t, X.T) and t.shape is not None else None
