"""Training (P24): persistent contrastive divergence protocol of the trainers, optimiser set-up, replay buffer."""
import numpy as np

from .. import interp as IN
from .. import terms as X
from .. import tdrive as TD
from ..drive import ip
from ..interp import Arr, Ref, NativeV, PyRaise, Inst
from ..valu import Ev, Unsup
from .exps import Bad, judge, keys, over, same, val, undefined

W = 'discs/learning/train.py'
MAIN = {'rbm': 'discs/learning/rbm/main_rbm_training.py', 'ebm': 'discs/learning/binary_ebm/main_binary_training.py'}
POINTS = [dict(B=3, D0=3, E=4, Ntr=9), dict(B=2, D0=5, E=3, Ntr=8, Fx_scale=60, ema=0.9995)]
RUNS = [('rbm', {}), ('ebm', {}), ('rbm', dict(steps=5, batches=2, pcd=1)), ('ebm', dict(steps=4, first=1, pcd=3)), ('rbm', dict(ndev=1, pcd=3, steps=2)), ('ebm', dict(ndev=1, steps=2))]


def p24(ctx):
  rule = 'training can be followed'
  for kind, kw in RUNS:
    x = TD.Tr(ctx.repo, kind, **kw)
    x.points, x.fail = POINTS, None
    try:
      x.run()
    except Exception as e:
      x.fail = e
    ctx.saw(x.I)
    x.pcs = bool(x.I.loops) or any(s['pc'] for s in x.steps)
    if x.fail is not None:
      ctx.ob(x.label, None, rule, MAIN[kind], 'analysis limit: %r' % x.fail)
      continue
    if x.err is not None:
      ctx.ob(x.label, False if x.err.sure else None, rule, MAIN[kind], 'raises %s' % x.err.what)
      continue
    u = undefined(x)
    if u:
      ctx.ob(x.label, False, rule, MAIN[kind], 'reads the undefined name %s' % u)
      continue
    try:
      trained(ctx, x)
    except Exception as e:
      ctx.ob(x.label, None, rule, MAIN[kind], 'analysis limit: %r' % e)
    if not kw:
      processes(ctx, x)
  optimisers(ctx)
  images(ctx)
  schedules(ctx)
  buffers(ctx)
  gibbs(ctx)
  loader(ctx)
  program(ctx)


def flat(v):
  return np.asarray(v, float).reshape(-1)


def trained(ctx, x):
  I = x.I
  w = MAIN[x.kind]
  N = x.T - x.first
  if x.avail is not None:
    N = min(N, x.avail)
  ok = len(x.steps) == N * x.pcd and len(x.opt) == N and len(x.losses) == N
  if not ok and x.pcs:
    ctx.ob(x.label + ' steps', None, 'training steps', W, 'analysis limit: loop')
    return
  ctx.ob(x.label + ' steps', ok, 'every training step makes the configured sampler steps and one update', w,
         '' if ok else '%d sampler steps, %d losses and %d updates in %d training steps of %d sampler steps' % (len(x.steps), len(x.losses), len(x.opt), N, x.pcd))
  if not ok:
    return
  ch = [x.steps[n * x.pcd:(n + 1) * x.pcd] for n in range(N)]
  st = lambda e, r, f: val(e, x.lift(r, r[f]))

  def start(e, sz):
    ini = x.initkeys
    if len(ini) != 1:
      raise Unsup('initial draws')
    for n in range(N):
      got = flat(st(e, ch[n][0], 'x'))
      if x.kind == 'rbm':
        want = flat(val(e, ini[0]['out'])) if n == 0 else flat(st(e, ch[n - 1][-1], 'nx'))
        if same(got, want):
          raise Bad('training step %d does not start its chains where %s' % (n + 1, 'the model initialised them' if n == 0 else 'the previous one left them'))
      else:
        if len(x.bufs) != N:
          raise Bad('%d draws from the buffer in %d training steps' % (len(x.bufs), N))
        if same(got, flat(val(e, x.bufs[n]['out']))):
          raise Bad('training step %d does not start its chains at the samples drawn from the buffer' % (n + 1))
        u = x.bufs[n]['upd']
        if u is None:
          raise Bad('the buffer is not updated in training step %d' % (n + 1))
        if same(flat(val(e, u[0])), flat(st(e, ch[n][-1], 'nx'))) or same(flat(val(e, u[1])), flat(val(e, x.bufs[n]['idx']))):
          raise Bad('training step %d does not put the new samples back where they were drawn' % (n + 1))
  judge(ctx, x, 'chains persist', 'chains persist over training steps', w, start)

  def thread(e, sz):
    for n in range(N):
      for k in range(1, x.pcd):
        if same(flat(st(e, ch[n][k], 'x')), flat(st(e, ch[n][k - 1], 'nx'))):
          raise Bad('sampler step %d of training step %d does not continue from the previous one' % (k + 1, n + 1))
    prev = None
    for n in range(N):
      for k in range(x.pcd):
        r = ch[n][k]
        for nm in ('steps', 'num_ll_calls'):
          got = flat(val(e, x.lift(r, r['stv'][nm])))
          if prev is None:
            want = np.concatenate([flat(val(e, s['out'][nm])) for s in x.states])
          else:
            want = flat(val(e, x.lift(prev, prev['nsv'][nm])))
          if same(got, want):
            raise Bad('sampler step %d of training step %d does not get the sampler state of the previous one' % (k + 1, n + 1))
        prev = r
  judge(ctx, x, 'samples and sampler states are threaded', 'chains persist over training steps', w, thread)

  wloss = []
  for n in range(N):
    r = x.losses[n]
    if len(r['lanes']) != 1:
      raise ValueError('lanes')
    j = r['lanes'][0][0]
    last = ch[n][-1]
    neg = x.lift(last, last['nx'])
    xs = []
    for v in (neg, x.served[n]['v']):
      a = I.lib.elem(v, 0, j)
      f = Arr(X.node('Fx', (r['pt'], a.full()), (a.shape[0],)), (a.shape[0],), 'float')
      xs.append(I.lib.np_mean(f))
    wloss.append(Arr(X.sub(xs[0].t, xs[1].t), (), 'float'))

  def loss(e, sz):
    for n in range(N):
      r = x.losses[n]
      m = same(flat(val(e, x.lift(r, r['loss']))), flat(val(e, x.lift(r, wloss[n]))))
      if m:
        raise Bad('the loss of training step %d is not the mean score of the samples minus the mean score of the data: it %s' % (n + 1, m))
  judge(ctx, x, 'loss', 'the loss contrasts samples and data', w, loss)

  def update(e, sz):
    at = lambda n, sh=None: val(e, Arr(X.atom(n, x.dims if sh is None else sh), x.dims if sh is None else sh, 'float'))
    p = val(e, x.theta(0))
    o = float(at('O0', ()))
    ema = p.copy()
    d0 = float(val(e, Arr(X.atom('ema', (), lo=0, hi=1), (), 'float')))
    cps = {}
    for n in range(N):
      for r in ch[n]:
        if not isinstance(r['p'], dict) or 'params' not in r['p']:
          raise Unsup('parameters')
        got = val(e, x.lift(r, r['p']['params']))
        if same(*over(got, p)):
          raise Bad('the samples of training step %d are not drawn from the current model' % (n + 1))
      r = x.losses[n]
      if same(*over(val(e, x.lift(r, r['p']['params'])), p)):
        raise Bad('the loss of training step %d is not taken at the current parameters' % (n + 1))
      L = flat(val(e, x.lift(r, wloss[n])))
      g = np.mean(L) * at('gdir')
      q = x.opt[n]
      gg = val(e, x.lift(q, q['g']))
      if same(*over(gg, g)):
        raise Bad('the optimiser gets a gradient in training step %d that is not the mean over devices of the gradient of the loss' % (n + 1))
      if same(*over(val(e, x.lift(q, q['o'])), np.asarray(o))):
        raise Bad('the optimiser does not get its own state in training step %d' % (n + 1))
      if q['p'] is None:
        raise Bad('the optimiser does not get the parameters it needs for weight decay')
      if same(*over(val(e, x.lift(q, q['p'])), p)):
        raise Bad('the optimiser does not get the current parameters in training step %d' % (n + 1))
      u3 = p * at('ou3')
      p, o = p + g * at('ou1') + o * at('ou2') + u3, o * float(at('oo1', ())) + float(np.sum(g * at('oo2')))
      d = 0.0 if x.first + n == 0 else d0
      ema = d * ema + (1 - d) * p
      cps[x.first + n + 1] = (p, o, ema)
    for what, got, want in (('parameters', x.final['params']['params'], p), ('optimiser state', x.final['opt_state'], np.asarray(o)),
                            ('averaged parameters', x.final['ema_params']['params'], ema), ('step count', x.final['step'], np.asarray(x.first + N))):
      m = same(*over(val(e, got), want))
      if m:
        raise Bad('the %s after training: it %s' % (what, m))
    x.cps = cps
    got = sorted(int(val(e, s['step'])) for s in x.saved)
    want = [k for k in sorted(cps) if k % 2 == 0]
    if got != want:
      raise Bad('checkpoints are saved at steps %s instead of %s' % (got, want))
    for s in x.saved:
      c = cps[int(val(e, s['step']))]
      t = s['target']
      for what, g, h in (('parameters', t['params']['params'], c[0]), ('optimiser state', t['opt_state'], np.asarray(c[1])), ('averaged parameters', t['ema_params']['params'], c[2]),
                         ('step', t['step'], np.asarray(int(val(e, s['step']))))):
        m = same(val(e, g), h)
        if m:
          raise Bad('the %s saved at step %d: it %s' % (what, int(val(e, s['step'])), m))
  judge(ctx, x, 'updates', 'parameters, averages and checkpoints follow the optimiser', W, update)

  def init(e, sz):
    g = x.gs0
    th = val(e, x.theta(0))
    if same(val(e, g['params']['params']), th) or same(val(e, g['ema_params']['params']), th) or same(val(e, g['step']), 0):
      raise Bad('training does not start at the initial parameters')
    s = x.ls0
    if same(flat(val(e, s['samples'])), flat(val(e, x.initkeys[0]['out']))):
      raise Bad('the chains do not start at the initial samples')
    n = int(val(e, x.initkeys[0]['n']))
    if n != sz['B']:
      raise Bad('%d chains for a batch of %d' % (n, sz['B']))
    if len(x.states) != x.ndev:
      raise Bad('%d sampler states for %d devices' % (len(x.states), x.ndev))
  judge(ctx, x, 'initial state', 'training starts at the initial parameters, samples and sampler states', W, init)
  keys(ctx, x)


def processes(ctx, x):
  """Another process of the same run does not repeat the random choices of the first."""
  rule = 'every process has keys of its own'
  y = TD.Tr(ctx.repo, x.kind, proc=1)
  try:
    y.run()
    ctx.saw(y.I)
  except Exception as e:
    ctx.ob(x.label + ' other process', None, rule, W, 'analysis limit: %r' % e)
    return
  if y.err is not None or not y.steps or len(y.steps) != len(x.steps):
    ctx.ob(x.label + ' other process', None, rule, W, 'not followed')
    return

  def f(e, sz):
    a = {int(q) for s in x.steps for q in val(e, x.lift(s, s['key'])).reshape(-1)}
    for s in y.steps:
      for q in val(e, y.lift(s, s['key'])).reshape(-1):
        if int(q) in a:
          raise Bad('two processes make sampler steps with the same random key')
  judge(ctx, x, 'other process', rule, W, f)


def images(ctx):
  """Data preparation of the RBM program: binarisation of an image and the data mean."""
  w = MAIN['rbm'] + ':data_preprocess'
  rule = 'images are binarised against uniform noise of their own'
  sh = (3, 2, 1)
  x = TD.Tr(ctx.repo, 'rbm')
  I = x.I
  img = lambda n: Arr(X.atom(n, sh, lo=0, hi=255, isint=True), sh, 'int')
  us = []
  try:
    x.world()
    x.train_world()
    ov = I.lib.overrides

    def uni(i, a, k):
      d = dict(zip(('shape', 'minval', 'maxval', 'dtype'), a))
      d.update(k)
      s = I.lib.shape_of(d['shape'])
      u = X.atom('unif%d' % len(us), s, lo=0, hi=1)
      us.append((u, s))
      lo, hi = (I.num(0.0 if d.get(q) is None else d[q]) for q in ('minval', 'maxval'))
      hi = I.num(1.0) if d.get('maxval') is None else hi
      return Arr(X.add(lo.t, X.mul(X.sub(hi.t, lo.t), u)), s, 'float')
    ov['tensorflow.random.uniform'] = uni
    ov['tensorflow.cast'] = lambda i, a, k: I.lib.cast(I.lib.arr(a[0] if a else k['x']), 'float' if 'float' in str(getattr(a[1] if len(a) > 1 else k.get('dtype'), 'path', a[1:])) else 'int')
    ov['tensorflow.reshape'] = lambda i, a, k: I.lib.np_reshape(a[0] if a else k['tensor'], a[1] if len(a) > 1 else k['shape'])
    ov['tensorflow.shape'] = lambda i, a, k: I.lib.arr(a[0]).shape
    for n, f in (('less', 'np_less'), ('greater', 'np_greater'), ('greater_equal', 'np_greater_equal'), ('less_equal', 'np_less_equal'), ('where', 'np_where')):
      ov['tensorflow.' + n] = ov['tensorflow.math.' + n] = lambda i, a, k, f=f: getattr(I.lib, f)(*a)
    f = I.module('discs.learning.rbm.main_rbm_training').globals['data_preprocess']
    src = img('img')
    out = I.lib.arr(I.call(f, [I.mkdict({'image': src, 'label': 3})], {}))
    ctx.saw(I)
    bad = None
    for seed in (1, 2, 3):
      e = Ev(seed)
      p = np.asarray(e.full(src.full()), float).reshape(-1) / 255
      got = np.asarray(e.full(out.full()), float)
      if got.shape != (6,):
        bad = 'an image of 6 pixels becomes an array of shape %s' % (got.shape,)
        break
      if not us:
        bad = 'the image is not compared with noise'
        break
      if len(us) != 1 or us[0][1] is None:
        raise Unsup('draws')
      u = np.asarray(e.full(us[0][0]), float)
      if u.size not in (1, 6):
        raise Unsup('noise shape')
      if u.size == 1:
        bad = 'all pixels are compared with one random number'
        break
      u = u.reshape(-1)
      if not (np.array_equal(got, u < p) or np.array_equal(got, u <= p) or np.array_equal(got, u > 1 - p) or np.array_equal(got, u >= 1 - p)):
        bad = 'a pixel of intensity p is not one with probability p'
        break
    ctx.ob('RBM data: binarisation', False if bad else 'generic', rule, w, bad or '')
  except PyRaise as e:
    ctx.ob('RBM data: binarisation', False if e.sure else None, rule, w, 'raises %s' % e.what)
  except Exception as e:
    ctx.ob('RBM data: binarisation', None, rule, w, 'analysis limit: %r' % e)
  rule, w = 'the data mean is the mean image, kept away from 0 and 1', W + ':get_data_mean'
  try:
    x = TD.Tr(ctx.repo, 'rbm')
    I = x.I
    x.world()
    x.train_world()
    n = 4
    ims = [img('img%d' % i) for i in range(n)]
    rows = [I.mkdict({'image': x.probe({q: (lambda i, a, k, v=v: v) for q in ('_numpy', 'numpy', '__array__')}, 'tensor'), 'label': 1}) for v in ims]
    out = I.lib.arr(I.call(I.module('discs.learning.train').globals['get_data_mean'], [I.mklist(rows)], {}))
    ctx.saw(I)
    bad = None
    for lo, hi in ((0, 255), (0, 0), (255, 255), (0, 3), (250, 255)):
      e = Ev(lo + hi)
      r = np.random.RandomState(hi)
      vals = [r.randint(lo, hi + 1, sh) for _ in ims]
      e.names.update({'img%d' % i: v for i, v in enumerate(vals)})
      want = np.clip(np.mean(vals, axis=0).reshape(-1) / 255, .01, .99)
      m = same(np.asarray(e.full(out.full()), float), want)
      if m:
        bad = 'for pixels of %d to %d the data mean %s' % (lo, hi, m)
        break
    ctx.ob('RBM data: mean', False if bad else 'generic', rule, w, bad or '')
  except PyRaise as e:
    ctx.ob('RBM data: mean', False if e.sure else None, rule, w, 'raises %s' % e.what)
  except Exception as e:
    ctx.ob('RBM data: mean', None, rule, w, 'analysis limit: %r' % e)


# ---------------------------------------------------------------- optimiser
def optimisers(ctx):
  rule = 'the optimiser is the configured one'
  for name, gn, wd in (('adam', 0.0, 0.5), ('adamw', 5.0, 0.25), ('lamb', 2.0, 0.0), ('sgd', 0.0, 0.0)):
    label = 'optimiser %s, clipping %s, decay %s' % (name, gn, wd)
    x = TD.Tr(ctx.repo, 'rbm')
    I = x.I
    try:
      x.world()
      x.train_world()
      m = I.module('discs.learning.train')
      cfg = I.call(I.module('discs.common.train_configs').globals['get_common_train_config'], [], {})
      I.obj(cfg).items.update(optimizer=name, grad_norm=gn, weight_decay=wd, lr_schedule='constant', learning_rate=Arr(X.atom('lr', ()), (), 'float'))
      I.call(m.globals['build_optimizer'], [cfg], {})
      ctx.saw(I)
      if len(x.built) != 1:
        raise ValueError('optimiser')
      ps = [I.obj(r).origin for r in x.built[0]]
      if not all(isinstance(p, tuple) and p[0] == 'opt' for p in ps):
        raise ValueError('optimiser')
      ns = [p[1] for p in ps]
      want = (['clip_by_global_norm'] if gn else []) + [name]
      bad = None
      if ns != want:
        bad = 'the optimiser is made of %s instead of %s' % (ns, want)
      else:
        p = ps[-1]
        kw = dict(p[3])
        if gn and (ps[0][2] or (dict(ps[0][3]).get('max_norm'),))[0] != gn:
          bad = 'gradients are clipped at %s instead of %s' % (ps[0][2], gn)
        if name in ('adamw', 'lamb') and kw.get('weight_decay') != wd:
          bad = 'weight decay %s instead of %s' % (kw.get('weight_decay'), wd)
        lr = (p[2] or (kw.get('learning_rate'),))[0]
        s = I.num(I.call(lr, [Arr(X.atom('s', (), lo=0, isint=True), (), 'int')], {})) if not isinstance(lr, Arr) else lr
        if s is None or X.contains(s.t, lambda u: u.op in ('top', 'ext')):
          raise ValueError('learning rate')
        if s.t is not X.atom('lr', ()):
          bad = 'the learning rate is %s' % s.t
      ctx.ob(label, not bad, rule, W, bad or '')
    except PyRaise as e:
      ctx.ob(label, False if e.sure else None, rule, W, 'raises %s' % e.what)
    except Exception as e:
      ctx.ob(label, None, rule, W, 'analysis limit: %r' % e)


# ---------------------------------------------------------------- replay buffer
def buffers(ctx):
  rule = 'the buffer returns stored samples (reinitialised with the configured frequency) and takes them back where they were'
  w = 'discs/learning/replay_buffer.py'
  x = TD.Tr(ctx.repo, 'ebm')
  I = x.I
  x.label = 'replay buffer'
  x.points, x.pcs = [dict(B=3, D0=3, Ntr=6, Z=7), dict(B=2, D0=4, Ntr=9, Z=5)], False
  D = x.dims
  rec = []
  try:
    x.world()
    ov = I.lib.overrides

    def binom(i, a, k):
      d = dict(zip(('n', 'p', 'size'), a))
      d.update(k)
      sh = tuple(X.dim(I.num(q).t) if not isinstance(q, int) else q for q in I.iterate(d['size'])) if not isinstance(d['size'], tuple) else tuple(
          X.dim(I.num(q).t) if not isinstance(q, int) else q for q in d['size'])
      t = Arr(X.atom('bin%d' % len(rec), sh, is01=True), sh, 'int')
      rec.append(dict(p=I.num(d['p']), n=d.get('n'), out=t))
      return t
    ov['numpy.random.binomial'] = binom
    idx = []

    def choice(i, a, k):
      d = dict(zip(('a', 'size', 'replace'), a))
      d.update(k)
      n = X.dim(I.num(d['size']).t)
      t = Arr(X.atom('inds', (n,), lo=0, isint=True), (n,), 'int')
      idx.append(dict(rep=d.get('replace', True), n=n))
      return t
    ov['numpy.random.choice'] = choice
    ov['builtins.sorted'] = lambda i, a, k: a[0] if isinstance(a[0], Arr) else NotImplemented
    cfg = x.tconfig()
    Z = ip('Z', 5)
    ex = I.obj(I.obj(cfg).items['experiment']).items
    ex.update(buffer_size=Arr(Z, (), 'int'), reinit_freq=Arr(X.atom('rf', (), lo=0, hi=1), (), 'float'))
    xt = x.atom('x_train', (ip('Ntr', 8),) + D)
    b = I.call(I.module('discs.learning.replay_buffer').globals['ReplayBuffer'], [cfg, xt], {})
    ninit = len(rec)
    bs = Arr(ip('B', 2), (), 'int')
    buf0 = I.lib.arr(I.getattr(b, 'buffer'))
    s = I.unpack(I.call(I.getattr(b, 'sample'), [bs], {}), 2)
    xs = Arr(X.atom('newx', (ip('B', 2),) + D, is01=True), (ip('B', 2),) + D, 'int')
    I.call(I.getattr(b, 'update'), [xs, s[1]], {})
    buf1 = I.lib.arr(I.getattr(b, 'buffer'))
    ctx.saw(I)
  except PyRaise as e:
    ctx.ob('replay buffer', False if e.sure else None, rule, w, 'raises %s' % e.what)
    return
  except Exception as e:
    ctx.ob('replay buffer', None, rule, w, 'analysis limit: %r' % e)
    return

  def f(e, sz):
    B = sz['B']
    e.names.update(inds=np.sort(np.random.RandomState(sz['Z']).permutation(sz['Z'])[:B]))
    if len(rec) != 3 or ninit != 1 or len(idx) != 1:
      raise Unsup('draws')
    want = val(e, xt).mean(0) * .98 + .01
    m = same(*over(val(e, rec[0]['p']), want))
    if m:
      raise Bad('the initial samples are not drawn around the data mean: the probability %s' % m)
    if idx[0]['rep'] is not False:
      raise Bad('samples are drawn with repetition')
    st = val(e, buf0)
    if st.shape != (sz['Z'],) + want.shape:
      raise Bad('the buffer has shape %s' % (st.shape,))
    k = e.names['inds']
    rs = [r for r in rec[1:] if r['p'].shape == ()]
    ns = [r for r in rec[1:] if r['p'].shape != ()]
    if len(rs) != 1 or len(ns) != 1:
      raise Unsup('draws')
    if same(val(e, rs[0]['p']), val(e, Arr(X.atom('rf', (), lo=0, hi=1), (), 'float'))) or same(*over(val(e, ns[0]['p']), want)):
      raise Bad('samples are reinitialised with another probability')
    R = val(e, rs[0]['out'])
    for r, what in ((R, 'decision to reinitialise'), (val(e, ns[0]['out']), 'reinitialisation')):
      if r.ndim and r.shape[0] == 1 and B > 1:
        raise Bad('all samples share one %s' % what)
    if R.ndim == st.ndim and R[0].size > 1:
      raise Bad('a sample is reinitialised site by site instead of as a whole')
    if R.shape == (B,):
      R = R.reshape((B,) + (1,) * (st.ndim - 1))
    m = same(val(e, s[0]), val(e, ns[0]['out']) * R + st[k] * (1 - R))
    if m:
      raise Bad('a returned sample is neither the stored one nor its reinitialisation: it %s' % m)
    new = st.astype(float).copy()
    new[k] = val(e, xs)
    m = same(val(e, buf1), new)
    if m:
      raise Bad('after an update an entry of the buffer %s' % m)
  judge(ctx, x, 'sample and update', rule, w, f)


# ---------------------------------------------------------------- learning rate
def schedules(ctx):
  rule = 'the learning rate follows the configured schedule'
  for kind in ('constant', 'updown', 'up_exp_down'):
    label = 'learning rate ' + kind
    x = TD.Tr(ctx.repo, 'rbm')
    I = x.I
    lr = X.atom('lr', ())
    N, fr = 40, 0.25
    W0 = int(N * fr)
    try:
      x.world()
      x.train_world()
      ov = I.lib.overrides
      num = lambda v: I.num(v).t

      def sched(k0):
        def mk(i, a, k):
          return NativeV(k0, lambda i_, aa, kk: Arr(TD.schedule(k0, num(aa[0] if aa else kk['count']), [num(q) for q in a], {n: num(q) for n, q in k.items()}), (), 'float'))
        return mk
      for n in ('linear_schedule', 'exponential_decay'):
        ov['optax.' + n] = sched(n)

      def join(i, a, k):
        d = dict(zip(('schedules', 'boundaries'), a))
        d.update(k)
        ss, bs = list(I.iterate(d['schedules'])), list(I.iterate(d['boundaries']))

        def call(i_, aa, kk):
          st = num(aa[0])
          out = num(I.call(ss[0], [Arr(st, (), 'int')], {}))
          for f, b in zip(ss[1:], bs):
            out = X.where(X.lt(st, num(b)), out, num(I.call(f, [Arr(X.sub(st, num(b)), (), 'int')], {})))
          return Arr(out, (), 'float')
        return NativeV('join', call)
      ov['optax.join_schedules'] = join

      def wexp(i, a, k):
        d = dict(zip(('init_value', 'peak_value', 'warmup_steps', 'transition_steps', 'decay_rate', 'transition_begin', 'staircase', 'end_value'), a))
        d.update(k)

        def call(i_, aa, kk):
          st = num(aa[0])
          w = num(d['warmup_steps'])
          up = TD.schedule('linear_schedule', st, [num(d['init_value']), num(d['peak_value']), w], {})
          dn = {n: num(d[n]) for n in ('transition_begin', 'end_value') if d.get(n) is not None}
          down = TD.schedule('exponential_decay', X.sub(st, w), [num(d['peak_value']), num(d['transition_steps']), num(d['decay_rate'])], dn)
          return Arr(X.where(X.lt(st, w), up, down), (), 'float')
        return NativeV('wexp', call)
      ov['optax.warmup_exponential_decay_schedule'] = wexp
      cfg = I.call(I.module('discs.common.train_configs').globals['get_common_train_config'], [], {})
      I.obj(cfg).items.update(lr_schedule=kind, learning_rate=Arr(lr, (), 'float'), total_train_steps=N, warmup_frac=fr)
      f = I.call(I.module('discs.learning.train').globals['build_lr_schedule'], [cfg], {})
      ctx.saw(I)
      bad = None
      for st in (0, 3, W0 - 1, W0, W0 + 7, N):
        v = I.num(I.call(f, [Arr(X.const(st), (), 'int')], {}))
        L = 1.75
        got = float(Ev(1, names={'lr': np.asarray(L)}).ev(v.t))
        if kind == 'constant':
          want = L
        elif st < W0:
          want = L * st / W0
        elif kind == 'updown':
          want = L + (L * .01 - L) * (st - W0) / (N - W0)
        else:
          want = max(L * .9 ** ((st - W0) / 20000), 1e-6)
        if abs(got - want) > 1e-6:
          bad = 'at step %d of %d the learning rate is %g instead of %g (warm-up of %d steps, rate %g)' % (st, N, got, want, W0, L)
          break
      ctx.ob(label, False if bad else 'generic', rule, W, bad or '')
    except PyRaise as e:
      ctx.ob(label, False if e.sure else None, rule, W, 'raises %s' % e.what)
    except Exception as e:
      ctx.ob(label, None, rule, W, 'analysis limit: %r' % e)


# ---------------------------------------------------------------- Gibbs sampler of the RBM training
def gibbs(ctx):
  rule = 'the training sampler redraws hidden and then visible units from their conditionals'
  w = 'discs/samplers/blockgibbs.py:RBMBlockGibbsSampler.step'
  x = TD.Tr(ctx.repo, 'rbm')
  I = x.I
  try:
    x.world()
    m = I.module('discs.samplers.blockgibbs')
    calls = []

    def draw(nm):
      def f(i, a, k):
        d = dict(zip(('params', 'rng', 'v' if nm == 'step_h' else 'h'), a))
        d.update(k)
        v = d['v' if nm == 'step_h' else 'h']
        t = Arr(X.atom('out_%s%d' % (nm, len(calls)), x.dims), x.dims, 'int')
        calls.append((nm, I.as_term(d['params']), I.as_term(d['rng']), I.lib.arr(v).full(), t))
        return t
      return f
    mref = x.probe({'step_h': draw('step_h'), 'step_v': draw('step_v')}, 'model')
    s = I.call(m.globals['RBMBlockGibbsSampler'], [I.mkdict({})], {})
    th = I.mkdict({'params': x.theta(0)})
    x0 = x.atom('x0')
    st = Arr(X.atom('st', (1,)), (1,), 'int')
    out = I.unpack(I.call(I.getattr(s, 'step'), [], dict(model=mref, rng=Arr(X.atom('rng', ()), (), 'key'), x=x0, model_param=th, state=st)), None)
    ctx.saw(I)
    bad = None
    if [c[0] for c in calls] != ['step_h', 'step_v']:
      bad = 'draws %s' % [c[0] for c in calls]
    else:
      h, v = calls
      if h[3] is not x0.full():
        bad = 'hidden units are drawn given %s' % h[3]
      elif v[3] is not h[4].t:
        bad = 'visible units are drawn given %s' % v[3]
      elif h[2] is v[2]:
        bad = 'hidden and visible units are drawn with the same key'
      elif not (X.contains(h[2], {X.atom('rng', ())}) and X.contains(v[2], {X.atom('rng', ())})):
        bad = 'the keys do not come from the key of the step'
      elif I.lib.arr(out[0]).full() is not v[4].t:
        bad = 'the new sample is %s' % I.lib.arr(out[0]).full()
      elif h[1] is not I.as_term(th) or v[1] is not I.as_term(th):
        bad = 'drawn with other parameters'
    ctx.ob('RBM block Gibbs', not bad, rule, w, bad or '')
  except PyRaise as e:
    ctx.ob('RBM block Gibbs', False if e.sure else None, rule, w, 'raises %s' % e.what)
  except Exception as e:
    ctx.ob('RBM block Gibbs', None, rule, w, 'analysis limit: %r' % e)


# ---------------------------------------------------------------- training data
def loader(ctx):
  rule = 'every example of the training set goes to one device of one process, in batches of the configured size'
  w = 'discs/common/data_loader.py:prepare_dataloader'
  for P, L, bs, N, pre, drop, rep in ((1, 1, 4, 14, True, True, False), (2, 2, 12, 53, True, True, False), (2, 3, 12, 50, False, False, False), (3, 1, 6, 20, True, True, True)):
    label = 'data for %d processes of %d devices, batch %d%s%s%s' % (P, L, bs, '' if pre else ', raw', '' if drop else ', keeping the rest', ', repeated' if rep else '')
    try:
      bad = serve(ctx, P, L, bs, N, pre, drop, rep)
      ctx.ob(label, not bad, rule, w, bad or '')
    except PyRaise as e:
      ctx.ob(label, False if e.sure else None, rule, w, 'raises %s' % e.what)
    except Exception as e:
      ctx.ob(label, None, rule, w, 'analysis limit: %r' % e)


def serve(ctx, P, L, bs, N, pre, drop, rep):
  seen = {}
  b = bs // (P * L)
  PASS = 2
  for p in range(P):
    x = TD.Tr(ctx.repo, 'rbm')
    I = x.I
    x.world()
    x.train_world()
    ov = I.lib.overrides
    ov['jax.process_index'] = lambda i, a, k: p
    ov['jax.process_count'] = lambda i, a, k: P
    ov['jax.local_device_count'] = lambda i, a, k: L
    ov['jax.device_count'] = lambda i, a, k: P * L

    def ds(items):
      def arg(a, k, names):
        d = dict(zip(names, a))
        d.update(k)
        return d

      def shard(i, a, k):
        d = arg(a, k, ('num_shards', 'index'))
        return ds(items[d['index']::d['num_shards']])

      def batch(i, a, k):
        d = arg(a, k, ('batch_size', 'drop_remainder'))
        n = d['batch_size']
        out = [tuple(items[q:q + n]) for q in range(0, len(items), n)]
        return ds([o for o in out if len(o) == n] if d.get('drop_remainder', False) else out)

      def shuffle(i, a, k):
        rs = np.random.RandomState(len(items) + p)
        return ds([items[q] for q in rs.permutation(len(items))]) if not rep else ds(items)
      tab = dict(shard=shard, batch=batch, shuffle=shuffle,
                 repeat=lambda i, a, k: ds(items * PASS),
                 map=lambda i, a, k: ds([('f', q) for q in items]) if a and a[0] is fn else x.probe({}, 'other'),
                 prefetch=lambda i, a, k: ds(items), cache=lambda i, a, k: ds(items), with_options=lambda i, a, k: ds(items))
      return x.probe(tab, ('dataset', tuple(items)))
    fn = NativeV('preprocess', lambda i, a, k: a[0])
    cfg = x.tconfig()
    e = I.obj(I.obj(cfg).items['experiment'])
    e.items['batch_size'] = bs
    f = I.module('discs.common.data_loader').globals['prepare_dataloader']
    r = I.call(f, [ds(list(range(N)))], dict(config=I.obj(cfg).items['experiment'], fn_preprocess=fn if pre else None, drop_remainder=drop, repeat=rep))
    ctx.saw(I)
    o = I.obj(r).origin if isinstance(r, Ref) else None
    if not (isinstance(o, tuple) and o[0] == 'dataset'):
      raise ValueError('data set')
    for B in o[1]:
      if not isinstance(B, tuple) or not all(isinstance(q, tuple) for q in B) or (pre and isinstance(B[0], tuple) and B[0] and B[0][0] == 'f') or (B and B[0] == 'f'):
        return 'a batch is %r' % (B,)
      if drop and (len(B) != L or any(len(q) != b for q in B)):
        return 'a batch has %d parts of %s examples for %d devices and a batch size of %d over %d devices' % (len(B), sorted({len(q) for q in B}), L, bs, P * L)
      for d in B:
        for ex in d:
          if pre:
            if not (isinstance(ex, tuple) and ex[0] == 'f' and isinstance(ex[1], int)):
              return 'an example is not preprocessed once'
            ex = ex[1]
          if not isinstance(ex, int):
            return 'a batch is %r' % (B,)
          seen.setdefault(ex, []).append(p)
    n = len(o[1])
    share = len(range(p, N, P)) * (PASS if rep else 1)
    if drop and n != share // (b * L):
      return 'process %d gets %d batches of its %d examples instead of %d' % (p, n, share, share // (b * L))
  for ex, ps in seen.items():
    if len(set(ps)) > 1:
      return 'example %d goes to several processes' % ex
    if len(ps) > (PASS if rep else 1):
      return 'example %d is used %d times in a pass' % (ex, len(ps))
  if not drop and len(seen) != N:
    return 'only %d of %d examples are used' % (len(seen), N)
  return None


# ---------------------------------------------------------------- main programs
def program(ctx):
  rule = 'the training program trains the configured model and stores the trained parameters'
  for kind in ('rbm', 'ebm'):
    x = TD.Mn(ctx.repo, kind)
    w = MAIN[kind] + ':main'
    try:
      x.run()
      ctx.saw(x.I)
      if x.err is not None:
        ctx.ob(x.label, False if x.err.sure else None, rule, w, 'raises %s' % x.err.what)
        continue
      for what, bad in told(x):
        ctx.ob('%s: %s' % (x.label, what), not bad, rule, w, bad or '')
    except Exception as e:
      ctx.ob(x.label, None, rule, w, 'analysis limit: %r' % e)


def told(x):
  I = x.I
  r = x.rec
  is_ = lambda v, ref: isinstance(v, Ref) and v.id == ref.id
  t = r['trainer']
  yield 'parts', (None if is_(t.get('model'), x.mref) and is_(t.get('sampler'), x.sref) and is_(t.get('config'), x.cfg) else
                  'the trainer does not get the model, sampler and configuration')
  l = r['loop']
  yield 'states', (None if is_(l['shared_state'], x.gs) and is_(l['local_state'], x.ls) else 'the training does not start at the initial states')
  seed = X.atom('seed', (), isint=True)
  ks = (I.as_term(l['global_key']), r['init'])
  bad = None
  if ks[0] is ks[1]:
    bad = 'initialisation and training use the same key'
  elif not all(X.contains(k, {seed}) for k in ks):
    if any(X.contains(k, lambda u: u.op in ('top', 'ext')) for k in ks):
      raise ValueError('keys')
    bad = 'the keys do not come from the seed'
  yield 'keys', bad
  d = r['data']
  bad = None
  if not is_(d['dataset'], x.data):
    bad = 'the training data are not the training set'
  elif not is_(d['config'], I.obj(x.cfg).items['experiment']):
    bad = 'the data are not prepared with the experiment configuration'
  elif I.obj(l['train_loader']).origin != ('iter', 'prepared'):
    bad = 'the training does not get the prepared data'
  yield 'data', bad
  fs = [q for q in x.dumped if isinstance(q[0], tuple) and q[0][0] == 'file' and str(q[0][1]).split('/')[-1] == 'params.pkl']
  bad = None
  if len(fs) != 1:
    if any(not isinstance(q[0], tuple) for q in x.dumped) or any('params' in str(q) for q in r.get('written', ())) or any(
        ev['kind'] == 'ext_call' and any(isinstance(a, (str, Ref)) for a in list(ev['args']) + list(ev['kw'].values())) and ev['call'].split('.')[0] not in (
            'tensorflow', 'absl', 'jax', 'clu') for ev in I.events):
      raise ValueError('unrecognised output')
    bad = '%d parameter files are written' % len(fs)
  else:
    ps = fs[0][1]['params']
    for n in ('w', 'b_v', 'b_h'):
      want = I.lib.index(Arr(X.atom('fin_' + n, (x.ndev,) + x.dims), (x.ndev,) + x.dims, 'float'), (0,))
      got = ps.get(n)
      if not isinstance(got, Arr):
        raise ValueError('parameters')
      v = [Ev(1, names=dict(D0=4, Ntr=5)).full(q.full()) for q in (got, want)]
      m = same(*v)
      if m:
        bad = 'the stored parameter %s is not the trained one: it %s' % (n, m)
    mean = ps.get('data_mean')
    want = x.dm if x.kind == 'rbm' else I.lib.np_mean(x.xt, axis=0)
    if isinstance(mean, Arr):
      m = same(*[Ev(1, names=dict(D0=4, Ntr=5)).full(q.full()) for q in (mean, want)])
      bad = bad or ('the stored data mean %s' % m if m else None)
    elif mean is None:
      bad = bad or 'the data mean is not stored'
  yield 'stored parameters', bad
