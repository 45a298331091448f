"""Text-infilling tasks and language scores (P33)."""
import collections
import json

import numpy as np

from .. import interp as IN
from .. import terms as X
from ..adrive import As, plain
from ..interp import Arr, Ref, NativeV, PyRaise, UNDEF, Inst
from ..valu import Ev, Unsup
from .exps import same

UT = 'discs/common/utils.py'
LM = 'discs/evaluators/lm_eval.py'

TBC = ["`` I saw the Old house near water '' he said .\n", 'too short .\n', 'a dog ran over the green hill and it sang loud songs .\n',
       'she went home early because the long night was cold .\n', 'he ate . she ate .\n', 'the boat sank near the port on a dark Winter day .\n',
       'a dog ran over the green hill and it sang loud songs .\n', 'they all came back from the far side of the town today .\n',
       'one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen .\n',
       'we met at the old mill by the road .\n']
WIKI = ['The @@unknown@@ river @-@ side town was built in the year of 1900 .\n', 'Short = line\n', 'It was named after the local chief of the northern tribes .\n',
        'Its first school was @@UNKNOWN@@ opened by the church in spring .\n', 'A railway @-@ line runs through the valley to the coast .\n',
        'no .\n', 'The north wall of the castle fell during the great siege .\n', 'The bridge was closed for repairs during most of the summer .\n',
        'The king held the town for only a year .\n', 'He wrote three plays and one book of short poems for young children there .\n',
        'Her last song was sung at court .\n', 'Two men .\n', 'A small lake .\n', 'The end of the war .\n', '= = History = =\n']


class Fs(As):
  """A program over virtual text files."""

  def __init__(self, repo, files, rev=False):
    super().__init__(repo, '', '')
    self.vfs, self.written, self.rev = dict(files), {}, rev
    self.choices, self.bleus, self.read = [], [], []

  def world(self):
    I = self.I
    ov = I.lib.overrides

    def op(i, a, k):
      p, mode = a[0], a[1] if len(a) > 1 else k.get('mode', 'r')
      if not isinstance(p, str):
        raise ValueError('open')
      p = p.replace('//', '/')
      if 'r' in mode:
        if p not in self.vfs:
          raise PyRaise(IN.Sure('FileNotFoundError'))
        self.read.append(p)
      elif 'w' in mode:
        self.vfs[p] = ''
      h = self.probe({'path': p})

      def write(i_, aa, kk):
        if not isinstance(aa[0], str):
          raise ValueError('text written')
        self.vfs[p] += aa[0]

      def writelines(i_, aa, kk):
        for q in I.iterate(aa[0]):
          write(i_, [q], {})
      lines = lambda: I.mklist(self.vfs[p].splitlines(True))
      ms = {'close': lambda i_, aa, kk: None, '__enter__': lambda i_, aa, kk: h, '__exit__': lambda i_, aa, kk: None, 'write': write, 'writelines': writelines,
            'readlines': lambda i_, aa, kk: lines(), 'read': lambda i_, aa, kk: self.vfs[p], '__iter__': lambda i_, aa, kk: lines()}
      I.obj(h).extra = lambda I_, ref, n: NativeV(n, ms[n]) if n in ms else UNDEF
      return h
    ov['builtins.open'] = op
    ov['os.path.exists'] = ov['os.path.isfile'] = lambda i, a, k: a[0].replace('//', '/') in self.vfs
    def pr(i, a, k):
      f = k.get('file')
      if f is not None:
        sep, end = k.get('sep', ' '), k.get('end', '\n')
        q = [self.deep(z) for z in a]
        if not all(isinstance(z, (str, int)) for z in q + [sep, end]):
          raise ValueError('text written')
        self.vfs[I.obj(f).attrs['path']] += sep.join(map(str, q)) + end
    ov['builtins.print'] = pr
    ov['json.dumps'] = lambda i, a, k: json.dumps(self.deep(a[0]))
    ov['json.loads'] = lambda i, a, k: self.up(json.loads(a[0]))

    def jd(i, a, k):
      self.vfs[I.obj(a[1]).attrs['path']] = json.dumps(self.deep(a[0]))
    ov['json.dump'] = jd
    ov['json.load'] = lambda i, a, k: self.up(json.loads(self.vfs[I.obj(a[0]).attrs['path']]))

    def shuffle(i, a, k):
      o = I.obj(a[0])
      o.items[:] = list(reversed(o.items)) if self.rev else o.items[1:] + o.items[:1]
    for n in ('numpy.random.shuffle', 'random.shuffle'):
      ov[n] = shuffle

    def choice(i, a, k):
      d = dict(zip(('a', 'size', 'replace'), a))
      d.update(k)
      pool = list(range(d['a'])) if isinstance(d['a'], int) else [self.deep(q) for q in I.iterate(d['a'])]
      n = d['size']
      if not isinstance(n, int):
        raise ValueError('size of draw')
      rep = d.get('replace', True)
      rs = np.random.RandomState(len(self.choices) + 5 * self.rev)
      out = [pool[q] for q in (rs.randint(len(pool), size=n) if rep else rs.permutation(len(pool))[:n])]
      # both ends of what may be drawn are met
      if not rep and len(self.choices) % 2 == 0 and n >= 2:
        out = [pool[-1], pool[0]] + [q for q in out if q not in (pool[0], pool[-1])]
        out = out[:n]
      self.choices.append((pool, n, rep, out))
      return I.mklist(out)
    ov['numpy.random.choice'] = choice

    def sample(i, a, k):
      d = dict(zip(('population', 'k'), a))
      d.update(k)
      return choice(i, [d['population'], d['k'], False], {})
    ov['random.sample'] = sample

    def bleu(i, a, k):
      d = dict(zip(('refs', 'hyps', 'weights'), a))
      d.update(k)
      w = self.deep(d['weights']) if d.get('weights') is not None else [.25] * 4
      many = bool(w) and isinstance(w[0], (list, tuple))
      ws = w if many else [w]
      rec = dict(refs=self.deep(d['refs']), hyps=self.deep(d['hyps']), vals=[])
      for q in ws:
        v = 0.11 + 0.0137 * (len(self.bleus) * 7 + len(rec['vals']) + 1)
        rec['vals'].append((list(q), v))
      self.bleus.append(rec)
      out = [v for _, v in rec['vals']]
      return I.mklist(out) if many else out[0]
    ov['nltk.translate.bleu_score.corpus_bleu'] = bleu
    ov['nltk.util.ngrams'] = ov['nltk.ngrams'] = lambda i, a, k: self.grams(a, k)

  def grams(self, a, k):
    s = [self.deep(q) for q in self.I.iterate(a[0])]
    n = a[1] if len(a) > 1 else k['n']
    return self.I.mklist([tuple(s[q:q + n]) for q in range(len(s) - n + 1)])

  def deep(self, v):
    I = self.I
    if isinstance(v, Ref):
      r = plain(I, v)
      if r is UNDEF:
        return [self.deep(q) for q in I.iterate(v)]
      return r
    if isinstance(v, (tuple, list)):
      return [self.deep(q) for q in v]
    if isinstance(v, Arr):
      if v.t.op != 'const':
        raise ValueError('value')
      return v.t.args[0]
    return v

  def up(self, v):
    if isinstance(v, dict):
      return self.I.mkdict({k: self.up(x) for k, x in v.items()})
    if isinstance(v, list):
      return self.I.mklist([self.up(x) for x in v])
    return v


def words(t):
  """A tokenizer: long words become two pieces."""
  out = []
  for w in t.split():
    if w in ('[MASK]', '[UNK]') or len(w) <= 4:
      out.append(w if w in ('[MASK]', '[UNK]') else w.lower())
    else:
      out += [w[:3].lower(), '##' + w[3:].lower()]
  return out


def clean(line, wiki):
  line = line.replace('\n', '')
  return line.replace('@@unknown@@', '[UNK]').replace('@@UNKNOWN@@', '[UNK]').replace('@-@', '-') if wiki else line.replace('``', '').replace("''", '')


def p33(ctx):
  last = None
  for rev, n, masks, lo, hi in ((False, 2, 2, 10, 14), (True, 3, 3, 9, 20), (False, 20, 2, 10, 12)):
    label = 'infilling data set (%d sentences, %d masks, %d to %d words%s)' % (n, masks, lo, hi, ', other order' if rev else '')
    fs = Fs(ctx.repo, {'/data/tbc.5k.txt': ''.join(TBC), '/data/wiki103.5k.txt': ''.join(WIKI)}, rev)
    I = fs.I
    try:
      fs.world()
      tok = fs.probe({}, {'tokenize': lambda i, a, k: I.mklist(words(a[0]))})
      f = I.module('discs.common.utils').globals['create_infill_dataset']
      I.call(f, ['/data', tok, masks], dict(num_of_sentences=n, min_length=lo, max_length=hi))
      ctx.saw(I)
    except PyRaise as e:
      ctx.ob(label, False if e.sure else None, 'data sets are created', UT + ':create_infill_dataset', 'raises %s' % e.what)
      continue
    except Exception as e:
      ctx.ob(label, None, 'data sets are created', UT + ':create_infill_dataset', 'analysis limit: %r' % e)
      continue
    try:
      for what, bad in tasks(fs, n, masks, lo, hi):
        ctx.ob('%s: %s' % (label, what), False if bad else 'generic', 'tasks are masked corpus sentences that are not among the references', UT + ':create_infill_dataset', bad or '')
      last = fs
    except Exception as e:
      ctx.ob(label, None, 'data sets are created', UT, 'analysis limit: %r' % e)
  readers(ctx, last)
  for sents in (['the cat sat on the mat', 'the cat sat on the mat', 'a dog ran Over the [UNK] hill .', ' it was cold '], ['a dog ran over the green hill'],
                ['the old boat sang loud songs', 'the old mill by the old mill by the sea']):
    scores(ctx, sents, last)
  if last is not None:
    last.vfs = {p: t + "`` A Dog sang '' the End .\nThe @@unknown@@ Mill by the Sea .\n" if 'remove' in p else t for p, t in last.vfs.items()}
    scores(ctx, ['a dog sang', '" a dog sang " the end .', 'The [UNK] mill by the sea .'], last)


def odd(fs):
  """A call outside the modelled fragment may have read or written a file."""
  for ev in fs.I.events:
    if ev['kind'] == 'ext_call' and any(isinstance(a, Ref) or isinstance(a, str) and '/' in a for a in list(ev['args']) + list(ev['kw'].values())):
      return ev['call']
  return None


def tasks(fs, n, masks, lo, hi):
  if odd(fs):
    raise ValueError('output by %s' % odd(fs))
  js = [p for p in fs.vfs if p.endswith('.json')]
  if len(js) != 1:
    yield 'task file', '%d task files are written' % len(js)
    return
  data = json.loads(fs.vfs[js[0]])
  corp = {False: TBC, True: WIKI}
  fit = {w: [l for l in c if lo <= len(clean(l, w).split(' ')) <= hi] for w, c in corp.items()}
  bad = None
  used = {False: [], True: []}
  for d in data:
    for key in ('gt_sentence', 'sentence', 'infill_pos'):
      if key not in d:
        yield 'tasks', 'a task has no %s' % key
        return
    src = [(w, l) for w, c in corp.items() for l in c if clean(l, w) == d['gt_sentence']]
    if not src:
      bad = 'the ground truth %r of a task is no sentence of the corpora' % d['gt_sentence']
      break
    used[src[0][0]].append(src[0][1])
    if not lo <= len(d['gt_sentence'].split(' ')) <= hi:
      bad = 'a task has a sentence of %d words' % len(d['gt_sentence'].split(' '))
      break
    a, b = d['gt_sentence'].split(' '), d['sentence'].split(' ')
    diff = [q for q in range(len(a)) if q < len(b) and a[q] != b[q]]
    if len(a) != len(b) or any(b[q] != '[MASK]' for q in diff):
      bad = 'the sentence %r of a task is not its ground truth with masked words' % d['sentence']
      break
    if sum(q == '[MASK]' for q in b) != masks or any(q in (0, len(a) - 1) for q in diff):
      bad = 'the sentence %r does not have %d masked inner words' % (d['sentence'], masks)
      break
    want = [q + 1 for q, t in enumerate(words(d['sentence'])) if t == '[MASK]']
    if d['infill_pos'] != want:
      bad = 'the infill positions %s are not those of the masks %s in the token sequence with its start token' % (d['infill_pos'], want)
      break
  yield 'masked sentences', bad
  if bad:
    return
  nt = min(n, len(fit[False]))
  nw = min(2 * n - nt, len(fit[True]))
  yield 'number of tasks', None if (len(used[False]), len(used[True])) == (nt, nw) else '%d and %d sentences are drawn from the two corpora instead of %d and %d' % (
      len(used[False]), len(used[True]), nt, nw)
  for w, name in ((False, 'tbc'), (True, 'wiki')):
    ref = [p for p in fs.vfs if p not in ('/data/tbc.5k.txt', '/data/wiki103.5k.txt') and p.endswith('.txt') and name in p]
    if len(ref) != 1:
      yield 'references ' + name, '%d reference files are written for %s' % (len(ref), name)
      continue
    got = collections.Counter(fs.vfs[ref[0]].splitlines(True))
    want = collections.Counter(corp[w]) - collections.Counter(used[w])
    bad = None
    if got != want:
      more, less = got - want, want - got
      bad = ('the references contain the task sentence %r' % list(more)[0]) if more else 'the references lack %r' % list(less)[0]
    yield 'references ' + name, bad


def readers(ctx, fs):
  """The model reads the file of tasks that was written."""
  rule = 'the model reads the tasks and the evaluator the references that were written'
  w = 'discs/models/text_infilling.py:TextInfilling.load_dataset'
  if fs is None:
    ctx.ob('task reader', None, rule, w, 'no data set')
    return
  r = Fs(ctx.repo, fs.vfs)
  I = r.I
  try:
    r.world()
    cls = I.module('discs.models.text_infilling').globals['TextInfilling']
    ref = I.new(Inst(cls))
    it = I.call(I.getattr(ref, 'load_dataset'), ['/data'], {})
    got = [r.deep(q) for q in I.iterate(it)]
    ctx.saw(I)
    want = json.loads([v for p, v in fs.vfs.items() if p.endswith('.json')][0])
    ctx.ob('task reader', got == want, rule, w, '' if got == want else 'the model reads %d tasks of %d' % (len(got), len(want)))
  except PyRaise as e:
    ctx.ob('task reader', False if e.sure else None, rule, w, 'raises %s' % e.what)
  except Exception as e:
    ctx.ob('task reader', None, rule, w, 'analysis limit: %r' % e)


def prepared(lines, wiki):
  rep = {'@@unknown@@': '[UNK]'} if wiki else {'``': '"', "''": '"'}
  return [[rep.get(t, t) for t in l.lower().split()] for l in lines]


def scores(ctx, sents, fs):
  rule = 'language scores are those of the sentences against the references'
  label = 'language scores of %d sentences' % len(sents)
  if fs is None:
    ctx.ob(label, None, rule, LM, 'no data set')
    return
  r = Fs(ctx.repo, fs.vfs)
  I = r.I
  try:
    r.world()
    cfg = I.mkdict({'experiment': I.mkdict({'max_n_grams': 4})})
    I.obj(I.obj(cfg).items['experiment']).config = True
    m = I.module('discs.evaluators.lm_eval')
    cc = I.call(I.module('discs.common.configs').globals['get_config'], [], {})
    I.obj(I.obj(cc).items['experiment']).items['max_n_grams'] = 4
    ev = I.call(m.globals['build_evaluator'], [cc], {})
    out = r.deep(I.call(I.getattr(ev, 'evaluate'), [I.mklist(list(sents)), '/data'], {}))
    ctx.saw(I)
  except PyRaise as e:
    ctx.ob(label, False if e.sure else None, rule, LM, 'raises %s' % e.what)
    return
  except Exception as e:
    ctx.ob(label, None, rule, LM, 'analysis limit: %r' % e)
    return
  refs = {}
  for nm in ('tbc', 'wiki'):
    p = [q for q in fs.vfs if 'remove' in q and nm in q]
    refs[nm] = prepared(fs.vfs[p[0]].splitlines(), nm == 'wiki')
  S = [s.split() for s in sents]
  key = lambda c: collections.Counter(tuple(q) for q in c)

  def four(v):
    for b in r.bleus:
      for wts, q in b['vals']:
        if q == v:
          return b, wts
    return None, None

  for nm, want in (('tbc_bleu', refs['tbc']), ('wiki_bleu', refs['wiki']), ('tbc_wiki_bleu', refs['tbc'] + refs['wiki'])):
    bad = None
    b, wts = four(out.get(nm))
    if nm not in out:
      bad = '%s is not reported' % nm
    elif b is None:
      ctx.ob('%s: %s' % (label, nm), None, rule, LM, 'the score is not a value of corpus_bleu')
      continue
    elif len(wts) != 4 or any(abs(q - .25) > 1e-9 for q in wts):
      bad = '%s is computed with the weights %s' % (nm, wts)
    elif b['hyps'] != S:
      bad = '%s scores other sentences' % nm
    elif len(b['refs']) != len(S) or any(key(q) != key(want) for q in b['refs']):
      bad = '%s compares with other references' % nm
    ctx.ob('%s: %s' % (label, nm), False if bad else 'generic', rule, LM + ':corpus_bleu', bad or '')
  bad = None
  if len(S) > 1:
    b, wts = four(out.get('self_bleu'))
    if 'self_bleu' not in out:
      bad = 'self_bleu is not reported'
    elif b is None:
      bad = None
    elif b['hyps'] != S or len(wts) != 4:
      bad = 'self_bleu scores other sentences'
    elif any(key(b['refs'][i]) != key(S[:i] + S[i + 1:]) for i in range(len(S))):
      bad = 'self_bleu does not compare each sentence with all the others'
  ctx.ob('%s: self_bleu' % label, False if bad else 'generic', rule, LM + ':self_bleu', bad or '')
  gr = lambda c, n: collections.Counter(tuple(s[q:q + n]) for s in c for q in range(len(s) - n + 1))
  for n in (1, 2, 3, 4):
    mine = gr(S, n)
    tot = sum(mine.values())
    for nm, want in (('unique_wiki_%d_grams', len(set(mine) - set(gr(refs['wiki'], n))) / tot), ('unique_tbc_%d_grams', len(set(mine) - set(gr(refs['tbc'], n))) / tot),
                     ('unique_self_%d_grams', sum(v == 1 for v in mine.values()) / tot)):
      got = out.get(nm % n)
      bad = None
      if got is None:
        bad = '%s is not reported' % (nm % n)
      elif not isinstance(got, (int, float)):
        ctx.ob('%s: %s' % (label, nm % n), None, rule, LM, 'analysis limit: value')
        continue
      elif abs(got - want) > 1e-9:
        bad = '%s is %.6g instead of %.6g' % (nm % n, got, want)
      ctx.ob('%s: %s' % (label, nm % n), False if bad else 'generic', rule, LM + ':ref_unique_ngrams', bad or '')
  if out.get('infill_sents') != list(sents):
    ctx.ob('%s: sentences' % label, False, rule, LM, 'the reported sentences are others')
