"""Internal references resolve (P32): imports, names, attributes of modules and of self, call signatures."""
import ast
import builtins
import symtable

MODVARS = {'__name__', '__file__', '__doc__', '__package__', '__spec__', '__loader__', '__builtins__', '__path__', '__class__', '__annotations__'}
OKDECO = {'abstractmethod', 'staticmethod', 'classmethod'}


def is_test(name):
  return '.test' in name or name.split('.')[-1].endswith('_test') or name.split('.')[-1].startswith('test_')


class Mod:

  def __init__(self, name, m):
    self.name, self.path, self.tree, self.src = name, m.path, m.tree, m.src
    self.defs = {}      # name -> list of defining nodes at module level (any nesting of if/try)
    self.star = False
    self.guarded = set()
    self.alias = {}     # local name -> ('mod', full) | ('name', mod, name)
    self.dyn = False
    top = []

    def walk(body):
      for s in body:
        top.append(s)
        for f in ('body', 'orelse', 'finalbody'):
          if isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            walk(getattr(s, f, []) or [])
        for h in getattr(s, 'handlers', []) or []:
          walk(h.body)
    walk(self.tree.body)
    for n in ast.walk(self.tree):
      if isinstance(n, ast.Try):
        for c in n.body:
          for q in ast.walk(c):
            self.guarded.add(q)
      if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
        self.star = True
      if isinstance(n, ast.Global):
        for g in n.names:
          self.defs.setdefault(g, []).append(n)
      if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('exec', 'globals', 'eval', 'setattr', 'locals', 'vars'):
        self.dyn = True
    for s in top:
      if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        self.defs.setdefault(s.name, []).append(s)
      elif isinstance(s, (ast.Import, ast.ImportFrom)):
        for a in s.names:
          self.defs.setdefault((a.asname or a.name).split('.')[0], []).append(s)
      else:
        for q in heads(s):
          for n in ast.walk(q):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
              self.defs.setdefault(n.id, []).append(s)
            if isinstance(n, ast.NamedExpr):
              self.defs.setdefault(n.target.id, []).append(s)
        for h in getattr(s, 'handlers', []) or []:
          if h.name:
            self.defs.setdefault(h.name, []).append(h)


def heads(s):
  """Expressions of a statement without nested statements."""
  for f, v in ast.iter_fields(s):
    for q in v if isinstance(v, list) else [v]:
      if isinstance(q, ast.AST) and not isinstance(q, (ast.stmt, ast.ExceptHandler)):
        yield q


class World:

  def __init__(self, repo):
    self.mods = {n: Mod(n, m) for n, m in repo.mods.items()}
    self.pk = repo.packages()
    self.classes = {}
    for m in self.mods.values():
      for n, ds in m.defs.items():
        for d in ds:
          if isinstance(d, ast.ClassDef):
            self.classes[(m.name, n)] = d

  def has(self, mod, name):
    m = self.mods.get(mod)
    full = mod + '.' + name
    if full in self.mods or full in self.pk:
      return True
    if m is None:
      return mod in self.pk and full in self.mods
    return name in m.defs or name in MODVARS or m.star or m.dyn

  def imports(self, m):
    """(node, binding, target) for internal imports of a module; target None if unresolved."""
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Import):
        for a in n.names:
          if a.name.split('.')[0] == 'discs':
            ok = a.name in self.mods or a.name in self.pk
            yield n, a.asname, ('mod', a.name) if ok else None, a.name
      elif isinstance(n, ast.ImportFrom):
        base = n.module or ''
        if n.level:
          p = m.name.split('.')
          if m.path.endswith('__init__.py'):
            p = p + ['_']
          base = '.'.join(p[:-n.level] + ([n.module] if n.module else []))
        if base.split('.')[0] != 'discs':
          continue
        for a in n.names:
          if a.name == '*':
            continue
          full = base + '.' + a.name
          if full in self.mods or full in self.pk:
            yield n, a.asname or a.name, ('mod', full), full
          elif (base in self.mods or base in self.pk) and self.has(base, a.name):
            yield n, a.asname or a.name, ('name', base, a.name), full
          else:
            yield n, a.asname or a.name, None, full

  def target(self, mod, name, depth=0):
    """Definition of a module-level name: (module, node) or None."""
    m = self.mods.get(mod)
    if m is None or depth > 5:
      return None
    ds = m.defs.get(name, [])
    if len(ds) != 1:
      return None
    d = ds[0]
    if isinstance(d, (ast.FunctionDef, ast.ClassDef)):
      return m.name, d
    for n, b, t, full in self.imports(m):
      if n is d and b == name and t and t[0] == 'name':
        return self.target(t[1], t[2], depth + 1)
    return None

  def bases(self, mod, cls):
    """[(module, class node)] of repo bases; second result: only harmless outside bases."""
    out, clean = [], True
    m = self.mods[mod]
    al = {b: t for _, b, t, _ in self.imports(m) if t and b}
    for b in cls.bases:
      r = None
      if isinstance(b, ast.Name):
        r = self.target(mod, b.id)
        if r is None and b.id in ('object', 'ABC'):
          continue
      elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
        t = al.get(b.value.id)
        if t and t[0] == 'mod':
          r = self.target(t[1], b.attr)
        elif ast.unparse(b) in ('abc.ABC',):
          continue
      if r is not None and isinstance(r[1], ast.ClassDef):
        out.append(r)
      else:
        clean = False
    if cls.keywords and any(k.arg != 'metaclass' for k in cls.keywords):
      clean = False
    return out, clean

  def families(self):
    """class -> (ancestors incl. itself, descendants, clean)."""
    par = {}
    for (mod, n), c in self.classes.items():
      par[(mod, n)] = self.bases(mod, c)
    anc, clean = {}, {}

    def up(k, seen=()):
      if k in anc:
        return anc[k], clean[k]
      bs, ok = par[k]
      out = [k]
      for bm, bc in bs:
        q = (bm, bc.name)
        if q in seen or q not in par:
          ok = False
          continue
        a, o = up(q, seen + (k,))
        out += [x for x in a if x not in out]
        ok = ok and o
      anc[k], clean[k] = out, ok
      return out, ok
    for k in par:
      up(k)
    desc = {k: [q for q in par if k in anc[q]] for k in par}
    return anc, desc, clean


def attrs_of(cls):
  """Attributes a class defines or assigns on its instances, and its dynamic nature."""
  out, dyn = set(), bool(cls.decorator_list)
  for s in cls.body:
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
      out.add(s.name)
      if s.name in ('__getattr__', '__getattribute__'):
        dyn = True
    else:
      for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          out.add(n.id)
  for n in ast.walk(cls):
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.attr)
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'vars'):
      dyn = True
    if isinstance(n, ast.Attribute) and n.attr == '__dict__':
      dyn = True
  return out, dyn


def accepts(fn, call, bound):
  """Can the call bind to the signature?  (None: unknown)."""
  a = fn.args
  if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
    return None
  pos = [x.arg for x in a.posonlyargs + a.args][bound:]
  npos = len(call.args)
  if npos > len(pos) and not a.vararg:
    return 'takes %d positional arguments, %d given' % (len(pos), npos)
  given = set(pos[:npos])
  kwn = {x.arg for x in a.kwonlyargs}
  only = {x.arg for x in a.posonlyargs}
  for k in call.keywords:
    if k.arg in given:
      return 'got %s twice' % k.arg
    if (k.arg not in pos or k.arg in only) and k.arg not in kwn and not a.kwarg:
      return 'has no parameter %s' % k.arg
    given.add(k.arg)
  nd = len(a.defaults)
  allp = [x.arg for x in a.posonlyargs + a.args]
  req = [x for x in allp[:len(allp) - nd] if x in pos]
  miss = [x for x in req if x not in given]
  miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
  if miss:
    return 'gets no %s' % ', '.join(miss)
  return True


def plain_deco(fn):
  for d in fn.decorator_list:
    n = d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else None
    if n not in OKDECO:
      return False
  return True


def deco(fn, name):
  return any((d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', None)) == name for d in fn.decorator_list)


def undefined(m):
  """Names that no scope defines."""
  out = []
  try:
    st = symtable.symtable(m.src, m.path, 'exec')
  except SyntaxError:
    return out
  bi = set(dir(builtins)) | MODVARS
  glob = set(m.defs)

  def walk(t):
    for s in t.get_symbols():
      if s.is_referenced() and (s.is_global() or (t.get_type() == 'module' and not s.is_assigned() and not s.is_imported() and not s.is_namespace())):
        if s.get_name() not in glob and s.get_name() not in bi:
          out.append(s.get_name())
    for c in t.get_children():
      walk(c)
  walk(st)
  return out


def line(m, name):
  for n in ast.walk(m.tree):
    if isinstance(n, ast.Name) and n.id == name:
      return n.lineno
  return 0


def p32(ctx):
  w = World(ctx.repo)
  for rel, e in ctx.repo.errors:
    ctx.ob('%s parses' % rel, False, 'every file is valid source', rel, e)
  anc, desc, clean = w.families()
  info = {k: attrs_of(c) for k, c in w.classes.items()}
  fams = {}
  outside = outside_sets(w)
  for name, m in sorted(w.mods.items()):
    if is_test(name):
      continue
    ctx.scen += 1
    bad, n = [], 0
    al = {}
    for node, b, t, full in w.imports(m):
      n += 1
      if t is None:
        if node not in m.guarded:
          bad.append((node.lineno, 'imports %s, which does not exist' % full))
      elif b:
        al.setdefault(b, []).append(t)
    ctx.ob('%s imports' % name, not bad, 'imported modules and names exist', m.path + (':%d' % bad[0][0] if bad else ''),
           '; '.join(x for _, x in bad[:4]))
    if not m.star and not m.dyn:
      u = undefined(m)
      ctx.ob('%s names' % name, not u, 'names are defined', m.path + (':%d' % line(m, u[0]) if u else ''), ', '.join(sorted(set(u))[:5]))
    local = rebound(m)
    bad = []
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load):
        ts = al.get(n.value.id)
        if ts and n.value.id not in local and all(t[0] == 'mod' and not w.has(t[1], n.attr) for t in ts) and n not in m.guarded and (ts[0][1], n.attr) not in outside:
          bad.append((n.lineno, '%s has no %s' % (ts[0][1], n.attr)))
    ctx.ob('%s attributes' % name, not bad, 'referenced members of the modules of the package exist', m.path + (':%d' % bad[0][0] if bad else ''), '; '.join(x for _, x in bad[:4]))
    bad = []
    for n in ast.walk(m.tree):
      if not isinstance(n, ast.Call):
        continue
      r = None
      if isinstance(n.func, ast.Name) and n.func.id not in local:
        r = w.target(name, n.func.id)
      elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id not in local:
        ts = al.get(n.func.value.id)
        if ts and len(ts) == 1 and ts[0][0] == 'mod':
          r = w.target(ts[0][1], n.func.attr)
      if r is None or n in m.guarded:
        continue
      mod, d = r
      if isinstance(d, ast.FunctionDef):
        e = accepts(d, n, 0) if not d.decorator_list else True
        what = d.name
      else:
        k = (mod, d.name)
        if k not in clean or not clean[k] or d.decorator_list:
          continue
        ini = None
        for q in anc[k]:
          ini = next((s for s in w.classes[q].body if isinstance(s, ast.FunctionDef) and s.name == '__init__'), None)
          if ini:
            break
          if any(isinstance(s, ast.FunctionDef) and s.name == '__new__' for s in w.classes[q].body):
            break
        if ini is None or ini.decorator_list:
          continue
        e = accepts(ini, n, 1)
        what = d.name
      if isinstance(e, str):
        bad.append((n.lineno, '%s %s' % (what, e)))
    ctx.ob('%s calls' % name, not bad, 'calls of functions and classes of the package fit their parameters', m.path + (':%d' % bad[0][0] if bad else ''), '; '.join(x for _, x in bad[:4]))
    bad = made(w, name, m, al, local, anc, clean, info)
    ctx.ob('%s objects' % name, not bad, 'methods called on objects of the package exist and fit their calls', m.path + (':%d' % bad[0][0] if bad else ''), '; '.join(x for _, x in bad[:4]))
  for k, c in sorted(w.classes.items(), key=lambda x: x[0]):
    if is_test(k[0]):
      continue
    fam = set(anc[k])
    for q in desc[k]:
      fam |= set(anc[q])
    if not all(clean[q] for q in fam) or any(info[q][1] for q in fam) or any(w.mods[q[0]].dyn for q in fam):
      continue
    have = set().union(*[info[q][0] for q in fam]) | set(dir(object)) | {'__dict__', '__class__', '__name__'}
    stored = {a for a in outside.get('stores', ())}
    bad, m = [], w.mods[k[0]]
    for s in c.body:
      if not isinstance(s, ast.FunctionDef) or not s.args.args or deco(s, 'staticmethod') or deco(s, 'classmethod'):
        continue
      me = s.args.args[0].arg
      if any(isinstance(n, ast.Name) and n.id == me and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
        continue
      for n in ast.walk(s):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Load) and n not in m.guarded:
          if n.attr not in have and n.attr not in stored:
            bad.append((n.lineno, 'no class defines self.%s' % n.attr))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me and n not in m.guarded:
          a = n.func.attr
          impl = [f for q in fam for f in w.classes[q].body if isinstance(f, ast.FunctionDef) and f.name == a]
          if not impl or any(a in assigned(w.classes[q]) for q in fam) or a in stored:
            continue
          es = []
          for f in impl:
            es.append(accepts(f, n, 0 if deco(f, 'staticmethod') else 1) if plain_deco(f) else True)
          # the implementation the class itself would use
          own = None
          for q in anc[k]:
            own = next((f for f in w.classes[q].body if isinstance(f, ast.FunctionDef) and f.name == a), None)
            if own:
              break
          if es and all(isinstance(e, str) for e in es):
            bad.append((n.lineno, 'self.%s %s' % (a, es[0])))
    ctx.ob('%s.%s members' % k, not bad, 'members used through self exist and fit their calls', m.path + (':%d' % bad[0][0] if bad else ''), '; '.join(x for _, x in bad[:4]))


def assigned(c):
  return {n.attr for n in ast.walk(c) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}


def rebound(m):
  """Names bound anywhere in a function or class scope (parameters included)."""
  out = set()
  for f in ast.walk(m.tree):
    if isinstance(f, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
      a = f.args
      out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
      for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
          out.add(n.name)
    if isinstance(f, ast.comprehension):
      out |= {n.id for n in ast.walk(f.target) if isinstance(n, ast.Name)}
  return out


def outside_sets(w):
  """Attributes assigned from outside a class or module (x.attr = ...)."""
  st = set()
  for m in w.mods.values():
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
        st.add(n.attr)
  return {'stores': st}


def made(w, name, m, al, local, anc, clean, info):
  """Calls v.method(...) where the only binding of the local v is a class or builder function of the package."""
  bad = []

  def resolve(f, mod, als, loc):
    if isinstance(f, ast.Name) and f.id not in loc:
      return w.target(mod, f.id)
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id not in loc:
      ts = als.get(f.value.id)
      if ts and len(ts) == 1 and ts[0][0] == 'mod':
        return w.target(ts[0][1], f.attr)
    return None

  def classes(r, depth=0):
    if r is None:
      return None
    mod, d = r
    if isinstance(d, ast.ClassDef):
      return [(mod, d.name)] if not d.decorator_list else None
    if not isinstance(d, ast.FunctionDef) or d.decorator_list or depth > 3:
      return None
    mm = w.mods.get(mod)
    if mm is None:
      return None
    als = {}
    for node, b, t, full in w.imports(mm):
      if b and t is not None:
        als.setdefault(b, []).append(t)
    rets = [n for n in ast.walk(d) if isinstance(n, ast.Return)]
    if not rets or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Lambda)) or (isinstance(n, ast.FunctionDef) and n is not d) for n in ast.walk(d)):
      return None
    out = []
    for n in rets:
      if not isinstance(n.value, ast.Call):
        return None
      c = classes(resolve(n.value.func, mod, als, rebound(mm)), depth + 1)
      if c is None:
        return None
      out += c
    return out

  for f in ast.walk(m.tree):
    if not isinstance(f, ast.FunctionDef):
      continue
    binds = {}
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
        binds[n.id] = binds.get(n.id, 0) + 1
    args = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs}
    of = {}
    for n in ast.walk(f):
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
        v = n.targets[0].id
        if binds.get(v) == 1 and v not in args:
          cs = classes(resolve(n.value.func, name, al, local))
          if cs:
            of[v] = cs
    for n in ast.walk(f):
      if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in of) or n in m.guarded:
        continue
      a = n.func.attr
      es = []
      for k in of[n.func.value.id]:
        if k not in clean or not all(clean[q] for q in anc[k]) or any(info[q][1] for q in anc[k]) or any(w.mods[q[0]].dyn for q in anc[k]):
          es.append(True)
          continue
        impl = next((g for q in anc[k] for g in w.classes[q].body if isinstance(g, ast.FunctionDef) and g.name == a), None)
        if impl is None:
          es.append(True if any(a in info[q][0] for q in anc[k]) or a in dir(object) else 'does not exist in %s' % k[1])
        elif any(a in assigned(w.classes[q]) for q in anc[k]) or not plain_deco(impl):
          es.append(True)
        else:
          es.append(accepts(impl, n, 0 if deco(impl, 'staticmethod') else 1))
      if es and all(isinstance(e, str) for e in es):
        bad.append((n.lineno, '%s.%s %s' % (n.func.value.id, a, es[0])))
  return bad
