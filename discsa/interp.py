"""Interprocedural abstract interpreter over the Python syntax tree.

The interpreter computes, for every program point, a value in the term domain of
terms.py plus a small heap of lists, dicts, instances and closures.  Branches
whose condition is not decided by the analysis context are both analysed and
joined (gated join), loops with a symbolic trip count are summarised by
loop-carried (mu) and loop-result (eta) terms.  Nothing of the analysed
repository is imported or executed.
"""
import ast
import os
from . import terms as X
from .terms import T

MAXUNROLL = 40
MAXDEPTH = 48


# ------------------------------------------------------------------ values
class Arr:
  __slots__ = ('t', 'shape', 'dtype')

  def __init__(self, t, shape=None, dtype=None):
    self.t = t
    self.shape = shape
    self.dtype = dtype

  def __repr__(self):
    return 'Arr(%s :%s %s)' % (X.show(self.t, 4), None if self.shape is None else
                               '(' + ','.join(X.show(X.lift(d), 3) for d in self.shape) + ')', self.dtype)

  def full(self):
    return X.bcast(self.t, self.shape) if self.shape is not None else self.t


class Ref:
  __slots__ = ('id',)

  def __init__(self, i):
    self.id = i

  def __eq__(self, o):
    return isinstance(o, Ref) and o.id == self.id

  def __hash__(self):
    return hash(('ref', self.id))

  def __repr__(self):
    return 'Ref%d' % self.id


class EnvObj:
  kind = 'env'

  def __init__(self, parent=None, globs=None):
    self.vars = {}
    self.parent = parent
    self.globs = globs
    self.global_names = set()
    self.nonlocal_names = set()

  def copy(self):
    e = EnvObj(self.parent, self.globs)
    e.vars = dict(self.vars)
    e.global_names = self.global_names
    e.nonlocal_names = self.nonlocal_names
    return e


class ListObj:
  kind = 'list'

  def __init__(self, items=()):
    self.items = list(items)
    self.origin = None
    self.isset = False

  def copy(self):
    o = ListObj(self.items)
    o.origin = self.origin
    o.isset = self.isset
    return o

  def concrete(self):
    return not any(isinstance(i, Seg) for i in self.items)


class Seg:
  """Summary of list items appended by a loop or under a condition."""

  def __init__(self, kind, vals, info=None):
    self.kind = kind  # 'loop' | 'cond' | 'base'
    self.vals = vals
    self.info = info

  def __repr__(self):
    return 'Seg(%s,%r)' % (self.kind, self.vals)


class DictObj:
  kind = 'dict'

  def __init__(self, items=None, attr=False):
    self.items = dict(items or {})
    self.attr = attr  # ConfigDict like
    self.open = False  # may hold unknown further keys
    self.origin = None
    self.tag = None
    self.default = None  # fn(interp, key) for missing keys of open dicts

  def copy(self):
    d = DictObj(self.items, self.attr)
    d.open = self.open
    d.origin = self.origin
    d.tag = self.tag
    d.default = self.default
    return d


class Inst:
  kind = 'inst'

  def __init__(self, cls):
    self.cls = cls
    self.attrs = {}
    self.origin = None
    self.extra = None

  def copy(self):
    i = Inst(self.cls)
    i.attrs = dict(self.attrs)
    i.origin = self.origin
    i.extra = self.extra
    return i


class FuncV:
  def __init__(self, node, env, mod, name, defaults, kwdefaults, cls=None):
    self.node, self.env, self.mod, self.name = node, env, mod, name
    self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
    self.decos = []

  def __repr__(self):
    return 'Func(%s.%s)' % (self.mod.name, self.name)


class BoundV:
  def __init__(self, func, self_):
    self.func, self.self_ = func, self_


class ClassV:
  def __init__(self, name, bases, ns, mod, node=None):
    self.name, self.bases, self.ns, self.mod, self.node = name, bases, ns, mod, node

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, ClassV):
        for c in b.mro():
          if c in out:
            out.remove(c)
          out.append(c)
    return out

  def ext_bases(self):
    r = []
    for c in self.mro():
      for b in c.bases:
        if isinstance(b, ExtV):
          r.append(b.path)
    return r

  def __repr__(self):
    return 'Class(%s)' % self.name


class ModV:
  def __init__(self, mod):
    self.mod = mod

  def __repr__(self):
    return 'Mod(%s)' % self.mod.name


class ExtV:
  __slots__ = ('path',)

  def __init__(self, path):
    self.path = path

  def __repr__(self):
    return 'Ext(%s)' % self.path

  def __eq__(self, o):
    return isinstance(o, ExtV) and o.path == self.path

  def __hash__(self):
    return hash(('ext', self.path))


class NativeV:
  def __init__(self, name, fn):
    self.name, self.fn = name, fn

  def __repr__(self):
    return 'Native(%s)' % self.name


class PartialV:
  def __init__(self, f, args, kw):
    self.f, self.args, self.kw = f, args, kw


class WrapV:
  """jit/pmap/vmap/grad wrapper."""

  def __init__(self, kind, f, info=None):
    self.kind, self.f, self.info = kind, f, info or {}


class SuperV:
  def __init__(self, cls, self_):
    self.cls, self.self_ = cls, self_


class PropV:
  def __init__(self, f):
    self.f = f


class StaticV:
  def __init__(self, f, kind):
    self.f, self.kind = f, kind


class RangeV:
  def __init__(self, lo, hi, step=1):
    self.lo, self.hi, self.step = lo, hi, step


class SymIter:
  """Iteration with a symbolic trip count: elem(idx Arr) -> value."""

  def __init__(self, trip, elem, lo=0):
    self.trip, self.elem, self.lo = trip, elem, lo


class SliceV:
  def __init__(self, a, b, c):
    self.a, self.b, self.c = a, b, c


class Choice:
  """Value that differs between two joined paths and is not numeric."""

  def __init__(self, c, a, b):
    self.c, self.a, self.b = c, a, b

  def __repr__(self):
    return 'Choice(%s,%r,%r)' % (X.show(self.c, 2), self.a, self.b)


class AtV:
  def __init__(self, arr, idx=None):
    self.arr, self.idx = arr, idx


UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()


class Sure(str):
  """Name of an exception the program certainly raises."""


class PyRaise(Exception):
  def __init__(self, what=None):
    self.what = what

  @property
  def sure(self):
    return isinstance(self.what, Sure)

  def __str__(self):
    return str(self.what)


class Out:
  __slots__ = ('kind', 'val', 'st')

  def __init__(self, kind, val, st):
    self.kind, self.val, self.st = kind, val, st


class State:
  __slots__ = ('heap', 'pc')

  def __init__(self, heap=None, pc=()):
    self.heap = heap if heap is not None else {}
    self.pc = pc

  def fork(self, cond, val):
    return State({k: o.copy() for k, o in self.heap.items()}, self.pc + ((cond, val),))

  def clone(self):
    return State({k: o.copy() for k, o in self.heap.items()}, self.pc)


class Module:
  def __init__(self, name, path, tree, src):
    self.name, self.path, self.tree, self.src = name, path, tree, src
    self.globals = None


class Repo:
  """All modules of the analysed tree, parsed once per run."""

  def __init__(self, root='/repo'):
    self.root = root
    self.mods = {}
    self.errors = []
    for d, dirs, files in os.walk(os.path.join(root, 'discs')):
      dirs[:] = [x for x in sorted(dirs) if x not in ('__pycache__',)]
      for f in sorted(files):
        if not f.endswith('.py'):
          continue
        p = os.path.join(d, f)
        rel = os.path.relpath(p, root)
        name = rel[:-3].replace('/', '.')
        if name.endswith('.__init__'):
          name = name[:-9]
        try:
          src = open(p, encoding='utf-8').read()
          tree = ast.parse(src)
        except (SyntaxError, UnicodeDecodeError) as e:
          self.errors.append((rel, str(e)))
          continue
        self.mods[name] = Module(name, rel, tree, src)

  def packages(self):
    s = set()
    for n in self.mods:
      parts = n.split('.')
      for i in range(1, len(parts)):
        s.add('.'.join(parts[:i]))
    return s


class Interp:
  DEBUG = False

  def __init__(self, repo):
    self.repo = repo
    self.st = State()
    self.nextid = 1
    self.events = []
    self.loops = []
    self.exact_try = False
    self.gens, self.ngen = [], 0
    self.lanes = []
    self.lane_stack = []
    self.fresh_lanes = False
    self.depth = 0
    self.loopdepth = 0
    self.jit = 0
    self.frames = []  # (modname, funcname)
    self.line = 0
    self.mod = None
    self.pkgs = repo.packages()
    self.imprecise = []
    self.blurred = False  # a host value (string, key) was lost: exceptions are not certain
    self.unk_count = {}
    self.call_log = None
    self.quiet = 0
    self.touched_funcs = set()
    self.unroll_while = 0  # unroll loops whose tests stay concrete
    self.external_stub = {}  # 'module.path' -> value override
    from . import lib
    self.lib = lib.Lib(self)

  # -------------------------------------------------------------- helpers
  def site(self):
    fr = self.frames[-1] if self.frames else ('?', '?')
    return '%s:%s:%s' % (fr[0], fr[1], self.line)

  def event(self, kind, **kw):
    if self.quiet:
      return
    kw.update(kind=kind, site=self.site(), pc=self.st.pc, jit=self.jit,
              stack=tuple(f[1] for f in self.frames), loop=self.loopdepth,
              file=self.mod.path if self.mod else '?', line=self.line,
              func=self.frames[-1][1] if self.frames else '<module>')
    self.events.append(kw)

  def unk(self, why, *args):
    """Unknown value; congruent in its arguments, unique per site otherwise."""
    ts = tuple(self.as_term(a) for a in args)
    t = X.node('top', (why,) + ts, None)
    if not self.quiet:
      self.imprecise.append((self.site(), why))
    return Arr(t, None, None)

  def opaque(self, name, *args, shape=None, dtype=None):
    ts = tuple(self.as_term(a) for a in args)
    return Arr(X.node('ext', (name,) + ts, shape), shape, dtype)

  def as_term(self, v, depth=0):
    if isinstance(v, T):
      return v
    if isinstance(v, Arr):
      return v.full()
    if isinstance(v, bool) or isinstance(v, (int, float)):
      return X.const(v)
    if v is None or isinstance(v, (str, bytes)):
      return X.node('lit', (repr(v),), ())
    if v is Ellipsis or v is UNDEF:
      return X.node('lit', (repr(v),), ())
    if isinstance(v, (tuple,)):
      return X.node('tup', tuple(self.as_term(a, depth + 1) for a in v), None)
    if isinstance(v, Ref):
      o = self.st.heap.get(v.id)
      if depth > 5 or o is None:
        return X.node('ref', (v.id,), None)
      if isinstance(o, ListObj):
        return X.node('list', tuple(self.as_term(a, depth + 1) for a in o.items), None)
      if isinstance(o, DictObj):
        return X.node('dict', tuple((str(k), self.as_term(a, depth + 1)) for k, a in sorted(
            o.items.items(), key=lambda kv: str(kv[0]))), None)
      return X.node('ref', (v.id,), None)
    if isinstance(v, Seg):
      return X.node('seg', (v.kind,) + tuple(self.as_term(a, depth + 1) for a in v.vals), None)
    if isinstance(v, Choice):
      return X.node('choice', (v.c, self.as_term(v.a, depth + 1), self.as_term(v.b, depth + 1)), None)
    if isinstance(v, ExtV):
      return X.node('lit', ('ext:' + v.path,), None)
    if isinstance(v, FuncV):
      return X.node('lit', ('func:%s.%s:%d' % (v.mod.name, v.name, getattr(v.node, 'lineno', 0)),), None)
    if isinstance(v, BoundV):
      return X.node('bound', (self.as_term(v.func), self.as_term(v.self_, depth + 1)), None)
    if isinstance(v, ClassV):
      return X.node('lit', ('class:' + v.name,), None)
    if isinstance(v, NativeV):
      return X.node('lit', ('native:' + v.name,), None)
    if isinstance(v, PartialV):
      return X.node('partial', (self.as_term(v.f, depth + 1),) + tuple(self.as_term(a, depth + 1) for a in v.args) +
                    tuple((k, self.as_term(a, depth + 1)) for k, a in sorted(v.kw.items())), None)
    if isinstance(v, WrapV):
      return X.node('wrap', (v.kind, self.as_term(v.f, depth + 1)), None)
    return X.node('lit', (type(v).__name__,), None)

  def num(self, v):
    """Arr for a numeric python or array value, else None."""
    if isinstance(v, Arr):
      return v
    if isinstance(v, bool):
      return Arr(X.const(int(v)), (), 'bool')
    if isinstance(v, int):
      return Arr(X.const(v), (), 'int')
    if isinstance(v, float):
      return Arr(X.const(v), (), 'float')
    if isinstance(v, T):
      return Arr(v, v.shape, 'int' if v.isint else None)
    return None

  def new(self, obj):
    i = self.nextid
    self.nextid += 1
    self.st.heap[i] = obj
    return Ref(i)

  def obj(self, ref):
    return self.st.heap[ref.id]

  def mklist(self, items):
    return self.new(ListObj(items))

  def mkdict(self, items, attr=False):
    return self.new(DictObj(items, attr))

  def newenv(self, parent, globs):
    return self.new(EnvObj(parent, globs)).id

  # -------------------------------------------------------------- modules
  def module(self, name):
    m = self.repo.mods.get(name)
    if m is None:
      return None
    if m.globals is None or getattr(m, 'owner', None) is not self:
      m.globals = {}
      m.owner = self
      sv = (self.st, self.mod, self.line, self.quiet)
      self.mod = m
      self.quiet += 1
      # module level objects live in the shared heap
      env = self.newenv(None, m)
      m.envid = env
      self.frames.append((m.path, '<module>'))
      try:
        outs = self.block(m.tree.body, env)
        for o in outs:
          if o.kind == 'normal':
            self.st = o.st
        m.globals = self.st.heap[env].vars
        self.st.heap[env].vars = m.globals
      except PyRaise:
        pass
      finally:
        self.frames.pop()
        st = self.st
        _, self.mod, self.line, self.quiet = sv
        # keep the heap produced by module evaluation
        if st is not sv[0]:
          for k, o in st.heap.items():
            sv[0].heap.setdefault(k, o)
        self.st = sv[0]
    return m

  def import_name(self, name):
    if name in self.external_stub:
      return self.external_stub[name]
    if name in self.repo.mods:
      self.module(name)
      return ModV(self.repo.mods[name])
    if name in self.pkgs:
      return ExtV('pkg:' + name)
    return ExtV(canon(name))

  def mod_attr(self, m, name):
    mm = self.module(m.name)
    if name in mm.globals:
      return mm.globals[name]
    sub = m.name + '.' + name
    if sub in self.repo.mods or sub in self.pkgs:
      return self.import_name(sub)
    if name == '__name__':
      return m.name
    if name == '__file__':
      return m.path
    return None

  # -------------------------------------------------------------- variables
  def lookup(self, env, name):
    e = self.st.heap.get(env)
    while e is not None:
      if name in e.vars:
        v = e.vars[name]
        return v
      if e.parent is None:
        g = e.globs
        if g is not None and g.globals is not None and name in g.globals:
          return g.globals[name]
        break
      e = self.st.heap.get(e.parent)
    if name == '__file__' and self.mod is not None:
      return '/src/' + self.mod.path
    b = self.lib.builtin(name)
    if b is not None:
      return b
    return UNDEF

  def setvar(self, env, name, v):
    e = self.st.heap[env]
    if name in e.nonlocal_names:
      p = e.parent
      while p is not None:
        pe = self.st.heap[p]
        if name in pe.vars:
          self.event('nonlocal_write', name=name)
          pe.vars[name] = v
          return
        p = pe.parent
    if name in e.global_names and e.globs is not None:
      self.event('global_write', name=name)
      e.globs.globals[name] = v
      return
    e.vars[name] = v

  # -------------------------------------------------------------- statements
  def block(self, stmts, env):
    outs = []
    for s in stmts:
      res = self.stmt(s, env)
      normals = [o for o in res if o.kind == 'normal']
      outs += [o for o in res if o.kind != 'normal']
      if not normals:
        return outs
      if len(normals) == 1:
        self.st = normals[0].st
      else:
        _, self.st = self.merge_outs(normals)
    outs.append(Out('normal', None, self.st))
    return outs

  def ok(self):
    return [Out('normal', None, self.st)]

  def stmt(self, s, env):
    self.line = s.lineno
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      return self.ok()
    try:
      return m(s, env)
    except PyRaise as e:
      return [Out('raise', e.what, self.st)]

  def s_Expr(self, s, env):
    self.ev(s.value, env)
    return self.ok()

  def s_Pass(self, s, env):
    return self.ok()

  def s_Assign(self, s, env):
    v = self.ev(s.value, env)
    for t in s.targets:
      self.assign(t, v, env)
    return self.ok()

  def s_AnnAssign(self, s, env):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, env), env)
    elif isinstance(s.target, ast.Name):
      e = self.st.heap[env]
      e.vars.setdefault('__annotations__', ())
      e.vars['__annotations__'] = tuple(e.vars['__annotations__']) + (s.target.id,)
    return self.ok()

  def s_AugAssign(self, s, env):
    cur = self.ev(_load(s.target), env)
    v = self.ev(s.value, env)
    # in-place list extension
    if isinstance(cur, Ref) and isinstance(s.op, ast.Add) and isinstance(self.obj(cur), ListObj):
      self.lib.list_extend(cur, v)
      return self.ok()
    r = self.binop(type(s.op).__name__, cur, v)
    self.assign(s.target, r, env)
    return self.ok()

  def s_Return(self, s, env):
    v = self.ev(s.value, env) if s.value is not None else None
    return [Out('return', v, self.st)]

  def s_Raise(self, s, env):
    what = None
    if s.exc is not None:
      e = s.exc
      what = e.func if isinstance(e, ast.Call) else e
      what = ast.unparse(what)
    raise PyRaise(what)

  def sure(self, name):
    return Sure(name) if self.exact_try and not self.blurred else name

  def s_Assert(self, s, env):
    v = self.ev(s.test, env)
    c = self.truth(v)
    if c is False:
      raise PyRaise(self.sure('AssertionError') if isinstance(v, bool) else 'AssertionError')
    if isinstance(c, T):
      self.st.pc = self.st.pc  # assumption is not recorded as a gate
    return self.ok()

  def s_Delete(self, s, env):
    for t in s.targets:
      if isinstance(t, ast.Name):
        self.st.heap[env].vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, env)
        k = self.ev(t.slice, env)
        if isinstance(o, Ref) and isinstance(self.obj(o), DictObj):
          d = self.obj(o)
          self.event('mutate', obj=o.id, key=k, origin=d.origin)
          d.items.pop(_hk(k), None)
    return self.ok()

  def s_Global(self, s, env):
    e = self.st.heap[env]
    e.global_names = set(e.global_names) | set(s.names)
    return self.ok()

  def s_Nonlocal(self, s, env):
    e = self.st.heap[env]
    e.nonlocal_names = set(e.nonlocal_names) | set(s.names)
    return self.ok()

  def s_Break(self, s, env):
    return [Out('break', None, self.st)]

  def s_Continue(self, s, env):
    return [Out('continue', None, self.st)]

  def s_Import(self, s, env):
    for a in s.names:
      if a.asname:
        self.setvar(env, a.asname, self.import_name(a.name))
      else:
        top = a.name.split('.')[0]
        if top == 'discs':
          self.import_name(a.name)
          self.setvar(env, top, ExtV('pkg:discs'))
        else:
          self.setvar(env, top, ExtV(canon(top)))
    return self.ok()

  def s_ImportFrom(self, s, env):
    base = s.module or ''
    for a in s.names:
      full = base + '.' + a.name
      nm = a.asname or a.name
      if full in self.external_stub:
        v = self.external_stub[full]
      elif full in self.repo.mods or full in self.pkgs:
        v = self.import_name(full)
      elif base in self.repo.mods:
        m = self.module(base)
        v = m.globals.get(a.name) if m.globals else None
        if v is None:
          v = ExtV(full)
      else:
        v = self.lib.special(canon(full)) or ExtV(canon(full))
      self.setvar(env, nm, v)
    return self.ok()

  def s_FunctionDef(self, s, env, cls=None):
    f = self.mkfunc(s, env, s.name)
    v = f
    for d in reversed(s.decorator_list):
      v = self.decorate(self.ev(d, env), v, f)
    self.setvar(env, s.name, v)
    return self.ok()

  s_AsyncFunctionDef = s_FunctionDef

  def decorate(self, d, v, f):
    f.decos.append(d)
    if isinstance(d, ExtV):
      p = d.path
      if p in ('builtins.property', 'functools.cached_property'):
        return PropV(v)
      if p in ('builtins.staticmethod', 'builtins.classmethod'):
        return StaticV(v, p.split('.')[-1])
      if p.endswith('abstractmethod') or p.endswith('compact') or p.endswith('wraps'):
        return v
      if p in ('jax.jit', 'jax.pmap', 'jax.vmap'):
        return self.call(d, [v], {})
      if p in ('functools.lru_cache', 'functools.cache'):
        return v
      return v
    if isinstance(d, PartialV) or isinstance(d, (FuncV, NativeV)):
      return self.call(d, [v], {})
    return v

  def mkfunc(self, s, env, name):
    a = s.args
    defaults = [self.ev(d, env) for d in a.defaults]
    kwd = [self.ev(d, env) if d is not None else UNDEF for d in a.kw_defaults]
    return FuncV(s, env, self.mod, name, defaults, kwd)

  def s_ClassDef(self, s, env):
    bases = [self.ev(b, env) for b in s.bases]
    cenv = self.newenv(env if self.st.heap[env].parent is not None or True else None, self.mod)
    outs = self.block(s.body, cenv)
    for o in outs:
      if o.kind == 'normal':
        self.st = o.st
    ns = dict(self.st.heap[cenv].vars)
    c = ClassV(s.name, bases, ns, self.mod, s)
    for v in ns.values():
      f = v
      while isinstance(f, (PropV, StaticV, WrapV)):
        f = f.f
      if isinstance(f, FuncV) and f.cls is None:
        f.cls = c
        f.env = env
    for d in reversed(s.decorator_list):
      dv = self.ev(d, env)
      if isinstance(dv, ExtV) and dv.path.endswith('dataclass'):
        c.dataclass = True
      elif isinstance(dv, FuncV):
        r = self.call(dv, [c], {})
        if isinstance(r, ClassV):
          c = r
    self.setvar(env, s.name, c)
    return self.ok()

  def s_If(self, s, env):
    c = self.truth(self.ev(s.test, env))
    if c is True:
      return self.block(s.body, env)
    if c is False:
      return self.block(s.orelse, env)
    return self.branch(c, lambda: self.block(s.body, env), lambda: self.block(s.orelse, env))

  def branch(self, c, fa, fb):
    base = self.st
    s1, s2 = base.fork(c, True), base.fork(c, False)
    self.st = s1
    o1 = self.guard(fa)
    self.st = s2
    o2 = self.guard(fb)
    n1 = [o for o in o1 if o.kind == 'normal']
    n2 = [o for o in o2 if o.kind == 'normal']
    outs = [o for o in o1 + o2 if o.kind != 'normal']
    if n1 and n2:
      st = self.merge_states(c, n1[0].st, n2[0].st, base.pc)
      outs.append(Out('normal', None, st))
    elif n1:
      outs.append(n1[0])
    elif n2:
      outs.append(n2[0])
    return outs

  def guard(self, f):
    try:
      return f()
    except PyRaise as e:
      return [Out('raise', e.what, self.st)]

  def s_With(self, s, env):
    for it in s.items:
      v = self.ev(it.context_expr, env)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, env)
    return self.block(s.body, env)

  s_AsyncWith = s_With

  def s_Try(self, s, env):
    base = self.st.clone()
    outs = self.block(s.body, env)
    normals = [o for o in outs if o.kind == 'normal']
    raised = [o for o in outs if o.kind == 'raise']
    others = [o for o in outs if o.kind not in ('normal', 'raise')]
    res = list(others)
    if normals:
      self.st = normals[0].st
      res += self.block(s.orelse, env) if s.orelse else [Out('normal', None, self.st)]
    if s.handlers and self.exact_try and (not raised or not (normals or others)):
      # the driver vouches that only the calls it stands in for can raise
      if raised:
        self.st = raised[0].st
        h = next((h for h in s.handlers if _catches(h, raised[0].val)), None)
        if h is None:
          res += raised
        else:
          if h.name:
            self.setvar(env, h.name, self.opaque('exception@' + self.site()))
          res += self.guard(lambda: self.block(h.body, env))
    elif s.handlers:
      # the handler may be entered from anywhere in the body
      c = X.atom('exc@%s' % self.site(), (), is01=True)
      hst = raised[0].st if (raised and not normals and not others) else base
      if hst is base:
        hst.pc = hst.pc + ((c, True),)
        for o in res:
          o.st.pc = o.st.pc[:len(base.pc) - 1] + ((c, False),) + o.st.pc[len(base.pc) - 1:]
      self.st = hst
      h = s.handlers[0]
      if h.name:
        self.setvar(env, h.name, self.opaque('exception@' + self.site()))
      houts = []
      for h in s.handlers[:1]:
        houts += self.guard(lambda: self.block(h.body, env))
      res += houts
    elif raised and not normals:
      res += raised
    if s.finalbody:
      fin = []
      for o in res:
        self.st = o.st
        r = self.block(s.finalbody, env)
        for q in r:
          if q.kind == 'normal':
            fin.append(Out(o.kind, o.val, q.st))
          else:
            fin.append(q)
      res = fin
    normals = [o for o in res if o.kind == 'normal']
    if len(normals) > 1:
      _, st = self.merge_outs(normals)
      res = [o for o in res if o.kind != 'normal'] + [Out('normal', None, st)]
    return res

  # -------------------------------------------------------------- loops
  def s_For(self, s, env):
    it = self.ev(s.iter, env)
    items = self.iterate(it)
    if isinstance(items, list):
      return self.unrolled(s, env, items)
    # symbolic
    site = self.site()
    sym = items

    def bind(idx):
      self.assign(s.target, sym.elem(idx), env)

    return self.symloop(s, env, sym.trip, bind, s.body, s.orelse, lo=sym.lo)

  def unrolled(self, s, env, items):
    base = len(self.st.pc)
    outs, brk = [], []
    alive = True
    for v in items:
      self.assign(s.target, v, env)
      res = self.block(s.body, env)
      cont = [o for o in res if o.kind in ('normal', 'continue')]
      brk += [o for o in res if o.kind == 'break']
      outs += [o for o in res if o.kind in ('return', 'raise')]
      if not cont:
        alive = False
        break
      if len(cont) == 1:
        self.st = cont[0].st
      else:
        _, self.st = self.merge_outs(cont)
    ends = []
    if alive:
      if s.orelse:
        res = self.block(s.orelse, env)
        outs += [o for o in res if o.kind != 'normal']
        ends += [o for o in res if o.kind == 'normal']
      else:
        ends.append(Out('normal', None, self.st))
    ends += [Out('normal', None, o.st) for o in brk]
    if ends:
      _, st = self.merge_outs(ends)
      outs.append(Out('normal', None, st))
    return outs

  def s_While(self, s, env):
    # try concrete unrolling
    st0 = self.st
    n = 0
    c = self.truth(self.ev(s.test, env))
    if c is False:
      return self.block(s.orelse, env)
    const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
    if c is True and self.unroll_while:
      snap = (st0.clone(), len(self.events), len(self.loops))
      outs = []
      for n in range(self.unroll_while):
        res = self.block(s.body, env)
        cont = [o for o in res if o.kind in ('normal', 'continue')]
        brk = [o for o in res if o.kind == 'break']
        outs += [o for o in res if o.kind in ('return', 'raise')]
        if len(cont) + len(brk) != 1:
          if not cont and not brk:
            return outs
          break
        self.st = (cont or brk)[0].st
        if brk:
          return outs + self.ok()
        c = self.truth(self.ev(s.test, env))
        if c is False:
          return outs + self.block(s.orelse, env)
        if c is not True:
          break
      self.st = snap[0]
      del self.events[snap[1]:]
      del self.loops[snap[2]:]
      n = 0
      c = True
    if c is True and not const_true and not self.unroll_while:
      snap = (st0.clone(), len(self.events), len(self.loops))
      outs = []
      while n < MAXUNROLL:
        res = self.block(s.body, env)
        cont = [o for o in res if o.kind in ('normal', 'continue')]
        if [o for o in res if o.kind == 'break'] or len(cont) != 1:
          n = MAXUNROLL
          break
        outs += [o for o in res if o.kind in ('return', 'raise')]
        self.st = cont[0].st
        n += 1
        c = self.truth(self.ev(s.test, env))
        if c is False:
          return outs + self.ok()
        if c is not True:
          break
      self.st = snap[0]
      del self.events[snap[1]:]
      del self.loops[snap[2]:]

    def bind(idx):
      if not const_true:
        self.ev(s.test, env)

    return self.symloop(s, env, None, bind, s.body, s.orelse, test=None if const_true else s.test,
                        forever=const_true)

  def symloop(self, s, env, trip, bind, body, orelse, lo=0, test=None, forever=False):
    site = '%s:%d' % (self.mod.path, s.lineno)
    self.loopdepth += 1
    hi = X.add(X.lift(lo), X.sub(X.lift(trip), X.const(1))) if trip is not None else None
    idx = Arr(X.atom(('i', site, self.loopdepth, lo if isinstance(lo, int) else X.lift(lo).id,
                      X.lift(trip).id if trip is not None else None), (), lo=lo, hi=hi, isint=True, exact=True), (), 'int')
    base = self.st
    carried = {}  # (objid, key) -> (init, muval)
    listbase = {}
    rec = None
    maxit = 7
    for it in range(maxit):
      final_pass = False
      st = base.clone()
      st.pc = base.pc
      self.st = st
      for (oid, key), (init, mu) in carried.items():
        self.setcell(oid, key, mu)
      for oid, items in listbase.items():
        o = self.st.heap[oid]
        o.items = list(items) + [Seg('mu', [], site)]
      evmark, lpmark, impm = len(self.events), len(self.loops), len(self.imprecise)
      start = self.st.clone()
      bind(idx)
      cond = None
      if test is not None:
        cond = self.truth(self.ev(test, env))
      res = self.block(body, env)
      cont = [o for o in res if o.kind in ('normal', 'continue')]
      brk = [o for o in res if o.kind == 'break']
      ret = [o for o in res if o.kind in ('return', 'raise')]
      if cont:
        if len(cont) == 1:
          end = cont[0].st
        else:
          _, end = self.merge_outs(cont)
      else:
        end = brk[0].st if brk else start
      # compare
      new = {}
      newlists = {}
      for oid, o in start.heap.items():
        e = end.heap.get(oid)
        if e is None:
          continue
        for key, v0 in cells(o).items():
          v1 = cells(e).get(key, UNDEF)
          if not self.same(v0, v1, start, end):
            new[(oid, key)] = (v0, v1)
        for key, v1 in cells(e).items():
          if key not in cells(o):
            new[(oid, key)] = (UNDEF, v1)
        if isinstance(o, ListObj) and not self.same_list(o.items, e.items, start, end):
          newlists[oid] = e.items
      changed = False
      for (oid, key), (v0, v1) in new.items():
        if (oid, key) in carried:
          init, mu = carried[(oid, key)]
          mu2 = self.widen(site, (oid, key), init, mu, v1, end)
          if mu2 is not mu:
            carried[(oid, key)] = (init, mu2)
            changed = True
        else:
          bo = base.heap.get(oid)
          init = cells(bo).get(key, UNDEF) if bo is not None else UNDEF
          self.st = base
          mu = self.mkmu(site, self.cellname(oid, key), init, v1, end)
          carried[(oid, key)] = (init, mu)
          changed = True
      for oid, items in newlists.items():
        if oid not in listbase and oid in base.heap:
          listbase[oid] = base.heap[oid].items
          changed = True
      if not changed or it == maxit - 1:
        break
      del self.events[evmark:]
      del self.loops[lpmark:]
      del self.imprecise[impm:]
    # result state
    self.loopdepth -= 1
    rec = dict(site=site, idx=idx.t, trip=trip, lo=lo, carried={}, func=self.frames[-1][1] if self.frames else '',
               file=self.mod.path, line=s.lineno, evs=(evmark, len(self.events)), lists={},
               cond=cond, brk=[(o.st.pc[len(base.pc):]) for o in brk], stack=tuple(f[1] for f in self.frames))
    post = base.clone()
    self.st = end
    ends = {}
    for (oid, key), (init, mu) in carried.items():
      ends[(oid, key)] = cells(end.heap[oid]).get(key, UNDEF) if oid in end.heap else UNDEF
    brk_vals = {}
    for (oid, key) in carried:
      vs = []
      for o in brk:
        if oid in o.st.heap:
          vs.append(cells(o.st.heap[oid]).get(key, UNDEF))
      brk_vals[(oid, key)] = vs
    # import objects created in the loop body
    for oid, o in end.heap.items():
      if oid not in post.heap:
        post.heap[oid] = o.copy()
    for o2 in brk:
      for oid, o in o2.st.heap.items():
        if oid not in post.heap:
          post.heap[oid] = o.copy()
    self.st = post
    for (oid, key), (init, mu) in carried.items():
      nxt = ends[(oid, key)]
      nm = self.cellname(oid, key)
      eta = self.mketa(site, nm, init, mu, nxt, trip, brk_vals[(oid, key)] if not cont or brk else [], forever, end)
      rec['carried'][nm] = dict(init=init, mu=mu, next=nxt, eta=eta, oid=oid, key=key)
      self.setcell(oid, key, eta)
    for oid, items in listbase.items():
      e = end.heap[oid].items
      k = max((i for i, v in enumerate(e) if isinstance(v, Seg) and v.kind == 'mu' and v.info == site), default=-1)
      app = e[k + 1:]
      o = post.heap[oid]
      o.items = list(items) + [Seg('loop', app, rec)]
      rec['lists'][self.listname(oid)] = dict(base=list(items), appended=app, oid=oid)
    rec['end_heap'] = end
    self.loops.append(rec)
    outs = []
    for o in ret:
      if o.kind == 'return':
        c = X.atom('loopret@%s' % site, (), is01=True)
        o.st.pc = base.pc + ((c, True),)
        outs.append(o)
    if any(o.kind == 'return' for o in ret):
      post.pc = post.pc + ((X.atom('loopret@%s' % site, (), is01=True), False),)
    if not cont and not brk and forever:
      return outs or [Out('raise', None, post)]
    if orelse and not brk:
      self.st = post
      return outs + self.block(orelse, env)
    outs.append(Out('normal', None, post))
    self.st = post
    return outs

  def cellname(self, oid, key):
    o = self.st.heap.get(oid)
    if isinstance(o, EnvObj):
      return key
    return '%s[%s]' % (getattr(o, 'origin', None) or getattr(o, 'kind', '?'), key)

  def listname(self, oid):
    for o in self.st.heap.values():
      if isinstance(o, EnvObj):
        for k, v in o.vars.items():
          if isinstance(v, Ref) and v.id == oid:
            return k
    return 'list%d' % oid

  def setcell(self, oid, key, v):
    o = self.st.heap.get(oid)
    if o is None:
      return
    if isinstance(o, EnvObj):
      o.vars[key] = v
    elif isinstance(o, DictObj):
      o.items[key] = v
    elif isinstance(o, Inst):
      o.attrs[key] = v

  def same_list(self, a, b, sa, sb):
    return len(a) == len(b) and all(self.same(x, y, sa, sb) for x, y in zip(a, b))

  def same(self, a, b, sa=None, sb=None):
    if a is b:
      return True
    if isinstance(a, Arr) and isinstance(b, Arr):
      return a.t is b.t and a.shape == b.shape
    if isinstance(a, (Arr, int, float)) and isinstance(b, (Arr, int, float)) and not isinstance(a, type(b)):
      return self.num(a).t is self.num(b).t
    if isinstance(a, tuple) and isinstance(b, tuple):
      return len(a) == len(b) and all(self.same(x, y, sa, sb) for x, y in zip(a, b))
    if isinstance(a, Seg) and isinstance(b, Seg):
      return a is b or (a.kind == b.kind and a.info is b.info and len(a.vals) == len(b.vals) and all(
          self.same(x, y, sa, sb) for x, y in zip(a.vals, b.vals)))
    if isinstance(a, RangeV) and isinstance(b, RangeV):
      return self.same(a.lo, b.lo) and self.same(a.hi, b.hi)
    if isinstance(a, BoundV) and isinstance(b, BoundV):
      return self.same(a.func, b.func) and self.same(a.self_, b.self_)
    if isinstance(a, PartialV) and isinstance(b, PartialV):
      return self.same(a.f, b.f) and self.same(tuple(a.args), tuple(b.args)) and set(a.kw) == set(b.kw) and all(
          self.same(a.kw[k], b.kw[k]) for k in a.kw)
    if isinstance(a, WrapV) and isinstance(b, WrapV):
      return a.kind == b.kind and self.same(a.f, b.f)
    if isinstance(a, FuncV) and isinstance(b, FuncV):
      return a.node is b.node
    try:
      return type(a) is type(b) and bool(a == b)
    except Exception:
      return False

  def mkmu(self, site, name, init, nxt, end):
    """Loop-carried abstract value starting from init."""
    a, b = self.num(init), self.num(nxt)
    nm = ('mu', site, self.loopdepth, str(name))
    if a is not None or (init is UNDEF and b is not None):
      if a is None:
        a = b
      if b is None and nxt is not UNDEF and not isinstance(nxt, (tuple, Ref, Choice)):
        b = None
      sh = a.shape
      if b is not None and b.shape != a.shape:
        sh = None
      dt = a.dtype if b is None or b.dtype == a.dtype else (promote(a.dtype, b.dtype))
      lo = hi = None
      if b is not None:
        ra = X.rng(a.t)
        lo = ra[0] if ra[0] is not None and X.const_val(ra[0]) is not None else None
      isint = (a.t.isint and (b is None or b.t.isint or dt == 'int'))
      key = nm + (tuple(X.lift(d).id for d in sh) if sh is not None else None, dt, isint)
      t = X.atom(key, sh, isint=isint, exact=False, mu=True, init=a.t)
      return Arr(t, sh, dt)
    if isinstance(init, tuple):
      if isinstance(nxt, tuple) and len(nxt) == len(init):
        return tuple(self.mkmu(site, '%s.%d' % (name, i), x, y, end) for i, (x, y) in enumerate(zip(init, nxt)))
      return tuple(self.mkmu(site, '%s.%d' % (name, i), x, x, end) for i, x in enumerate(init))
    if isinstance(init, Ref) and isinstance(self.obj(init), DictObj):
      o = self.obj(init)
      d = DictObj(attr=o.attr)
      d.origin = o.origin
      d.open = o.open
      no = end.heap.get(nxt.id) if isinstance(nxt, Ref) else None
      for k, v in o.items.items():
        nv = no.items.get(k, v) if isinstance(no, DictObj) else v
        d.items[k] = self.mkmu(site, '%s[%s]' % (name, k), v, nv, end)
      r = Ref(self.nextid)
      self.nextid += 1
      self.st.heap[r.id] = d
      return r
    t = X.atom(nm + ('obj',), None, mu=True, exact=False)
    return Arr(t, None, None)

  def widen(self, site, cell, init, mu, v1, end):
    """mu unchanged when v1 fits its shape, otherwise weaken."""
    m, b = self.num(mu), self.num(v1)
    if isinstance(mu, Arr) and b is not None:
      if mu.shape is not None and b.shape != mu.shape:
        t = X.atom(('mu', site, self.loopdepth, str(cell[1]), 'anyshape'), None, mu=True, exact=False)
        return Arr(t, None, mu.dtype)
    return mu

  def mketa(self, site, name, init, mu, nxt, trip, brkvals, forever, end):
    if isinstance(mu, tuple):
      nx = nxt if isinstance(nxt, tuple) and len(nxt) == len(mu) else (None,) * len(mu)
      ini = init if isinstance(init, tuple) else (None,) * len(mu)
      return tuple(self.mketa(site, '%s.%d' % (name, i), a, m, n, trip, [b[i] for b in brkvals if isinstance(b, tuple) and len(b) == len(mu)], forever, end)
                   for i, (a, m, n) in enumerate(zip(ini, mu, nx)))
    if isinstance(mu, Ref):
      no = end.heap.get(nxt.id) if isinstance(nxt, Ref) else None
      io = self.st.heap.get(init.id) if isinstance(init, Ref) else None
      mo = end.heap.get(mu.id) or self.st.heap.get(mu.id)
      d = DictObj(attr=getattr(mo, 'attr', False))
      d.origin = getattr(mo, 'origin', None)
      d.open = getattr(mo, 'open', False)
      keys = list(mo.items) if isinstance(mo, DictObj) else []
      if isinstance(no, DictObj):
        keys += [k for k in no.items if k not in keys]
      for k in keys:
        a = io.items.get(k) if isinstance(io, DictObj) else None
        n = no.items.get(k) if isinstance(no, DictObj) else None
        m = mo.items.get(k) if isinstance(mo, DictObj) else None
        d.items[k] = self.mketa(site, '%s[%s]' % (name, k), a, m if m is not None else n, n, trip, [], forever, end)
      return self.new(d)
    sv, self.st = self.st, self.st
    m = self.num(mu)
    n = self.num(nxt)
    it = self.as_term(init) if init is not UNDEF else X.node('lit', ('undef',), ())
    nt = self.as_term(nxt) if not isinstance(nxt, Ref) else X.node('ref', (nxt.id,), None)
    if isinstance(mu, Arr) and n is not None and n.t is mu.t and not brkvals:
      return init if init is not UNDEF else mu
    sh = m.shape if m is not None else None
    dt = m.dtype if m is not None else None
    bts = tuple(self.as_term(b) for b in brkvals)
    mt = self.as_term(mu) if mu is not None else X.node('lit', ('none',), ())
    t = X.node('eta', (site, str(name), it, mt, nt, X.lift(trip) if trip is not None else 'while') + bts, sh,
               isint=bool(m is not None and m.t.isint))
    return Arr(t, sh, dt)

  # -------------------------------------------------------------- merging
  def merge_outs(self, outs):
    """Join outcomes with their path conditions; returns (value, state)."""
    if len(outs) == 1:
      return outs[0].val, outs[0].st
    pcs = [o.st.pc for o in outs]
    d = 0
    while all(len(p) > d for p in pcs) and all(p[d] == pcs[0][d] for p in pcs):
      d += 1
    return self._merge_tree(outs, d)

  def _merge_tree(self, outs, d):
    if len(outs) == 1:
      return outs[0].val, outs[0].st
    first = next((o for o in outs if len(o.st.pc) > d), None)
    if first is None:
      return outs[0].val, outs[0].st
    c = first.st.pc[d][0]
    ga = [o for o in outs if len(o.st.pc) > d and o.st.pc[d][0] is c and o.st.pc[d][1]]
    gb = [o for o in outs if len(o.st.pc) > d and o.st.pc[d][0] is c and not o.st.pc[d][1]]
    rest = [o for o in outs if o not in ga and o not in gb]
    if rest:
      gb = gb + rest if not gb else gb
      if rest and gb is not rest:
        for o in rest:
          if o not in gb:
            gb.append(o)
    if not ga:
      if len(gb) > 1 and not rest:
        return self._merge_tree(gb, d + 1)
      return gb[0].val, gb[0].st
    if not gb:
      return self._merge_tree(ga, d + 1)
    va, sa = self._merge_tree(ga, d + 1)
    vb, sb = self._merge_tree(gb, d + 1) if not rest or len(gb) == 1 else (gb[0].val, gb[0].st)
    pc = sa.pc[:d]
    st = self.merge_states(c, sa, sb, pc)
    sv = self.st
    self.st = st
    v = self.merge_val(c, va, vb)
    self.st = sv
    return v, st

  def merge_states(self, c, a, b, pc):
    heap = {}
    st = State(heap, pc)
    sv = self.st
    # union first so that merge_val can dereference
    for k, o in a.heap.items():
      heap[k] = o
    for k, o in b.heap.items():
      if k not in heap:
        heap[k] = o
    self.st = st
    for k, oa in list(a.heap.items()):
      ob = b.heap.get(k)
      if ob is None or ob is oa:
        continue
      heap[k] = self.merge_obj(c, oa, ob)
    self.st = sv
    return st

  def merge_obj(self, c, oa, ob):
    if isinstance(oa, ListObj):
      if not isinstance(ob, ListObj):
        return oa
      n = ListObj()
      n.origin = oa.origin
      k = 0
      while k < len(oa.items) and k < len(ob.items) and self.same(oa.items[k], ob.items[k]):
        k += 1
      if len(oa.items) == len(ob.items):
        n.items = [x if self.same(x, y) else self.merge_val(c, x, y) for x, y in zip(oa.items, ob.items)]
      else:
        n.items = list(oa.items[:k])
        if oa.items[k:]:
          n.items.append(Seg('cond', oa.items[k:], (c, True)))
        if ob.items[k:]:
          n.items.append(Seg('cond', ob.items[k:], (c, False)))
      return n
    n = oa.copy()
    ca, cb = cells(oa), cells(ob)
    tgt = cells(n)
    for key in set(ca) | set(cb):
      x, y = ca.get(key, UNDEF), cb.get(key, UNDEF)
      if self.same(x, y):
        continue
      if x is UNDEF or y is UNDEF:
        v = Choice(c, x, y)
      else:
        v = self.merge_val(c, x, y)
      tgt[key] = v
    return n

  def merge_val(self, c, a, b, depth=0):
    if self.same(a, b):
      return a
    na, nb = self.num(a), self.num(b)
    if na is not None and nb is not None and na.dtype != 'key' and nb.dtype != 'key':
      if na.shape is None or nb.shape is None:
        return Arr(X.node('gamma', (c, na.t, nb.t), None), None, None)
      if na.shape == nb.shape:
        return Arr(X.where(c, na.t, nb.t), na.shape, promote(na.dtype, nb.dtype))
      return Choice(c, a, b)
    if na is not None and nb is not None:
      if na.shape == nb.shape:
        return Arr(X.node('gamma', (c, na.full(), nb.full()), na.shape), na.shape, 'key')
      return Choice(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
      return tuple(self.merge_val(c, x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, Ref) and isinstance(b, Ref) and depth < 4:
      oa, ob = self.st.heap.get(a.id), self.st.heap.get(b.id)
      if isinstance(oa, DictObj) and isinstance(ob, DictObj) and set(oa.items) == set(ob.items):
        d = DictObj(attr=oa.attr)
        d.origin = oa.origin or ob.origin
        for k in oa.items:
          d.items[k] = self.merge_val(c, oa.items[k], ob.items[k], depth + 1)
        return self.new(d)
    return Choice(c, a, b)

  # -------------------------------------------------------------- truth
  def truth(self, v):
    """True / False / indicator term."""
    if isinstance(v, Choice):
      a, b = self.truth(v.a), self.truth(v.b)
      k = self.pcfact(v.c)
      if k is True:
        return a
      if k is False:
        return b
      if a is b and isinstance(a, bool):
        return a
      ta = X.const(int(a)) if isinstance(a, bool) else a
      tb = X.const(int(b)) if isinstance(b, bool) else b
      return self.settle(X.where(v.c, ta, tb))
    if v is None or v is UNDEF:
      return False
    if isinstance(v, (bool, int, float, str, bytes)):
      return bool(v)
    if isinstance(v, tuple):
      return len(v) > 0
    if isinstance(v, Ref):
      o = self.obj(v)
      if isinstance(o, ListObj):
        if o.concrete():
          return len(o.items) > 0
        if any(not isinstance(i, Seg) for i in o.items):
          return True
        return X.tobool(X.node('len', (self.as_term(v),), (), False, True))
      if isinstance(o, DictObj):
        if o.open:
          return True
        return len(o.items) > 0
      return True
    if isinstance(v, Arr):
      if v.shape is None and v.t.op in ('top', 'ext', 'eta', 'gamma', 'attr', 'call'):
        return self.settle(X.node('truth', (v.t,), (), True, True))
      return self.settle(X.tobool(v.t))
    if isinstance(v, RangeV):
      return self.settle(X.lt(self.num(v.lo).t, self.num(v.hi).t))
    return True

  def settle(self, t):
    d = X.decide(t)
    if d is not None:
      return d
    k = self.pcfact(t)
    if k is not None:
      return k
    return t

  def pcfact(self, t):
    for c, v in self.st.pc:
      if c is t:
        return v
      if X.sub(X.const(1), c) is t:
        return not v
    # evaluate under known facts
    if self.st.pc and t.op == 'poly':
      mp = {}
      for c, v in self.st.pc:
        if c.op != 'poly':
          mp[c] = X.const(int(v))
      if mp:
        d = X.decide(X.subst(t, mp)) if any(u in mp for u in X.subterms(t)) else None
        return d
    return None

  # -------------------------------------------------------------- assignment
  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.setvar(env, t.id, v)
      return
    if isinstance(t, (ast.Tuple, ast.List)):
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        vals = self.unpack(v, None)
        k = star[0]
        after = len(t.elts) - k - 1
        if isinstance(vals, list) and len(vals) >= len(t.elts) - 1:
          for e, x in zip(t.elts[:k], vals[:k]):
            self.assign(e, x, env)
          self.assign(t.elts[k].value, self.mklist(vals[k:len(vals) - after]), env)
          for e, x in zip(t.elts[k + 1:], vals[len(vals) - after:]):
            self.assign(e, x, env)
        else:
          for e in t.elts:
            self.assign(e.value if isinstance(e, ast.Starred) else e, self.unk('unpack', v), env)
        return
      vals = self.unpack(v, len(t.elts))
      for e, x in zip(t.elts, vals):
        self.assign(e, x, env)
      return
    if isinstance(t, ast.Attribute):
      o = self.ev(t.value, env)
      self.setattr(o, t.attr, v)
      return
    if isinstance(t, ast.Subscript):
      o = self.ev(t.value, env)
      k = self.ev(t.slice, env)
      self.setitem(o, k, v)
      return
    if isinstance(t, ast.Starred):
      self.assign(t.value, v, env)

  def unpack(self, v, n):
    if isinstance(v, Choice):
      a, b = self.unpack(v.a, n), self.unpack(v.b, n)
      if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [self.merge_val(v.c, x, y) for x, y in zip(a, b)]
      return [self.unk('unpack', v) for _ in range(n or 0)]
    items = None
    if isinstance(v, tuple):
      items = list(v)
    elif isinstance(v, Ref):
      o = self.obj(v)
      if isinstance(o, ListObj) and o.concrete():
        items = list(o.items)
      elif isinstance(o, DictObj) and not o.open:
        items = list(o.items.keys())
    elif isinstance(v, Arr):
      if v.shape is not None and len(v.shape) >= 1:
        k = v.shape[0]
        if isinstance(k, int) and k <= 64:
          items = [self.lib.index(v, (i,)) for i in range(k)]
        elif n is not None:
          return [self.lib.index(v, (i,)) for i in range(n)]
      elif n is not None and v.shape is None:
        return [self.getitem(v, i) for i in range(n)]
    elif isinstance(v, str):
      items = list(v)
    elif isinstance(v, RangeV):
      it = self.iterate(v)
      if isinstance(it, list):
        items = it
    if items is None:
      if n is None:
        return None
      it = self.iterate(v)
      if isinstance(it, list):
        items = it
      elif isinstance(it, SymIter):
        return [it.elem(self.num(i)) for i in range(n)]
      else:
        return [self.unk('unpack', v) for i in range(n)]
    if n is not None and len(items) != n:
      self.event('arity', want=n, got=len(items))
      raise PyRaise('ValueError')
    return items

  # -------------------------------------------------------------- iteration
  def iterate(self, v):
    """list of values, or SymIter."""
    if isinstance(v, tuple):
      return list(v)
    if isinstance(v, str):
      return list(v)
    if isinstance(v, RangeV):
      lo, hi = v.lo, v.hi
      if isinstance(lo, int) and isinstance(hi, int) and isinstance(v.step, int):
        r = range(lo, hi, v.step)
        if len(r) <= MAXUNROLL:
          return list(r)
      lt, ht = self.num(lo).t, self.num(hi).t
      if v.step == 1:
        trip = X.dim(X.sub(ht, lt))
        return SymIter(trip, lambda i: i, lo=X.dim(lt))
      if v.step == -1:
        trip = X.dim(X.sub(lt, ht))
        return SymIter(trip, lambda i: Arr(X.sub(lt, i.t), (), 'int'))
      return SymIter(X.node('triprange', (lt, ht, self.as_term(v.step)), (), False, True),
                     lambda i: Arr(X.add(lt, X.mul(self.num(v.step).t, i.t)), (), 'int'))
    if isinstance(v, Ref):
      o = self.obj(v)
      if isinstance(o, ListObj):
        if o.concrete():
          return list(o.items)
        return self.symlist(v, o)
      if isinstance(o, Inst) and o.attrs.get('exact'):
        p, o.attrs['pos'] = o.attrs['pos'], len(o.attrs['yields'])
        return list(o.attrs['yields'][p:])
      if isinstance(o, Inst) and o.extra is not None:
        f = o.extra(self, v, '__iter__')
        if f is not UNDEF:
          return self.iterate(self.call(f, [], {}))
      if isinstance(o, DictObj):
        if not o.open:
          return list(o.items.keys())
        return SymIter(X.node('len', (self.as_term(v),), (), False, True),
                       lambda i: self.opaque('key', v, i))
    if isinstance(v, SymIter):
      return v
    if isinstance(v, Arr):
      if v.shape is not None and len(v.shape) >= 1:
        n = v.shape[0]
        if isinstance(n, int) and n <= MAXUNROLL:
          return [self.lib.index(v, (i,)) for i in range(n)]
        return SymIter(n, lambda i: self.lib.index(v, (i,)))
      trip = X.node('len', (v.t,), (), False, True)
      return SymIter(trip, lambda i: Arr(X.node('item', (v.t, i.t), None), None, None))
    if isinstance(v, Choice):
      k = self.pcfact(v.c)
      if k is not None:
        return self.iterate(v.a if k else v.b)
    return SymIter(X.node('len', (self.as_term(v),), (), False, True),
                   lambda i: self.opaque('item', v, i))

  def symlist(self, ref, o):
    segs = o.items
    flat = []
    for s in segs:
      flat += s.vals if isinstance(s, Seg) else [s]
    trip = X.node('len', (X.node('ref', (ref.id,), None),), (), False, True)
    if len(flat) == 1:
      return SymIter(trip, lambda i: flat[0] if not isinstance(flat[0], Arr) else self.generalize(flat[0], i))
    return SymIter(trip, lambda i: self.opaque('item', ref, i))

  def generalize(self, v, i):
    return v

  # -------------------------------------------------------------- attributes / items
  def getattr(self, o, name):
    if isinstance(o, Choice):
      k = self.pcfact(o.c)
      if k is not None:
        return self.getattr(o.a if k else o.b, name)
      if o.a is UNDEF or o.a is None:
        return self.getattr(o.b, name)
      if o.b is UNDEF or o.b is None:
        return self.getattr(o.a, name)
      return self.merge_val(o.c, self.getattr(o.a, name), self.getattr(o.b, name))
    if isinstance(o, ModV):
      v = self.mod_attr(o.mod, name)
      if v is None:
        self.event('noattr', what='module', name=o.mod.name, attr=name)
        return self.unk('modattr:%s.%s' % (o.mod.name, name))
      return v
    if isinstance(o, ExtV):
      if o.path.startswith('pkg:'):
        full = o.path[4:] + '.' + name
        if full in self.repo.mods or full in self.pkgs:
          return self.import_name(full)
        init = self.repo.mods.get(o.path[4:])
        if init is not None:
          v = self.mod_attr(init, name)
          if v is not None:
            return v
        return self.unk('pkgattr:' + full)
      p = canon(o.path + '.' + name)
      sp = self.lib.special(p)
      if sp is not None:
        return sp[0] if isinstance(sp, list) else sp
      return ExtV(p)
    if isinstance(o, Ref):
      ob = self.obj(o)
      if isinstance(ob, Inst):
        return self.inst_attr(o, ob, name)
      if isinstance(ob, DictObj):
        if ob.attr:
          if name in ob.items:
            return ob.items[name]
          m = self.lib.dict_method(o, name)
          if m is not None:
            return m
          if ob.open:
            v = ob.default(self, name) if ob.default else self.opaque('cfgattr:' + name, X.node('ref', (o.id,), None))
            if v is not UNDEF:
              ob.items[name] = v
              return v
          self.event('cfg_missing', tag=ob.tag, key=name)
          raise PyRaise(self.sure('AttributeError') if not ob.open else 'AttributeError')
        m = self.lib.dict_method(o, name)
        if m is not None:
          return m
      if isinstance(ob, ListObj):
        m = self.lib.list_method(o, name)
        if m is not None:
          return m
      return self.unk('attr:' + name, X.node('ref', (o.id,), None))
    if isinstance(o, ClassV):
      for c in o.mro():
        if name in c.ns:
          v = c.ns[name]
          if isinstance(v, StaticV):
            return v.f if v.kind == 'staticmethod' else BoundV(v.f, o)
          return v
      if name == '__name__':
        return o.name
      return self.lib.class_attr(o, name)
    if isinstance(o, SuperV):
      inst = self.obj(o.self_) if isinstance(o.self_, Ref) else None
      cls = inst.cls if isinstance(inst, Inst) else (o.self_ if isinstance(o.self_, ClassV) else None)
      if cls is None:
        return self.unk('super')
      mro = cls.mro()
      i = mro.index(o.cls) if o.cls in mro else 0
      for c in mro[i + 1:]:
        if name in c.ns:
          v = c.ns[name]
          if isinstance(v, StaticV):
            return v.f if v.kind == 'staticmethod' else BoundV(v.f, cls)
          if isinstance(v, PropV):
            return self.call(v.f, [o.self_], {})
          return BoundV(v, o.self_)
      if name == '__init__':
        return NativeV('object.__init__', lambda I, a, k: None)
      return self.unk('superattr:' + name)
    if isinstance(o, Arr):
      return self.lib.arr_attr(o, name)
    if isinstance(o, AtV):
      if o.idx is not None:
        return NativeV('at.' + name, lambda I, a, k: I.lib.at_method(o, name, a, k))
    if isinstance(o, (str, bytes)):
      return NativeV('str.' + name, lambda I, a, k: I.lib.str_method(o, name, a, k))
    if isinstance(o, (int, float, bool)):
      return self.lib.arr_attr(self.num(o), name)
    if isinstance(o, tuple):
      return NativeV('tuple.' + name, lambda I, a, k: I.lib.tuple_method(o, name, a, k))
    if isinstance(o, (FuncV, BoundV)):
      if name == '__name__':
        return (o.func if isinstance(o, BoundV) else o).name
    if isinstance(o, PartialV):
      if name == 'func':
        return o.f
    if o is None:
      self.event('none_attr', attr=name)
      raise PyRaise(self.sure('AttributeError'))
    return self.unk('attr:' + name, o)

  def inst_attr(self, ref, ob, name):
    if name in ob.attrs:
      v = ob.attrs[name]
      if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
        k = self.pcfact(v.c)
        if k is not None:
          return v.a if k else v.b
        return v.b if v.a is UNDEF else v.a
      return v
    if ob.cls is not None:
      for c in ob.cls.mro():
        if name in c.ns:
          v = c.ns[name]
          if isinstance(v, PropV):
            return self.call(v.f, [ref], {})
          if isinstance(v, StaticV):
            return v.f if v.kind == 'staticmethod' else BoundV(v.f, ob.cls)
          if isinstance(v, (FuncV,)):
            return BoundV(v, ref)
          if isinstance(v, WrapV):
            return PartialV(v, [ref], {})
          return v
      if name == '__class__':
        return ob.cls
      if name == '__dict__':
        return self.mkdict(ob.attrs)
      if name == 'replace' and getattr(ob.cls, 'dataclass', False):
        def replace(I_, a, k, src=ref):
          n = Inst(ob.cls)
          n.attrs.update(self.obj(src).attrs)
          n.attrs.update(k)
          return self.new(n)
        return NativeV('replace', replace)
      e = self.lib.inst_ext(ref, ob, name)
      if e is not None:
        return e
    if ob.extra is not None:
      v = ob.extra(self, ref, name)
      if v is not UNDEF:
        return v
    self.event('noattr', what='instance', name=ob.cls.name if ob.cls else '?', attr=name)
    return self.unk('selfattr:' + name, X.node('ref', (ref.id,), None))

  def hasattr(self, o, name):
    if isinstance(o, Ref):
      ob = self.obj(o)
      if isinstance(ob, Inst):
        if name in ob.attrs:
          v = ob.attrs[name]
          if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
            return v.c if v.b is UNDEF else X.sub(X.const(1), v.c)
          return True
        if ob.cls is not None and any(name in c.ns for c in ob.cls.mro()):
          return True
        if ob.extra is not None:
          return ob.extra(self, ref=o, name=name) is not UNDEF
        return False
      if isinstance(ob, DictObj) and ob.attr:
        return name in ob.items
    if isinstance(o, ModV):
      return self.mod_attr(o.mod, name) is not None
    return None

  def setattr(self, o, name, v):
    if isinstance(o, Ref):
      ob = self.obj(o)
      if isinstance(ob, Inst):
        self.event('mutate', obj=o.id, key=name, origin=ob.origin, attr=True, cls=ob.cls.name if ob.cls else None, val=v)
        ob.attrs[name] = v
        return
      if isinstance(ob, DictObj) and ob.attr:
        self.event('mutate', obj=o.id, key=name, origin=ob.origin, attr=True, val=v)
        ob.items[name] = v
        return
    if isinstance(o, ModV):
      self.event('global_write', name='%s.%s' % (o.mod.name, name))
      return
    if isinstance(o, Choice):
      k = self.pcfact(o.c)
      if k is not None:
        return self.setattr(o.a if k else o.b, name, v)
    self.event('ext_write', key=name, val=v)

  def getitem(self, o, k):
    if isinstance(o, Choice):
      f = self.pcfact(o.c)
      if f is not None:
        return self.getitem(o.a if f else o.b, k)
      if o.a is None or o.a is UNDEF:
        return self.getitem(o.b, k)
      if o.b is None or o.b is UNDEF:
        return self.getitem(o.a, k)
      return self.merge_val(o.c, self.getitem(o.a, k), self.getitem(o.b, k))
    if isinstance(o, Ref):
      ob = self.obj(o)
      if isinstance(ob, DictObj):
        kk = _hk(k)
        if kk in ob.items:
          v = ob.items[kk]
          if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
            f = self.pcfact(v.c)
            if f is not None:
              v = v.a if f else v.b
              if v is UNDEF:
                self.event('key_missing', key=k, origin=ob.origin)
                raise PyRaise('KeyError')
              return v
            return v.b if v.a is UNDEF else v.a
          return v
        if ob.default is not None:
          v = ob.default(self, k)
          if v is not UNDEF:
            if ob.tag != 'Counter':
              ob.items[kk] = v
            return v
        if not ob.open and isinstance(k, (str, int, bool, tuple)) and _concrete_key(k):
          self.event('key_missing', key=k, origin=ob.origin, have=tuple(ob.items))
          raise PyRaise(self.sure('KeyError') if all(_concrete_key(q) for q in ob.items) else 'KeyError')
        # symbolic key over concrete dict
        return self.opaque('item', X.node('ref', (o.id,), None), k)
      if isinstance(ob, ListObj):
        return self.lib.list_getitem(o, ob, k)
      if isinstance(ob, Inst):
        m = self.find_method(ob.cls, '__getitem__') if ob.cls else None
        if m is not None:
          return self.call(BoundV(m, o), [k], {})
        if ob.extra is not None:
          v = ob.extra(self, o, ('item', k))
          if v is not UNDEF:
            return v
        return self.opaque('item', X.node('ref', (o.id,), None), k)
    if isinstance(o, tuple):
      if isinstance(k, bool):
        k = int(k)
      if isinstance(k, int):
        if -len(o) <= k < len(o):
          return o[k]
        raise PyRaise(self.sure('IndexError'))
      if isinstance(k, SliceV) and all(z is None or isinstance(z, int) for z in (k.a, k.b, k.c)):
        return o[slice(k.a, k.b, k.c)]
      ka = self.num(k)
      if ka is not None:
        c = X.const_val(ka.t)
        if c is not None:
          return o[int(c)]
        if ka.t.is01 and len(o) == 2:
          return self.merge_val(ka.t, o[1], o[0])
      return self.opaque('item', o, k)
    if isinstance(o, str):
      if isinstance(k, int):
        return o[k] if -len(o) <= k < len(o) else self.unk('stridx')
      if isinstance(k, SliceV) and all(z is None or isinstance(z, int) for z in (k.a, k.b, k.c)):
        return o[slice(k.a, k.b, k.c)]
    if isinstance(o, Arr):
      return self.lib.index(o, k if isinstance(k, tuple) else (k,))
    if isinstance(o, AtV):
      return AtV(o.arr, k if isinstance(k, tuple) else (k,))
    if isinstance(o, RangeV):
      ka = self.num(k)
      if ka is not None:
        return Arr(X.add(self.num(o.lo).t, ka.t), (), 'int')
    if isinstance(o, (ClassV, ExtV)):
      return o  # generic alias
    return self.unk('getitem', o, k)

  def setitem(self, o, k, v):
    if isinstance(o, Ref):
      ob = self.obj(o)
      if isinstance(ob, DictObj):
        self.event('mutate', obj=o.id, key=k, origin=ob.origin, val=v, old=ob.items.get(_hk(k), UNDEF))
        if _concrete_key(k):
          ob.items[_hk(k)] = v
        else:
          ob.open = True
          self.blurred = True
          ob.items[('sym', self.as_term(k))] = v
        return
      if isinstance(ob, ListObj):
        self.event('mutate', obj=o.id, key=k, origin=ob.origin, val=v)
        if isinstance(k, int) and ob.concrete() and -len(ob.items) <= k < len(ob.items):
          ob.items[k] = v
        else:
          ob.items = [Seg('upd', [i.vals if isinstance(i, Seg) else i for i in ob.items][:0] + [v] + _flat(ob.items), k)]
        return
      if isinstance(ob, Inst):
        m = self.find_method(ob.cls, '__setitem__') if ob.cls else None
        if m is not None:
          self.call(BoundV(m, o), [k, v], {})
          return
        self.event('mutate', obj=o.id, key=k, origin=ob.origin, val=v)
        return
    if isinstance(o, Arr):
      # numpy in-place store: handled by rebinding is impossible here; record
      self.event('np_store', target=o, key=k, val=v)
      r = self.lib.np_store(o, k, v)
      return
    self.event('ext_write', key=k, val=v)

  def find_method(self, cls, name):
    for c in cls.mro():
      if name in c.ns:
        return c.ns[name]
    return None

  # -------------------------------------------------------------- expressions
  def ev(self, e, env):
    m = getattr(self, 'e_' + type(e).__name__, None)
    ln = getattr(e, 'lineno', None)
    if ln is not None:
      self.line = ln
    if m is None:
      return self.unk('expr:' + type(e).__name__)
    if Interp.DEBUG:
      return m(e, env)
    try:
      return m(e, env)
    except (PyRaise, RecursionError):
      raise
    except Exception as ex:  # analysis gap: value unknown
      return self.unk('internal:%s:%s' % (type(ex).__name__, str(ex)[:80]))

  def e_Constant(self, e, env):
    return e.value

  def e_Name(self, e, env):
    v = self.lookup(env, e.id)
    if v is UNDEF:
      self.event('undef', name=e.id)
      return self.unk('undef:' + e.id)
    if isinstance(v, Choice) and (v.a is UNDEF or v.b is UNDEF):
      k = self.pcfact(v.c)
      if k is not None:
        w = v.a if k else v.b
        if w is UNDEF:
          self.event('undef', name=e.id)
          raise PyRaise('NameError')
        return w
      return v.b if v.a is UNDEF else v.a
    return v

  def e_Attribute(self, e, env):
    o = self.ev(e.value, env)
    self.line = e.lineno
    return self.getattr(o, e.attr)

  def e_Subscript(self, e, env):
    o = self.ev(e.value, env)
    k = self.ev(e.slice, env)
    self.line = e.lineno
    return self.getitem(o, k)

  def e_Slice(self, e, env):
    f = lambda x: None if x is None else self.ev(x, env)
    return SliceV(f(e.lower), f(e.upper), f(e.step))

  def e_Index(self, e, env):
    return self.ev(e.value, env)

  def e_Tuple(self, e, env):
    out = []
    for x in e.elts:
      if isinstance(x, ast.Starred):
        vals = self.unpack(self.ev(x.value, env), None)
        if vals is None:
          return self.unk('starred')
        out += vals
      else:
        out.append(self.ev(x, env))
    return tuple(out)

  def e_List(self, e, env):
    out = []
    for x in e.elts:
      if isinstance(x, ast.Starred):
        v = self.ev(x.value, env)
        vals = self.unpack(v, None)
        if vals is None:
          out.append(Seg('star', [v]))
        else:
          out += vals
      else:
        out.append(self.ev(x, env))
    return self.mklist(out)

  def e_Set(self, e, env):
    return self.lib.mkset([self.ev(x, env) for x in e.elts])

  def e_Dict(self, e, env):
    d = self.mkdict({})
    o = self.obj(d)
    for k, v in zip(e.keys, e.values):
      if k is None:
        src = self.ev(v, env)
        if isinstance(src, Ref) and isinstance(self.obj(src), DictObj):
          o.items.update(self.obj(src).items)
          o.open = o.open or self.obj(src).open
          if self.obj(src).default is not None:
            o.default = self.obj(src).default
        else:
          o.open = True
        continue
      kk = self.ev(k, env)
      vv = self.ev(v, env)
      o = self.obj(d)
      if _concrete_key(kk):
        o.items[_hk(kk)] = vv
      else:
        o.open = True
        o.items[('sym', self.as_term(kk))] = vv
    return d

  def e_Lambda(self, e, env):
    return self.mkfunc(e, env, '<lambda>')

  def e_JoinedStr(self, e, env):
    parts = [self.ev(v, env) for v in e.values]
    if all(isinstance(p, str) for p in parts):
      return ''.join(parts)
    return self.opaque('fstr', *parts)

  def e_FormattedValue(self, e, env):
    v = self.ev(e.value, env)
    if isinstance(v, (str, int, bool, float)) and (e.format_spec is None or all(isinstance(q, ast.Constant) for q in e.format_spec.values)):
      w = repr(v) if e.conversion == 114 else str(v) if e.conversion == 115 else v
      try:
        return format(w, ''.join(q.value for q in e.format_spec.values) if e.format_spec is not None else '')
      except (ValueError, TypeError):
        return self.opaque('fmt', v)
    return v if isinstance(v, (Arr, str)) else self.opaque('fmt', v)

  def e_IfExp(self, e, env):
    c = self.truth(self.ev(e.test, env))
    if c is True:
      return self.ev(e.body, env)
    if c is False:
      return self.ev(e.orelse, env)
    return self.either(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

  def either(self, c, fa, fb):
    base = self.st
    s1, s2 = base.fork(c, True), base.fork(c, False)
    ra = rb = None
    self.st = s1
    try:
      va = fa()
      ra = self.st
    except PyRaise:
      pass
    self.st = s2
    try:
      vb = fb()
      rb = self.st
    except PyRaise:
      pass
    if ra is None and rb is None:
      self.st = base
      raise PyRaise('both')
    if ra is None:
      rb.pc = base.pc
      self.st = rb
      return vb
    if rb is None:
      ra.pc = base.pc
      self.st = ra
      return va
    self.st = self.merge_states(c, ra, rb, base.pc)
    return self.merge_val(c, va, vb)

  def e_BoolOp(self, e, env):
    isand = isinstance(e.op, ast.And)

    def go(i):
      v = self.ev(e.values[i], env)
      if i == len(e.values) - 1:
        return v
      c = self.truth(v)
      if c is True:
        return go(i + 1) if isand else v
      if c is False:
        return v if isand else go(i + 1)
      # symbolic
      base = self.st
      s1 = base.fork(c, isand)
      self.st = s1
      try:
        w = go(i + 1)
        r = self.st
      except PyRaise:
        self.st = base
        return Arr(c, (), 'bool')
      s0 = base
      if isand:
        self.st = self.merge_states(c, r, s0.clone(), base.pc)
      else:
        self.st = self.merge_states(c, s0.clone(), r, base.pc)
      cw = self.truth(w)
      wt = X.const(int(cw)) if isinstance(cw, bool) else cw
      t = X.mul(c, wt) if isand else X.sub(X.add(c, wt), X.mul(c, wt))
      isb = lambda q: isinstance(q, bool) or (isinstance(q, Arr) and q.shape is not None and (q.dtype == 'bool' or (q.dtype is None and q.t.is01)))
      if isb(v) and (isb(w) or isand):
        return Arr(t, (), 'bool')
      return Choice(c, w, v) if isand else Choice(c, v, w)

    return go(0)

  def e_UnaryOp(self, e, env):
    v = self.ev(e.operand, env)
    if isinstance(e.op, ast.Not):
      c = self.truth(v)
      if isinstance(c, bool):
        return not c
      return Arr(X.lnot(c), (), 'bool')
    if isinstance(v, (int, float)) and not isinstance(v, bool):
      if isinstance(e.op, ast.USub):
        return -v
      if isinstance(e.op, ast.UAdd):
        return v
    if isinstance(v, Choice):
      return self.merge_val(v.c, self.unary(e.op, v.a), self.unary(e.op, v.b))
    return self.unary(e.op, v)

  def unary(self, op, v):
    a = self.num(v)
    if a is None:
      return self.unk('unary', v)
    if isinstance(op, ast.USub):
      return Arr(X.neg(a.t), a.shape, 'int' if a.dtype == 'bool' else a.dtype)
    if isinstance(op, ast.Invert):
      if a.t.is01:
        return Arr(X.lnot(a.t), a.shape, a.dtype)
      return Arr(X.fn1('invert', a.t), a.shape, a.dtype)
    return a

  def e_BinOp(self, e, env):
    a = self.ev(e.left, env)
    b = self.ev(e.right, env)
    self.line = e.lineno
    return self.binop(type(e.op).__name__, a, b)

  def binop(self, op, a, b):
    if isinstance(a, Choice) and not isinstance(b, Choice):
      return self.merge_val(a.c, self.binop(op, a.a, b), self.binop(op, a.b, b))
    if isinstance(b, Choice):
      return self.merge_val(b.c, self.binop(op, a, b.a), self.binop(op, a, b.b))
    return self.lib.binop(op, a, b)

  def e_Compare(self, e, env):
    left = self.ev(e.left, env)
    res = None
    for op, c in zip(e.ops, e.comparators):
      right = self.ev(c, env)
      self.line = e.lineno
      r = self.compare(type(op).__name__, left, right)
      if res is None:
        res = r
      else:
        a, b = self.truth(res), self.truth(r)
        if a is False or b is False:
          res = False
        elif a is True:
          res = r
        elif b is True:
          pass
        else:
          res = Arr(X.land(a, b), (), 'bool')
      left = right
    return res

  def compare(self, op, a, b):
    if isinstance(a, Choice):
      k = self.pcfact(a.c)
      if k is not None:
        return self.compare(op, a.a if k else a.b, b)
      return self.merge_val(a.c, self.compare(op, a.a, b), self.compare(op, a.b, b))
    if isinstance(b, Choice):
      return self.merge_val(b.c, self.compare(op, a, b.a), self.compare(op, a, b.b))
    return self.lib.compare(op, a, b)

  def e_NamedExpr(self, e, env):
    v = self.ev(e.value, env)
    self.assign(e.target, v, env)
    return v

  def e_Starred(self, e, env):
    return self.ev(e.value, env)

  def e_Await(self, e, env):
    return self.ev(e.value, env)

  def e_Yield(self, e, env):
    v = self.ev(e.value, env) if e.value is not None else None
    self.event('yield', val=v, gen=self.gens[-1] if self.gens else None, snap=self.shallow(v))
    return None

  def shallow(self, v):
    """The value as the consumer of a generator sees it when it is yielded."""
    if isinstance(v, Ref):
      o = self.st.heap.get(v.id)
      if isinstance(o, ListObj):
        return tuple(o.items)
    return None

  def e_YieldFrom(self, e, env):
    v = self.ev(e.value, env)
    it = self.iterate(v)
    if isinstance(it, list):
      for x in it:
        self.event('yield', val=x, gen=self.gens[-1] if self.gens else None, snap=self.shallow(x))
      return None
    self.event('yieldfrom', val=v)
    return None

  def e_ListComp(self, e, env):
    return self.comp(e, env, 'list')

  def e_SetComp(self, e, env):
    return self.lib.x_builtins_set(self.comp(e, env, 'list'))

  def e_GeneratorExp(self, e, env):
    return self.comp(e, env, 'list')

  def e_DictComp(self, e, env):
    return self.comp(e, env, 'dict')

  def comp(self, e, env, kind):
    cenv = self.newenv(env, self.mod)
    out = self.mklist([]) if kind == 'list' else self.mkdict({})
    # desugar to loops
    if kind == 'list':
      inner = ast.Expr(value=_Act(lambda: self.obj(out).items.append(self.ev(e.elt, cenv))))
    else:
      def put():
        k = self.ev(e.key, cenv)
        v = self.ev(e.value, cenv)
        o = self.obj(out)
        if _concrete_key(k):
          o.items[_hk(k)] = v
        else:
          o.open = True
          o.items[('sym', self.as_term(k))] = v
      inner = ast.Expr(value=_Act(put))
    body = [inner]
    first_env = env
    for gi, g in reversed(list(enumerate(e.generators))):
      for cond in reversed(g.ifs):
        body = [ast.If(test=cond, body=body, orelse=[])]
      body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
    for n in body:
      for m in ast.walk(n):
        if not hasattr(m, 'lineno'):
          m.lineno = e.lineno
          m.col_offset = 0
    outs = self.block(body, cenv)
    normals = [o for o in outs if o.kind == 'normal']
    if not normals:
      raise PyRaise('comp')
    self.st = normals[0].st
    return out

  def e__Act(self, e, env):
    e.fn()
    return None

  # -------------------------------------------------------------- calls
  def e_Call(self, e, env):
    f = self.ev(e.func, env)
    args, kw = [], {}
    star_unknown = False
    for a in e.args:
      if isinstance(a, ast.Starred):
        v = self.ev(a.value, env)
        vals = self.unpack(v, None)
        if vals is None:
          star_unknown = True
          args.append(v)
        else:
          args += vals
      else:
        args.append(self.ev(a, env))
    for k in e.keywords:
      v = self.ev(k.value, env)
      if k.arg is None:
        if isinstance(v, Ref) and isinstance(self.obj(v), DictObj):
          for kk, vv in self.obj(v).items.items():
            if isinstance(kk, str):
              kw[kk] = vv
        else:
          star_unknown = True
      else:
        kw[k.arg] = v
    self.line = e.lineno
    if isinstance(f, ExtV) and f.path == 'builtins.super':
      return self.mksuper(args, env)
    if star_unknown and isinstance(f, (FuncV, BoundV)):
      return self.unk('starcall', f)
    return self.call(f, args, kw)

  def mksuper(self, args, env):
    if args:
      return SuperV(args[0], args[1])
    e = self.st.heap[env]
    while e is not None:
      if '__class__' in e.vars and '__self__' in e.vars:
        return SuperV(e.vars['__class__'], e.vars['__self__'])
      if e.parent is None:
        break
      e = self.st.heap.get(e.parent)
    return self.unk('super')

  def call(self, f, args, kw):
    if isinstance(f, Choice):
      k = self.pcfact(f.c)
      if k is not None:
        return self.call(f.a if k else f.b, args, kw)
      return self.either(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
    if isinstance(f, FuncV):
      return self.call_func(f, args, kw)
    if isinstance(f, BoundV):
      if isinstance(f.func, (FuncV,)):
        return self.call_func(f.func, [f.self_] + list(args), kw)
      return self.call(f.func, [f.self_] + list(args), kw)
    if isinstance(f, NativeV):
      return f.fn(self, args, kw)
    if isinstance(f, PartialV):
      k2 = dict(f.kw)
      k2.update(kw)
      return self.call(f.f, list(f.args) + list(args), k2)
    if isinstance(f, ClassV):
      return self.instantiate(f, args, kw)
    if isinstance(f, WrapV):
      return self.lib.call_wrap(f, args, kw)
    if isinstance(f, ExtV):
      return self.lib.call_ext(f.path, args, kw)
    if isinstance(f, StaticV):
      return self.call(f.f, args, kw)
    if isinstance(f, Ref):
      o = self.obj(f)
      if isinstance(o, Inst):
        if o.cls is not None:
          m = self.find_method(o.cls, '__call__')
          if m is not None:
            return self.lib.call_inst(f, o, m, args, kw)
        if o.extra is not None:
          v = o.extra(self, f, '__call__')
          if v is not UNDEF:
            return self.call(v, args, kw)
    if isinstance(f, Arr):
      return Arr(X.node('call', (f.t,) + tuple(self.as_term(a) for a in args) +
                        tuple((k, self.as_term(v)) for k, v in sorted(kw.items())), None), None, None)
    if f is None:
      self.event('none_call')
      raise PyRaise('TypeError')
    return self.unk('call', f, *args)

  def instantiate(self, c, args, kw):
    if any('Enum' in p for p in c.ext_bases()):
      return self.unk('enum')
    inst = Inst(c)
    r = self.new(inst)
    init = self.find_method(c, '__init__')
    if init is not None:
      self.call(BoundV(init, r), args, kw)
    else:
      # dataclass-like (flax modules, struct.dataclass)
      fields = []
      for k in reversed(c.mro()):
        for nm in k.ns.get('__annotations__', ()):
          if nm not in fields:
            fields.append(nm)
      o = self.obj(r)
      for nm in fields:
        for k in c.mro():
          if nm in k.ns:
            o.attrs[nm] = k.ns[nm]
            break
      for nm, v in zip(fields, args):
        o.attrs[nm] = v
      for nm, v in kw.items():
        o.attrs[nm] = v
    return r

  def bind_args(self, f, args, kw):
    a = f.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    vals = {}
    args = list(args)
    kw = dict(kw)
    for nm, v in zip(names, args):
      vals[nm] = v
    extra = args[len(names):]
    if a.vararg:
      vals[a.vararg.arg] = tuple(extra)
    elif extra:
      return None, 'takes %d positional arguments but %d were given' % (len(names), len(args))
    kwextra = {}
    kwonly = [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
      if k in names or k in kwonly:
        if k in vals:
          return None, "got multiple values for argument '%s'" % k
        vals[k] = v
      elif a.kwarg:
        kwextra[k] = v
      else:
        return None, "got an unexpected keyword argument '%s'" % k
    if a.kwarg:
      vals[a.kwarg.arg] = self.mkdict(kwextra)
    d = f.defaults
    for nm, v in zip(names[len(names) - len(d):], d):
      vals.setdefault(nm, v)
    for nm, v in zip(kwonly, f.kwdefaults):
      if v is not UNDEF:
        vals.setdefault(nm, v)
    miss = [n for n in names + kwonly if n not in vals]
    if miss:
      return None, 'missing required argument(s) %s' % ', '.join(miss)
    return vals, None

  def call_func(self, f, args, kw):
    if self.depth >= MAXDEPTH:
      return self.unk('depth', f)
    vals, err = self.bind_args(f, args, kw)
    if err:
      self.event('bad_call', func=f.name, why=err, target=f)
      raise PyRaise(Sure('TypeError'))
    sv = (self.mod, self.line)
    hook = self.lib.func_hook(f, vals)
    if hook is not None:
      return hook
    self.touched_funcs.add((f.mod.path, f.name))
    caller_line = self.line
    env = self.newenv(f.env, f.mod)
    e = self.st.heap[env]
    e.vars.update(vals)
    if f.cls is not None:
      e.vars['__class__'] = f.cls
      nm = f.node.args.posonlyargs + f.node.args.args
      if nm and args:
        e.vars['__self__'] = args[0]
    self.depth += 1
    qn = (f.cls.name + '.' + f.name) if f.cls is not None else f.name
    self.frames.append((f.mod.path, qn))
    self.mod = f.mod
    npc = len(self.st.pc)
    pc0 = self.st.pc
    try:
      if isinstance(f.node, ast.Lambda):
        return self.ev(f.node.body, env)
      if _is_generator(f.node):
        return self.call_generator(f, env)
      outs = self.block(f.node.body, env)
      rets = [Out('return', o.val if o.kind == 'return' else None, o.st) for o in outs if o.kind in ('return', 'normal')]
      if not rets:
        r = [o for o in outs if o.kind == 'raise']
        if r:
          self.st = r[0].st
          self.st.pc = pc0
        raise PyRaise(r[0].val if r else None)
      v, st = self.merge_outs(rets)
      st.pc = pc0
      self.st = st
      return v
    finally:
      self.depth -= 1
      self.frames.pop()
      self.mod, self.line = sv

  def call_generator(self, f, env):
    """Summarise a generator: run the body once, collecting yields."""
    mark = len(self.events)
    loops, pc0 = len(self.loops), self.st.pc
    self.ngen += 1
    gid = self.ngen
    self.gens.append(gid)
    try:
      outs = self.block(f.node.body, env)
    finally:
      self.gens.pop()
    rets = [o for o in outs if o.kind in ('return', 'normal')]
    if rets:
      _, st = self.merge_outs([Out('return', None, o.st) for o in rets])
      st.pc = st.pc[:0] + self.st.pc[:0] if False else st.pc
      self.st = st
    ys = [e for e in self.events[mark:] if e['kind'] == 'yield' and e['gen'] == gid]
    gi = Inst(None)
    gi.origin = 'generator:' + f.name
    gi.attrs['yields'] = tuple(y['val'] for y in ys)
    gi.attrs['snaps'] = tuple(y['snap'] for y in ys)
    if len(rets) == 1 and len(self.loops) == loops and all(y['pc'] == pc0 for y in ys) and not any(e['kind'] == 'yieldfrom' for e in self.events[mark:]):
      gi.attrs.update(exact=True, pos=0)
    r = self.new(gi)
    return r


class _Act(ast.expr):
  _fields = ()

  def __init__(self, fn):
    super().__init__()
    self.fn = fn


def _catches(h, what):
  if h.type is None:
    return True
  ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
  ns = {ast.unparse(t).split('.')[-1] for t in ts}
  return str(what) in ns or bool(ns & {'Exception', 'BaseException'})


def _is_generator(node):
  r = getattr(node, '_gen', None)
  if r is None:
    r = node._gen = _yields(node)
  return r


def _yields(node):
  stack = list(node.body)
  while stack:
    n = stack.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    stack.extend(ast.iter_child_nodes(n))
  return False


def _flat(items):
  out = []
  for i in items:
    if isinstance(i, Seg):
      out += _flat(i.vals)
    else:
      out.append(i)
  return out


def _load(t):
  import copy
  n = copy.copy(t)
  n.ctx = ast.Load()
  return n


def _concrete_key(k):
  if isinstance(k, (str, int, bool, float, bytes)) or k is None:
    return True
  if isinstance(k, tuple):
    return all(_concrete_key(x) for x in k)
  if isinstance(k, Arr):
    return X.const_val(k.t) is not None
  return False


def _hk(k):
  if isinstance(k, Arr):
    c = X.const_val(k.t)
    if c is not None:
      return int(c) if c.denominator == 1 else float(c)
    return ('sym', k.t)
  if isinstance(k, (Ref,)):
    return ('ref', k.id)
  try:
    hash(k)
    return k
  except TypeError:
    return repr(k)


def cells(o):
  if isinstance(o, EnvObj):
    return o.vars
  if isinstance(o, DictObj):
    return o.items
  if isinstance(o, Inst):
    return o.attrs
  return {}


_ORD = {'bool': 0, 'int': 1, 'float': 2}


def promote(a, b):
  if a == b:
    return a
  if a in _ORD and b in _ORD:
    return a if _ORD[a] >= _ORD[b] else b
  return a if b is None else (b if a is None else None)


_CANON = {
    'jnp': 'jax.numpy', 'np': 'numpy',
}


def canon(p):
  if p.startswith('builtins.'):
    return p
  return p
