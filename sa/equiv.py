"""Canonical form and comparison of path summaries.

A summary is turned into a pure term: loops become For(idx, tree), recursions Fix(tree), function values Fun(tree), where
a tree is an ordered decision diagram over the facts. Two summaries agree when, under every jointly consistent
combination of facts, outcome and effects are equal terms.
"""
from .facts import Facts, INF
from .terms import *
from .interp import Raised, events_of, view_entries, Unsupported, Budget, of_signature, plain_base

HOLE = T("Hole")


class TooComplex(Exception):
  pass


def drop_empty(canon, t, F):
  """Removes loops over sequences the facts say are empty."""
  empty = {a.a[0].a[0] for a, v in F.items() if a.op == "A.rng" and a.a[0].op == "Len" and v[1] <= 0}
  empty |= {a.a[0] for a, v in F.items() if a.op == "A.truth" and v is False}
  if not empty:
    return t
  memo = {}

  def go(x):
    if isinstance(x, tuple):
      return tuple(y for y in map(go, x) if not nothing(y))
    if not isinstance(x, T) or not x.a:
      return x
    if x in memo:
      return memo[x]
    if x.op == "For" and x.a[0].a[0] in empty:
      r = T("Nothing")
    else:
      na = tuple(go(y) for y in x.a)
      if na == x.a:
        r = x
      else:
        if x.op in ("Seq", "Tup", "Ent"):
          na = tuple(y for y in na if not nothing(y))
        r = Tup(na) if x.op == "Tup" else T(x.op, *na)
        if x.op == "Seq":
          r = canon.c(r)
    memo[x] = r
    return r

  r = go(t)
  return canon.c(r) if r is not t else t


class Mismatch:

  def __init__(self, facts, a, b, where=()):
    self.facts, self.a, self.b, self.where = facts, a, b, where


def by_target(effects):
  return tuple(sorted(effects, key=lambda kv: kv[0].n))


BINDERS = ("For", "Fold", "FoldAt", "A.ex", "Fun", "Each")


class Canon:

  def __init__(self, interp, limit=500000):
    self.i = interp
    self.memo = {}
    self.height = {}
    self.steps = 0
    self.limit = limit
    self.uid = 0
    self.pmemo = {}
    self.structural = {}
    self.carrying = []
    self.binding = []
    self.carry_labels = {}
    self.carry_depth = 1

  def tick(self):
    self.steps += 1
    if self.steps > self.limit:
      raise TooComplex("canonical form too large")

  # -- terms
  def c(self, t):
    if isinstance(t, tuple):
      return tuple(self.c(x) for x in t)
    if not isinstance(t, T):
      return t
    r = self.memo.get(t)
    if r is not None:
      return r
    self.tick()
    r = self._c(t)
    self.memo[t] = r
    self.memo[r] = r
    return r

  def _c(self, t):
    o = t.op
    if not t.a or o in ("K", "P", "Ext", "Cls", "Hole"):
      return t
    if o in ("Carry", "carried") and t.a[-1].op == "K" and kval(t.a[-1]) in self.i.carriers:
      return self.carried(t)
    if o == "LE":
      return self.le(t.a[0].v, t.a[1])
    if o == "Lam":
      return self.lam(t.a[0].v)
    if o == "FixRes":
      return self.fixres(t.a[0].v)
    if o == "Phi":
      region, init, nm, idx = t.a
      f = self.bind("Fold", idx, (self.c(init),), self.region_tree(region.v, ("var", nm)))
      return self.count(f)
    if o == "PhiAt":
      region, root, key = t.a
      return self.bind("FoldAt", region.v.idx, (self.c(root), self.c(key)), self.region_tree(region.v, ("ev", root)))
    if o == "A.ex":
      return self.ex(t)
    if o == "Idx":
      return T("Idx", self.c(t.a[0]), t.a[1])
    if o == "Tup":
      return Tup(y for x in t.a for y in self.seq_entry(self.c(x)))
    na = tuple(self.c(x) for x in t.a)
    if o == "Seq":
      f = self.dict_entry if na[0] == "dict" else self.seq_entry
      na = (na[0],) + tuple(y for x in na[1:] for y in f(x))
      if na[0] == "list" and any(isinstance(x, T) and x.op in ("ins!", "pop!") for x in na[1:]):
        na = self.edited(na)
      if na[0] == "list" and len(na) == 3 and na[1].op == "X" and na[2].op == "For":
        na = self.placed(na)
      if na[0] == "dict" and len(na) > 2 and na[-1].op == "For":
        na = self.pruned(na)
    if o == "Popped" and na[0].op == "Seq" and na[0].a[0] == "list":
      return T("It", *na)
    if o == "Sorted":
      na = (self.listed(na[0]),) + na[1:]
    if o == "At" and na[1] in ("_mapping", K("_mapping")) and self.i.types.get(na[0]) in set(self.i.hooks.get("sorted_classes", ())) - self.i.hooks.get("concrete", set()):
      return na[0]
    if o in ("A.in", "It", "A.hasattr"):
      na = self.not_yet(na, 0 if o == "A.in" else 1)
      n = 1 if o == "A.in" else 0
      if o == "A.in":
        na = (na[0], self.keys_only(na[1]))
      na = na[:n] + (self.sorted_copy(na[n]),) + na[n + 1 :]
    if o == "It":
      if na[0].op == "Seq" and na[0].a[0] == "set" and intk(na[1]) and kval(na[1]) == 0:
        return T("AnyOf", na[0])
      v = self.looked_up(*na)
      if v is None:
        v = self.picked(*na)
      if v is not None:
        return v
      if na[0].op == "Op" and na[0].a[0] == "*" and na[0].a[1].op == "Seq" and na[0].a[1].a[0] == "list" and len(na[0].a[1].a) == 2 and na[0].a[1].a[1].op not in ("X", "LE", "For", "Fix", "Carried") and na[1].op == "Idx":
        return na[0].a[1].a[1]
    if o == "Len":
      n = self.counted(na[0])
      if n is not None:
        return self.size(n.a[0]) if n.op == "Len" else n
      return self.size(na[0])
    if o == "Ap":
      # a function of another library takes the items of an iterator as it would those of a list
      f = lambda x: T("Seq", "list", *x.a[1:]) if isinstance(x, T) and x.op == "Seq" and x.a[0] == "iter" else x
      na = (na[0], tuple(f(y) for x in na[1] for y in self.seq_entry(x)), tuple((k, self.copied(f(x)) if k == "**" else f(x)) for k, x in na[2])) + na[3:] if len(na) >= 3 and isinstance(na[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in na[2]) else na
    if o in ("Ap", "New") and len(na) >= 3 and na[0].op == "Type" and self.holds_value(na[0].a[0]) and len(na[1]) == 1 and len(na[2]) == 1 and na[2][0][0] == "**":
      na = (na[0],) + self.whole_of(na[1][0], na[2][0][1]) + na[3:]
    if o == "Ap" and na[0].op == "At" and na[0].a[0] is T("Cls", "nnx.state.State") and na[0].a[1] == "merge" and len(na[1]) == 2 and not na[2] and fixed(na[1]):
      return T("Op", "|", *na[1])
    if o == "At" and na[1] == "name" and na[0].op == "It" and of_signature(na[0].a[0]):
      return na[0].a[1]
    if o == "At" and na[1] in ("value", K("value")) and self.holds_value(na[0]):
      return T("It", T("Vars", na[0]), K("value"))
    if o == "Poly":
      return t if na == t.a else self.poly(t)
    r = t if na == t.a else T(o, *na)
    return self.sym(r) if o in ("A.is", "A.eq") else r

  def holds_value(self, x):
    """x is a container: x.value is its attribute and nothing else, and its constructor takes it as `value`."""
    p = self.i.p
    c = self.i.types.get(x)
    if c not in p.classes or "nnx.containers.Container" not in p.mro(c):
      return False
    return p.find_attr(c, "value") is None and not any(p.find_method(c, m) for m in ("value", "value.setter", "__getattribute__"))

  def whole_of(self, v, rest):
    """f(m[k], **{everything of m but k}) is f(**m) when k names the first parameter."""
    k = K("value")
    if v.op == "It" and v.a[1] is k and isinstance(rest, T) and rest.op == "Seq" and rest.a[0] == "dict" and len(rest.a) == 2 and rest.a[1].op == "For":
      m = v.a[0]
      idx, body = rest.a[1].a
      own = T("Key", m, idx)
      if idx.a[0] is m and body.op == "If" and body.a[0] is self.sym(T("A.eq", own, k)) and body.a[1] is T("Ent", ()) and body.a[2] is T("Ent", (T("put", own, T("It", m, own)),)):
        return (), (("**", m),)
    return (v,), (("**", rest),)

  def copied(self, d):
    """The mapping a dict is merely a copy of."""
    if isinstance(d, T) and d.op == "Seq" and d.a[0] in ("dict", "set") and len(d.a) == 2:
      e = d.a[1]
      if e.op == "X":
        return e.a[0]
      if e.op == "For" and e.a[1].op == "Ent" and len(e.a[1].a) == 1 and len(e.a[1].a[0]) == 1:
        m, j, x = e.a[0].a[0], e.a[0], e.a[1].a[0][0]
        own = T("Key", m, j)
        if x.op == "put" and x.a[0] is own and x.a[1] is T("It", m, own) or d.a[0] == "set" and x is own:
          return m
    return d

  def sorted_copy(self, d):
    """A dict filled with what another holds, or with pairs, in the order of the keys: what it holds is asked of what was sorted."""
    if isinstance(d, T) and d.op == "Seq" and d.a[0] == "dict" and len(d.a) == 2 and d.a[1].op == "For":
      i, body = d.a[1].a
      if i.op == "Idx" and i.a[0].op == "SortedBase" and i.a[0].a[1] in (K("key"), K("first")):
        m = T("ItemsOf", i.a[0].a[0]) if i.a[0].a[1] is K("key") else i.a[0].a[0]
        e = self.dict_entry(X(T("Sorted", m, T("KeyFirst"), FALSE)))
        if len(e) == 1 and e[0] is d.a[1]:
          return T("Sorted", m, T("KeyFirst"), FALSE)
    return d

  def pruned(self, na):
    """A dict from which the keys of another collection are then deleted never had them."""
    out = list(na)
    k = 2
    while k < len(out):
      e = out[k]
      if e.op == "For" and all(self.is_puts(x) for x in out[1:k]):
        i, body = e.a
        own = T("Key", i.a[0], i)
        gone = T("Ent", (T("del!", own),))
        guard = None
        if body.op == "If" and body.a[0].op == "A.in" and body.a[0].a[0] is own and body.a[1] is gone and body.a[2] is T("Ent", ()):
          guard = body.a[0].a[1]
        held = T("Seq", *out[:k])
        if guard is not None and guard in (held, self.copied(held)):
          out[1:k] = [self.but(x, i.a[0]) for x in out[1:k]]
          del out[k]
          continue
      k += 1
    return tuple(out)

  def is_puts(self, e):
    return e.op == "For" and all(leaf.op == "Hole" or leaf.op == "Ent" and len(leaf.a) == 1 and len(leaf.a[0]) <= 1 and all(x.op == "put" for x in leaf.a[0]) for _, leaf in self.rows_of(e.a[1]))

  def but(self, e, gone):
    """The entries of a dict whose keys are not among others."""

    def go(t):
      if t.op == "If":
        return T("If", t.a[0], go(t.a[1]), go(t.a[2]))
      if t.op == "Ent" and t.a[0]:
        (x,) = t.a[0]
        return T("If", T("A.in", x.a[0], gone), T("Ent", ()), t)
      return t

    return T("For", e.a[0], self.ordered(go(e.a[1])))

  def not_yet(self, na, n):
    """What a loop over the keys of a mapping did to earlier keys is nothing to the present one: keys differ."""
    key, d = na[n], na[1 - n]
    if not (isinstance(key, T) and isinstance(d, T) and d.op == "Seq" and d.a[0] in ("dict", "set")):
      return na
    if key.op == "Key" and key.a[1].op == "Idx":
      base, i = key.a
      named = lambda j: T("Key", base, j)
    elif key.op == "At" and key.a[1] == "name" and key.a[0].op == "It" and key.a[0].a[1].op == "Idx" and key.a[0].a[0].op == "Ap" and key.a[0].a[0].a[0] is T("Ext", "dataclasses.fields"):
      # so do the names of the fields of a dataclass
      base, i = key.a[0].a
      named = lambda j: T("At", T("It", base, j), "name")
    else:
      return na

    def others(e):
      if e.op != "Carried" or e.a[0].op != "carried" or e.a[0].a[0] is not i or e.a[1].op != "Each":
        return False
      j, body = e.a[1].a
      if j.a[0] is not i.a[0]:
        return False
      own = named(j)
      for _, leaf in self.rows_of(body):
        if leaf.op == "Nothing":
          continue
        if leaf.op != "Ent" or len(leaf.a) != 1:
          return False
        for x in leaf.a[0]:
          if not isinstance(x, T) or (x.a[0] if x.op in ("put", "del!", "pop!") else x if d.a[0] == "set" else None) is not own:
            return False
      return True

    rest = [e for e in d.a[1:] if not others(e)]
    d = self.copied(T("Seq", d.a[0], *rest))
    if d is na[1 - n]:
      return na
    return (key, d) if n == 0 else (d, key)

  def count(self, f):
    """A variable that follows the position in a loop ends as the number of iterations."""
    idx, init, body = f.a
    if body.op == "Ent" and len(body.a) == 1 and len(body.a[0]) == 1 and intk(init):
      d = add(body.a[0][0], idx, -1)
      if intk(d) and kval(d) == kval(init) + 1:
        return add(T("Len", idx.a[0]), K(kval(init)))
    return f

  def size(self, x):
    """Length of a range, or of a part of a sequence known to be long enough."""
    if x.op == "Range" and len(x.a) == 1 and at_least(x.a[0], 0):
      return x.a[0]
    if x.op == "Op" and x.a[0] == "*" and x.a[1].op == "Seq" and x.a[1].a[0] == "list" and len(x.a[1].a) == 2 and x.a[1].a[1].op not in ("X", "LE", "For", "Fix", "Carried") and intl(x.a[2]) and at_least(x.a[2], 0):
      return x.a[2]
    y = x.a[1:] if x.op == "Seq" and x.a[0] == "list" else x.a if x.op == "Tup" else ()
    if len(y) == 1 and y[0].op == "X":
      return self.size(y[0].a[0])
    if x.op == "Slice" and isK(x.a[3]) and kval(x.a[3]) in (None, 1) and all(isK(v) and (kval(v) is None or intk(v)) for v in x.a[1:3]):
      lo, hi = kval(x.a[1]) or 0, kval(x.a[2]) if kval(x.a[2]) is not None else 0
      if lo >= 0 and hi <= 0 and not kval(x.a[2]) == 0:
        n = self.counted(x.a[0]) or T("Len", x.a[0])
        n = add(self.size(n.a[0]) if n.op == "Len" else n, K(hi - lo))
        if at_least(n, 0):
          return n
    return T("Len", x)

  def counted(self, x):
    """Length of a list filled by one loop: the elements do not matter."""
    if not (x.op == "Seq" and x.a[0] == "list" or x.op == "Tup"):
      return None
    es = x.a[1:] if x.op == "Seq" else x.a
    if len(es) != 1 or es[0].op != "For":
      return None

    def go(t):
      if t.op == "If":
        return T("If", t.a[0], go(t.a[1]), go(t.a[2]))
      if t.op == "Ent":
        return T("Ent", tuple(y if y.op in ("X", "LE", "For", "Fix", "Nothing") else K(1) for y in t.a[0]), *t.a[1:])
      return t

    idx, body = es[0].a
    body = go(body)
    if body.op == "Ent" and body.a == ((K(1),),):
      return T("Len", idx.a[0])
    return T("Len", T("Seq", "list", T("For", idx, body)))

  def looked_up(self, d, k):
    """Value of a dict filled with one entry per key of a mapping, at such a key."""
    if not (d.op == "Seq" and d.a[0] == "dict" and len(d.a) == 2 and d.a[1].op == "For" and k.op == "Key"):
      return None
    idx, body = d.a[1].a
    if body.op != "Ent" or len(body.a) != 1 or len(body.a[0]) != 1:
      return None
    e = body.a[0][0]
    if e.op != "put" or e.a[0].op != "Key" or e.a[0].a[1] is not idx or e.a[0].a[0] is not k.a[0] or k.a[1].op != "Idx" or k.a[1].a[0] is not idx.a[0]:
      return None
    return self.subst(e.a[1], {idx: k.a[1]})

  def picked(self, d, k):
    """Item, at a position in some sequence, of a list made of one item per element of another."""
    if not (d.op == "Seq" and d.a[0] in ("list", "iter") and len(d.a) == 2 and d.a[1].op == "For" or d.op == "Tup" and len(d.a) == 1 and d.a[0].op == "For") or k.op != "Idx":
      return None
    idx, body = d.a[-1].a
    if body.op != "Ent" or len(body.a) != 1 or len(body.a[0]) != 1 or not fixed(body.a[0]) or self.h(body):
      return None
    return self.subst(body.a[0][0], {idx: k})

  def placed(self, na):
    """A copy of a sequence whose items at the positions in another are replaced by one value."""
    base, (idx, body) = na[1].a[0], na[2].a
    if body.op != "Ent" or len(body.a) != 1 or len(body.a[0]) != 1 or body.a[0][0].op != "set!":
      return na
    k, v = body.a[0][0].a
    if k is not T("It", idx.a[0], idx) or any(x is idx for x in walk(v)):
      return na
    i = T("Idx", base, 0)
    tree = self._tree([([(T("A.in", i, idx.a[0]), True)], T("Ent", (v,))), ([(T("A.in", i, idx.a[0]), False)], T("Ent", (T("It", base, i),)))], Facts(self.i.th))
    return ("list", self.bind("For", i, (), tree))

  def edited(self, na):
    """A list after an insertion at any position is what is before it, the item, and the rest."""
    out = ()
    for x in na[1:]:
      if x.op == "pop!":
        out += (T("del!", *x.a),)
      elif x.op == "ins!":
        l = T("Seq", "list", *out)
        if len(out) == 1 and out[0].op == "X" and out[0].a[0].op in ("P", "At", "It", "RS", "Ap"):
          l = out[0].a[0]
        out = (X(T("Slice", l, K(0), x.a[0], NONE)), x.a[1], X(T("Slice", l, x.a[0], NONE, NONE)))
      else:
        out += (x,)
    return (na[0],) + out

  def listed(self, x):
    """What is sorted, or spliced: only the items matter."""
    if x.op == "Seq" and x.a[0] == "iter":
      return T("Seq", "list", *x.a[1:])
    if x.op == "Tup":
      return T("Seq", "list", *x.a)
    f = self.spliced(x)
    return x if f is None else T("Seq", "list", f)

  def spliced(self, x):
    """Items of the list a recursion returns, as the items a recursive generator gives."""
    if not (x.op == "Fix" and x.a[0] is K("ret")):
      return None

    def go(t):
      if t.op == "If":
        a, b = go(t.a[1]), go(t.a[2])
        return None if a is None or b is None else T("If", t.a[0], a, b)
      if t.op == "Ent":
        if len(t.a[0]) != 1:
          return None
        l = t.a[0][0]
        if l.op == "Rec":
          return T("Ent", (X(l),), *t.a[1:])
        if l.op == "Tup" or l.op == "Seq" and l.a[0] in ("list", "iter"):
          return T("Ent", tuple(l.a if l.op == "Tup" else l.a[1:]), *t.a[1:])
        return None
      return t

    b = go(x.a[1])
    return None if b is None else T("Fix", K("view"), b)

  def put_pairs(self, x, which=None):
    """dict entries as the (k, v) pairs they are filled from"""
    if x.op == "put":
      return Tup(x.a) if which is None else x.a[which]
    if x.op == "For":
      def go(t):
        if t.op == "If":
          a, b = go(t.a[1]), go(t.a[2])
          return None if a is None or b is None else T("If", t.a[0], a, b)
        if t.op == "Ent" and len(t.a) == 1:
          es = [self.put_pairs(y, which) for y in t.a[0]]
          return None if None in es else T("Ent", tuple(es))
        return t if t.op in ("Hole", "Raise") else None
      b = go(x.a[1])
      return None if b is None else T("For", x.a[0], b)
    if which is not None:
      return None
    if x.op == "X":
      return self.spliced(x.a[0])
    return x if x.op == "Fix" else None

  def pair_puts(self, x):
    """(k, v) pairs as dict entries"""
    if x.op == "Tup" and len(x.a) == 2 and fixed(x.a):
      return T("put", *x.a)
    if x.op == "For":
      def go(t):
        if t.op == "If":
          a, b = go(t.a[1]), go(t.a[2])
          return None if a is None or b is None else T("If", t.a[0], a, b)
        if t.op == "Ent" and len(t.a) == 1:
          es = [self.pair_puts(y) for y in t.a[0]]
          return None if None in es else T("Ent", tuple(es))
        return t if t.op in ("Hole", "Raise") else None
      b = go(x.a[1])
      return None if b is None else T("For", x.a[0], b)
    return None

  def seq_entry(self, e):
    """Entries of a sequence in canonical form: views and zips are loops, a loop yielding every element is the sequence."""
    if e.op == "X" and e.a[0].op in ("KeysOf", "ItemsOf", "ValuesOf", "Zip", "Enum"):
      v = e.a[0]
      if v.op in ("KeysOf", "ItemsOf", "ValuesOf"):
        d = v.a[0]
        if d.op == "Inst" and d.a[0].op == "Cls" and d.a[0].a[0] in self.i.hooks.get("sorted_classes", ()):
          d = next((x for k, x in d.a[1] if k == "_mapping"), d)
        if d.op == "Seq" and d.a[0] == "dict" and len(d.a) == 2 and self.is_puts(d.a[1]):
          x = self.put_pairs(d.a[1], {"KeysOf": 0, "ValuesOf": 1, "ItemsOf": None}[v.op])
          if x is not None:
            return [x]
      idx = T("Idx", self.base(v), -1)
      el = self.element(v, idx)
      if el is not None:
        return [self.identity(T("For", idx, T("Ent", (el,))))]
    if e.op == "X":
      f = self.spliced(e.a[0])
      if f is not None:
        return [f]
      x = e.a[0]
      if x.op == "Tup" or x.op == "Seq" and x.a[0] in ("list", "iter") and not any(y.op.endswith("!") or y.op in ("carried", "Carry", "Carried") for y in x.a[1:]):
        return list(x.a if x.op == "Tup" else x.a[1:])
      if x.op == "Slice" and x.a[0].op == "Seq" and x.a[0].a[0] == "list" and len(x.a[0].a) == 2 and x.a[0].a[1].op == "X" and x.a[0].a[1].a[0].op in ("P", "At", "It", "RS", "Ap"):
        return [X(T("Slice", x.a[0].a[1].a[0], *x.a[1:]))]
    return [self.identity(e)]

  def identity(self, e):
    if e.op == "For" and e.a[1].op == "Ent" and len(e.a[1].a) == 1 and len(e.a[1].a[0]) == 1:
      x = e.a[1].a[0][0]
      if x.op not in ("X", "LE", "For", "Fix", "put", "Nothing", "Rec") and not x.op.endswith("!") and self.h(x) == 0 and not any(y is e.a[0] or y.op in ("carried", "Carry", "Carried", "RS") for y in walk(x)) and e.a[0].a[0].op != "While":
        b = e.a[0].a[0]
        n = b.a[0] if b.op == "Range" else self.c(T("Len", b))
        return X(T("Op", "*", T("Seq", "list", x), n))
      if x.op == "It" and x.a[1] is e.a[0] and x.a[0] is e.a[0].a[0]:
        return X(x.a[0])
    return e

  def base(self, v):
    if v.op == "Sorted" and v.a[1].op == "KeyFirst" and v.a[2] is FALSE and (v.a[0].op == "ItemsOf" and v.a[0].a[0].op != "Seq" or v.a[0].op in ("P", "At", "It", "Ap", "RS")):
      return T("SortedBase", self.base(v.a[0]), K("key" if v.a[0].op == "ItemsOf" else "first"))
    if v.op == "Zip":
      xs = [self.base(x) for x in v.a if x.op != "Count"]
      if xs:
        return min(xs, key=show) if all(map(plain_base, xs)) else xs[0]
    return self.base(v.a[0]) if v.op in ("KeysOf", "ItemsOf", "ValuesOf", "Zip", "Enum") else v

  def element(self, v, idx):
    o = v.op
    if o == "Zip":
      xs = [self.element(x, idx) for x in v.a]
      return None if None in xs else Tup(xs)
    if o == "Enum":
      x = self.element(v.a[0], idx)
      return None if x is None else Tup([add(idx, v.a[1]), x])
    if o == "Count":
      return idx if v.a[0] is K(0) else add(idx, v.a[0])
    if o in ("KeysOf", "ItemsOf", "ValuesOf"):
      m = v.a[0]
      if m.op in ("Seq", "Zip", "Enum"):
        return None
      k = T("Key", m, idx)
      if m.op == "Sorted" and m.a[1].op == "KeyFirst":
        # a mapping made of the items of another, or of pairs, in another order
        if m.a[0].op == "ItemsOf":
          m = m.a[0].a[0]
          k = T("Key", m, idx)
        elif idx.op == "Idx" and idx.a[0].op == "SortedBase":
          m = T("It", m.a[0], idx)
          k = T("It", m, K(0))
      x = T("It", m, k if k.op == "Key" else K(1))
      return k if o == "KeysOf" else x if o == "ValuesOf" else Tup([k, x])
    if o in ("P", "At", "It", "Ap", "RS", "Glob", "Slice"):
      return T("It", v, idx)
    return None

  def dict_entry(self, e):
    """Entries of a dict in canonical form: a spliced mapping is a loop over its items."""
    if e.op == "For" and e.a[0].op == "Idx" and e.a[0].a[0].op == "SortedBase" and e.a[0].a[0].a[1] is K("key"):
      m, i = e.a[0].a[0].a[0], e.a[0]
      k = T("Key", m, i)
      if e.a[1] is T("Ent", (T("put", k, self.c(T("It", m, k))),)) and (m.op == "Seq" or self.is_sorted(m)):
        e = X(T("Sorted", T("ItemsOf", m), T("KeyFirst"), FALSE))
    if e.op != "X":
      return [e]
    m = e.a[0]
    if m.op == "Seq" and m.a[0] == "dict":
      return list(m.a[1:])
    if m.op == "Tup" or m.op == "Seq" and m.a[0] == "list":
      out = []
      for x in m.a[1 if m.op == "Seq" else 0 :]:
        y = self.pair_puts(x)
        if y is None:
          return [e]
        out.append(y)
      return out
    if m.op in ("Zip", "Enum"):
      idx = T("Idx", self.base(m), -1)
      el = self.element(m, idx)
      if el is not None and el.op == "Tup" and len(el.a) == 2:
        return [T("For", idx, T("Ent", (T("put", *el.a),)))]
      return [e]
    if m.op == "ItemsOf":
      m = m.a[0]
      if m.op == "Seq" and m.a[0] == "dict":
        return list(m.a[1:])
    if m.op == "Sorted" and m.a[0].op == "ItemsOf" and m.a[1].op == "KeyFirst" and m.a[2] is FALSE:
      d = m.a[0].a[0]
      if self.is_sorted(d):
        return self.dict_entry(X(d))
      if d.op == "Seq" and d.a[0] == "dict":
        es = [self.put_pairs(x) for x in d.a[1:]]
        if None not in es:
          return self.dict_entry(X(T("Sorted", T("Seq", "list", *es), *m.a[1:])))
      if d.op in ("P", "At", "It", "Ap", "RS", "Vars"):
        i = T("Idx", T("SortedBase", d, K("key")), -1)
        k = T("Key", d, i)
        return [T("For", i, T("Ent", (T("put", k, T("It", d, k)),)))]
      return [e]
    if m.op == "Sorted" and m.a[0].op in ("P", "At", "It", "Ap", "RS") and m.a[1].op == "KeyFirst" and m.a[2] is FALSE:
      i = T("Idx", T("SortedBase", m.a[0], K("first")), -1)
      x = T("It", m.a[0], i)
      return [T("For", i, T("Ent", (T("put", T("It", x, K(0)), T("It", x, K(1))),)))]
    if m.op == "Sorted" and m.a[0].op == "Seq" and m.a[0].a[0] == "list" and m.a[1].op == "KeyFirst" and m.a[2] is FALSE:
      es = [self.pair_puts(x) for x in m.a[0].a[1:]]
      if None not in es and self.is_sorted(T("Seq", "dict", *es)):
        return es
      if None in es and len(es) == 1:
        i = T("Idx", T("SortedBase", Tup(m.a[0].a[1:]), K("first")), -1)
        x = T("It", Tup(m.a[0].a[1:]), i)
        return [T("For", i, T("Ent", (T("put", T("It", x, K(0)), T("It", x, K(1))),)))]
    without = []
    while m.op == "Without":
      without.append(m.a[1])
      m = m.a[0]
    if m.op in ("P", "At", "It", "Ap", "RS", "Vars", "Carry", "Inst"):
      i = T("Idx", m, -1)
      k = T("Key", m, i)
      body = T("Ent", (T("put", k, T("It", m, k)),))
      for w in without:
        body = T("If", T("A.eq", *((k, w) if w.op == "K" else sorted((k, w), key=lambda x: x.n))), T("Ent", ()), body)
      return [T("For", i, body)]
    return [e]

  def is_sorted(self, d):
    """Mappings that iterate in key order: states, and dicts filled in the order of a state's keys."""
    if self.i.types.get(d) in self.i.hooks.get("sorted_classes", ()):
      return True
    if d.op == "Seq" and d.a[0] == "dict" and len(d.a) == 2 and d.a[1].op == "For":
      f = d.a[1]
      src = f.a[0].a[0]
      if not (self.i.types.get(src) in self.i.hooks.get("sorted_classes", ()) or src.op == "SortedBase" and src.a[1] is K("key")):
        return False
      base = src.a[0] if src.op == "SortedBase" else src
      for _, leaf in self.rows_of(f.a[1]):
        if leaf.op != "Ent" or len(leaf.a[0]) > 1 or any(e.op != "put" or e.a[0] is not T("Key", base, f.a[0]) for e in leaf.a[0]):
          return False
      return True
    return False

  def poly(self, t):
    p = {}
    for mono, k in t.a[0]:
      prod = {(): k}
      for x in mono:
        prod2 = {}
        for m1, c1 in prod.items():
          for m2, c2 in poly(self.c(x)).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.n))
            prod2[m] = prod2.get(m, 0) + c1 * c2
        prod = prod2
      for m, c in prod.items():
        p[m] = p.get(m, 0) + c
    p = {m: c for m, c in p.items() if c}
    if not p:
      return K(0)
    if len(p) == 1:
      ((m, c),) = p.items()
      if m == ():
        return K(c)
      if c == 1 and len(m) == 1:
        return m[0]
    return T("Poly", tuple(sorted(p.items(), key=mono_order)))

  def h(self, t):
    """Greatest binder level inside a canonical term."""
    if isinstance(t, tuple):
      return max((self.h(x) for x in t), default=0)
    if not isinstance(t, T):
      return 0
    r = self.height.get(t)
    if r is None:
      r = max((self.h(x) for x in t.a), default=0)
      if t.op in BINDERS:
        r += 1
      self.height[t] = r
    return r

  def bind(self, op, idx, pre, body):
    base = self.c(idx.a[0])
    free = T("Idx", base, idx.a[1])
    lvl = self.h(body) + 1
    new = T("Idx", base, -lvl)
    body = self.ordered(self.subst(body, {free: new}))
    return T(op, new, *pre, body)

  def ordered(self, tree):
    """The decision tree with its atoms in their order, which naming the loop index may have changed."""
    todo, seen = [tree], set()
    while todo:
      t = todo.pop()
      if t in seen or t.op != "If":
        continue
      seen.add(t)
      for x in t.a[1:]:
        if x.op == "If" and x.a[0].n < t.a[0].n:
          return self._tree(self.rows_of(tree), Facts(self.i.th))
        todo.append(x)
    return tree

  def sym(self, t):
    """An equality with its sides in order"""
    x, y = t.a
    if not isinstance(x, T) or not isinstance(y, T) or x.op in ("K", "Cls", "Ext", "Tup") or y.op in ("K", "Cls", "Ext", "Tup"):
      return t
    if any(z.op == "Type" or z.op == "At" and z.a[0].op == "Cls" for z in t.a):
      return t
    return t if x.n <= y.n else T(t.op, y, x)

  def subst(self, t, m, memo=None):
    if memo is None:
      memo = {}
    if isinstance(t, tuple):
      return tuple(self.subst(x, m, memo) for x in t)
    if not isinstance(t, T):
      return t
    if t in m:
      return m[t]
    r = memo.get(t)
    if r is not None:
      return r
    self.tick()
    if not t.a or t.op in ("K", "P", "Ext", "Cls"):
      r = t
    else:
      na = tuple(self.subst(x, m, memo) for x in t.a)
      at = na[0] if t.op == "If" and na != t.a else None
      if at is not None and isinstance(at, T) and at.op in ("A.is", "A.eq") and all(isinstance(x, T) and x.op == "K" for x in at.a):
        x, y = (kval(k) for k in at.a)
        r = memo[t] = na[1] if (x is y if at.op == "A.is" else x == y) else na[2]
        return r
      if at is not None and isinstance(at, T) and at.op == "A.le" and negative(at.a[0]):
        na = T("A.le", neg(at.a[0]), -at.a[1] - 1), na[2], na[1]
      r = t if na == t.a else (self.poly(T(t.op, *na)) if t.op == "Poly" else Tup(na) if t.op == "Tup" else T(t.op, *na))
      if r.op in ("A.is", "A.eq"):
        r = self.sym(r)
      elif r.op in ("A.meets", "Multi"):
        r = T(r.op, *sorted(r.a, key=lambda x: x.n))
      elif r.op in ("Ret", "Raise") and r is not t and len(r.a) == 2:
        r = T(r.op, r.a[0], by_target(r.a[1]))
      elif r.op in BINDERS and r is not t and isinstance(r.a[-1], T):
        r = T(r.op, *r.a[:-1], self.ordered(r.a[-1]))
    memo[t] = r
    return r

  def ex(self, t):
    """exists-atom -> T('A.ex', idx, tree) with leaves True / False"""
    if len(t.a) == 2:
      return t  # already canonical
    idx, bits, atoms = t.a
    if kval(bits) == "dnf":
      cubes = []
      for cl in atoms:
        cubes += self.lits(cl)
    else:
      n = len(atoms)
      ats = [self.c(x) for x in atoms]
      alts = [self.named_key(x) if isinstance(x, T) and x.op == "A.in" else self.chosen_item(x) if isinstance(x, T) and x.op in ("A.is", "A.eq", "A.truth") else None for x in ats]
      cubes = []
      for m in range(1 << n):
        if kval(bits)[m] == "1":
          row = [[]]
          for j in range(n):
            v = bool((m >> (n - 1 - j)) & 1)
            row = [x + y for x in row for y in (alts[j][0 if v else 1] if alts[j] is not None else [[self.meets(ats[j], v)]])]
          cubes += row
    return self.exists(idx, cubes)

  def exists(self, idx, cubes):
    tree = self.btree([(c, TRUE) for c in cubes], Facts(self.i.th))
    if tree is TRUE:
      return T("A.nonempty", self.c(idx.a[0]))
    return self.repeats(self.bind("A.ex", idx, (), tree))

  def repeats(self, t):
    """Whether an item occurs more than once: by counting, or by remembering the items seen so far."""
    idx, tree = t.a
    base = idx.a[0]
    counter = base.op == "Ap" and base.a[0] is T("Ext", "collections.Counter") and len(base.a[1]) == 1 and not base.a[2]
    seq = base.a[1][0] if counter else base
    free = T("Idx", seq, 0)
    item = T("It", seq, free)
    key = T("Key", base, idx) if counter else T("It", base, idx)
    cubes = []
    for lits, leaf in self.rows_of(tree):
      if leaf is not TRUE:
        continue
      cube, n = [], 0
      alts = [[]]
      for a, v in lits:
        if a.op == "A.le" and a.a[1] == 1 and v is False and self.counts(a.a[0], base, key, counter):
          n += 1
          continue
        if a.op == "A.in" and v is True and not counter and a.a[0] is key:
          q = self.remembers(a.a[1], idx, item)
          if q is not None:
            alts = q
            n += 1
            continue
        b = self.subst(a, {key: item})
        if any(x is idx for x in walk(b)):
          return t
        cube.append((b, v))
      if n != 1:
        return t
      cubes += [cube + q for q in alts]
    r = self.again(seq, cubes)
    return t if r is None else r

  def again(self, seq, cubes):
    """The atom: some item of the sequence satisfies one of the cubes and occurs in it more than once"""
    free = T("Idx", seq, 0)
    item = T("It", seq, free)
    if seq.op in ("Seq", "Tup") and (seq.op == "Tup" or seq.a[0] in ("list", "iter")):
      es = seq.a if seq.op == "Tup" else seq.a[1:]
      if len(es) != 1 or es[0].op != "For":
        return None
      j, body = es[0].a
      inner = T("It", j.a[0], j)
      free = T("Idx", j.a[0], 0)
      it2 = T("It", j.a[0], free)
      out = []
      for lits, leaf in self.rows_of(body):
        if leaf.op != "Ent" or leaf.a[0] not in ((), (inner,)):
          return None
        lits = [(self.subst(a, {inner: it2}), v) for a, v in lits]
        if any(x is j for a, _ in lits for x in walk(a)):
          return None
        if leaf.a[0]:
          out += [lits + [(self.subst(a, {item: it2}), v) for a, v in cube] for cube in cubes]
      cubes, item, seq = out, it2, j.a[0]
    again = (T("A.repeated", seq, item), True)
    tree = self.btree([(c + [again], TRUE) for c in cubes], Facts(self.i.th))
    return self.bind("A.ex", free, (), tree)

  def distinct(self, t):
    """(atom, sign) when t is, up to sign, the length of a list less the length of the set of its items"""
    if t.op != "Poly" or len(t.a[0]) != 2 or any(len(m) != 1 or m[0].op != "Len" or abs(k) != 1 for m, k in t.a[0]):
      return None
    (m, k), (m2, k2) = sorted(t.a[0], key=lambda mk: mk[0][0].a[0].op != "Seq" or mk[0][0].a[0].a[0] != "set")
    s = m[0].a[0]
    if k + k2 != 0 or s.op != "Seq" or s.a[0] != "set" or len(s.a) != 2:
      return None
    seq = s.a[1].a[0] if s.a[1].op == "X" else T("Seq", "list", s.a[1])
    n = self.counted(seq) or self.size(seq)
    if n is not m2[0]:
      return None
    atom = self.again(seq, [[]])
    return None if atom is None else (atom, k2)

  def counts(self, x, base, key, counter):
    if counter:
      return x is T("It", base, key)
    return x.op == "Ap" and x.a[0].op == "At" and x.a[0].a[1] == "count" and x.a[0].a[0] is base and x.a[1] == (key,)

  def remembers(self, x, idx, item):
    """x: the set, or list, of the items of earlier iterations that satisfy some condition: the condition, as cubes"""
    if x.op != "Seq" or x.a[0] not in ("set", "list") or len(x.a) != 2 or x.a[1].op != "Carried" or x.a[1].a[1].op != "Each":
      return None
    if x.a[1].a[0].op != "carried" or x.a[1].a[0].a[0] is not idx:
      return None
    j, body = x.a[1].a[1].a
    if j.a[0] is not idx.a[0]:
      return None
    own = T("It", j.a[0], j)
    out = []
    for lits, leaf in self.rows_of(body):
      if leaf.op != "Ent" or leaf.a[0] not in ((), (own,)):
        return None
      lits = [(self.subst(a, {own: item}), v) for a, v in lits]
      lits = [(a, v) for a, v in lits if not (a.op == "A.in" and a.a[0] is item and any(y.op == "carried" and y.a[0] is j for y in walk(a.a[1])))]
      if any(y is j for a, _ in lits for y in walk(a)):
        return None
      if leaf.a[0]:
        out.append(lits)
    return out

  def btree(self, rows, F):
    """disjunction of cubes as a decision tree"""
    self.tick()
    rows = live(rows, F)
    if not rows:
      return FALSE
    if any(all(query(F, a) is v for a, v in c) for c, _ in rows):
      return TRUE
    at = pick(rows, F)
    sub = []
    for val in (True, False):
      F2 = F.copy()
      sub.append(self.btree(rows, F2) if assume(F2, at, val) else HOLE)
    if sub[0] is sub[1] or sub[1] is HOLE:
      return sub[0]
    if sub[0] is HOLE:
      return sub[1]
    return T("If", at, sub[0], sub[1])

  # -- regions
  def carried(self, t):
    """A value carried from one iteration to the next is known by how an iteration updates it."""
    uid = kval(t.a[-1])
    basic = T(t.op, *(self.c(x) for x in t.a[:-1]))
    if len(self.carrying) >= self.carry_depth or uid in self.carrying:
      return basic
    if uid in self.carry_labels:
      return self.carry_labels[uid]
    region, view = self.i.carriers[uid]
    memo, self.memo = self.memo, {}
    self.carrying.append(uid)
    try:
      body = self.region_tree(region, view)
    finally:
      self.carrying.pop()
      self.memo = memo
    # the iteration (or recursion) that updates it is not the one that reads it
    if region.kind == "loop":
      body = self.bind("Each", region.idx, (), body)
    else:
      body = T("EachRec", self.subst(body, {y: T("RQ", *y.a) for y in map(self.c, region.syms)}))
    r = T("Carried", basic, body)
    if not self.carrying:
      self.carry_labels[uid] = r
    return r

  def region_tree(self, region, view, extra=()):
    self.binding.append(region.idx)
    try:
      return self.tree(self.bodies(region, view, extra), region.kind != "loop")
    finally:
      self.binding.pop()

  def bodies(self, region, view, extra):
    out = []
    for bp in region.paths:
      if bp.exit is not None and region.kind == "loop":
        continue
      if bp.exit is not None:
        e = bp.exit
        leaf = T("Raise", self.c(e[1].exc)) if e[0] == "raise" and not assertion(e[1]) else HOLE
        if leaf is HOLE:
          continue
      else:
        leaf = T("Ent", tuple(z for x in view_entries(bp, view) for z in self.body_entry(self.c(x))), *[tuple(self.c(x) for x in bp.view(v)) for v in extra])
      lits = self.lits(bp.facts)
      for a, v in bp.facts:
        if a.op == "A.rng" and a.a[0] is region.idx and v[1] <= 0:
          idx = self.c(region.idx)
          leaf = self.begun(idx, leaf)
          lits = [[(self.begun(idx, x), y) for x, y in cube] for cube in lits]
      out.append((lits, leaf))
    return out

  def begun(self, idx, t, memo=None):
    """The first iteration: nothing is carried into it but what there was before the loop."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
      r = tuple(self.begun(idx, x, memo) for x in t)
      return tuple(x for x in r if not (isinstance(x, T) and x.op == "Nothing"))
    if not isinstance(t, T) or not t.a or t is idx:
      return t
    if t in memo:
      return memo[t]
    e = t.a[0] if t.op == "Carried" else t
    if isinstance(e, T) and e.op in ("Carry", "carried") and e.a[0] is idx:
      r = e.a[1] if e.op == "Carry" else T("Nothing")
    else:
      na = self.begun(idx, t.a, memo)
      if na == t.a:
        r = t
      elif t.op == "Poly":
        r = self.poly(T("Poly", *na))
      elif t.op == "Tup":
        r = Tup(y for x in na for y in self.seq_entry(x))
      else:
        if t.op == "Ap" and len(na) >= 3:
          na = (na[0], tuple(y for x in na[1] for y in self.seq_entry(x)), tuple(kv for k, x in na[2] for kv in self.spread(k, x))) + na[3:]
        r = T(t.op, *na)
        if r.op in ("A.is", "A.eq"):
          r = self.sym(r)
    memo[t] = r
    return r

  def spread(self, k, x):
    """**{**m, "a": v} is **m, a=v"""
    if k != "**" or not isinstance(x, T) or x.op != "Seq" or x.a[0] != "dict":
      return [(k, x)]
    n = len(x.a)
    while n > 1 and x.a[n - 1].op == "put" and isK(x.a[n - 1].a[0], str):
      n -= 1
    rest = x.a[1:n]
    return ([("**", self.copied(T("Seq", "dict", *rest)))] if rest else []) + sorted((kval(y.a[0]), y.a[1]) for y in x.a[n:])

  def body_entry(self, e):
    if e.op == "X" and e.a[0].op in ("KeysOf", "ValuesOf"):
      return self.seq_entry(e)
    return [self.identity(e)]

  def le(self, region, view):
    if region.kind == "loop":
      body = self.region_tree(region, view)
      if body.op == "Ent" and not body.a[0]:
        return T("Nothing")
      return self.pairwise(self.bind("For", region.idx, (), body))
    return self.fix("view", self.region_tree(region, view, (("ev", T("Ext", "rec"),))))

  def pairwise(self, f):
    """Putting each pair of a sequence of pairs is updating with the sequence."""
    i, body = f.a
    it = T("It", i.a[0], i)
    if body.op == "Ent" and len(body.a) == 1 and body.a[0] == (T("put", T("It", it, K(0)), T("It", it, K(1))),) and i.a[0].op in ("P", "At", "It", "Ap", "RS"):
      return X(i.a[0])
    return f

  def fixres(self, region):
    return self.fix("ret", self.region_tree(region, "ret", (("ev", T("Ext", "rec"),))))

  def fix(self, kind, body):
    """A recursion; parameters that only feed the same parameter of the recursive call are dropped."""
    deps, live = {}, set()

    def visit(t, into, seen):
      if isinstance(t, tuple):
        for x in t:
          visit(x, into, seen)
      elif isinstance(t, T) and t not in seen:
        seen.add(t)
        if t.op == "RS":
          into.add(t)
        elif t.op == "arg":
          d = deps.setdefault(t.a[0], set())
          visit(t.a[1], d, set())
        else:
          for x in t.a:
            visit(x, into, seen)

    visit(body, live, set())
    todo = list(live)
    while todo:
      for x in deps.get(todo.pop(), ()):
        if x not in live:
          live.add(x)
          todo.append(x)
    dead = set(deps) - live
    if dead:
      m = {}
      for t in walk(body):
        if t.op == "Rec" and any(x.op == "arg" and x.a[0] in dead for x in t.a):
          m[t] = T("Rec", *[x for x in t.a if not (x.op == "arg" and x.a[0] in dead)])
      body = self.rewrite(body, m)
    return T("Fix", K(kind), body)

  def rewrite(self, t, m):
    """Bottom-up substitution of whole terms, also inside replaced ones."""
    memo = {}

    def go(x):
      if isinstance(x, tuple):
        return tuple(go(y) for y in x)
      if not isinstance(x, T):
        return x
      if x in memo:
        return memo[x]
      src = m.get(x, x)
      na = tuple(go(y) for y in src.a)
      if src.op in ("Ret", "Raise") and len(na) == 2 and na != src.a:
        na = na[0], by_target(na[1])
      r = src if na == src.a else T(src.op, *na)
      memo[x] = r
      return r

    return go(t)

  def lam(self, lo):
    self.uid += 1
    depth = f"u{self.uid}"
    res, st0 = lo.summary(depth)
    ar = lo.arity() or (1, False, (), False)  # what is bound to something unknown is looked at for one argument
    paths = []
    for s, r, evs in res:
      if isinstance(r, Raised) and assertion(r):
        continue
      facts = [(a, v) for a, v in s.facts.items() if lo.st.facts.get(a) != v]
      paths.append((self.lits(facts), self.spent(lo.st, s, self.leaf(s, r, evs))))
    body = self.tree(paths)
    lvl = self.h(body) + 1
    m = {}
    for _, t in paths:
      for x in walk(t):
        if x.op == "P" and x.a[0].startswith(f"λ{depth}."):
          m[x] = T("P", x.a[0].replace(f"λ{depth}.", f"λ{lvl}."))
    for cubes, _ in paths:
      for a, _ in (av for c in cubes for av in c):
        for x in walk(a):
          if x.op == "P" and x.a[0].startswith(f"λ{depth}."):
            m[x] = T("P", x.a[0].replace(f"λ{depth}.", f"λ{lvl}."))
    if m:
      # named before the conditions are put in order, which is by name
      memo = {}
      named = [([bounded([(self.subst(a, m, memo), v) for a, v in c]) for c in cubes], self.subst(t, m, memo)) for cubes, t in paths]
      body = self.tree([([c for c in cubes if c is not None], t) for cubes, t in named])
    if body.op == "Ret" and ar == (1, False, (), False) and body.a[0].op in ("Ap", "New") and (body.a[0].op == "Ap" or body.a[0].a[0].op == "Cls"):
      # x -> f(x) is f
      r, eff = body.a
      f, args, kws = r.a[:3]
      x = T("P", f"λ{lvl}.0")
      if args == (x,) and not kws and not any(y is x for y in walk(f)) and all(e == (r,) for _, e in eff):
        return f
    return T("Fun", K(str(ar)), body)

  def spent(self, st0, s, leaf):
    """A function that takes the items of an iterator made outside it finds none the next time."""
    for oid, o in st0.heap.items():
      if o.kind == "iter" and o.log and s.heap.get(oid) is not o:
        return T("Spends", leaf)
    return leaf

  # -- leaves
  def leaf(self, st, r, evs):
    eff = self.effects(evs)
    if isinstance(r, Raised):
      return T("Raise", self.c(r.exc), eff)
    return T("Ret", self.c(self.i.reify(st, r)), eff)

  def effects(self, evs):
    v = self.i.event_views(evs)
    out = []
    for k, ents in v.items():
      if k == T("Ext", "rec"):
        continue
      if k.op == "Ap" and k.a[0].op == "Ext" and k.a[0].a[0].startswith("collections."):
        raise Unsupported(f"changes to a {k.a[0].a[0]}")
      ce = tuple(e for e in (self.c(e) for e in ents) if e.op != "Nothing")
      if k.op == "Vars":
        ce = tuple(y for e in ce for y in self.dict_entry(e))
      if ce:
        out.append((self.c(k), ce))
    merged = {}
    # a union of states made on the way is touched by no call that touches nothing else
    calls = {x for k, ce in out if k.op != "Op" for x in ce}
    out = [(k, ce) for k, ce in out if not (k.op == "Op" and k.a[0] == "|" and calls.issuperset(ce))]
    for k, ce in out:
      merged[k] = merged.get(k, ()) + ce
    order = self.order_of_varying(v, merged)
    if order:
      merged[T("Order")] = order
    return by_target(merged.items())

  def order_of_varying(self, views, merged):
    """Loops over different sequences that write to their items may write to the same object: the order they come in."""
    found = []
    for k, ents in views.items():
      over = {e.a[0].v.idx.a[0] for e in ents if e.op == "LE" and e.a[0].v.kind == "loop" and any(x is e.a[0].v.idx for x in walk(k))}
      ck = self.c(k)
      if over and ck in merged:
        names = set()
        for e in (x for e in merged[ck] for x in walk(e)):
          if e.op in ("set", "put", "delattr", "delitem"):
            names.add(e.a[0] if e.a[0].op == "K" else None)
          elif e.op not in ("For", "Ent", "If", "Nothing") and e.op in ("upd", "Ap", "enter", "exit"):
            names.add(None)
        found.append((ck, {self.c(x) for x in over}, names))
    free = lambda a, b: a[1] & b[1] or (None not in a[2] | b[2] and not a[2] & b[2])
    if all(free(a, b) for n, a in enumerate(found) for b in found[:n]):
      return ()
    out = []
    while found:
      ready = [a for n, a in enumerate(found) if all(free(a, b) for b in found[:n])]
      best = min(ready, key=lambda a: a[0].n)
      out.append(best[0])
      found.remove(best)
    return tuple(out)

  # -- facts
  def lits(self, facts):
    """facts -> list of conjunctions of (atom, bool)"""
    alts = [[]]
    for a, v in facts:
      if a.op == "A.rng":
        t = self.c(a.a[0])
        lo, hi = v
        e = self.emptiness(t)
        if e is not None:
          if lo >= 1 or hi <= 0:
            for x in alts:
              x.append(self.meets(e, lo >= 1))
          continue
        if t.op == "Len" and (lo >= 1 or hi <= 0):
          m = self.meets(T("A.truth", t.a[0]), lo >= 1)
          if m[0].op == "A.meets":
            for x in alts:
              x.append(m)
            continue
        d = self.distinct(t)
        if d is not None:
          atom, sign = d
          l, h = (lo, hi) if sign > 0 else (-hi, -lo)
          if l <= 1 and (h == INF or h <= 0) and (l == 1) != (h <= 0):
            for x in alts:
              x.append((atom, l == 1))
            continue
          if l <= 0 and h == INF:
            continue
        dlo = 0 if t.op in ("Len", "Idx") else -INF
        if lo > dlo:
          for x in alts:
            x.append((T("A.le", t, lo - 1), False))
        if hi < INF:
          for x in alts:
            x.append((T("A.le", t, hi), True))
      elif a.op == "A.eq" and intk(a.a[1]) and intl(a.a[0]):
        t, k = self.c(a.a[0]), kval(a.a[1])
        d = self.distinct(t) if k == 0 else None
        if d is not None:
          for x in alts:
            x.append((d[0], not v))
        elif v is True:
          for x in alts:
            x.append((T("A.le", t, k - 1), False))
            x.append((T("A.le", t, k), True))
        else:
          alts = [x + [(T("A.le", t, k - 1), True)] for x in alts] + [x + [(T("A.le", t, k), False)] for x in alts]
      else:
        if a.op == "A.eq" and a.a[0].op == "Len" and intk(a.a[1]):
          t = self.c(a.a[0])
          if self.emptiness(t) is not None:
            if kval(a.a[1]) == 0:
              for x in alts:
                x.append((self.emptiness(t), not v))
            continue
        if a.op == "A.is" and a.a[1] is NONE and a.a[0].op == "It" and self.never_none(a.a[0].a[0]):
          if v is True:
            alts = []
          continue
        ca = self.c(a)
        if ca.op == "A.is" and NONE in ca.a and any(x.op == "AnyOf" and self.i.never_any(None, x.a[0]) for x in ca.a):
          if v is True:
            alts = []
          continue
        if ca.op == "A.nonempty":
          ca, v = T("A.le", self.size(ca.a[0]), 0), not v
        under = self.under_key(ca) if isinstance(ca, T) and ca.op == "A.ex" else self.own_member(ca) or self.named_key(ca) if isinstance(ca, T) and ca.op == "A.in" else self.chosen_item(ca) if isinstance(ca, T) and ca.op in ("A.is", "A.eq", "A.truth") else None
        if under is not None:
          alts = [x + y for x in alts for y in under[0 if v else 1]]
          continue
        ca = self.built_member(ca)
        if isinstance(ca, bool):
          if ca is not v:
            alts = []
          continue
        ca, v = self.meets(ca, v)
        if isinstance(ca, T):
          for x in alts:
            x.append((ca, v))
    alts = [self.left_early(x) for x in alts]
    return [sorted(set(x), key=lambda av: av[0].n) for x in map(bounded, alts) if x is not None]

  def left_early(self, cube):
    """A list that gets one item per iteration is as long as what is iterated, unless the loop is left before its end."""
    ends = {a.a[0].a[0]: v for a, v in cube if a.op == "A.ex"}
    if not ends:
      return cube
    m = {}
    for a, _ in cube:
      if a.op == "A.le" and a.a[0].op in ("Len", "Poly"):
        for x in walk(a.a[0]):
          if x.op == "Len" and x.a[0].op == "Seq" and len(x.a[0].a) == 2 and x.a[0].a[1].op == "For":
            idx, body = x.a[0].a[1].a
            if idx.a[0] in ends and all(leaf is T("Ent", (K(1),)) for _, leaf in self.rows_of(body)):
              m[x] = add(self.size(idx.a[0]), K(-1 if ends[idx.a[0]] else 0))
    if not m:
      return cube
    out = []
    for a, v in cube:
      if a.op == "A.le":
        a = T("A.le", self.subst(a.a[0], m), a.a[1])
      out.append((a, v))
    return out

  def meets(self, a, v):
    """Whether two collections have an item in common, however it is asked."""
    p = None
    if isinstance(a, T) and a.op == "A.truth":
      t = a.a[0]
      if t.op == "Ap" and len(t.a) >= 3 and t.a[0].op == "At" and t.a[0].a[1] in ("isdisjoint", "intersection") and len(t.a[1]) == 1 and not t.a[2]:
        p = (t.a[0].a[0], t.a[1][0])
        if t.a[0].a[1] == "isdisjoint":
          v = not v
      elif t.op == "Op" and t.a[0] == "&" and any(x.op == "Seq" and x.a[0] == "set" for x in t.a[1:]):
        p = t.a[1:]
    elif isinstance(a, T) and a.op == "A.ex" and a.a[1].op == "If" and a.a[1].a[1] is TRUE and a.a[1].a[2] is FALSE and a.a[1].a[0].op == "A.in":
      x, y = a.a[1].a[0].a
      base = a.a[0].a[0]
      if x is T("It", base, a.a[0]) and not any(z is a.a[0] for z in walk(y)):
        p = (base, y)
    if p is None:
      return a, v
    return T("A.meets", *sorted(map(self.items, p), key=lambda x: x.n)), v

  def items(self, x):
    if x.op == "Seq" and x.a[0] in ("set", "list", "iter") and len(x.a) == 2 and x.a[1].op == "X":
      return x.a[1].a[0]
    return x

  def under_key(self, t):
    """Some item of a mapping has the key k and ...: it is the item under k. (cubes when so, cubes when not)"""
    idx, body = t.a
    m = idx.a[0]
    own = T("Key", m, idx)
    rows = self.rows_of(body)
    key = None
    for lits, leaf in rows:
      if leaf is TRUE:
        ks = {next(y for y in a.a if y is not own) for a, v in lits if a.op == "A.eq" and v is True and own in a.a and a.a[0] is not a.a[1]}
        if len(ks) != 1 or key not in (None, *ks):
          return None
        key = ks.pop()
    if key is None or any(x is idx for x in walk(key)):
      return None
    sub = {own: key}
    same = self.sym(T("A.eq", own, key)), self.sym(T("A.eq", key, own))
    inside = self.c(T("A.in", key, m))
    yes, no = [], [[(inside, False)]]
    for lits, leaf in rows:
      if any(a in same and v is False for a, v in lits):
        continue
      cube = [(inside, True)] + [(self.subst(a, sub), v) for a, v in lits if a not in same]
      if any(x is idx for a, _ in cube for x in walk(a)):
        return None
      (yes if leaf is TRUE else no).append(cube)
    return yes, no

  def named_key(self, t):
    """Whether a dict with literal keys has a key: whether it is one of them."""
    x, d = t.a
    if not (isinstance(d, T) and d.op == "Seq" and d.a[0] == "dict" and len(d.a) > 1 and isinstance(x, T) and x.op != "K" and all(isinstance(e, T) and e.op == "put" and e.a[0].op == "K" for e in d.a[1:])):
      return None
    atoms = [self.sym(T("A.eq", x, e.a[0])) for e in d.a[1:]]
    return [[(a, True)] for a in atoms], [[(a, False) for a in atoms]]

  def own_member(self, t):
    """Whether a key of a mapping is among those a loop over the mapping kept: when it met the condition."""
    key, d = t.a
    if not (isinstance(key, T) and key.op == "Key" and key.a[1].op == "Idx" and isinstance(d, T) and d.op == "Seq" and d.a[0] in ("dict", "set", "list") and len(d.a) == 2 and d.a[1].op == "For"):
      return None
    m, i = key.a
    j, body = d.a[1].a
    if j.a[0] is not m or i.a[0] is not m:
      return None
    own = T("Key", m, j)
    yes, no = [], []
    for lits, leaf in self.rows_of(body):
      if leaf.op != "Ent" or len(leaf.a) != 1 or len(leaf.a[0]) > 1:
        return None
      for x in leaf.a[0]:
        if (x.a[0] if x.op == "put" else x) is not own:
          return None
      (yes if leaf.a[0] else no).append([(self.subst(a, {j: i}), v) for a, v in lits])
    return yes, no

  def chosen_item(self, t):
    """What holds of an item, at a position in a sequence, of a list a loop over it built: what holds of the item that iteration added."""
    hit = next((x for x in t.a if isinstance(x, T) and x.op == "It" and isinstance(x.a[1], T) and x.a[1].op == "Idx"), None)
    if hit is None:
      return None
    d, k = hit.a
    if not (d.op == "Seq" and d.a[0] in ("list", "iter") and len(d.a) == 2 and d.a[1].op == "For" or d.op == "Tup" and len(d.a) == 1 and d.a[0].op == "For"):
      return None
    idx, body = d.a[-1].a
    if idx.a[0] is not k.a[0]:
      return None
    yes, no = [], []
    for lits, leaf in self.rows_of(body):
      if leaf.op != "Ent" or len(leaf.a) != 1 or len(leaf.a[0]) != 1 or not fixed(leaf.a[0]) or self.h(leaf):
        return None
      x = self.subst(leaf.a[0][0], {idx: k})
      cond = [(self.subst(a, {idx: k}), v) for a, v in lits]
      if any(y is hit for z in [x] + [a for a, _ in cond] for y in walk(z)):
        return None
      if x.op == "K" and t.op == "A.truth":
        r = bool(kval(x))
      elif x.op == "K" and t.op in ("A.is", "A.eq") and all(y is hit or y.op == "K" for y in t.a) and not isinstance(kval(x), (float, tuple)):
        other = next((y for y in t.a if y is not hit), hit)
        r = x is other if t.op == "A.is" and (other is NONE or x is NONE) else kval(x) == kval(other) if t.op == "A.eq" else None
        if r is None:
          return None
      else:
        b = self.subst(t, {hit: x})
        b = self.sym(b) if b.op in ("A.is", "A.eq") else b
        yes.append(cond + [(b, True)])
        no.append(cond + [(b, False)])
        continue
      (yes if r else no).append(cond)
    return yes, no

  def keys_only(self, d):
    """What a recursion puts in a dict, asked only for its keys, is the set of them."""
    if not (isinstance(d, T) and d.op == "Seq" and d.a[0] == "dict" and any(isinstance(e, T) and (e.op == "Carried" and e.a[1].op == "EachRec" or e.op == "carried" and e.a[0] is T("Ext", "rec")) for e in d.a[1:])):
      return d

    def go(e):
      if isinstance(e, tuple):
        return tuple(map(go, e))
      if e.op == "put":
        return e.a[0]
      if e.op in ("For", "If", "Carried"):
        return T(e.op, e.a[0], *map(go, e.a[1:]))
      if e.op in ("Ent", "EachRec"):
        return T(e.op, *map(go, e.a))
      if e.op in ("carried", "Nothing"):
        return e
      raise ValueError

    try:
      return self.c(T("Seq", "set", *map(go, d.a[1:])))
    except ValueError:
      return d

  def built_member(self, t):
    """A value is in a list made by a loop when some iteration adds it."""
    if not (isinstance(t, T) and t.op == "A.in"):
      return t
    x, d = t.a
    if not (isinstance(d, T) and d.op == "Seq" and d.a[0] in ("set", "list") and len(d.a) == 2 and d.a[1].op == "For" and x.op == "K" and (x is NONE or isinstance(kval(x), (int, str)))):
      return t
    idx, body = d.a[1].a
    cubes = []
    for lits, leaf in self.rows_of(body):
      if leaf.op != "Ent" or len(leaf.a) != 1 or not fixed(leaf.a[0]):
        return t
      for e in leaf.a[0]:
        if e.op == "K" and (x is NONE or type(kval(e)) is type(kval(x))):
          if e is x:
            cubes.append(lits)
        elif e.op in ("Tup", "Seq", "Inst", "Fn", "Lam", "Cls"):
          continue
        elif e.op in ("For", "Carried", "Fix", "Nothing", "Each", "upd", "set!", "ins!", "pop!"):
          return t
        else:
          cubes.append(lits + [(T("A.is", e, x) if x is NONE else self.sym(T("A.eq", e, x)), True)])
    if not cubes:
      return False
    return self.exists(idx, cubes)

  def never_none(self, d):
    """The dict is only ever filled with values that are not None."""
    if d.op != "Seq" or d.a[0] != "dict":
      return False
    seen = set()

    def value(x):
      return x.op in ("Inst", "Tup", "Seq", "Fmt", "Join", "Len", "Poly", "Idx", "Fn", "Lam", "Cls") or x.op == "K" and x is not NONE

    def entry(e):
      if e.op == "put":
        return value(e.a[1])
      if e.op in ("carried", "Carry") and e.a[-1].op == "K" and kval(e.a[-1]) in self.i.carriers:
        uid = kval(e.a[-1])
        if uid not in seen:
          seen.add(uid)
          region, view = self.i.carriers[uid]
          return all(entry(x) for bp in region.paths for x in view_entries(bp, view))
        return True
      if e.op == "LE":
        return all(entry(x) for bp in e.a[0].v.paths for x in view_entries(bp, e.a[1]))
      return e.op in ("del!", "pop!")

    return all(entry(e) for e in d.a[1:])

  def emptiness(self, t):
    """Len of a sequence built by one loop: the atom saying it is not empty"""
    if t.op == "Len" and t.a[0].op == "Seq" and len(t.a[0].a) == 2 and t.a[0].a[1].op == "For":
      f = t.a[0].a[1]
      cubes = []
      for lits, leaf in self.rows_of(f.a[1]):
        if leaf.op != "Ent" or any(x.op in ("For", "Fix", "X", "LE") for x in leaf.a[0]):
          return None
        if leaf.a[0]:
          cubes.append((lits, TRUE))
      tree = self.btree(cubes, Facts(self.i.th))
      if tree is TRUE:
        return T("A.nonempty", f.a[0].a[0])
      return self.repeats(T("A.ex", f.a[0], tree))
    return self.left_over(t)

  def left_over(self, t):
    """Len of a copy of a mapping from which a loop took keys: whether a key of the mapping is not among those"""
    if t.op != "Len" or t.a[0].op != "Seq" or t.a[0].a[0] != "dict" or len(t.a[0].a) != 3:
      return None
    copy, taken = t.a[0].a[1:]
    m = self.copied(T("Seq", "dict", copy))
    if m.op == "Seq" and m.a[1:] == (copy,) or taken.op != "For":
      return None

    def keys(b):
      if b.op == "If":
        x, y = keys(b.a[1]), keys(b.a[2])
        return None if x is None or y is None else T("If", b.a[0], x, y)
      if b.op != "Ent" or any(e.op != "del!" or len(e.a) != 1 for e in b.a[0]):
        return None
      return T("Ent", tuple(e.a[0] for e in b.a[0]))

    body = keys(taken.a[1])
    if body is None:
      return None
    free = T("Idx", m, 0)
    own = T("Key", m, free)
    taken = self.c(T("Seq", "set", T("For", taken.a[0], body)))
    return self.bind("A.ex", free, (), T("If", T("A.in", own, taken), FALSE, TRUE))

  def expand(self, paths):
    out = []
    for alts, leaf in paths:
      for lits in alts:
        out.append((lits, leaf))
    return out

  def unwitnessed(self, rows):
    """Drops what is known about the item a search found when the outcome does not depend on which one it was."""
    out, groups = [], {}
    for row in rows:
      row = (list(row[0]),) + tuple(row[1:])
      for w in self.witnesses(row):
        mine = [(a, v) for a, v in row[0] if any(x is w for x in walk(a))]
        rest = [(a, v) for a, v in row[0] if not any(x is w for x in walk(a))]
        how = self.found(w, mine, rest)
        if how is True:
          row = (rest,) + row[1:]
        elif how is not None:
          key = (row[1], w, frozenset(rest)) + row[2:]
          groups.setdefault(key, (how, rest, []))[2].append((mine, row))
          row = None
          break
      if row is not None:
        out.append(row)
    for (leaf, w, _, *more), (how, rest, found) in groups.items():
      tree = self.btree([(m, TRUE) for m, _ in found], Facts(self.i.th))
      if self.repeats(self.bind("A.ex", w, (), tree)) in how:
        out.append((rest, leaf) + tuple(more))
      else:
        out += [row for _, row in found]
    return out

  def witnesses(self, row):
    bound = set(self.binding)
    ws = {x for a, _ in row[0] for x in walk(a) if x.op == "Idx" and isinstance(x.a[1], int) and x.a[1] >= 0 and x not in bound}
    if ws:
      ws -= {x for x in walk(row[1]) if x.op == "Idx"}
    return sorted(ws, key=lambda x: x.n)

  def found(self, w, mine, rest):
    """True: the literals say no more than the search does; otherwise the searches that succeeded"""
    for a, v in rest:
      if v is not True:
        continue
      if a.op == "A.meets" and len(mine) == 1:
        b, y = mine[0]
        if y is True and b.op == "A.in" and b.a[0] is T("It", w.a[0], w) and T("A.meets", *sorted((w.a[0], self.items(b.a[1])), key=lambda x: x.n)) is a:
          return True
    return tuple(a for a, v in rest if a.op == "A.ex" and v is True) or None

  def tree(self, paths, guards=False):
    rows = self.unwitnessed(self.expand(paths))
    F = Facts(self.i.th)
    return self._tree(rows, F, guards)

  def _tree(self, rows, F, guards=False):
    """guards: first what every case tests; what an assertion rules out then says nothing about the other cases"""
    self.tick()
    rows = live(rows, F)
    if not rows:
      return HOLE
    leaves = {l for _, l in rows}
    if len(leaves) == 1:
      return next(iter(leaves))
    at = pick(rows, F)
    if guards:
      own = [{a for a, _ in row[0]} for row in rows]
      common = [a for a in own[0].intersection(*own[1:]) if query(F, a) is None]
      at = min(common, key=lambda a: a.n, default=at)
    if at is None:
      return T("Multi", *sorted(leaves, key=lambda x: x.n))
    sub = []
    for val in (True, False):
      F2 = F.copy()
      sub.append(self._tree(rows, F2, guards) if assume(F2, at, val) else HOLE)
    if sub[0] is sub[1] or sub[1] is HOLE:
      return sub[0]
    if sub[0] is HOLE:
      return sub[1]
    return T("If", at, sub[0], sub[1])

  def rows_of(self, tree, F=None):
    """decision tree -> rows"""
    out = []

    def go(t, acc):
      if t.op == "If":
        go(t.a[1], acc + [(t.a[0], True)])
        go(t.a[2], acc + [(t.a[0], False)])
      elif t is not HOLE:
        out.append((acc, t))

    go(tree, [])
    return out

  def paths(self, results, base=None):
    """results of Interp.run -> rows (facts, leaf, path)"""
    rows = []
    for s, r in results:
      if isinstance(r, Raised) and assertion(r):
        continue
      leaf = self.leaf(s, r, events_of(s.trail))
      facts = list(s.facts.items())
      first = [self.c(a.a[0]) for a, v in facts if a.op == "A.rng" and a.a[0].op == "Idx" and v[1] <= 0]
      for idx in first:
        leaf = self.begun(idx, leaf)
      for lits in self.lits(facts):
        for idx in first:
          lits = [(self.begun(idx, a), v) for a, v in lits]
        rows.append((lits, leaf, s, r))
    return [norm_free(self, x[0], x[1]) + tuple(x[2:]) for x in self.unwitnessed(rows)]


def norm_free(canon, lits, leaf):
  """Renames the free loop indices of a path by rank per sequence."""
  free = {}
  for t in [a for a, _ in lits] + [leaf]:
    for x in walk(t):
      if x.op == "Idx" and isinstance(x.a[1], int) and x.a[1] >= 0:
        free.setdefault(x.a[0], set()).add(x.a[1])
  m = {}
  for base, ds in free.items():
    for k, d in enumerate(sorted(ds)):
      if k != d:
        m[T("Idx", base, d)] = T("Idx", base, k)
  if not m:
    return lits, leaf
  return [(canon.subst(a, m), v) for a, v in lits], canon.subst(leaf, m)


def assertion(r):
  return r.exc.op in ("Ext", "Cls") and r.exc.a[0] == "AssertionError"


def bounded(lits):
  """The bounds among the literals with the constant on one side; those that always hold are dropped, None when one never does."""
  out = []
  for a, v in lits:
    if a.op == "A.le":
      t, k = a.a
      c = kval(t) if intk(t) else next((n for m, n in t.a[0] if not m), 0) if t.op == "Poly" else 0
      if c:
        t, k = add(t, K(-c)), k - c
        a = T("A.le", t, k)
      if negative(t):
        t, k, v = neg(t), -k - 1, not v
        a = T("A.le", t, k)
      q = 0 <= k if intk(t) else False if t.op == "Poly" and at_least(t, k + 1) else None
      if q is v:
        continue
      if q is not None:
        return None
    out.append((a, v))
  return out


def negative(t):
  """of a polynomial and its negation, the one that is not the canonical one"""
  return t.op == "Poly" and next((n for m, n in t.a[0] if m), 0) < 0


def at_least(t, k):
  """the polynomial over lengths and indices is k or more"""
  if isK(t):
    return intk(t) and kval(t) >= k
  if t.op == "Len":
    return k <= 0
  if t.op != "Poly":
    return False
  c = 0
  for m, v in t.a[0]:
    if not m:
      c = v
    elif v < 0 or any(x.op not in ("Len", "Idx") for x in m):
      return False
  return c >= k


def intk(t):
  return isinstance(t, T) and t.op == "K" and type(t.a[1]) is int


def intl(t):
  from .facts import intlike
  return intlike(t)


def assume(F, at, val):
  if at.op == "A.le":
    return F.narrow(at.a[0], -INF, at.a[1]) if val else F.narrow(at.a[0], at.a[1] + 1, INF)
  return F.assume(at, val)


def query(F, at):
  if at.op == "A.le":
    lo, hi = F.rng(at.a[0])
    if hi <= at.a[1]:
      return True
    if lo > at.a[1]:
      return False
    return None
  if at.op in ("A.is", "A.eq") and at.a[0] is at.a[1]:
    return True
  return F.query(at)


def live(rows, F):
  out = []
  for row in rows:
    ok = True
    for a, v in row[0]:
      q = query(F, a)
      if q is not None and q is not v:
        ok = False
        break
    if ok:
      out.append(row)
  return out


def pick(rows, F):
  best = None
  for row in rows:
    for a, v in row[0]:
      if (best is None or a.n < best.n) and query(F, a) is None:
        best = a
  return best


class Compare:

  def __init__(self, canon, limit=300000):
    self.c = canon
    self.n = 0
    self.limit = limit
    self.mis = []
    self.pairs = 0

  def tick(self):
    self.n += 1
    if self.n > self.limit:
      raise TooComplex("comparison too large")

  def expand(self, x, cls):
    """A state in terms of its entries, through the constructor of its class."""
    i = self.c.i
    res = list(i.run(i.new_state(), T("Cls", cls), [x]))
    out = [(s, r) for s, r in res if not isinstance(r, Raised)]
    return self.c.c(i.reify(*out[0]))

  def excluded(self, idx, F):
    """Cubes no iteration over idx satisfies under F."""
    bad = []
    for at, v in list(F.items()):
      if at.op == "A.ex" and v is False and at.a[0].a[0] is idx.a[0]:
        body = self.c.subst(at.a[1], {at.a[0]: idx})
        bad += [c for c, leaf in self.c.rows_of(body) if leaf is TRUE]
    return bad

  def unfold(self, x, F):
    """A loop that yields, under F, every item of a sequence is the sequence."""
    if not (isinstance(x, T) and x.op == "For" and x.a[1].op == "If"):
      return [x]
    idx, body = x.a
    own = T("It", idx.a[0], idx)
    bad = self.excluded(idx, F)
    for lits, leaf in self.c.rows_of(body):
      if leaf.op == "Ent" and leaf.a == ((own,),):
        continue
      F2 = F.copy()
      if all(assume(F2, a, v) for a, v in lits) and not any(all(query(F2, a) is v for a, v in c) for c in bad):
        return [x]
    return self.c.seq_entry(X(idx.a[0]))

  def rows(self, A, B, F, leafeq, bad=(), depth=0):
    """Every jointly feasible combination of a row of A and a row of B must satisfy leafeq."""
    self.tick()
    if bad:
      bad = [c for c in bad if all(query(F, a) in (None, v) for a, v in c)]
      if any(all(query(F, a) is v for a, v in c) for c in bad):
        return None
    A, B = live(A, F), live(B, F)
    if not A or not B:
      return None
    la, lb = {r[1] for r in A}, {r[1] for r in B}
    if len(la) == 1 and la == lb:
      self.pairs += 1
      return None
    if len(la) == 1 and len(lb) == 1:
      self.pairs += 1
      m = leafeq(A[0], B[0], F)
      if m is None:
        return None
    at = self.choose(A, B, F, bad)
    if at is None:
      self.pairs += 1
      memo = {}

      def same(ra, rb):
        k = (ra[1], rb[1])
        if k not in memo:
          memo[k] = leafeq(ra, rb, F)
        return memo[k]

      for X1, X2, flip in ((A, B, False), (B, A, True)):
        for r in X1:
          ms = [same(*((s, r) if flip else (r, s))) for s in X2]
          if None not in ms:
            return next((m for m, s in zip(ms, X2) if s[1].op == r[1].op), ms[0])
      return None
    for val in (True, False):
      F2 = F.copy()
      if assume(F2, at, val):
        A2, B2 = A, B
        if val and at.op == "A.is" and at.a[1].op == "K" and at.a[0].op != "K":
          if not self.refine(F2, at):
            continue
          A2, B2 = self.inner(A, *at.a), self.inner(B, *at.a)
        m = self.rows(A2, B2, F2, leafeq, bad, depth + 1)
        if m is not None:
          return m
    return None

  def inside(self, a, x, k):
    """Atom with the constant in place of the term that equals it, except as the subject of the atom."""
    return T(a.op, *[y if y is x or not isinstance(y, T) else self.c.subst(y, {x: k}) for y in a.a])

  def inner(self, rows, x, k):
    out = []
    for r in rows:
      lits = [(self.inside(a, x, k), v) for a, v in r[0]]
      out.append(r if all(p[0] is q[0] for p, q in zip(lits, r[0])) else (lits,) + tuple(r[1:]))
    return out

  def refine(self, F, at):
    for a, v in list(F.items()):
      b = self.inside(a, *at.a)
      if b is not a and not F.assume(b, v):
        return False
    return True

  def choose(self, A, B, F, bad=()):
    sa = {a for r in A for a, v in r[0]}
    sb = {a for r in B for a, v in r[0]}
    for group in (sa & sb, sa | sb, {a for c in bad for a, v in c}):
      cand = [a for a in group if query(F, a) is None]
      if cand:
        return min(cand, key=lambda a: (not (a.op == "A.is" and a.a[1].op == "K"), a.n))
    return None

  def eq(self, a, b, F, m=None):
    """None when equal under F, else a Mismatch (innermost difference)."""
    self.tick()
    if a is b:
      return None
    if isinstance(a, tuple) and isinstance(b, tuple):
      a2, b2 = [x for x in a if not nothing(x, F)], [x for x in b if not nothing(x, F)]
      if a2 != b2:
        a2, b2 = ([z for x in y for z in self.unfold(x, F)] for y in (a2, b2))
      if len(a2) != len(b2):
        return Mismatch(F, a, b)
      for x, y in zip(a2, b2):
        r = self.eq(x, y, F)
        if r is not None:
          return r
      return None
    if not isinstance(a, T) or not isinstance(b, T):
      return None if a == b else Mismatch(F, a, b)
    if a is HOLE or b is HOLE:
      return None
    ra, rb = resolve(a, F), resolve(b, F)
    if ra is rb:
      return None
    if ra is not a or rb is not b:
      return self.eq(ra, rb, F)
    if T("A.is", a, b) in F and F[T("A.is", a, b)] is True:
      return None
    if a.op in ("For", "Fold", "FoldAt") and b.op == a.op and a.a[0] is b.a[0]:
      r = self.eq(a.a[1:-1], b.a[1:-1], F)
      if r is not None:
        return r
      A = [(r[0], r[1]) for r in self.c.rows_of(a.a[-1])]
      B = [(r[0], r[1]) for r in self.c.rows_of(b.a[-1])]
      bad = self.excluded(a.a[0], F)
      r = self.rows(A, B, F, lambda x, y, f: self.eq(x[1], y[1], f), bad)
      return r
    if "If" in (a.op, b.op):
      A = [(r[0], r[1]) for r in self.c.rows_of(a)]
      B = [(r[0], r[1]) for r in self.c.rows_of(b)]
      return self.rows(A, B, F, lambda x, y, f: self.eq(x[1], y[1], f))
    if a.op != b.op:
      for x, y, flip in ((a, b, False), (b, a, True)):
        if y.op == "Inst" and self.c.i.types.get(x) == y.a[0].a[0] and y.a[0].a[0] in self.c.i.hooks.get("sorted_classes", ()):
          e = self.expand(x, y.a[0].a[0])
          return self.eq(y, e, F) if flip else self.eq(e, y, F)
      if a.op == "Tup" and len(a.a) == 1 and a.a[0].op == "X" and a.a[0].a[0] is b or b.op == "Tup" and len(b.a) == 1 and b.a[0].op == "X" and b.a[0].a[0] is a:
        return None
      return Mismatch(F, a, b)
    if a.op in ("For", "Fold", "FoldAt", "A.ex") and a.a[0] is not b.a[0]:
      r = self.eq(a.a[0].a[0], b.a[0].a[0], F)
      if r is not None:
        return r
      sub = {b.a[0]: a.a[0], b.a[0].a[0]: a.a[0].a[0]}
      body = tuple(self.c.subst(x, sub) for x in b.a[1:])
      return self.eq(a.a[1:], body, F)
    if a.op == "Slice" and (a.a[0].op == "Seq" or b.a[0].op == "Seq"):
      # what is sliced is spliced, or compared item by item: a list of the items of a sequence is as good
      x, y = (self.c.items(T(t.a[0].op, *[z for z in t.a[0].a if not nothing(z, F)]) if t.a[0].op == "Seq" else t.a[0]) for t in (a, b))
      if x is not a.a[0] or y is not b.a[0]:
        return self.eq((x,) + a.a[1:], (y,) + b.a[1:], F)
    if a.op in ("Seq", "Tup") and any(nothing(x, F) for x in a.a + b.a):
      x, y = (T(t.op, *[z for z in t.a if not nothing(z, F)]) for t in (a, b))
      return self.eq(x, y, F)
    if len(a.a) != len(b.a) or a.op in ("K", "P", "Ext", "Cls"):
      return Mismatch(F, a, b)
    for x, y in zip(a.a, b.a):
      r = self.eq(x, y, F)
      if r is not None:
        return r if r.a is not None and specific(r) else Mismatch(F, a, b)
    return None


def specific(m):
  return True


def nothing(x, F=None):
  if F is not None and isinstance(x, T) and x.op == "X" and x.a[0].op == "Op" and x.a[0].a[0] == "*" and x.a[0].a[1].op == "Seq" and intl(x.a[0].a[2]):
    return F.bounds(x.a[0].a[2])[1] <= 0
  return isinstance(x, T) and x.op == "Nothing"


def resolve(t, F):
  """Replaces a term by the constant the facts fix it to."""
  if t.op in ("P", "At", "It", "Ap", "Key", "RS", "Len", "Poly"):
    for at, v in F.items():
      if v is True and at.op in ("A.is", "A.eq") and at.a[0] is t and at.a[1].op in ("K", "Cls", "Ext"):
        return at.a[1]
      if v is True and at.op == "A.is" and at.a[1] is t and at.a[0].op in ("K", "Cls", "Ext"):
        return at.a[0]
    if t.op in ("Len", "Poly"):
      lo, hi = F.rng(t)
      if lo == hi:
        return K(lo)
  return t
