"""Path conditions: canonical atoms with polarity plus integer intervals; a small contradiction theory."""
from .terms import *

INF = float("inf")
BUILTIN_SUB = {
    ("bool", "int"), ("tuple", "Sequence"), ("list", "Sequence"), ("str", "Sequence"), ("dict", "Mapping"),
    ("tuple", "Iterable"), ("list", "Iterable"), ("str", "Iterable"), ("dict", "Iterable"), ("set", "Iterable"),
    ("Sequence", "Iterable"), ("Mapping", "Iterable"), ("type", "Callable"), ("function", "Callable"),
    ("MutableMapping", "Mapping"), ("MutableMapping", "Iterable"), ("dict", "MutableMapping"),
    ("frozenset", "Iterable"), ("Iterator", "Iterable"), ("tuple", "Hashable"),
}
CONCRETE = {"bool", "int", "float", "str", "tuple", "list", "dict", "set", "frozenset", "NoneType", "ellipsis", "type", "function"}


class Theory:
  """Class relations of the analysed program."""

  types = {}  # classes of the symbols that have one

  def same_type(self, at, x):
    """The class x is an instance of when an atom says its type is that of something declared."""
    if at.op in ("A.is", "A.eq") and at.a[0].op == "Type" and isinstance(at.a[1], T) and at.a[1].op == "Type":
      a, b = at.a[0].a[0], at.a[1].a[0]
      c = self.types.get(b) if a is x else self.types.get(a) if b is x else None
      if c in self.program.classes:
        return T("Cls", c)
    return None

  def __init__(self, program):
    self.program = program

  def registered(self, glob):
    """Classes a module level tuple of types is extended with by register calls at import time."""
    if not hasattr(self, "_reg"):
      import ast
      from .program import flatten_body, dotted_of

      self._reg = {}
      for m in self.program.modules.values():
        for s in flatten_body(m.tree.body):
          if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and s.value.args:
            f = self.program.static_expr(m, s.value.func)
            if f is not None and f.op == "GFn" and f.a[1].startswith("register"):
              t = self.program.static_expr(m, s.value.args[0])
              if t is not None:
                self._reg.setdefault(f.a[0], []).append(t)
    return self._reg.get(glob.a[0].rpartition(".")[0], [])

  def in_glob(self, c, glob):
    """Is every / no instance of class c an instance of the types registered in glob? None when unknown."""
    reg = self.registered(glob)
    if not reg:
      return None
    if any(self.sub(c, r) for r in reg):
      return True
    if c.op == "Ext" and c.a[0] in CONCRETE:
      return False
    if c.op == "Cls" and not any(self.sub(r, c) for r in reg):
      return False
    return None

  def supers(self, c):
    if c.op == "Cls":
      return self.program.mro(c.a[0])
    return [c.a[0]]

  def sub(self, c, d):
    if c is d:
      return True
    if d.op == "Glob":
      return c.op != "Glob" and self.in_glob(c, d) is True
    if c.op == "Glob" or c.op not in ("Cls", "Ext") or d.op not in ("Cls", "Ext"):
      return False
    dn = d.a[0]
    if dn == "object":
      return True
    for s in self.supers(c):
      if s == dn or (s, dn) in BUILTIN_SUB:
        return True
      if s not in self.program.classes:
        for a, b in BUILTIN_SUB:
          if a == s and (b == dn or (b, dn) in BUILTIN_SUB):
            return True
    return False

  def layout_disjoint(self, c, d):
    """Two classes of the tree with different metaclasses cannot have a common subclass."""
    m1, m2 = self.program.metaclass_of(c.a[0]), self.program.metaclass_of(d.a[0])
    if m1 is None or m2 is None or m1.op != "Cls" or m2.op != "Cls":
      return False
    a, b = self.program.mro(m1.a[0]), self.program.mro(m2.a[0])
    return m1.a[0] not in b and m2.a[0] not in a

  def disjoint(self, c, d):
    def conc(x):
      for s in self.supers(x):
        if s in CONCRETE:
          return s
        if s in ("Mapping", "Sequence", "MutableMapping"):
          return s
      return None

    if self.sub(c, d) or self.sub(d, c):
      return False
    if d.op == "Glob":
      c, d = d, c
    if c.op == "Glob":
      return d.op != "Glob" and d.op in ("Cls", "Ext") and self.in_glob(d, c) is False
    if c.op not in ("Cls", "Ext") or d.op not in ("Cls", "Ext"):
      return False
    a, b = conc(c), conc(d)
    if c.op == "Cls" and d.op == "Cls" and c.a[0] in self.program.classes and d.a[0] in self.program.classes:
      return self.layout_disjoint(c, d)
    if a is None or b is None:
      return False
    if a in CONCRETE and b in CONCRETE:
      return a != b and (a, b) not in BUILTIN_SUB and (b, a) not in BUILTIN_SUB
    pair = {a, b}
    if pair & {"Mapping", "MutableMapping"} and pair & {"str", "tuple", "list", "Sequence", "int", "bool", "float", "NoneType", "ellipsis", "type", "set"}:
      return True
    if "Sequence" in pair and pair & {"dict", "int", "bool", "float", "NoneType", "ellipsis", "type", "set"}:
      return True
    return False


def constlike(t):
  return t.op in ("K", "Cls", "Ext") or (t.op == "At" and t.a[0].op == "Cls")


class Facts(dict):
  """atom -> bool, or T('A.rng', t) -> (lo, hi)"""

  __slots__ = ("th",)

  def __init__(self, th, *a):
    super().__init__(*a)
    self.th = th

  def copy(self):
    return Facts(self.th, self)

  # -- intervals
  def rng(self, t):
    r = self.get(T("A.rng", t))
    if r is None:
      r = (0, INF) if t.op in ("Len", "Idx") else (-INF, INF)
    return r

  def bounds(self, t):
    """Range of a sum of bounded terms."""
    lo, hi = self.rng(t)
    if t.op == "K" and type(t.a[1]) is int:
      return t.a[1], t.a[1]
    if t.op == "Poly" and all(len(m) <= 1 for m, _ in t.a[0]):
      l = h = 0
      for m, k in t.a[0]:
        a, b = self.rng(m[0]) if m else (1, 1)
        l, h = l + (k * a if k > 0 else k * b), h + (k * b if k > 0 else k * a)
      lo, hi = max(lo, l), min(hi, h)
    return lo, hi

  def narrow(self, t, lo, hi):
    a, b = self.rng(t)
    lo, hi = max(a, lo), min(b, hi)
    while T("A.eq", t, K(lo)) in self and self[T("A.eq", t, K(lo))] is False:
      lo += 1
    while T("A.eq", t, K(hi)) in self and self[T("A.eq", t, K(hi))] is False:
      hi -= 1
    if lo > hi:
      return False
    if hi <= 0 < b and t.op == "Len":
      for at, v in self.items():
        if at.op == "A.in" and v is True and at.a[1] is t.a[0]:
          return False
    self[T("A.rng", t)] = (lo, hi)
    return True

  # -- atoms
  def query(self, atom):
    v = self.get(atom)
    if v is not None:
      return v
    for val in (True, False):
      if not self.consistent(atom, val):
        return not val
    return None

  def consistent(self, atom, val):
    op = atom.op
    v = self.get(atom)
    if v is not None and v is not val:
      return False
    th = self.th
    if op == "A.isinst":
      x, c = atom.a
      for at, b in self.items():
        if at.op == "A.isinst" and at.a[0] is x:
          d = at.a[1]
          if val and b and th.disjoint(c, d):
            return False
          if val and not b and th.sub(c, d):
            return False
          if not val and b and th.sub(d, c):
            return False
        elif at.op == "A.is" and at.a[0] is x and b is True:
          cn = {"NoneType": "NoneType", "ellipsis": "ellipsis"}
          k = at.a[1]
          if val and isK(k) and kval(k) is None and c.a[0] not in ("object", "NoneType", "Hashable"):
            return False
          if val and isK(k) and isinstance(kval(k), bool) and c.a[0] not in ("object", "bool", "int", "Hashable"):
            return False
          if val and isK(k) and kval(k) is ... and c.a[0] not in ("object", "ellipsis", "Hashable"):
            return False
        elif at.op == "A.eq" and b is True and at.a[0] is x and isK(at.a[1]):
          tn = type(kval(at.a[1])).__name__
          if val and th.disjoint(Ext(tn), c):
            return False
        elif at.op == "A.eq" and b is True and at.a[0] is T("Type", x) and at.a[1].op in ("Cls", "Ext"):
          if not val and th.sub(at.a[1], c):
            return False
          if val and th.disjoint(at.a[1], c):
            return False
        elif b is True and (d := th.same_type(at, x)) is not None:
          if not val and th.sub(d, c) or val and th.disjoint(d, c):
            return False
        elif at.op == "A.callable" and at.a[0] is x:
          if val and b is False and c.a[0] in ("type", "Callable", "function"):
            return False
          if not val and b is True and c.a[0] == "Callable":
            return False
          if val and b is True and c.a[0] in ("str", "int", "tuple", "list", "dict"):
            return False
    elif op in ("A.is", "A.eq") and val and atom.a[0].op == "Type" and any(
      at.op == "A.isinst" and (d := th.same_type(atom, at.a[0])) is not None and (not b and th.sub(d, at.a[1]) or b is True and th.disjoint(d, at.a[1]))
      for at, b in self.items()
    ):
      return False
    elif op == "A.is":
      x, k = atom.a
      for at, b in self.items():
        if at.op == "A.is" and at.a[0] is x and b is True and val and at.a[1] is not k and constlike(k) and constlike(at.a[1]):
          return False
        if at.op == "A.isinst" and at.a[0] is x and b is True and val and isK(k):
          tn = "NoneType" if kval(k) is None else "ellipsis" if kval(k) is ... else None
          if tn and at.a[1].a[0] not in ("object", tn, "Hashable"):
            return False
        if at.op == "A.truth" and at.a[0] is x and b is True and val and isK(k) and not kval(k):
          return False
        if at.op == "A.truth" and at.a[0] is x and b is False and val and isK(k) and kval(k) is ...:
          return False
        if at.op == "A.eq" and at.a[0] is x and b is True and val and isK(at.a[1]) and isK(k) and kval(at.a[1]) is not kval(k):
          return False
        if at.op == "A.callable" and at.a[0] is x and b is True and val and isK(k):
          return False
    elif op == "A.truth":
      x = atom.a[0]
      for at, b in self.items():
        if at.op == "A.is" and at.a[0] is x and b is True and isK(at.a[1]):
          if bool(kval(at.a[1])) is not val:
            return False
        if at.op == "A.eq" and at.a[0] is x and b is True and isK(at.a[1]) and bool(kval(at.a[1])) is not val:
          return False
        if at.op == "A.in" and at.a[1] is x and b is True and not val:
          return False
    elif op == "A.eq":
      x, k = atom.a
      if val:
        for at, b in self.items():
          if at.op == "A.eq" and b is True and at.a[0] is x and at.a[1] is not k and constlike(k) and constlike(at.a[1]):
            return False
          if at.op == "A.is" and b is True and at.a[0] is x and isK(at.a[1]) and isK(k) and kval(at.a[1]) is not kval(k):
            return False
          if at.op == "A.truth" and at.a[0] is x and isK(k) and bool(kval(k)) is not b:
            return False
          if at.op == "A.isinst" and at.a[0] is x and b is True and isK(k) and th.disjoint(Ext(type(kval(k)).__name__), at.a[1]):
            return False
          if x.op == "Type" and at.op == "A.isinst" and at.a[0] is x.a[0] and k.op in ("Cls", "Ext"):
            if b is False and th.sub(k, at.a[1]):
              return False
    elif op == "A.in":
      if val and T("A.truth", atom.a[1]) in self and self[T("A.truth", atom.a[1])] is False:
        return False
      if val and self.rng(T("Len", atom.a[1]))[1] <= 0:
        return False
    elif op == "A.callable":
      x = atom.a[0]
      for at, b in self.items():
        if at.op == "A.isinst" and at.a[0] is x and b is True:
          n = at.a[1].a[0]
          if not val and n in ("type", "Callable", "function"):
            return False
          if val and n in ("str", "int", "tuple", "list", "dict"):
            return False
        if at.op == "A.is" and at.a[0] is x and b is True and val and isK(at.a[1]):
          return False
    return True

  def assume(self, atom, val):
    """Adds the fact; False when it contradicts what is known."""
    if atom.op == "A.rng":
      return self.narrow(atom.a[0], *val)
    if not self.consistent(atom, val):
      return False
    self[atom] = val
    if atom.op == "A.eq" and isK(atom.a[1], int) and not isinstance(kval(atom.a[1]), bool):
      t, k = atom.a[0], kval(atom.a[1])
      if intlike(t):
        if val:
          return self.narrow(t, k, k)
        return self.narrow(t, *self.rng(t))
    return True

  def join(self, other):
    """Facts of both, or None when they contradict."""
    r = self.copy()
    for at, v in other.items():
      if at.op == "A.rng":
        if not r.narrow(at.a[0], *v):
          return None
      elif r.get(at) is v:
        continue
      elif not r.assume(at, v):
        return None
    return r


def intlike(t):
  return t.op in ("Len", "Idx", "Poly") or (t.op == "At" and t.a[1] == "ndim")
