"""Provenance terms: hash-consed symbolic descriptions of where a value comes from."""

_TAB = {}


class T:
  __slots__ = ("op", "a", "_h", "n")

  def __new__(cls, op, *a):
    key = (op, a)
    t = _TAB.get(key)
    if t is None:
      t = object.__new__(cls)
      t.op = op
      t.a = a
      t._h = hash(key)
      t.n = len(_TAB)
      _TAB[key] = t
    return t

  def __hash__(self):
    return self._h

  def __eq__(self, o):
    return self is o

  def __repr__(self):
    return show(self)

  def __lt__(self, o):
    return show(self) < show(o)


class Box:
  """Wraps a mutable analysis object (a region, a closure summary) inside a term."""

  __slots__ = ("v",)

  def __init__(self, v):
    self.v = v

  def __repr__(self):
    return "<box>"


def K(v):
  return T("K", type(v).__name__, v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ELL = K(...)


def isK(t, *types):
  return t.op == "K" and (not types or isinstance(t.a[1], types))


def kval(t):
  return t.a[1]


def P(name):
  return T("P", name)


def Ext(dotted):
  return T("Ext", dotted)


def Tup(items):
  items = tuple(items)
  if len(items) == 1 and items[0].op == "X" and items[0].a[0].op in ("Tup", "TupOf"):
    return items[0].a[0]
  out = []
  for i in items:
    if i.op == "X" and i.a[0].op == "Tup":
      out.extend(i.a[0].a)
    else:
      out.append(i)
  return T("Tup", *_rejoin(out))


def _rejoin(items):
  # (x[0], *x[1:]) is *x
  out = []
  for i in items:
    if i.op == "X" and i.a[0].op == "Slice" and isK(i.a[0].a[2]) and kval(i.a[0].a[2]) is None:
      base, lo = i.a[0].a[0], i.a[0].a[1]
      if isK(lo, int) and kval(lo) >= 1 and len(out) >= kval(lo):
        n = kval(lo)
        if all(out[len(out) - n + j] is T("It", base, K(j)) for j in range(n)):
          del out[len(out) - n :]
          out.append(T("X", base))
          continue
    out.append(i)
  return out


def X(t):
  return T("X", t)


def fixed(items):
  return all(i.op not in ("X", "LE") for i in items)


def show(t, d=0):
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return "(" + ",".join(show(x, d + 1) for x in t) + ")"
    return str(t)
  if d > 14:
    return "…"
  o, a = t.op, t.a
  s = lambda x: show(x, d + 1)
  if o == "K":
    return "..." if a[1] is ... else repr(a[1])
  if o == "P":
    return str(a[0])
  if o == "Ext":
    return a[0]
  if o == "Cls":
    return a[0].split(".")[-1]
  if o == "At":
    return f"{s(a[0])}.{a[1]}"
  if o == "It":
    return f"{s(a[0])}[{s(a[1])}]"
  if o == "X":
    return "*" + s(a[0])
  if o == "Tup":
    return "(" + ", ".join(map(s, a)) + ("," if len(a) == 1 else "") + ")"
  if o == "Ap":
    kw = [f"{k}={s(v)}" for k, v in a[2]]
    e = f"@{a[3]}" if a[3] else ""
    return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + kw)}){e}"
  if o == "New":
    kw = [f"{k}={s(v)}" for k, v in a[2]]
    return f"{s(a[0])}({', '.join([s(x) for x in a[1]] + kw)})"
  if o == "Inst":
    return f"{s(a[0])}{{{', '.join(f'{k}={s(v)}' for k, v in a[1])}}}"
  if o == "Seq":
    return f"{a[0]}[{', '.join(map(s, a[1:]))}]"
  if o == "Fn":
    return f"<fn {a[1]}>"
  if o == "Lam":
    return f"<fn {a[1]}>"
  if o == "LE":
    return show_region(a[0].v, a[1], d + 1)
  if o == "Idx":
    return f"#({s(a[0])}:{a[1]})"
  if o == "Len":
    return f"len({s(a[0])})"
  if o == "Vars":
    return f"vars({s(a[0])})"
  if o == "Type":
    return f"type({s(a[0])})"
  if o == "put":
    return f"{s(a[0])}: {s(a[1])}"
  if o.startswith("?"):
    return f"{o[1:]}({', '.join(map(s, a))})"
  return f"{o}<{', '.join(map(s, a))}>"


def show_region(r, view, d=0):
  if d > 6:
    return "{…}"
  parts = []
  for p in r.paths:
    ent = p.view(view)
    if not ent:
      continue
    f = " & ".join(show_fact(a, b, d) for a, b in p.facts)
    parts.append(f"[{f}] " + ", ".join(show(x, d) for x in ent))
  head = "rec" if r.kind == "fix" else show(r.idx, d)
  return f"for {head}: " + " | ".join(parts)


def show_fact(a, b, d=0):
  if isinstance(b, tuple):
    return f"{show(a.a[0], d)} in [{b[0]},{b[1]}]"
  return ("" if b else "not ") + show(a, d)


def walk(t, seen=None):
  """All subterms (without entering regions)."""
  if seen is None:
    seen = set()
  st = [t]
  while st:
    x = st.pop()
    if isinstance(x, tuple):
      st.extend(x)
    elif isinstance(x, T) and x not in seen:
      seen.add(x)
      yield x
      st.extend(x.a)


# ---------------------------------------------------------------- arithmetic
NUMOPS = {"Poly", "Len", "Idx"}


def numeric(t):
  return t.op in NUMOPS or (t.op == "K" and isinstance(t.a[1], (int, float)) and not isinstance(t.a[1], bool)) or (
      t.op == "Op" and t.a[0] in ("//", "%", "**")
  )


def poly(t):
  """-> dict monomial(tuple of terms sorted) -> coefficient"""
  if isK(t, int, float) and not isinstance(kval(t), bool):
    return {(): kval(t)} if kval(t) != 0 else {}
  if t.op == "Poly":
    return dict(t.a[0])
  return {(t,): 1}


def mono_order(mk):
  return len(mk[0]), [x.n for x in mk[0]]


def unpoly(p):
  p = {m: c for m, c in p.items() if c != 0}
  if not p:
    return K(0)
  if len(p) == 1:
    ((m, c),) = p.items()
    if m == ():
      return K(c)
    if c == 1 and len(m) == 1:
      return m[0]
  return T("Poly", tuple(sorted(p.items(), key=mono_order)))


def add(a, b, sign=1):
  p = poly(a)
  for m, c in poly(b).items():
    p[m] = p.get(m, 0) + sign * c
  return unpoly(p)


def mul(a, b):
  p = {}
  for m1, c1 in poly(a).items():
    for m2, c2 in poly(b).items():
      m = tuple(sorted(m1 + m2, key=lambda x: x.n))
      p[m] = p.get(m, 0) + c1 * c2
  return unpoly(p)


def neg(a):
  return mul(K(-1), a)
