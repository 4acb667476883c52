#!/usr/bin/python3
"""Development aid: many small edits of the analysed source, one at a time.

mutate.py refactor|bug OUT.jsonl [path filter ...]   behaviour-preserving rewrites / behaviour-changing edits; lists verdicts.
"""
import ast, copy, json, multiprocessing, os, shutil, sys, tempfile, builtins, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
REPO = "/repo"


# ------------------------------------------------------------------ helpers
def functions(tree, mod):
  """(qual, node, body-owner chain)"""
  out = []

  def rec(n, q, cls):
    for s in ast.iter_child_nodes(n):
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        out.append((q + "." + s.name, s, cls))
        rec(s, q + "." + s.name, None)
      elif isinstance(s, ast.ClassDef):
        rec(s, q + "." + s.name, s)
      else:
        rec(s, q, cls)

  rec(tree, mod, None)
  return out


def own(fn):
  stack = list(fn.body)
  while stack:
    n = stack.pop(0)
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    stack = list(ast.iter_child_nodes(n)) + stack


def blocks(fn):
  """statement lists of the function itself"""
  out = [fn.body]
  for n in own(fn):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
      continue
    for k in ("body", "orelse", "finalbody"):
      v = getattr(n, k, None)
      if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
        out.append(v)
    for h in getattr(n, "handlers", []) or []:
      out.append(h.body)
  return out


def names_in(n, ctx=None):
  return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def is_doc(s):
  return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)


def overload(fn):
  return any("overload" in ast.unparse(d) for d in fn.decorator_list) or all(is_doc(s) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) for s in fn.body)


def always_leaves(b):
  l = b[-1]
  if isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
    return True
  return isinstance(l, ast.If) and l.orelse and always_leaves(l.body) and always_leaves(l.orelse)


def neg(e):
  if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
    return e.operand
  if isinstance(e, ast.Compare) and len(e.ops) == 1:
    m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
    t = m.get(type(e.ops[0]))
    if t:
      return ast.Compare(e.left, [t()], e.comparators)
  return ast.UnaryOp(ast.Not(), e)


def nm(x, store=False):
  return ast.Name(x, ast.Store() if store else ast.Load())


def asg(x, v):
  return ast.Assign([nm(x, True)], v, lineno=1)


def has_yield(fn):
  return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))


def uses_super(fn):
  return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args for n in ast.walk(fn))


# ------------------------------------------------------------------ refactorings: each yields (label, edit) where edit mutates in place
def r_return_local(fn, tree):
  for b in blocks(fn):
    for s in b:
      if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
        def ed(b=b, s=s):
          i = b.index(s)
          b[i : i + 1] = [asg("result_", s.value), ast.Return(nm("result_"))]
        yield "return-local", ed


def r_arg_local(fn, tree):
  for b in blocks(fn):
    for s in b:
      if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call) and s.value.args and isinstance(s.value.func, (ast.Name,)):
        a0 = s.value.args[0]
        if isinstance(a0, (ast.Call, ast.Tuple, ast.Attribute, ast.Subscript)):
          def ed(b=b, s=s, a0=a0):
            i = b.index(s)
            b.insert(i, asg("arg_", a0))
            s.value.args[0] = nm("arg_")
          yield "arg-local", ed


def r_invert(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.If) and n.orelse:
      def ed(n=n):
        n.test = neg(n.test)
        n.body, n.orelse = n.orelse, n.body
      yield "invert-if", ed
    if isinstance(n, ast.IfExp):
      def ed(n=n):
        n.test = neg(n.test)
        n.body, n.orelse = n.orelse, n.body
      yield "invert-ifexp", ed


def r_flatten(fn, tree):
  for b in blocks(fn):
    for i, s in enumerate(b):
      if isinstance(s, ast.If) and not s.orelse and always_leaves(s.body) and i + 1 < len(b):
        def ed(b=b, s=s):
          i = b.index(s)
          s.orelse = b[i + 1 :]
          del b[i + 1 :]
        yield "nest-rest-in-else", ed
      if isinstance(s, ast.If) and s.orelse and always_leaves(s.body):
        def ed(b=b, s=s):
          i = b.index(s)
          rest = s.orelse
          s.orelse = []
          b[i + 1 : i + 1] = rest
        yield "drop-else-after-leave", ed
      if isinstance(s, ast.If) and not s.orelse and i + 1 == len(b) and b is not fn.body:
        pass


def r_continue(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.For) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse and not n.orelse:
      def ed(n=n):
        s = n.body.pop()
        n.body += [ast.If(neg(s.test), [ast.Continue()], [])] + s.body
      yield "early-continue", ed


def r_rename(fn, tree):
  params = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
  loc = {x.id for n in own(fn) for x in [n] if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
  gl = {g for n in own(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for g in n.names}
  loc -= gl
  for n in ast.walk(fn):
    if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda)):
      inner = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)} | {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
      loc -= inner
      loc -= {getattr(n, "name", None)}
  if loc:
    def ed():
      for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in loc:
          x.id = x.id + "_r"
        elif isinstance(x, ast.Nonlocal):
          x.names = [y + "_r" if y in loc else y for y in x.names]
    yield "rename-locals", ed


def r_comp_loop(fn, tree):
  for b in blocks(fn):
    for s in b:
      v = getattr(s, "value", None)
      if not isinstance(s, (ast.Assign, ast.Return)) or v is None:
        continue
      wrap = None
      c = v
      if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("tuple", "list", "set", "dict") and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)):
        wrap, c = v.func.id, v.args[0]
      if not isinstance(c, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) or isinstance(c, ast.GeneratorExp) and wrap is None:
        continue
      if len(c.generators) != 1:
        continue
      if wrap in ("dict", "set"):
        continue
      def ed(b=b, s=s, c=c, wrap=wrap):
        i = b.index(s)
        g = c.generators[0]
        if isinstance(c, ast.DictComp):
          init = ast.Dict([], [])
          add = ast.Assign([ast.Subscript(nm("acc_"), c.key, ast.Store())], c.value, lineno=1)
        elif isinstance(c, ast.SetComp):
          init = ast.Call(nm("set"), [], [])
          add = ast.Expr(ast.Call(ast.Attribute(nm("acc_"), "add", ast.Load()), [c.elt], []))
        else:
          init = ast.List([], ast.Load())
          add = ast.Expr(ast.Call(ast.Attribute(nm("acc_"), "append", ast.Load()), [c.elt], []))
        body = [add]
        for t in reversed(g.ifs):
          body = [ast.If(t, body, [])]
        b.insert(i, ast.For(g.target, g.iter, body, [], lineno=1))
        b.insert(i, asg("acc_", init))
        s.value = ast.Call(nm(wrap), [nm("acc_")], []) if wrap == "tuple" else nm("acc_")
      yield "comp-to-loop", ed


def r_loop_comp(fn, tree):
  for b in blocks(fn):
    for i, s in enumerate(b[:-1]):
      t = b[i + 1]
      if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.List, ast.Dict)) and not (getattr(s.value, "elts", None) or getattr(s.value, "keys", None)) and isinstance(t, ast.For) and not t.orelse:
        tgt = s.targets[0] if isinstance(s, ast.Assign) else s.target
        if not isinstance(tgt, ast.Name):
          continue
        body, ifs = t.body, []
        while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
          ifs.append(body[0].test)
          body = body[0].body
        if len(body) != 1:
          continue
        x = body[0]
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr == "append" and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == tgt.id:
          c = ast.ListComp(x.value.args[0], [ast.comprehension(t.target, t.iter, ifs, 0)])
        elif isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].value, ast.Name) and x.targets[0].value.id == tgt.id:
          c = ast.DictComp(x.targets[0].slice, x.value, [ast.comprehension(t.target, t.iter, ifs, 0)])
        else:
          continue
        if tgt.id in names_in(c):
          continue
        def ed(b=b, s=s, t=t, c=c):
          s.value = c
          b.remove(t)
        yield "loop-to-comp", ed


def free_names(stmts):
  return {x.id for s in stmts for x in ast.walk(s) if isinstance(x, ast.Name)}


def definite(stmts):
  """names assigned on every path through the statements that reaches their end; None when the end is not reached"""
  out = set()
  for s in stmts:
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
      return None
    if isinstance(s, ast.If):
      a, b = definite(s.body), definite(s.orelse)
      if a is None and b is None:
        return None
      out |= b if a is None else a if b is None else a & b
    elif isinstance(s, (ast.For, ast.While, ast.Try)):
      continue
    elif isinstance(s, ast.With):
      out |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
      out.add(s.name)
    else:
      out |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
  return out


def r_extract_tail(fn, tree):
  """the last statements of the function become a module-level helper"""
  if has_yield(fn) or uses_super(fn) or any(isinstance(n, (ast.Nonlocal, ast.Global)) for n in ast.walk(fn)):
    return
  parent_locals = getattr(fn, "_enclosing", set())
  params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs] + [a.arg for a in (fn.args.vararg, fn.args.kwarg) if a]
  start0 = 1 if is_doc(fn.body[0]) else 0
  for k in sorted({start0, start0 + (len(fn.body) - start0) // 2, len(fn.body) - 1}):
    tail = fn.body[k:]
    if not tail or k >= len(fn.body) or (len(tail) == 1 and isinstance(tail[0], ast.Return) and not isinstance(tail[0].value, (ast.Call, ast.BinOp, ast.Tuple))):
      continue
    head = fn.body[start0:k]
    before = set(params) | {x.id for s in head for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {s.name for s in head if isinstance(s, ast.FunctionDef)}
    before |= parent_locals
    if any(isinstance(x, ast.NamedExpr) for s in head for x in ast.walk(s)):
      continue
    imported = {(a.asname or a.name).split(".")[0] for s in head for x in ast.walk(s) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
    need = sorted(free_names(tail) & before)
    if imported & free_names(tail) or not set(need) <= (definite(head) or set()) | set(params) | parent_locals:
      continue
    def ed(k=k, need=need):
      tail = fn.body[k:]
      h = ast.FunctionDef("_extracted_helper", ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), tail, [], None, lineno=1)
      fn.body[k:] = [ast.Return(ast.Call(nm("_extracted_helper"), [nm(x) for x in need], []))]
      tree.body.append(h)
    yield f"extract-tail", ed


def r_if_expr(fn, tree):
  for b in blocks(fn):
    for s in b:
      if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
        def ed(b=b, s=s):
          i = b.index(s)
          v = s.value
          s1, s2 = copy.deepcopy(s), copy.deepcopy(s)
          s1.value, s2.value = v.body, v.orelse
          b[i] = ast.If(v.test, [s1], [s2])
        yield "ifexp-to-if", ed
      if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
        x, y = s.body[0], s.orelse[0]
        if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.unparse(x.targets[0]) == ast.unparse(y.targets[0]) or isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value is not None and y.value is not None:
          def ed(b=b, s=s, x=x, y=y):
            x.value = ast.IfExp(s.test, x.value, y.value)
            b[b.index(s)] = x
          yield "if-to-ifexp", ed


def r_split_and(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.If) and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
      def ed(n=n):
        t = n.test.values
        inner = ast.If(t[-1], n.body, [])
        n.test = t[0] if len(t) == 2 else ast.BoolOp(ast.And(), t[:-1])
        n.body = [inner]
      yield "split-and", ed


def r_items(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == "items" and not n.iter.args and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and isinstance(n.iter.func.value, (ast.Name, ast.Attribute)):
      def ed(n=n):
        k, v = n.target.elts
        base = n.iter.func.value
        n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(base), nm(k.id), ast.Load()), lineno=1))
        n.target = k
        n.iter = base
      yield "items-to-keys", ed


def r_method_to_function(fn, tree):
  cls = getattr(fn, "_cls", None)
  if cls is None or uses_super(fn) or has_yield(fn) or "__class__" in names_in(fn) or any(isinstance(n, ast.Attribute) and n.attr.startswith("__") and not n.attr.endswith("__") for n in ast.walk(fn)):
    return
  a = fn.args
  def ed():
    params = a.posonlyargs + a.args
    call = ast.Call(nm("_impl_" + fn.name.strip("_")), [nm(x.arg) for x in params] + ([ast.Starred(nm(a.vararg.arg), ast.Load())] if a.vararg else []), [ast.keyword(x.arg, nm(x.arg)) for x in a.kwonlyargs] + ([ast.keyword(None, nm(a.kwarg.arg))] if a.kwarg else []))
    h = ast.FunctionDef("_impl_" + fn.name.strip("_"), ast.arguments([], [ast.arg(x.arg) for x in params], ast.arg(a.vararg.arg) if a.vararg else None, [ast.arg(x.arg) for x in a.kwonlyargs], [None for x in a.kwonlyargs], ast.arg(a.kwarg.arg) if a.kwarg else None, []), fn.body, [], None, lineno=1)
    fn.body = [ast.Return(call)]
    tree.body.append(h)
  yield "method-to-function", ed


def r_pre_locals(fn, tree):
  """self.x read twice or more in straight-line code: bind it once"""
  if not fn.body or not fn.args.args:
    return
  for b in blocks(fn):
    for s in b:
      if isinstance(s, (ast.Assign, ast.Return, ast.Expr)):
        at = [n for n in ast.walk(s.value) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == fn.args.args[0].arg and n.value.id == "self"] if s.value is not None else []
        at = [n for n in at if n.attr.startswith("_") or True]
        if at and not isinstance(s.value, (ast.BoolOp, ast.IfExp)):
          calls = {id(c.func) for c in ast.walk(s.value) if isinstance(c, ast.Call)}
          at = [n for n in at if id(n) not in calls]
          if at:
            def ed(b=b, s=s, at=at[:1]):
              i = b.index(s)
              n = at[0]
              b.insert(i, asg("field_", ast.Attribute(nm("self"), n.attr, ast.Load())))
              class R(ast.NodeTransformer):
                def visit_Attribute(self, x):
                  return nm("field_") if x is n else self.generic_visit(x)
              s.value = R().visit(s.value)
            yield "attr-local", ed


def r_guard_order(fn, tree):
  # two adjacent simple assignments of names to plain names/constants/attributes
  for b in blocks(fn):
    for i in range(len(b) - 1):
      s, t = b[i], b[i + 1]
      if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Name, ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Lambda)) for x in (s, t)):
        a, c = s.targets[0].id, t.targets[0].id
        if a != c and a not in names_in(t) and c not in names_in(s) and not any(isinstance(y, ast.Call) for x in (s, t) for y in ast.walk(x.value)):
          def ed(b=b, i=i):
            b[i], b[i + 1] = b[i + 1], b[i]
          yield "swap-assigns", ed
      if all(isinstance(x, (ast.Assign)) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Attribute) and isinstance(x.targets[0].value, ast.Name) and isinstance(x.value, (ast.Name, ast.Constant)) for x in (s, t)):
        if s.targets[0].attr != t.targets[0].attr:
          def ed(b=b, i=i):
            b[i], b[i + 1] = b[i + 1], b[i]
          yield "swap-attr-assigns", ed


def r_noop(fn, tree):
  def ed():
    i = 1 if is_doc(fn.body[0]) else 0
    fn.body.insert(i, asg("_unused", ast.Constant(0)))
  yield "noop", ed


def r_kwargs(fn, tree):
  """keyword arguments in another order (plain values only)"""
  for n in own(fn):
    if isinstance(n, ast.Call) and len([k for k in n.keywords if k.arg]) >= 2 and all(k.arg for k in n.keywords) and all(isinstance(k.value, (ast.Name, ast.Constant, ast.Attribute)) for k in n.keywords):
      def ed(n=n):
        n.keywords.reverse()
      yield "kw-order", ed


def r_tuple_concat(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and n.elts and isinstance(n.elts[0], ast.Starred) and not any(isinstance(x, ast.Starred) for x in n.elts[1:]) and len(n.elts) > 1:
      def ed(n=n):
        new = ast.BinOp(ast.Call(nm("tuple"), [n.elts[0].value], []), ast.Add(), ast.Tuple(n.elts[1:], ast.Load()))
        replace_node(tree, n, new)
      yield "tuple-concat", ed


def replace_node(tree, old, new):
  class R(ast.NodeTransformer):
    def visit(self, x):
      return new if x is old else self.generic_visit(x)
  R().visit(tree)


def r_dict_copy(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args and isinstance(n.func.value, ast.Call) and ast.unparse(n.func.value.func) == "vars":
      def ed(n=n):
        replace_node(tree, n, ast.Call(nm("dict"), [n.func.value], []))
      yield "copy-to-dict", ed
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict" and not n.args and n.keywords and all(k.arg for k in n.keywords):
      def ed(n=n):
        replace_node(tree, n, ast.Dict([ast.Constant(k.arg) for k in n.keywords], [k.value for k in n.keywords]))
      yield "dict-display", ed
    if isinstance(n, ast.Dict) and n.keys and all(k is None or isinstance(k, ast.Constant) for k in n.keys) and None in n.keys and n.keys[0] is None:
      pass


def r_not_len(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.Compare) and isinstance(n.left, ast.Call) and ast.unparse(n.left.func) == "len" and isinstance(n.ops[0], (ast.Eq,)) and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value == 0:
      def ed(n=n):
        replace_node(tree, n, ast.Compare(n.left, [ast.Lt()], [ast.Constant(1)]))
      yield "len-lt-1", ed


def r_while(fn, tree):
  for b in blocks(fn):
    for s in b:
      if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, (ast.Name, ast.Tuple)) and not any(isinstance(x, ast.Continue) for x in ast.walk(s)):
        def ed(b=b, s=s):
          i = b.index(s)
          b[i:i + 1] = [asg("seq_", ast.Call(nm("list"), [s.iter], [])), ast.For(nm("i_", True), ast.Call(nm("range"), [ast.Call(nm("len"), [nm("seq_")], [])], []), [ast.Assign([s.target], ast.Subscript(nm("seq_"), nm("i_"), ast.Load()), lineno=1)] + s.body, [], lineno=1)]
        yield "index-loop", ed
        def ed2(b=b, s=s):
          i = b.index(s)
          b.insert(i, asg("iter_", s.iter))
          s.iter = nm("iter_")
        yield "iter-local", ed2


def r_lambda_def(fn, tree):
  for b in blocks(fn):
    for s in b:
      if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(s.value, ast.Call):
        for j, a in enumerate(s.value.args):
          if isinstance(a, ast.Lambda):
            def ed(b=b, s=s, j=j, a=a):
              i = b.index(s)
              b.insert(i, ast.FunctionDef("fn_", a.args, [ast.Return(a.body)], [], None, lineno=1))
              s.value.args[j] = nm("fn_")
            yield "lambda-to-def", ed
      if isinstance(s, ast.FunctionDef) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and not s.decorator_list and s.body[0].value is not None:
        def ed(b=b, s=s):
          for x in s.args.args + s.args.kwonlyargs + s.args.posonlyargs:
            x.annotation = None
          b[b.index(s)] = asg(s.name, ast.Lambda(s.args, s.body[0].value))
        yield "def-to-lambda", ed


REFACTOR = [r_return_local, r_arg_local, r_invert, r_flatten, r_continue, r_rename, r_comp_loop, r_loop_comp, r_extract_tail, r_if_expr, r_split_and,
  r_items, r_method_to_function, r_pre_locals, r_guard_order, r_noop, r_kwargs, r_tuple_concat, r_dict_copy, r_not_len, r_while, r_lambda_def]


# ------------------------------------------------------------------ bugs
def b_ops(fn, tree):
  swap = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
  bin_ = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}
  for n in own(fn):
    if isinstance(n, ast.Compare) and type(n.ops[0]) in swap:
      def ed(n=n):
        n.ops[0] = swap[type(n.ops[0])]()
      yield "compare", ed
      if isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and len(n.ops) == 1 and False:
        yield "", ed
    if isinstance(n, ast.BinOp) and type(n.op) in bin_:
      def ed(n=n):
        n.op = bin_[type(n.op)]()
      yield "binop", ed
      if isinstance(n.op, (ast.Add, ast.Sub, ast.BitOr)):
        def ed(n=n):
          n.left, n.right = n.right, n.left
        yield "swap-operands", ed
    if isinstance(n, ast.BoolOp):
      def ed(n=n):
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
      yield "and-or", ed
      for i in range(len(n.values)):
        def ed(n=n, i=i):
          del n.values[i]
          if len(n.values) == 1:
            replace_node(tree, n, n.values[0])
        yield "drop-operand", ed
    if isinstance(n, (ast.If, ast.IfExp, ast.While)):
      def ed(n=n):
        n.test = neg(n.test)
      yield "negate", ed
      if not isinstance(n, ast.While):
        def ed(n=n):
          n.test = ast.Constant(True)
        yield "always", ed
        def ed(n=n):
          n.test = ast.Constant(False)
        yield "never", ed


def b_const(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.Constant) and not isinstance(n.value, (bytes, type(None), type(...))):
      if any(is_doc(s) and s.value is n for b in blocks(fn) for s in b):
        continue
      vals = []
      v = n.value
      if isinstance(v, bool):
        vals = [not v]
      elif isinstance(v, int):
        vals = [v + 1, v - 1, -v] if v else [1, -1]
      elif isinstance(v, float):
        vals = [v * 2]
      elif isinstance(v, str) and len(v) < 25 and v:
        vals = [v + "_x"]
      for w in vals:
        def ed(n=n, w=w):
          n.value = w
        yield f"const {v!r}->{w!r}", ed


def b_stmt(fn, tree):
  for b in blocks(fn):
    for i, s in enumerate(b):
      if is_doc(s) or isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Assert, ast.Global, ast.Nonlocal)):
        continue
      if isinstance(s, (ast.Expr, ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break, ast.If, ast.For)) or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name) or isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id in names_in(s.value):
        def ed(b=b, s=s):
          b[b.index(s)] = ast.Pass()
        yield "drop-stmt", ed
      if i + 1 < len(b) and not isinstance(s, (ast.Return, ast.Raise)):
        def ed(b=b, i=i):
          b[i], b[i + 1] = b[i + 1], b[i]
        yield "swap-stmts", ed
      if isinstance(s, ast.Try) and s.finalbody:
        def ed(b=b, s=s):
          i = b.index(s)
          b[i:i + 1] = s.body + s.finalbody
        yield "no-finally", ed
      if isinstance(s, ast.With):
        def ed(b=b, s=s):
          i = b.index(s)
          b[i:i + 1] = s.body
        yield "no-with", ed
      if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant)):
        def ed(s=s):
          s.value = ast.Constant(None)
        yield "return-none", ed
    if len(b) > 1 and isinstance(b[-1], (ast.Expr, ast.Assign)):
      pass
  for n in own(fn):
    if isinstance(n, ast.For):
      def ed(n=n):
        n.body.append(ast.Break())
      yield "break-first", ed


def b_call(fn, tree):
  for n in own(fn):
    if isinstance(n, ast.Call):
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
        for i in range(len(n.args) - 1):
          def ed(n=n, i=i):
            n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
          yield "swap-args", ed
      for i in range(len(n.keywords)):
        def ed(n=n, i=i):
          del n.keywords[i]
        yield f"drop-kw {n.keywords[i].arg}", ed
      for i, a in enumerate(n.args):
        if isinstance(a, ast.Starred) or len(n.args) > 1 and i == len(n.args) - 1:
          def ed(n=n, i=i):
            del n.args[i]
          yield "drop-arg", ed
      if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
        def ed(n=n):
          replace_node(tree, n, n.args[0])
        yield f"unwrap {ast.unparse(n.func)[:20]}", ed
      if isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in ("copy", "values", "keys", "items"):
        def ed(n=n):
          replace_node(tree, n, n.func.value)
        yield "unwrap-method", ed
    if isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 2:
      def ed(n=n):
        n.elts.reverse()
      yield "reverse-tuple", ed
      def ed(n=n):
        del n.elts[-1]
      yield "drop-last-elt", ed
      def ed(n=n):
        del n.elts[0]
      yield "drop-first-elt", ed
    if isinstance(n, ast.Dict) and n.keys:
      for i in range(len(n.keys)):
        def ed(n=n, i=i):
          del n.keys[i]
          del n.values[i]
        yield "drop-dict-entry", ed
    if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
      for g in n.generators:
        for i in range(len(g.ifs)):
          def ed(g=g, i=i):
            g.ifs[i] = neg(g.ifs[i])
          yield "negate-filter", ed
          def ed(g=g, i=i):
            del g.ifs[i]
          yield "drop-filter", ed


def b_names(fn, tree):
  """use another local of the same function"""
  params = [a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
  loc = params + sorted({x.id for x in own(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(params))
  if len(loc) < 2:
    return
  for n in own(fn):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in loc:
      j = loc.index(n.id)
      for k in {(j + 1) % len(loc), (j - 1) % len(loc)}:
        if loc[k] != n.id and loc[k] != "self":
          def ed(n=n, k=k):
            n.id = loc[k]
          yield f"name {n.id}->{loc[k]}", ed
    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
      sibs = sorted({m.attr for m in ast.walk(fn) if isinstance(m, ast.Attribute) and isinstance(m.value, ast.Name) and m.value.id == n.value.id})
      if len(sibs) > 1:
        k = sibs[(sibs.index(n.attr) + 1) % len(sibs)]
        def ed(n=n, k=k):
          n.attr = k
        yield f"attr {n.attr}->{k}", ed


def b_default(fn, tree):
  for i, d in enumerate(fn.args.defaults):
    if isinstance(d, ast.Constant) and isinstance(d.value, bool):
      def ed(d=d):
        d.value = not d.value
      yield "default", ed
  for i, d in enumerate(fn.args.kw_defaults):
    if isinstance(d, ast.Constant) and isinstance(d.value, (bool, int, float)):
      def ed(d=d):
        d.value = (not d.value) if isinstance(d.value, bool) else d.value + 1
      yield "default", ed


BUGS = [b_ops, b_const, b_stmt, b_call, b_names, b_default]


# ------------------------------------------------------------------ generation
def variants(kind, filt):
  ops = REFACTOR if kind == "refactor" else BUGS
  for d, ds, fs in sorted(os.walk(os.path.join(REPO, "nnx"))):
    for f in sorted(fs):
      if not f.endswith(".py"):
        continue
      path = os.path.join(d, f)
      rel = os.path.relpath(path, REPO)
      mod = rel[:-3].replace("/", ".")
      if mod.endswith(".__init__"):
        mod = mod[:-9]
      src = open(path).read()
      base = ast.unparse(ast.parse(src))
      t0 = ast.parse(src)
      quals = [q for q, fn, c in functions(t0, mod) if not overload(fn)]
      n_fn = len(functions(t0, mod))
      for idx in range(n_fn):
        t = annotate(ast.parse(src))
        q, fn, cls = functions(t, mod)[idx]
        if overload(fn) or filt and not any(x in q for x in filt):
          continue
        for op in ops:
          t = annotate(ast.parse(src))
          q, fn, cls = functions(t, mod)[idx]
          n = len(list(op(fn, t)))
          for j in range(n):
            t = annotate(ast.parse(src))
            q, fn, cls = functions(t, mod)[idx]
            label, ed = list(op(fn, t))[j]
            try:
              ed()
              new = ast.unparse(ast.fix_missing_locations(t))
              compile(new, path, "exec")
            except Exception as e:
              continue
            if new == base:
              continue
            yield {"file": rel, "fn": q, "op": label, "n": j, "src": new, "base": base}


def annotate(t):
  def rec(n, cls, enc):
    for s in ast.iter_child_nodes(n):
      if isinstance(s, ast.FunctionDef):
        s._cls = n if isinstance(n, ast.ClassDef) else None
        s._enclosing = set(enc)
        loc = {a.arg for a in ast.walk(s.args) if isinstance(a, ast.arg)} | {x.id for x in own(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in own(s) if isinstance(x, ast.FunctionDef)}
        rec(s, None, set(enc) | loc)
      else:
        rec(s, cls, enc)
  rec(t, None, set())
  return t


def diff(a, b):
  import difflib
  return "\n".join(l for l in difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm="", n=1) if not l.startswith(("---", "+++")))


# ------------------------------------------------------------------ evaluation
MAP = {}


def base_map():
  from sa.obligation import Obligations, run_safely
  o = Obligations(REPO)
  m = {}
  for it in o.items:
    r = run_safely(o, it, "quick")
    for f in r.stats.get("functions", ()):
      m.setdefault(f, []).append(it[1])
  return m


def evaluate(v):
  from sa.obligation import Obligations, run_safely
  from sa import rules
  d = tempfile.mkdtemp(prefix="mut", dir="/dev/shm")
  try:
    shutil.copytree(REPO + "/nnx", d + "/nnx", ignore=shutil.ignore_patterns("__pycache__"))
    open(os.path.join(d, v["file"]), "w").write(v["src"])
    from sa import terms
    terms._TAB.clear() if False else None
    o = Obligations(d)
    want = set()
    for f, obs in MAP.items():
      if f == v["fn"] or f.startswith(v["fn"] + ".") or v["fn"].startswith(f + "."):
        want.update(obs)
    bad, und = [], []
    t = time.time()
    for it in o.items:
      if it[1] in want:
        if bad and v["kind"] == "bug":
          break
        r = run_safely(o, it, "quick", 60)
        if r.verdict == "VIOLATION":
          bad.append([it[1], r.detail[:600]])
        elif r.verdict == "UNDECIDED":
          und.append([it[1], r.detail[:200]])
    rules._CACHE.clear()
    known = {("M01", "path-separator"), ("X06", "option:data_transform")}
    for pid in rules.PROPERTIES if v["kind"] != "bug" or not bad else ():
      for r in rules.run_rules(o.p, pid):
        if r.verdict == "VIOLATION" and (pid, r.key) not in known:
          bad.append([pid + ":" + r.name, r.detail[:300]])
        elif r.verdict == "UNDECIDED":
          und.append([pid + ":" + r.name, r.detail[:200]])
    tests = None
    if v["kind"] == "bug" and not bad:
      import subprocess
      shutil.copytree(REPO + "/tests", d + "/tests", ignore=shutil.ignore_patterns("__pycache__"))
      env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "JAX_PLATFORMS": "cpu", "PYTHONPATH": d, "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1", "OMP_NUM_THREADS": "1"}
      try:
        q = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, capture_output=True, text=True, timeout=200)
        tests = q.returncode == 0
        if not tests:
          und.append(["tests", q.stdout[-300:]])
      except subprocess.TimeoutExpired:
        tests = False
    return {**{k: v[k] for k in ("file", "fn", "op", "n")}, "tests": tests, "diff": diff(v["base"], v["src"]), "bad": bad, "und": und, "obs": len(want), "wall": round(time.time() - t, 2)}
  except Exception as e:
    return {**{k: v[k] for k in ("file", "fn", "op", "n")}, "diff": diff(v["base"], v["src"]), "crash": f"{type(e).__name__}: {e}", "bad": [], "und": [], "obs": 0}
  finally:
    shutil.rmtree(d, ignore_errors=True)


def main():
  global MAP
  kind, out = sys.argv[1:3]
  filt = sys.argv[3:]
  again = None
  if filt and filt[0].startswith("@"):  # @FILE.jsonl: only the variants listed there as alarms
    again = {(r["fn"], r["op"], r["n"]) for r in map(json.loads, open(filt[0][1:])) if r["bad"] or r.get("crash") or "und" in filt[1:] and r["und"]}
    filt = sorted({x[0] for x in again})
  MAP = base_map()
  vs = ({**v, "kind": kind} for v in variants(kind, filt))
  if os.environ.get("FROM"):
    vs = (v for v in vs if v["file"] >= os.environ["FROM"])
  if again is not None:
    vs = (v for v in vs if (v["fn"], v["op"], v["n"]) in again)
  with multiprocessing.Pool(int(os.environ.get("J", "7")), maxtasksperchild=20) as pool, open(out, "w") as f:
    n = 0
    for r in pool.imap_unordered(evaluate, vs, chunksize=2):
      n += 1
      f.write(json.dumps(r) + "\n")
      f.flush()
  print(n, "variants")


if __name__ == "__main__":
  main()
