# -*- coding: utf-8 -*-
"""Turns the outermost prange loops of a function into coroutines run by mc.rt.run_parallel.

    for i in prange(e): BODY        becomes

    def __pf_k(__it, a=<a if bound>):          # a: assigned in BODY and before the loop (copied in per thread)
        for i in __it:
            BODY with `yield` between statements
        return {reductions}
    __res = run_parallel(name, range(e), __pf_k)
    s = s + sum(partials)                      # for reduction variables `s += ...`

Names only read in BODY stay shared (closure), which is numba's rule: arrays allocated before the loop are shared."""
import ast
import copy
import functools
import inspect
import textwrap

from mc import rt

FAILED = []


def _is_prange_iter(node):
    if not (isinstance(node, ast.Call)):
        return False
    f = node.func
    return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")


def _assigned(nodes):
    """Names bound by plain statements inside nodes (not inside nested functions / comprehensions)."""
    names = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            pass
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
    for n in nodes:
        V().visit(n)
    return names


def _reductions(body, live_in):
    """Names only updated by `x op= e` in the body and alive before it: numba's scalar reductions."""
    aug, plain = {}, set()

    class V(ast.NodeVisitor):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name) and isinstance(n.op, (ast.Add, ast.Sub)):
                aug[n.target.id] = "+"
            elif isinstance(n.target, ast.Name):
                plain.add(n.target.id)
            self.visit(n.value)

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                plain.add(n.id)
    for n in body:
        V().visit(n)
    return [x for x in aug if x not in plain and x in live_in]


class _Yielder(ast.NodeTransformer):
    """Insert `yield` before every statement of the loop body, including nested blocks."""

    def _block(self, stmts):
        out = []
        for s in stmts:
            out.append(ast.copy_location(ast.Expr(ast.Yield(None)), s))
            out.append(self.visit(s))
        return out

    def visit_For(self, n):
        n.body = self._block(n.body)
        n.orelse = self._block(n.orelse) if n.orelse else []
        return n

    def visit_While(self, n):
        n.body = self._block(n.body)
        return n

    def visit_If(self, n):
        n.body = self._block(n.body)
        n.orelse = self._block(n.orelse) if n.orelse else []
        return n

    def visit_With(self, n):
        n.body = self._block(n.body)
        return n

    def visit_FunctionDef(self, n):
        return n

    def visit_Lambda(self, n):
        return n


class _Rewriter(ast.NodeTransformer):
    def __init__(self, fname, args):
        self.k = 0
        self.fname = fname
        self.seen = set(args)

    def visit_FunctionDef(self, n):
        return n

    def _stmts(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
            self.seen |= _assigned([s])
        return out

    def visit_If(self, n):
        n.body = self._stmts(n.body)
        n.orelse = self._stmts(n.orelse)
        return n

    def visit_While(self, n):
        n.body = self._stmts(n.body)
        return n

    def visit_With(self, n):
        n.body = self._stmts(n.body)
        return n

    def visit_For(self, n):
        if not _is_prange_iter(n.iter):
            self.seen |= _assigned([n.target])
            n.body = self._stmts(n.body)
            n.orelse = self._stmts(n.orelse)
            return n
        self.k += 1
        k = self.k
        live = set(self.seen)
        tgt = _assigned([n.target])
        asg = (_assigned(n.body)) - tgt
        copyin = sorted(asg & live)
        red = _reductions(n.body, live)
        body = _Yielder()._block(copy.deepcopy(n.body))
        src_pre = []
        args = ["__it"]
        for c in copyin:
            init = "0" if c in red else c
            src_pre.append("try:\n    __ci_%s = %s\nexcept NameError:\n    __ci_%s = __rt.UNSET" % (c, init, c))
            args.append("%s=__ci_%s" % (c, c))
        code = "\n".join(src_pre) + "\ndef __pf_%d(%s):\n    for __x in __it:\n        pass\n    return {%s}\n" % (
            k, ", ".join(args), ", ".join("%r: %s" % (r, r) for r in red))
        code += "__res_%d = __rt.run_parallel(%r, __IT__, __pf_%d)\n" % (k, "%s#%d" % (self.fname, k), k)
        for r in red:
            code += "for __r in __res_%d:\n    %s = %s + __r[%r]\n" % (k, r, r, r)
        stmts = ast.parse(code).body
        for i, s in enumerate(stmts):
            if isinstance(s, ast.FunctionDef):
                loop = s.body[0]
                loop.target = n.target
                loop.body = body
                # make it a generator even with an empty body
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and s.targets[0].id == "__res_%d" % k:
                rng_call = ast.Call(func=ast.Name("range", ast.Load()), args=n.iter.args, keywords=[])
                s.value.args[1] = rng_call
        self.seen |= tgt | asg
        return stmts


def typed(func, values):
    """As numba: what no type can be inferred for does not enter compiled code"""
    for v in values:
        if getattr(getattr(v, "dtype", None), "kind", "f") == "O" or isinstance(v, dict):
            from numba.core.errors import TypingError
            raise TypingError("%s: non-precise type %s of an argument" % (func.__name__, getattr(v, "dtype", type(v).__name__)))


def parallel_function(func):
    try:
        src = textwrap.dedent(inspect.getsource(func))
        tree = ast.parse(src)
        fd = tree.body[0]
        if not isinstance(fd, ast.FunctionDef):
            raise ValueError("not a def")
        fd.decorator_list = []
        a = fd.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        rw = _Rewriter(func.__name__, names)
        fd.body = rw._stmts(fd.body)
        # functions nested in fd use closures; wrap the rewritten def at module level of func's globals
        ast.fix_missing_locations(tree)
        glb = func.__globals__
        glb.setdefault("__rt", rt)
        loc = {}
        code = compile(tree, "<parfor %s>" % func.__name__, "exec")
        # definition must see the real globals: exec there under a private name, then remove
        saved = glb.get(func.__name__, None)
        exec(code, glb, loc)
        par = loc[func.__name__]
        if par.__defaults__ is None and func.__defaults__:
            par.__defaults__ = func.__defaults__
        if rw.k == 0:
            return func
    except Exception as e:                                   # fall back to sequential execution, and say so
        FAILED.append((func.__name__, repr(e)))
        return func

    @functools.wraps(func)
    def wrapper(*args, **kw):
        typed(func, args)
        typed(func, kw.values())
        if rt.sched is None:
            return func(*args, **kw)
        return par(*args, **kw)
    wrapper.parallel_version = par
    return wrapper
