"""Loads the real source of /repo on every run and makes it executable over symbolic values.

The text that is verified is the repository's own text: each module is parsed from the working tree, and only the following
mechanical, local rewrites are applied (nothing else is dropped or replaced):
  * annotations are removed (no run-time meaning);
  * [a, b]            -> __vc_list__(a, b)            (a list object that may have a symbolic length)
  * comprehensions    -> __vc_comp__(kind, iterable, lambda e: [E for T in (e,) if C])
  * zip(*x)           -> __vc_zipstar__(x)
  * f-strings         -> __vc_fstr__(...)
  * a in b            -> __vc_in__(a, b)
  * s.join / s.format -> __vc_meth__(s, "join", ...)
  * for / while       -> themselves over concrete iterables; over a symbolic one, the invariant rule (see loops.py)
  * raise E           -> raise __vc_mark__(E)         (marks the exception as one the code raises on purpose)
  * except handlers   -> first check that the exception is one the real program could raise
Names of builtins and of imported packages resolve to their contracts in fakes.py."""
import ast, os, sys, types, builtins
from core import Cx, Unsupported

REPO = os.environ.get("RKV_REPO", "/repo")
_cache = {}


def call(name, *args):
    return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=[])


def const(x):
    return ast.Constant(value=x)


def name(x, store=False):
    return ast.Name(id=x, ctx=ast.Store() if store else ast.Load())


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_FunctionDef(self, n):
        self.names.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, n):
        for s in n.body:
            self.visit(s)


def assigned(stmts):
    a = Assigned()
    for s in stmts:
        a.visit(s)
    return [x for x in a.names if not x.startswith("__vc")]


class Tr(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod = mod
        self.k = 0
        self.fn = []
        self.sites = 0

    def fresh(self, b):
        self.k += 1
        return f"__vc_{b}{self.k}"

    # -------------------------------------------------------------- definitions
    def visit_FunctionDef(self, n):
        for a in n.args.args + n.args.posonlyargs + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = None
        n.returns = None
        self.fn.append(n.name)
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    # -------------------------------------------------------------- expressions
    def visit_List(self, n):
        n = self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return call("__vc_list__", *n.elts)
        return n

    def visit_Set(self, n):
        n = self.generic_visit(n)
        return call("__vc_set__", *n.elts)

    def visit_Dict(self, n):
        n = self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        return call("__vc_dict__", *[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)])

    def _comp(self, kind, elt, gens):
        g = gens[0]
        it = self.visit(g.iter)
        target = g.target
        ifs = [self.visit(c) for c in g.ifs]
        if len(gens) > 1:
            inner = self._comp("list", elt, gens[1:])
            flat = True
        else:
            inner = self.visit(elt)
            flat = False
        e = self.fresh("e")
        body = ast.ListComp(elt=inner, generators=[ast.comprehension(target=target, iter=ast.Tuple(elts=[name(e)], ctx=ast.Load()),
                                                                     ifs=ifs, is_async=0)])
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=body)
        return call("__vc_comp__", const(kind), it, lam, const(flat))

    def visit_ListComp(self, n):
        return self._comp("list", n.elt, n.generators)

    def visit_GeneratorExp(self, n):
        return self._comp("gen", n.elt, n.generators)

    def visit_SetComp(self, n):
        return self._comp("set", n.elt, n.generators)

    def visit_DictComp(self, n):
        return self._comp("dict", ast.Tuple(elts=[n.key, n.value], ctx=ast.Load()), n.generators)

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = ""
                if v.format_spec is not None:
                    if all(isinstance(x, ast.Constant) for x in v.format_spec.values):
                        spec = "".join(x.value for x in v.format_spec.values)
                    else:
                        spec = None
                val = self.visit(v.value)
                lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=val)
                parts.append(ast.Tuple(elts=[lam, const(v.conversion), const(spec)], ctx=ast.Load()))
        return call("__vc_fstr__", *parts)

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = call("__vc_in__", n.left, n.comparators[0])
            return ast.UnaryOp(op=ast.Not(), operand=c) if isinstance(n.ops[0], ast.NotIn) else c
        return n

    def visit_Call(self, n):
        n = self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "zip" and len(n.args) == 1 and isinstance(n.args[0], ast.Starred) \
                and not n.keywords:
            return call("__vc_zipstar__", n.args[0].value)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("join", "format"):
            return ast.Call(func=name("__vc_meth__"), args=[n.func.value, const(n.func.attr)] + n.args, keywords=n.keywords)
        return n

    # -------------------------------------------------------------- statements
    def visit_Raise(self, n):
        n = self.generic_visit(n)
        if n.exc is not None:
            n.exc = call("__vc_mark__", n.exc)
        return n

    def visit_ExceptHandler(self, n):
        n = self.generic_visit(n)
        if n.type is None:
            n.type = name("Exception")
        n.body = [ast.Expr(call("__vc_exc__"))] + n.body
        return n

    def _restore(self, d, names):
        out = []
        for v in names:
            out.append(ast.If(test=ast.Compare(left=const(v), ops=[ast.In()], comparators=[name(d)]),
                              body=[ast.Assign(targets=[name(v, True)],
                                               value=ast.Subscript(value=name(d), slice=const(v), ctx=ast.Load()))], orelse=[]))
        return out

    def visit_For(self, n):
        import copy
        self.sites += 1
        site = f"{self.mod}:{'.'.join(self.fn)}:for{self.sites}"
        it = self.visit(n.iter)
        vs = assigned([n.target] + n.body) if False else assigned([ast.Expr(n.target)] + n.body)
        conc = copy.deepcopy(n)
        conc.body = self._block(copy.deepcopy(n.body))
        conc.orelse = self._block(copy.deepcopy(n.orelse))
        symb = self._block(copy.deepcopy(n.body))
        L, D = self.fresh("L"), self.fresh("D")
        conc.iter = ast.Call(func=ast.Attribute(value=name(L), attr="items", ctx=ast.Load()), args=[], keywords=[])
        sy = ast.For(target=copy.deepcopy(n.target),
                     iter=ast.Call(func=ast.Attribute(value=name(L), attr="iterate", ctx=ast.Load()), args=[], keywords=[]),
                     body=symb,
                     orelse=[ast.Expr(ast.Call(func=ast.Attribute(value=name(L), attr="end", ctx=ast.Load()),
                                               args=[call("locals")], keywords=[]))])
        peel = ast.For(target=copy.deepcopy(n.target),
                       iter=ast.Call(func=ast.Attribute(value=name(L), attr="peel", ctx=ast.Load()), args=[], keywords=[]),
                       body=self._block(copy.deepcopy(n.body)),
                       orelse=[ast.Expr(ast.Call(func=ast.Attribute(value=name(L), attr="peeled", ctx=ast.Load()),
                                                 args=[], keywords=[]))])
        sbody = [peel, ast.Assign(targets=[name(D, True)],
                            value=ast.Call(func=ast.Attribute(value=name(L), attr="enter", ctx=ast.Load()),
                                           args=[call("locals")], keywords=[]))]
        sbody += self._restore(D, vs)
        sbody += [sy]
        if n.orelse:
            sbody = [ast.Expr(call("__vc_unsupported__", const("for/else over a symbolic sequence")))]
        out = [ast.Assign(targets=[name(L, True)], value=call("__vc_for__", it, const(site), const(tuple(vs)))),
               ast.If(test=ast.Attribute(value=name(L), attr="symbolic", ctx=ast.Load()), body=sbody, orelse=[conc])]
        return [ast.copy_location(x, n) for x in out]

    def visit_While(self, n):
        import copy
        self.sites += 1
        site = f"{self.mod}:{'.'.join(self.fn)}:while{self.sites}"
        vs = assigned(n.body)
        W, D, C = self.fresh("W"), self.fresh("D"), self.fresh("C")
        test1 = self.visit(copy.deepcopy(n.test))
        test2 = self.visit(copy.deepcopy(n.test))
        test3 = self.visit(copy.deepcopy(n.test))
        symb = self._block(copy.deepcopy(n.body))
        concb = self._block(copy.deepcopy(n.body))
        concb = [ast.Expr(ast.Call(func=ast.Attribute(value=name(W), attr="tick", ctx=ast.Load()), args=[], keywords=[]))] + concb
        once = ast.For(target=name(self.fresh("u"), True), iter=ast.Tuple(elts=[const(0)], ctx=ast.Load()), body=symb,
                       orelse=[ast.Expr(ast.Call(func=ast.Attribute(value=name(W), attr="end", ctx=ast.Load()),
                                                 args=[call("locals")], keywords=[]))])
        sbody = [ast.Assign(targets=[name(D, True)],
                            value=ast.Call(func=ast.Attribute(value=name(W), attr="enter", ctx=ast.Load()),
                                           args=[call("locals")], keywords=[]))]
        sbody += self._restore(D, vs)
        sbody += [ast.If(test=test2, body=[once], orelse=self._block(copy.deepcopy(n.orelse)))]
        out = [ast.Assign(targets=[name(W, True)], value=call("__vc_while__", const(site), const(tuple(vs)))),
               ast.Assign(targets=[name(C, True)], value=test1),
               ast.If(test=ast.Call(func=ast.Attribute(value=name(W), attr="is_symbolic", ctx=ast.Load()), args=[name(C)], keywords=[]),
                      body=sbody, orelse=[ast.While(test=test3, body=concb, orelse=self._block(copy.deepcopy(n.orelse)))])]
        return [ast.copy_location(x, n) for x in out]

    def _block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out


def compile_module(modname):
    path = os.path.join(REPO, modname.replace(".", "/") + ".py")
    if not os.path.isfile(path):
        path = os.path.join(REPO, modname.replace(".", "/"), "__init__.py")
    if path in _cache:
        return _cache[path]
    with open(path) as f:
        src = f.read()
    tree = ast.parse(src)
    tree = Tr(modname).visit(tree)
    ast.fix_missing_locations(tree)
    _cache[path] = (compile(tree, path, "exec"), path)
    return _cache[path]


SKIP_CLASS_HOOK = ()


class World:
    """one fresh instance of the repository's modules (per explored path)"""

    def __init__(self, fakes):
        self.mods = {}
        self.fakes = fakes
        self.bi = dict(vars(builtins))
        self.bi.update(fakes.BUILTINS)
        self.bi["__import__"] = self._import

    def get(self, modname):
        if modname in self.mods:
            return self.mods[modname]
        code, path = compile_module(modname)
        m = types.ModuleType(modname)
        m.__file__ = path
        m.__package__ = modname if path.endswith("__init__.py") else modname.rpartition(".")[0]
        m.__dict__["__builtins__"] = self.bi
        self.mods[modname] = m
        exec(code, m.__dict__)
        for v in list(m.__dict__.values()):
            if isinstance(v, type) and v.__module__ == modname and not issubclass(v, BaseException):
                self.fakes.hook_class(v)
        return m

    def _import(self, nm, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"]
            for _ in range(level - 1):
                pkg = pkg.rpartition(".")[0]
            full = pkg + ("." + nm if nm else "")
            return self._repo_import(full, fromlist)
        if nm.split(".")[0] == "ruleskit":
            return self._repo_import(nm, fromlist)
        m = self.fakes.MODULES.get(nm)
        if m is None:
            if nm in self.fakes.REAL:
                return builtins.__import__(nm, globals, locals, fromlist, level)
            if nm in self.fakes.ABSENT:
                e = ImportError(nm)
                e._vc = True
                raise e
            return self.fakes.opaque_module(nm)
        if not fromlist and "." in nm:
            return self.fakes.MODULES[nm.split(".")[0]]
        return m

    def _repo_import(self, full, fromlist):
        if full.endswith("_version"):
            m = types.ModuleType(full)
            m.get_versions = lambda: {"version": "0"}
            return m
        # `from package import name`: a name may be a module of the package
        d = os.path.join(REPO, full.replace(".", "/"))
        if os.path.isdir(d):
            ns = types.SimpleNamespace()
            done = True
            for f in fromlist or ():
                if os.path.isfile(os.path.join(d, f + ".py")) or os.path.isdir(os.path.join(d, f)):
                    setattr(ns, f, self.get(full + "." + f))
                else:
                    done = False
            if fromlist and done:
                return ns
            if fromlist:
                m = self.get(full)
                for f in fromlist:
                    if hasattr(m, f):
                        setattr(ns, f, getattr(m, f))
                return ns
            return self.get(full)
        return self.get(full)
