"""Mechanical instrumentation of the real source at import time.

The modules under contract are read from the repository on every run and
their AST is rewritten node by node (loops, list displays, comprehensions,
calls of built-ins, f-strings, `is True`); nothing is dropped and no statement
is reordered.  The rewriting only inserts hooks, so that symbolic values take
part in constructs that CPython evaluates in C.
"""

import ast
import builtins
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import sys

BUILTINS = {
    "len", "isinstance", "list", "tuple", "set", "sorted", "enumerate", "zip",
    "range", "sum", "any", "all", "next", "float", "int", "str", "reversed",
    "iter", "map", "filter", "dict", "bool", "min", "max", "round", "abs",
}
LAZY_CONSUMERS = {"any", "all", "sum", "next", "list", "set", "tuple", "min", "max", "sorted", "dict"}


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.func = []
        self.counter = {}
        self.nh = 0
        self.stats = {"for": 0, "while": 0, "listcomp": 0, "genexp": 0, "call": 0, "list": 0, "fstring": 0}

    # -- scopes
    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        saved, self.fnode = getattr(self, "fnode", None), copy.deepcopy(node)
        node.body = [self.visit(s) for s in node.body]
        node.body = flatten(node.body)
        self.fnode = saved
        self.func.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.func.append(node.name)
        saved, self.infunc = getattr(self, "infunc", 0), 0
        node.body = flatten([self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body])
        self.infunc = saved
        self.func.pop()
        return node

    def visit_Module(self, node):
        body = []
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                body.append(self.visit(s))
            else:
                body.append(s)
        node.body = body
        return node

    def lid(self, kind):
        q = ".".join(self.func)
        n = self.counter.get((q, kind), 0)
        self.counter[(q, kind)] = n + 1
        return f"{self.mod.split('.')[-1]}.{q}#{kind}{n}"

    # -- loops
    def visit_For(self, node):
        lid = self.lid("for")
        names = assigned([node])
        pred = self.search_pred(node)
        acc = self.accumulation(node) if pred is None else None
        node.iter = self.visit(node.iter)
        node.body = flatten([self.visit(s) for s in node.body])
        node.orelse = flatten([self.visit(s) for s in node.orelse])
        self.stats["for"] += 1
        self.nh += 1
        h = f"ded__h{self.nh}"
        pre = ast.parse(f"{h} = __ded__.enter_for({lid!r}, None)").body[0]
        pre.value.args[1] = node.iter
        if pred is not None:
            pre.value.args.append(pred)
        if acc is not None:
            pre.value.keywords.append(ast.keyword("acc", acc))
        node.iter = ast.Name(h, ast.Load())
        node.body = self.unpack(h, names) + node.body
        return [ast.copy_location(pre, node), node]

    def search_pred(self, node):
        """`for x in s: if test: ... return/break/raise`: the test as a function
        of x (the loop looks for the first element that satisfies it)"""
        if not node.body or not isinstance(node.body[0], ast.If) or node.body[0].orelse:
            return None
        first, rest = node.body[0], node.body[1:]
        ends = (ast.Return, ast.Break, ast.Raise)
        if not rest and isinstance(first.body[-1], ends):
            test = first.test
        elif rest and len(first.body) == 1 and isinstance(first.body[0], ast.Continue) and isinstance(rest[-1], ends):
            test = ast.UnaryOp(ast.Not(), first.test)
        else:
            return None
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__")
               for x in ast.walk(test)):
            return None
        t = node.target
        if isinstance(t, ast.Name):
            args, unpack = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            args, unpack = [e.id for e in t.elts], True
        else:
            return None
        lam = ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), self.visit(copy.deepcopy(test)))
        if not unpack:
            return lam
        star = ast.parse("lambda ded__x: (None)(*ded__x)", mode="eval").body
        star.body.func = lam
        return star

    def accumulation(self, node):
        """a body that only appends, perhaps conditionally, to one list: the
        same as extending it by a comprehension (cond, value, list)"""
        if node.orelse:
            return None
        t = node.target
        if isinstance(t, ast.Name):
            args, unpack = [t.id], False
        elif isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
            args, unpack = [e.id for e in t.elts], True
        else:
            return None
        wrap, conds = [], []  # assignments and guards so far, in order
        body = list(node.body)
        while body:
            s = body.pop(0)
            if isinstance(s, ast.Pass):
                continue
            if isinstance(s, ast.Assign) and body and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                wrap.append((s.targets[0].id, s.value))
                continue
            if isinstance(s, ast.If) and not s.orelse:
                if body and len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
                    conds.append((len(wrap), ast.UnaryOp(ast.Not(), s.test)))
                    continue
                if not body:
                    conds.append((len(wrap), s.test))
                    body = list(s.body)
                    continue
            break
        else:
            return None
        calls = [s] + body
        if any(not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)) for s in calls):
            return None
        calls = [s.value for s in calls]
        if any(c.func.attr != "append" or len(c.args) != 1 or c.keywords or isinstance(c.args[0], ast.Starred) for c in calls):
            return None
        lists = [c.func.value for c in calls]
        names = set(args) | {n for n, _ in wrap}
        if len(names) != len(args) + len(wrap):
            return None
        bases = set()
        for base in lists:
            while isinstance(base, ast.Attribute):
                base = base.value
            if not isinstance(base, ast.Name) or base.id in names:
                return None
            if base.id != "self":
                bases.add(base.id)
        if len({ast.dump(x) for x in lists}) != len(lists):
            return None
        values = [c.args[0] for c in calls] + [v for _, v in wrap] + [c for _, c in conds]
        if any(isinstance(x, ast.Name) and x.id in bases for v in values for x in ast.walk(v)):
            return None
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__")
               for b in node.body for x in ast.walk(b)):
            return None
        if self.used_outside(node, names):
            return None

        def fun(a, e):
            return ast.Lambda(ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), e)

        def let(upto, e):
            e = self.visit(copy.deepcopy(e))
            for n, v in reversed(wrap[:upto]):
                e = ast.Call(fun([n], e), [self.visit(copy.deepcopy(v))], [])
            return e

        cond = None
        for n, c in reversed(conds):
            c = let(n, c)
            cond = c if cond is None else ast.BoolOp(ast.And(), [c, cond])
        return ast.Tuple([
            ast.Constant(None) if cond is None else fun(args, cond),
            ast.Tuple([fun(args, let(len(wrap), c.args[0])) for c in calls], ast.Load()),
            ast.Tuple([fun([], self.visit(copy.deepcopy(x))) for x in lists], ast.Load()),
            ast.Constant(unpack)], ast.Load())

    def used_outside(self, node, names):
        """is one of the names read in the function, other than in this loop or
        in a loop that sets it?"""
        def reads(n, bound):
            if isinstance(n, ast.For) and ast.dump(n) == me:
                return False
            if isinstance(n, ast.For):
                b = bound | {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
                return reads(n.iter, bound) or any(reads(c, b) for c in n.body) or any(reads(c, bound) for c in n.orelse)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                bound = bound | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names and n.id not in bound:
                return True
            return any(reads(c, bound) for c in ast.iter_child_nodes(n))

        me = ast.dump(node)
        return self.fnode is None or reads(self.fnode, frozenset())

    def unpack(self, h, names):
        src = f"ded__v = {h}.top(locals()) if {h}.sym is not None else None\nif ded__v is not None:\n"
        for n in names:
            src += f"    if {n!r} in ded__v: {n} = ded__v[{n!r}]\n"
        if not names:
            src += "    pass\n"
        return ast.parse(src).body

    def visit_While(self, node):
        lid = self.lid("while")
        names = assigned(node.body)
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node.test)):
            self.generic_visit(node)
            return node
        bound = copy.deepcopy(node.test.comparators[0]) if index_of(node.test) else None
        if bound is not None:
            bound = self.visit(bound)
        idx = index_of(node.test)
        test = self.visit(node.test)
        node.test = test
        node.body = flatten([self.visit(s) for s in node.body])
        node.orelse = flatten([self.visit(s) for s in node.orelse])
        self.stats["while"] += 1
        self.nh += 1
        h = f"ded__w{self.nh}"
        pre = ast.parse(f"{h} = __ded__.enter_while({lid!r})").body[0]
        extra = f", {idx!r}, lambda: None" if idx in names else ""
        src = f"ded__v = {h}.top(locals(){extra})\nif ded__v is not None:\n"
        for n in names:
            src += f"    if {n!r} in ded__v: {n} = ded__v[{n!r}]\n"
        src += f"    if not (None): {h}.infeasible()\n"
        st = ast.parse(src).body
        st[1].body[-1].test.operand = test
        if extra:
            st[0].value.args[2].body = bound
        node.body = st + node.body
        return [ast.copy_location(pre, node), node]

    # -- expressions
    def comp_ok(self, node):
        if len(node.generators) != 1 or node.generators[0].is_async:
            return False
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
                return False
            if isinstance(x, ast.Name) and x.id in ("super", "locals", "__class__"):
                return False
        return isinstance(node.generators[0].target, (ast.Name, ast.Tuple))

    def comp_call(self, hook, node, elt):
        g = node.generators[0]
        if isinstance(g.target, ast.Name):
            args = [g.target.id]
            unpack = False
        else:
            if not all(isinstance(t, ast.Name) for t in g.target.elts):
                return None
            args = [t.id for t in g.target.elts]
            unpack = True

        def lam(body):
            return ast.Lambda(
                ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body
            )

        elt = self.visit(elt)
        ifs = [self.visit(i) for i in g.ifs]
        cond = ast.Constant(None)
        if ifs:
            cond = lam(ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs))
        return ast.Call(
            ast.Attribute(ast.Name("__ded__", ast.Load()), hook, ast.Load()),
            [lam(elt), self.visit(g.iter), cond, ast.Constant(unpack)],
            [],
        )

    def visit_ListComp(self, node):
        if self.comp_ok(node):
            c = self.comp_call("listcomp", node, node.elt)
            if c is not None:
                self.stats["listcomp"] += 1
                return ast.copy_location(c, node)
        self.generic_visit(node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not any(isinstance(e, ast.Starred) for e in node.elts):
            self.stats["list"] += 1
            return ast.copy_location(
                ast.Call(
                    ast.Attribute(ast.Name("__ded__", ast.Load()), "mklist", ast.Load()),
                    node.elts,
                    [],
                ),
                node,
            )
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                parts.append(
                    ast.Tuple([self.visit(v.value)], ast.Load())
                )
            else:
                self.generic_visit(node)
                return node
        self.stats["fstring"] += 1
        return ast.copy_location(
            ast.Call(
                ast.Attribute(ast.Name("__ded__", ast.Load()), "fstr", ast.Load()), parts, []
            ),
            node,
        )

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Name) and f.id in BUILTINS:
            if (
                f.id in LAZY_CONSUMERS
                and node.args
                and isinstance(node.args[0], ast.GeneratorExp)
                and self.comp_ok(node.args[0])
            ):
                g = node.args[0]
                c = self.comp_call("genexp", g, g.elt)
                if c is not None:
                    self.stats["genexp"] += 1
                    node.args = [c] + [self.visit(a) for a in node.args[1:]]
                else:
                    node.args = [self.visit(a) for a in node.args]
            else:
                node.args = [self.visit(a) for a in node.args]
            node.keywords = [self.visit(k) for k in node.keywords]
            self.stats["call"] += 1
            node.func = ast.copy_location(
                ast.Attribute(ast.Name("__ded__", ast.Load()), "b_" + f.id, ast.Load()), f
            )
            return node
        self.generic_visit(node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            r = node.comparators[0]
            if isinstance(r, ast.Constant) and (r.value is True or r.value is False):
                return ast.copy_location(
                    ast.Call(
                        ast.Attribute(ast.Name("__ded__", ast.Load()), "is_bool", ast.Load()),
                        [node.left, r, ast.Constant(isinstance(node.ops[0], ast.IsNot))],
                        [],
                    ),
                    node,
                )
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            return ast.copy_location(
                ast.Call(
                    ast.Attribute(ast.Name("__ded__", ast.Load()), "contains", ast.Load()),
                    [node.left, node.comparators[0], ast.Constant(isinstance(node.ops[0], ast.NotIn))],
                    [],
                ),
                node,
            )
        return node


def index_of(test):
    """name of the index in `index < bound`, for a bound without effects"""
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.Lt, ast.NotEq))):
        return None
    b = test.comparators[0]
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "len" and len(b.args) == 1 and not b.keywords:
        b = b.args[0]
    while isinstance(b, ast.Attribute):
        b = b.value
    return test.left.id if isinstance(test.left, ast.Name) and isinstance(b, ast.Name) else None


def flatten(body):
    out = []
    for s in body:
        if isinstance(s, list):
            out.extend(s)
        else:
            out.append(s)
    return out


def assigned(nodes):
    names = set()
    scoped = set()
    for n in nodes:
        for x in walk_scope(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                names.add(x.name)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                names.add(x.name)
    return sorted(n for n in names if not n.startswith("ded__"))


def walk_scope(n):
    yield n
    for c in ast.iter_child_nodes(n):
        if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
            yield c
            continue
        yield from walk_scope(c)


STATS = {}
SOURCES = {}

# modules that hand their lists to C code (pandas, numpy): list displays and
# comprehensions stay native there (their lists have no symbolic length)
CP = "openclsim.critical_path."
NATIVE_LISTS = {
    "openclsim.plugins.weather": None,
    CP + "base_cp": None,
    CP + "simulation_graph": None,
    CP + "dependencies_from_recorded_activities": None,
    CP + "dependencies_from_simpy_step": {"DependenciesFromSimpy"},  # only this class
}


class NativeLists(Rewriter):
    def native_here(self):
        only = NATIVE_LISTS[self.mod]
        return only is None or (self.func and self.func[0] in only)

    def visit_List(self, node):
        return self.generic_visit(node) if self.native_here() else super().visit_List(node)

    def visit_ListComp(self, node):
        return self.generic_visit(node) if self.native_here() else super().visit_ListComp(node)

    def visit_Call(self, node):
        if self.native_here() and isinstance(node.func, ast.Name) and node.func.id in ("list", "tuple", "set", "sorted", "dict"):
            return self.generic_visit(node)
        return super().visit_Call(node)


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src)
        rw = (NativeLists if fullname in NATIVE_LISTS else Rewriter)(fullname)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        STATS[fullname] = rw.stats
        SOURCES[fullname] = path
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        from . import hooks

        module.__dict__["__ded__"] = hooks
        super().exec_module(module)
        hooks.after_exec(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, names):
        self.names = names

    def find_spec(self, fullname, path, target=None):
        if not any(fullname == n or fullname.startswith(n + ".") for n in self.names):
            return None
        if fullname.startswith("openclsim.plot"):
            return None
        for f in sys.meta_path:
            if f is self or not hasattr(f, "find_spec"):
                continue
            spec = f.find_spec(fullname, path, target)
            if spec is not None:
                break
        else:
            return None
        if spec.origin and spec.origin.endswith(".py"):
            spec.loader = Loader(fullname, spec.origin)
        return spec


def install(names=("openclsim",)):
    for m in list(sys.modules):
        if any(m == n or m.startswith(n + ".") for n in names):
            del sys.modules[m]
    sys.dont_write_bytecode = True
    f = Finder(names)
    sys.meta_path.insert(0, f)
    return f
