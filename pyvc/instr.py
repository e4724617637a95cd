"""Mechanical instrumentation of /repo's sources, on every run.

What it changes (and only this):
  * for / while statements and comprehensions inside functions go through the
    engine's loop objects (same iteration order, same bodies);
  * list / dict displays build list / dict subclasses;
  * float literals become exact decimal rationals, `/` is exact;
  * a function records that it was entered;
  * the names of numeric builtins, math and numpy functions are bound to
    symbolic-aware versions in the module's globals.
What it drops: docstring-only code, `if __name__ == '__main__'` blocks do not
run, decorators lru_cache are kept as-is, machine floats become exact reals.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')


class Tr(ast.NodeTransformer):
    def __init__(self, modname, nofloat=False):
        self.mod = modname
        self.depth = 0
        self.loops = []
        self.site = 0
        self.stack = []
        self.free = frozenset()
        self.nofloat = nofloat

    def _site(self, node):
        # a stable name: position of the loop in its function
        self.site += 1
        return '%s#%d' % ('.'.join(self.stack) or self.mod, self.site)

    def visit_FunctionDef(self, node):
        saved = self.loops, self.site
        self.loops = []
        self.site = 0 if self.depth == 0 else self.site
        self.stack.append(node.name)
        self.depth += 1
        free = self.free
        self.free = free | free_loads(node.body)
        decos = node.decorator_list
        node.decorator_list = []
        defaults = node.args
        node.body = self.body(node.body)
        qn = '%s:%s' % (self.mod, '.'.join(self.stack))
        doc = []
        if node.body and isinstance(node.body[0], ast.Expr) and \
                isinstance(node.body[0].value, ast.Constant) and \
                isinstance(node.body[0].value.value, str):
            doc = [node.body.pop(0)]
        enter = ast.parse('_vc_rt.enter(%r)' % qn).body[0]
        node.body = doc + [fix(enter, node)] + node.body
        self.depth -= 1
        self.free = free
        self.stack.pop()
        self.loops, self.site = saved[0], (
            self.site if self.depth else saved[1])
        node.decorator_list = decos
        return node

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(x) for x in node.body]
        self.stack.pop()
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        saved = self.loops
        self.loops = []
        node.body = self.visit(node.body)
        self.loops = saved
        self.depth -= 1
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    # ----------------------------------------------------------- stores
    def visit_Assign(self, node):
        self.generic_visit(node)
        return self._stores(node, node.targets)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        return self._stores(node, [node.target])

    def _stores(self, node, targets):
        out = [node]
        for t in targets:
            for x in ast.walk(t):
                if self.depth and isinstance(x, ast.Attribute) and \
                        isinstance(x.ctx, ast.Store) and plain(x.value):
                    out.insert(0, fix(ast.Expr(value=ast.Call(
                        func=ast.parse('_vc_rt.store', mode='eval').body,
                        args=[load(x.value)], keywords=[])), node))
        return out if len(out) > 1 else node

    def visit_Yield(self, node):
        self.generic_visit(node)
        for l in self.loops:
            node.value = fix(ast.Call(
                func=ast.parse('_vc_rt.yielded', mode='eval').body,
                args=[load(ast.Name(id=l)), node.value or ast.Constant(
                    value=None)], keywords=[]), node)
        return node

    def visit_YieldFrom(self, node):
        self.generic_visit(node)
        for l in self.loops:
            node.value = fix(ast.Call(
                func=ast.parse('_vc_rt.yielded', mode='eval').body,
                args=[load(ast.Name(id=l)), node.value], keywords=[]), node)
        return node

    # ------------------------------------------------------------ loops
    def visit_For(self, node):
        if not self.depth:
            return node
        site = self._site(node)
        lname = '__vcL%d' % self.site
        target = target_names(node.target)
        # a target that is read outside of the loop is part of its state
        after = target & self.free
        names = sorted((assigned(node.body) - target) | after)
        it = self.visit(node.iter)
        self.loops.append(lname)
        body = self.body(node.body)
        self.loops.pop()
        orelse = self.body(node.orelse)
        pre = ast.parse('%sC = _vc_rt.for_begin(%r, None, %r)' % (
            lname, site, tuple(names))).body[0]
        pre.value.args[1] = it
        # one loop for every part of the sequence that is iterated over
        parts = ast.parse(
            'while (%(l)s := %(l)sC.part()) is not None:\n'
            '    PRE\n'
            '    for _vc__x in %(l)s.once():\n'
            '        BODY\n'
            '    else:\n'
            '        %(l)s.end_iter(locals())\n'
            '        continue\n'
            '    break\n' % {'l': lname}).body[0]
        parts.body[0] = self._pre(lname, names, 'pre')
        if after:
            parts.body[1].target = ast.Name(id='_vc__t', ctx=ast.Store())
            body = [ast.Assign(targets=[node.target], value=ast.Name(
                id='_vc__t', ctx=ast.Load()))] + body
        else:
            parts.body[1].target = node.target
        parts.body[1].body = body
        parts.orelse = orelse
        return [fix(pre, node), fix(parts, node)]

    def _pre(self, lname, names, meth):
        if names:
            src = '(%s,) = %s.%s(locals())' % (', '.join(names), lname, meth)
        else:
            src = '%s.%s(locals())' % (lname, meth)
        return ast.parse(src).body[0]

    def visit_While(self, node):
        if not self.depth:
            return node
        site = self._site(node)
        lname = '__vcL%d' % self.site
        names = sorted(assigned(node.body))
        test = self.visit(node.test)
        self.loops.append(lname)
        body = self.body(node.body)
        self.loops.pop()
        orelse = self.body(node.orelse)
        cond = ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[],
            defaults=[]), body=test)
        src = ('%(l)s = _vc_rt.while_begin(%(s)r, %(n)r)\n'
               'while %(l)s.more(C):\n'
               '    PRE\n'
               '    %(l)s.enter(C)\n'
               '    for _vc__o in (0,):\n'
               '        BODY\n'
               '    else:\n'
               '        %(l)s.end_iter(locals())\n'
               '        continue\n'
               '    break\n'
               'else:\n'
               '    POST\n'
               '    %(l)s.leave(C)\n') % {
                   'l': lname, 's': site, 'n': tuple(names)}
        tree = ast.parse(src)
        w = tree.body[1]
        import copy
        w.test.args[0] = cond
        w.body[1].value.args[0] = copy.deepcopy(cond)
        w.orelse[1].value.args[0] = copy.deepcopy(cond)
        w.body[0] = self._pre(lname, names, 'pre')
        w.orelse[0] = self._pre(lname, names, 'post')
        inner = w.body[2]
        inner.body = body
        w.orelse = w.orelse + orelse
        return [fix(x, node) for x in tree.body]

    def visit_Break(self, node):
        if self.loops:
            c = ast.parse('%s.escape()' % self.loops[-1]).body[0]
            return [fix(c, node), node]
        return node

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if not self.loops:
            return node
        out = []
        tmp = ast.parse('_vc__ret = None').body[0]
        if node.value is not None:
            tmp.value = node.value
        out.append(fix(tmp, node))
        for l in reversed(self.loops):
            out.append(fix(ast.parse('%s.escape()' % l).body[0], node))
        r = ast.parse('def f():\n return _vc__ret').body[0].body[0]
        out.append(fix(r, node))
        return out

    # ------------------------------------------------------------ exprs
    def _comp(self, node, kind, elt):
        if not self.depth or len(node.generators) != 1 or \
                node.generators[0].is_async:
            return self.generic_visit(node)
        g = node.generators[0]
        site = self._site(node)
        it = self.visit(g.iter)
        elt = self.visit(elt)
        fn = mk_lambda(g.target, elt)
        args = [ast.Constant(site), ast.Constant(kind), fn, it]
        if g.ifs:
            c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(
                op=ast.And(), values=g.ifs)
            args.append(mk_lambda(g.target, self.visit(c)))
        call = ast.Call(func=ast.parse('_vc_rt.comp', mode='eval').body,
                        args=args, keywords=[])
        return fix(call, node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list', node.elt)

    def visit_SetComp(self, node):
        return self._comp(node, 'set', node.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', node.elt)

    def visit_DictComp(self, node):
        return self._comp(node, 'dict', ast.Tuple(
            elts=[node.key, node.value], ctx=ast.Load()))

    def visit_List(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.ctx, ast.Load):
            return fix(ast.Call(func=ast.parse('_vc_rt.mklist',
                                               mode='eval').body,
                                args=[node], keywords=[]), node)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.depth:
            return fix(ast.Call(func=ast.parse('_vc_rt.mkdict',
                                               mode='eval').body,
                                args=[node], keywords=[]), node)
        return node

    def visit_Constant(self, node):
        if self.depth and type(node.value) is float:
            return fix(ast.Call(func=ast.parse('_vc_rt.real',
                                               mode='eval').body,
                                args=[ast.Constant(repr(node.value))],
                                keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        if not self.depth:
            return node
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
                continue
            spec = self.visit(v.format_spec) if v.format_spec is not None \
                else ast.Constant('')
            args.append(ast.Tuple(elts=[
                self.visit(v.value), ast.Constant(
                    None if v.conversion == -1 else chr(v.conversion)), spec],
                ctx=ast.Load()))
        return fix(ast.Call(func=ast.parse('_vc_rt.fstr', mode='eval').body,
                            args=args, keywords=[]), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.func, ast.Attribute) and \
                node.func.attr in ('format', 'join'):
            return fix(ast.Call(
                func=ast.parse('_vc_rt.%s_' % node.func.attr,
                               mode='eval').body,
                args=[node.func.value] + node.args,
                keywords=node.keywords), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.depth and isinstance(node.op, (ast.Div, ast.Pow, ast.Mod)):
            f = {ast.Div: 'div', ast.Pow: 'pow', ast.Mod: 'mod'}[
                type(node.op)]
            return fix(ast.Call(func=ast.parse('_vc_rt.' + f,
                                               mode='eval').body,
                                args=[node.left, node.right], keywords=[]),
                       node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.depth and len(node.ops) == 1 and isinstance(
                node.ops[0], (ast.Is, ast.IsNot)) and not (isinstance(
                node.comparators[0], ast.Constant) and
                node.comparators[0].value is not None):
            f = 'is_' if isinstance(node.ops[0], ast.Is) else 'is_not'
            return fix(ast.Call(func=ast.parse('_vc_rt.' + f,
                                               mode='eval').body,
                                args=[node.left, node.comparators[0]],
                                keywords=[]), node)
        return node


def plain(x):
    while isinstance(x, ast.Attribute):
        x = x.value
    return isinstance(x, ast.Name)


def load(x):
    return ast.parse(ast.unparse(x), mode='eval').body


def mk_lambda(target, body):
    if isinstance(target, ast.Name):
        return ast.Lambda(args=ast.arguments(
            posonlyargs=[], args=[ast.arg(arg=target.id)], kwonlyargs=[],
            kw_defaults=[], defaults=[]), body=body)
    # tuple target: _vc_rt.unpack(n, x) then nested lambda with all names
    names = []

    def pat(t):
        if isinstance(t, ast.Name):
            names.append(t.id)
            return ast.Constant(None)
        return ast.Tuple(elts=[pat(x) for x in t.elts], ctx=ast.Load())
    p = pat(target)
    inner = ast.Lambda(args=ast.arguments(
        posonlyargs=[], args=[ast.arg(arg=n) for n in names], kwonlyargs=[],
        kw_defaults=[], defaults=[]), body=body)
    call = ast.Call(func=inner, args=[ast.Starred(value=ast.Call(
        func=ast.parse('_vc_rt.unpack', mode='eval').body,
        args=[p, ast.Name(id='_vc__e', ctx=ast.Load())], keywords=[]),
        ctx=ast.Load())], keywords=[])
    return ast.Lambda(args=ast.arguments(
        posonlyargs=[], args=[ast.arg(arg='_vc__e')], kwonlyargs=[],
        kw_defaults=[], defaults=[]), body=call)


def fix(n, like):
    for x in ast.walk(n):
        if isinstance(x, (ast.expr, ast.stmt, ast.arg)) and \
                not hasattr(x, 'lineno'):
            ast.copy_location(x, like)
        elif isinstance(x, (ast.expr, ast.stmt, ast.arg)) and x is n:
            ast.copy_location(x, like)
    for x in ast.walk(n):
        if isinstance(x, (ast.expr, ast.stmt, ast.arg)):
            if getattr(x, 'lineno', None) is None:
                ast.copy_location(x, like)
    return n


def free_loads(stmts):
    """Names that are read somewhere outside of the bodies of the loops and
    comprehensions that bind them."""
    out = set()

    def go(n, bound):
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id not in bound:
                out.add(n.id)
        elif isinstance(n, ast.For):
            go(n.iter, bound)
            b = bound | target_names(n.target)
            for s in n.body:
                go(s, b)
            for s in n.orelse:
                go(s, bound)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                            ast.GeneratorExp)):
            b = bound
            for g in n.generators:
                go(g.iter, b)
                b = b | target_names(g.target)
                for c in g.ifs:
                    go(c, b)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp)
                      else [n.elt]):
                go(x, b)
        else:
            for c in ast.iter_child_nodes(n):
                go(c, bound)
    for s in stmts:
        go(s, frozenset())
    return out


def target_names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def assigned(stmts):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    for s in stmts:
        V().visit(s)
    return {n for n in out if not n.startswith('_vc_')}


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, rt):
        self.name, self.path, self.rt = name, path, rt

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tr = Tr(self.name)
        tree.body = [tr.visit(x) for x in tree.body]
        body = []
        for x in tree.body:
            body += x if isinstance(x, list) else [x]
        tree.body = body
        ast.fix_missing_locations(tree)
        code = compile(tree, self.path, 'exec')
        module.__dict__['_vc_rt'] = self.rt
        exec(code, module.__dict__)
        self.rt.patch_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, rt, repo):
        self.rt = rt
        self.repo = repo

    def find_spec(self, name, path, target=None):
        if name != 'auxi' and not name.startswith('auxi.'):
            return None
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel + '.py')
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p, self.rt))
        d = os.path.join(self.repo, rel)
        p = os.path.join(d, '__init__.py')
        if os.path.isfile(p):
            return importlib.util.spec_from_file_location(
                name, p, loader=Loader(name, p, self.rt),
                submodule_search_locations=[d])
        return None


def install(rt, repo=REPO):
    sys.meta_path.insert(0, Finder(rt, repo))
