#!/usr/bin/env python3
"""autoref.py [names] [--checks C01,C02]: mechanical rewrites of all of /repo's source files that keep
the behaviour (helpers extracted, branches swapped, loops rewritten, temporaries introduced);
every check has to stay quiet on each of them."""
import ast
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
W = '/tmp/refw2'
ALL = ['C%02d' % i for i in list(range(1, 14)) + [19, 20, 21, 22]]


def name(text, store=False):
    return ast.Name(id=text, ctx=ast.Store() if store else ast.Load())


class Helpers(ast.NodeTransformer):
    """every method calls a helper that has its body"""

    def visit_ClassDef(self, node):
        new = []
        for item in node.body:
            if isinstance(item, ast.FunctionDef) and not item.decorator_list and not any(
                    isinstance(n, (ast.Yield, ast.Nonlocal)) for n in ast.walk(item)) and not any(
                    isinstance(n, ast.Name) and n.id == 'super' for n in ast.walk(item)) and not (
                    item.name.startswith('__') and item.name != '__init__'):
                args = item.args
                inner = ast.FunctionDef(name='_do_%s_%s' % (node.name.lower(), item.name.strip('_')), args=ast.arguments(
                    posonlyargs=args.posonlyargs, args=args.args, vararg=args.vararg, kwonlyargs=args.kwonlyargs,
                    kw_defaults=args.kw_defaults, kwarg=args.kwarg, defaults=[]), body=item.body, decorator_list=[], type_params=[])
                call = ast.Call(func=ast.Attribute(value=name(args.args[0].arg), attr=inner.name, ctx=ast.Load()),
                                args=[name(a.arg) for a in args.args[1:]]
                                + ([ast.Starred(value=name(args.vararg.arg), ctx=ast.Load())] if args.vararg else []),
                                keywords=[ast.keyword(arg=a.arg, value=name(a.arg)) for a in args.kwonlyargs]
                                + ([ast.keyword(arg=None, value=name(args.kwarg.arg))] if args.kwarg else []))
                outer = ast.FunctionDef(name=item.name, args=args, body=[ast.Return(value=call)], decorator_list=[],
                                        type_params=[])
                new += [inner, outer]
            else:
                new.append(item)
        node.body = new
        return node


class Swap(ast.NodeTransformer):
    """branches swapped, conditions spelled out"""

    def visit_If(self, node):
        self.generic_visit(node)
        return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=node.orelse or [ast.Pass()], orelse=node.body)

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(test=ast.UnaryOp(op=ast.Not(), operand=node.test), body=node.orelse, orelse=node.body)


class Temps(ast.NodeTransformer):
    """results go through temporaries"""
    count = 0

    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, (ast.Name, ast.Constant)):
            return node
        return [ast.Assign(targets=[name('result', True)], value=node.value, lineno=1), ast.Return(value=name('result'))]

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)) and self.depth:
            return [ast.Assign(targets=[name('fresh_value', True)], value=node.value, lineno=1),
                    ast.Assign(targets=node.targets, value=name('fresh_value'), lineno=1)]
        return node

    depth = 0

    def visit_FunctionDef(self, node):
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        return node

    def visit_Lambda(self, node):
        return node


class Loops(ast.NodeTransformer):
    """for loops as while loops over an iterator, comprehensions as loops where simple"""
    count = 0

    def visit_For(self, node):
        self.generic_visit(node)
        if node.orelse:
            return node
        self.count += 1
        it = '_it%d' % self.count
        return [ast.Assign(targets=[name(it, True)], value=ast.Call(func=name('iter'), args=[node.iter], keywords=[]), lineno=1),
                ast.While(test=ast.Constant(True), orelse=[], body=[
                    ast.Try(body=[ast.Assign(targets=[node.target], value=ast.Call(func=name('next'), args=[name(it)],
                                                                                   keywords=[]), lineno=1)],
                            handlers=[ast.ExceptHandler(type=name('StopIteration'), name=None, body=[ast.Break()])],
                            orelse=[], finalbody=[])] + node.body)]

    def visit_Assign(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.ListComp) and len(node.value.generators) == 1 and len(node.targets) == 1 \
                and isinstance(node.targets[0], ast.Name):
            gen = node.value.generators[0]
            used = {n.id for n in ast.walk(node.value) if isinstance(n, ast.Name)}
            if node.targets[0].id in used:
                return node
            body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=name(node.targets[0].id), attr='append', ctx=ast.Load()),
                                            args=[node.value.elt], keywords=[]))]
            for test in reversed(gen.ifs):
                body = [ast.If(test=test, body=body, orelse=[])]
            return [ast.Assign(targets=node.targets, value=ast.List(elts=[], ctx=ast.Load()), lineno=1),
                    ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[], lineno=1)]
        return node


class Rename(ast.NodeTransformer):
    """local variables get other names"""

    def visit_FunctionDef(self, node):
        args = {a.arg for a in node.args.args + node.args.kwonlyargs} | {
            a.arg for a in (node.args.vararg, node.args.kwarg) if a}
        outside = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                outside |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                return node
        local = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args - outside
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in local:
                n.id = 'the_' + n.id
            if isinstance(n, ast.ExceptHandler) and n.name in local:
                n.name = 'the_' + n.name
        return node


REWRITES = {'helpers': [Helpers], 'swap': [Swap], 'temps': [Temps], 'loops': [Loops], 'rename': [Rename],
            'everything': [Loops, Temps, Swap, Rename, Helpers]}


def main():
    args = sys.argv[1:]
    checks = ALL
    if '--checks' in args:
        i = args.index('--checks')
        checks = args[i + 1].split(',')
        del args[i:i + 2]
    bad = 0
    for key in args or REWRITES:
        shutil.rmtree(W, ignore_errors=True)
        shutil.copytree('/repo', W, symlinks=True)
        for folder in ('src/dispersion', 'src/dispersion/scripts'):
            for fname in sorted(os.listdir(os.path.join(W, folder))):
                path = os.path.join(W, folder, fname)
                if not fname.endswith('.py'):
                    continue
                tree = ast.parse(open(path, encoding='utf-8').read())
                for cls in REWRITES[key]:
                    tree = cls().visit(tree)
                text = ast.unparse(ast.fix_missing_locations(tree)) + '\n'
                compile(text, path, 'exec')
                with open(path, 'w', encoding='utf-8') as handle:
                    handle.write(text)
        for check in checks:
            done = subprocess.run(['python3', os.path.join(HERE, 'check.py'), check], env=dict(os.environ, SIM_REPO=W),
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if done.returncode:
                bad += 1
                print(key, check, done.returncode, done.stdout[-1500:], flush=True)
        print(key, 'done', flush=True)
    shutil.rmtree(W, ignore_errors=True)
    sys.exit(bool(bad))


if __name__ == '__main__':
    main()
