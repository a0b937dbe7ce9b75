"""Runs one of the repository's Python 2 generators under Python 3.

usage: py2run.py DIR MODULE  -> runs DIR/MODULE.py as a program

Only what differs between the two languages and what generators of text may
use is adapted: integer division, lists instead of iterators, a few names.
Nothing is written next to the sources.
"""
import ast
import collections
import collections.abc
import functools
import importlib.abc
import importlib.util
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
collections.Callable = collections.abc.Callable
collections.Iterable = collections.abc.Iterable
collections.Mapping = collections.abc.Mapping
collections.Sequence = collections.abc.Sequence
sys.maxint = sys.maxsize
DIR, NAME = os.path.abspath(sys.argv[1]), sys.argv[2]


def div(a, b):
    return a // b if isinstance(a, int) and isinstance(b, int) else a / b


def aslist(f):
    return lambda *a: list(f(*a))


PY2 = dict(py2_div_=div, xrange=range, range=aslist(range), map=aslist(map), filter=aslist(filter), zip=aslist(zip),
           unicode=str, basestring=str, long=int, unichr=chr, reduce=functools.reduce)
ATTR = dict(iteritems="items", iterkeys="keys", itervalues="values")


class Adapt(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("py2_div_", ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            load = ast.Name(n.target.id, ast.Load())
            call = ast.Call(ast.Name("py2_div_", ast.Load()), [load, n.value], [])
            return ast.copy_location(ast.Assign([n.target], call), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        n.attr = ATTR.get(n.attr, n.attr)
        return n


def parse(path):
    src = open(path).read()
    try:
        return ast.parse(src, path)
    except SyntaxError:
        from lib2to3 import refactor  # print statements and the like
        fixes = ["lib2to3.fixes.fix_" + f for f in ("print", "except", "raise", "ne", "repr", "has_key")]
        return ast.parse(str(refactor.RefactoringTool(fixes).refactor_string(src + "\n", path)), path)


def run(path, names):
    t = ast.fix_missing_locations(Adapt().visit(parse(path)))
    names.update(PY2)
    exec(compile(t, path, "exec"), names)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path, target=None):
        p = os.path.join(DIR, name + ".py")
        return importlib.util.spec_from_loader(name, self, origin=p) if os.path.exists(p) else None

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        run(m.__spec__.origin, m.__dict__)


sys.meta_path.insert(0, Finder())
sys.argv = [os.path.join(DIR, NAME + ".py")]
run(sys.argv[0], dict(__name__="__main__", __file__=sys.argv[0]))
