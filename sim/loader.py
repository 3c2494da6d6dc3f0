"""Load goats from /repo's working tree, instrumented, as often as needed.

Every goats module is parsed from the current working tree and one call,
`__sim_point__(id)`, is put in front of every statement of every function.
Nothing else is changed: with no controller armed the call returns at once.
The compiled code objects are kept, so that a "process restart" (forget every
goats module, import again) costs little and still gives completely fresh
module-level state.
"""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

ROOT = os.environ.get('GOATS_SIM_SRC', '/repo/src')
PACKAGE = 'goats'


class Controller:
    """The single seam between instrumented code and the simulator."""

    __slots__ = ('armed', 'handler')

    def __init__(self):
        self.armed = False
        self.handler = None


CONTROL = Controller()
POINTS = []          # id -> "module:line"
SHARED = []          # id -> True if the statement touches private state


def _point(n, control=CONTROL):
    if control.armed:
        control.handler(n)


def _touches(node):
    """True if a statement itself (not its block) uses private attributes."""
    for field, value in ast.iter_fields(node):
        if field in ('body', 'orelse', 'finalbody', 'handlers'):
            continue
        for part in value if isinstance(value, list) else [value]:
            if isinstance(part, ast.AST) and any(
                isinstance(n, ast.Attribute) and n.attr.startswith('_')
                and not n.attr.startswith('__')
                for n in ast.walk(part)
            ):
                return True
    return False


class _Instrument(ast.NodeTransformer):

    def __init__(self, module):
        self.module = module
        self.depth = 0

    def _call(self, node):
        n = len(POINTS)
        POINTS.append(f'{self.module}:{node.lineno}')
        SHARED.append(_touches(node))
        call = ast.Expr(ast.Call(
            func=ast.Name(id='__sim_point__', ctx=ast.Load()),
            args=[ast.Constant(value=n)],
            keywords=[],
        ))
        ast.copy_location(call, node)
        ast.fix_missing_locations(call)
        return call

    def _block(self, stmts, docstring=False):
        out = []
        for i, stmt in enumerate(stmts):
            new = self.visit(stmt)
            keep = (
                docstring and i == 0 and isinstance(stmt, ast.Expr)
                and isinstance(stmt.value, ast.Constant)
                and isinstance(stmt.value.value, str)
            )
            if not keep and self.depth and not isinstance(
                stmt, (ast.Global, ast.Nonlocal)
            ):
                out.append(self._call(stmt))
            out.append(new)
        return out

    def _function(self, node):
        self.depth += 1
        node.body = self._block(node.body, docstring=True)
        self.depth -= 1
        return node

    visit_FunctionDef = _function
    visit_AsyncFunctionDef = _function

    def visit_ClassDef(self, node):
        depth, self.depth = self.depth, 0
        node.body = self._block(node.body, docstring=True)
        self.depth = depth
        return node

    def visit_Module(self, node):
        node.body = self._block(node.body, docstring=True)
        return node

    def visit_Lambda(self, node):
        return node

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody'):
            value = getattr(node, field, None)
            if isinstance(value, list) and value and isinstance(value[0], ast.stmt):
                setattr(node, field, self._block(value))
        for handler in getattr(node, 'handlers', ()):
            handler.body = self._block(handler.body)
        return node


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Meta-path finder for the instrumented package."""

    def __init__(self, root=None, instrument=True):
        self.root = root or ROOT
        self.instrument = instrument
        self._code = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname != PACKAGE and not fullname.startswith(PACKAGE + '.'):
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            spec = importlib.machinery.ModuleSpec(
                fullname, self, origin=init, is_package=True)
            spec.submodule_search_locations = [base]
        elif os.path.isfile(base + '.py'):
            spec = importlib.machinery.ModuleSpec(
                fullname, self, origin=base + '.py')
        else:
            return None
        spec.has_location = True
        return spec

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        origin = module.__spec__.origin
        key = os.path.relpath(origin, self.root)
        if key not in self._code:
            with REAL_OPEN(origin, encoding='utf-8') as fp:
                text = fp.read()
            tree = ast.parse(text, origin)
            if self.instrument:
                short = module.__name__[len(PACKAGE):].lstrip('.') or PACKAGE
                tree = _Instrument(short).visit(tree)
                ast.fix_missing_locations(tree)
            self._code[key] = compile(tree, origin, 'exec')
        module.__dict__['__sim_point__'] = _point
        exec(self._code[key], module.__dict__)


REAL_OPEN = open
_FINDER = None


def install(root=None, instrument=True):
    """Put the finder in front of every other one."""
    global _FINDER
    if _FINDER is None:
        _FINDER = Finder(root, instrument)
        sys.meta_path.insert(0, _FINDER)
    return _FINDER


def relocate(root):
    """From now on import a copy of the package (same code, other place)."""
    _FINDER.root = root


def purge():
    """Forget every goats module: the process "dies"."""
    for name in list(sys.modules):
        if name == PACKAGE or name.startswith(PACKAGE + '.'):
            del sys.modules[name]


def fresh(*names):
    """Restart: import goats (and `names`) with fresh module-level state."""
    install()
    CONTROL.armed = False
    purge()
    import goats  # noqa: F401
    import goats.eprem
    for name in names:
        importlib.import_module(name)
    return goats


def message(err, limit=200):
    """The text of an exception; no fault may interrupt the harness here."""
    armed, CONTROL.armed = CONTROL.armed, False
    try:
        return str(err)[:limit]
    finally:
        CONTROL.armed = armed
