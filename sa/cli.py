"""Commands of the command line tool, found through the argument parser."""
import ast

from .engine import AnchorLost
from .terms import sym, attr, mk, const

BOXES = sym('boxes')


def commands(a, module='bead_cli.main'):
    """-> {'edit': class qual, 'input add': class qual, ...}"""
    m = a.modules.get(module)
    if m is None:
        raise AnchorLost(module)
    tree = a.trees[module]
    frame = a.base.frames[m['frame']]
    assigns = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            assigns.setdefault(n.targets[0].id, []).append(n.value)

    def group_of(e, depth=0):
        while depth < 20:
            depth += 1
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
                if e.func.attr == 'group' and e.args and isinstance(e.args[0], ast.Constant):
                    return e.args[0].value + ' '
                e = e.func.value
            elif isinstance(e, ast.Name):
                for v in assigns.get(e.id, ()):
                    g = group_of(v, depth)
                    if g:
                        return g
                return ''
            else:
                return ''
        return ''

    def cls_of(e):
        if isinstance(e, ast.Name):
            return frame.get(e.id)
        if isinstance(e, ast.Attribute):
            b = cls_of(e.value)
            if b is not None:
                return a.get_attr(b, e.attr, a.base.fork())[0][0]

    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'commands':
            g = group_of(n.func.value)
            for x in n.args:
                if isinstance(x, ast.Tuple) and len(x.elts) >= 2 and isinstance(x.elts[0], ast.Constant):
                    c = cls_of(x.elts[1])
                    if c is not None and c.op == 'cls':
                        out[g + x.elts[0].value] = c.a[0]
    if not out:
        raise AnchorLost('table of commands in ' + module)
    return out


def command(c, name):
    t = commands(c.a)
    c.anchor(name in t, f'command {name}')
    return t[name]


ARGS = sym('args')
ENV = sym('env')
WS = attr(ARGS, 'workspace')


def run_command(c, name, stops=None, types=None, **kw):
    """Analyse the run method of a command with symbolic arguments."""
    cls = command(c, name)
    k, f = c.a.class_lookup(cls, 'run')
    c.anchor(f is not None and f.op == 'func', f'{name}: run')
    slf = sym('self')
    ty = {slf: cls, ENV: 'bead_cli.environment.Environment', WS: 'bead.workspace.Workspace'}
    ty.update(types or {})
    st = {'bead_cli.environment.Environment.get_boxes': 'list:bead.box.Box'}
    st.update(stops or {})
    return c.run(f, [ARGS, ENV], selfT=slf, types=ty, stops=st, **kw)
