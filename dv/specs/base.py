"""Registry of contracts (one task = the contract of one function, verified against its body)."""
from ..terms import *
from .. import terms as T
from .. import smt
from ..smt import quick
from ..sym import *
from ..world import World, Spec
from .. import terms as T

TASKS = []


class Task:
    def __init__(self, props, name, fn, bounded=False):
        self.props, self.name, self.fn, self.bounded = props, name, fn, bounded


class Env:
    """module under verification"""

    def __init__(self, mod, dbg):
        self.mod, self.dbg = mod, dbg
        self.worlds = []

    def world(self, name, **kw):
        w = World(self.mod, self.dbg, name, **kw)
        self.worlds.append(w)
        return w


def task(props, name, bounded=False):
    if isinstance(props, str):
        props = props.split()

    def deco(f):
        TASKS.append(Task(props, name, f, bounded))
        return f
    return deco


def V(name, sort='R'):
    return T.var(name, sort)


def A(name, i, sort='R'):
    return T.app(name, [i], sort)


sin = lambda x: T.fn1('sin', x)
cos = lambda x: T.fn1('cos', x)


def rot(th, x, y):
    return cos(th) * x - sin(th) * y, sin(th) * x + cos(th) * y


def P0(reg):
    return Ptr(reg, I(0))


def body(w, name, index, registered=True):
    ov = {'index': index}
    return w.obj(name, 'RigidBody', ov)
