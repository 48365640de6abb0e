"""The native modules for the interpreter: memory as objects or as names, stacks as recorded pushes and pops."""
from .common import *
from ..front import Repo
from ..vf import Entry


def full(ctx):
    """the repository with its native modules"""
    r = getattr(ctx, "_full", None)
    if r is None:
        r = ctx._full = Repo(ctx.repo.root, True, False)
    return r


def name(i):
    return sym(i, "cmem")


def memory(I, objects=False):
    """malloc gives an array object, or a name for the memory"""
    I.sorts = dict(I.sorts, Graph="Graph")

    def malloc(I, st, a, k, node, fn):
        if objects:
            return I.alloc(st, "arr", node, base=mk("uninit", getattr(node, "lineno", 0)))
        return sym("mem%d.%d" % (getattr(node, "lineno", 0), getattr(node, "col_offset", 0)), "cmem")
    I.intercept["libc.stdlib.malloc"] = malloc


STACK, POPPED = sym("STACK", "stack"), sym("POPPED", "int")


def stacks(I, repo):
    """pushes and pops as events"""
    push, pop = repo.maybe("switss.utils.stack.push"), repo.maybe("switss.utils.stack.pop")

    def h_push(I, st, a, k, node, fn):
        I.event("push", "push", a, k, st, node)
        return STACK

    def h_pop(I, st, a, k, node, fn):
        I.event("pop", "pop", a, k, st, node)
        return tup(STACK, POPPED)
    if push is None or pop is None:
        return False
    I.intercept[push.qual], I.intercept[pop.qual] = h_push, h_pop
    return True


def items(I, st, vals):
    """a list of known values"""
    l = I.alloc(st, "list", None)
    o = st.heap[l.a[0]].copy()
    o.log = tuple(Entry("append", NONE, v, (), (), None) for v in vals)
    st.heap[l.a[0]] = o
    return l
