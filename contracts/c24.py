"""C24: Boolean trees are built and printed faithfully (general_optics.BinaryTree, postOrderEval, printCsg*).

Proof, by induction over the tree: a node with arbitrary (opaque) children and values; the recursive call is
replaced by its contract.  Bounded: random trees and insertion histories through the public methods."""
import numpy as np
from vc.engine import harness, Unsupported, deep_same
from vc.loops import Opaque
from .common import *

OPS = {"union": "u", "difference": "\\", "intersect": "n"}


class Name:
    """an opaque value with a text of its own"""

    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


def subtree(cx, name):
    """an arbitrary subtree: its node is real, what is in it is opaque"""
    t = cx.call(cx.go.BinaryTree, Opaque(name + " value"))
    for k, v in list(t.__dict__.items()):
        if v is None:
            t.__dict__[k] = Opaque("%s %s" % (name, k))
    return t


def parts(t):
    """value, left child, right child, through the accessors"""
    return t.getRootVal(), t.getLeftChild(), t.getRightChild()


@harness("C24", cases=[(s, l, r) for s in ("Left", "Right") for l in (0, 1) for r in (0, 1)], con=3)
def insert(cx, case):
    """insertLeft / insertRight on a node with or without children"""
    side, hasl, hasr = case
    if not cx.symbolic:
        return
    B = cx.go.BinaryTree
    key, new = Opaque("value"), Opaque("new value")
    t = cx.call(B, key)
    kid = {}
    for s, has in (("Left", hasl), ("Right", hasr)):
        kid[s] = subtree(cx, s) if has else None
        if has:
            attr = {"Left": "leftChild", "Right": "rightChild"}[s]
            if attr not in t.__dict__:
                raise Unsupported("a tree node does not keep its children as leftChild and rightChild")
            t.__dict__[attr] = kid[s]
    other = "Right" if side == "Left" else "Left"
    olds = {s: None if kid[s] is None else dict(kid[s].__dict__) for s in kid}
    get = lambda x, s: cx.call(getattr(x, "get%sChild" % s))
    cx.call(getattr(t, "insert" + side), new)
    cx.ensure("insert: the node keeps its value", cx.call(t.getRootVal) is key)
    cx.ensure("insert: the other side is left alone", get(t, other) is kid[other])
    c = get(t, side)
    cx.ensure("insert: the new child is a tree node", isinstance(c, B))
    cx.ensure("insert: the new child has the new value", cx.call(c.getRootVal) is new)
    cx.ensure("insert: the old subtree moves one level down on the same side", get(c, side) is kid[side])
    cx.ensure("insert: the new child has nothing else", get(c, other) is None)
    for s in kid:
        if kid[s] is not None:
            cx.ensure("insert: subtrees are not changed",
                      olds[s].keys() == kid[s].__dict__.keys()
                      and all(olds[s][k] is kid[s].__dict__[k] for k in olds[s]))


@harness("C24", con=3)
def values(cx):
    """the root value and the children are those stored"""
    if not cx.symbolic:
        return
    B = cx.go.BinaryTree
    v, w = Opaque("value"), Opaque("other value")
    t = cx.call(B, v)
    cx.ensure("new node: its value", cx.call(t.getRootVal) is v)
    cx.ensure("new node: no children", cx.call(t.getLeftChild) is None and cx.call(t.getRightChild) is None)
    u = cx.call(B, w)
    cx.ensure("nodes are independent", cx.call(t.getRootVal) is v)
    cx.call(t.insertLeft, w)
    cx.ensure("nodes are independent (children)", cx.call(u.getLeftChild) is None)
    l, r = cx.call(t.getLeftChild), cx.call(t.getRightChild)
    cx.call(t.setRootVal, w)
    cx.ensure("set value: read back", cx.call(t.getRootVal) is w)
    cx.ensure("set value: children stay", cx.call(t.getLeftChild) is l and cx.call(t.getRightChild) is r)


# ---------------------------------------------------------------- histories on the real code
class Model:
    def __init__(self, v):
        self.v, self.l, self.r = v, None, None

    def insert(self, side, v):
        n = Model(v)
        if side == "Left":
            n.l, self.l = self.l, n
        else:
            n.r, self.r = self.r, n

    def nodes(self, path=""):
        out = [(self, path)]
        for s, c in (("L", self.l), ("R", self.r)):
            if c:
                out += c.nodes(path + s)
        return out


def walk(t, path):
    for s in path:
        t = t.getLeftChild() if s == "L" else t.getRightChild()
    return t


def same_tree(m, t):
    if m is None or t is None:
        return m is None and t is None
    return t.getRootVal() is m.v and same_tree(m.l, t.getLeftChild()) and same_tree(m.r, t.getRightChild())


@harness("C24", sym=False)
def histories(cx):
    """any sequence of insertions anywhere and value changes, against a model, falsy values included"""
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))

    def value():
        k = rng.integers(8)
        return [None, 0, "", (), "union", [1], np.zeros(3), object()][k]
    v = value()
    t, m = cx.call(cx.go.BinaryTree, v), Model(v)
    for _ in range(int(rng.integers(1, 9))):
        ns = m.nodes()
        n, path = ns[rng.integers(len(ns))]
        v = value()
        k = rng.integers(5)
        if k == 4:
            n.v = v
            cx.call(walk(t, path).setRootVal, v)
        else:
            s = ["Left", "Right"][k % 2]
            n.insert(s, v)
            cx.call(getattr(walk(t, path), "insert" + s), v)
        cx.ensure("history: the tree is what was built", bool(cx.call(same_tree, m, t)))


# ---------------------------------------------------------------- rendering
def text(m):
    if m.l is None:
        return str(m.v)
    return "(%s%s%s)" % (text(m.l), OPS[m.v], text(m.r))


def plain(s):
    return "".join(s.split()) if isinstance(s, str) else None


@harness("C24", cases=sorted(OPS), con=3,
         assumes=["printing: the renderings of the two operands stand for all (the code does not look into them)"])
def render_node(cx, op):
    """one operator node; the renderings of its operands are given by the contract of postOrderEval"""
    if not cx.symbolic:
        return
    kinds = [Name("A"), "name", "( a u b )", "( ( a n b ) \\ c )"]
    la, ra = cx.choice("left", kinds), cx.choice("right", kinds)
    t = cx.call(cx.go.BinaryTree, op)
    cx.call(t.insertLeft, "left operand")
    cx.call(t.insertRight, "right operand")
    l, r = cx.call(t.getLeftChild), cx.call(t.getRightChild)
    f = cx.go.postOrderEval

    def contract(tree):
        if tree is l:
            return la
        if tree is r:
            return ra
        raise Unsupported("rendering of something that is not a child")
    if cx.stub("general_optics.postOrderEval", contract) is False:
        f = cx.go.postOrderEval
        raise Unsupported("no rendering function of that name")
    s = cx.call(f, t)
    cx.ensure("print: operator between its operands, in parentheses",
              plain(s) == plain("(%s%s%s)" % (la, OPS[op], ra)))


@harness("C24", con=3)
def render_leaf(cx):
    """a leaf is printed as its own value"""
    if not cx.symbolic:
        return
    v = cx.choice("value", [Name("A"), "name"])
    s = cx.call(cx.go.postOrderEval, cx.call(cx.go.BinaryTree, v))
    cx.ensure("print: a leaf", str(s) == str(v))


def random_tree(cx, rng, depth, leaf):
    """a well-formed random operator tree and its model"""
    if depth == 0 or rng.integers(4) == 0:
        v = leaf()
        return cx.call(cx.go.BinaryTree, v), Model(v)
    op = ["union", "difference", "intersect"][rng.integers(3)]
    t, m = cx.call(cx.go.BinaryTree, op), Model(op)
    for s in ("l", "r"):
        c, mc = random_tree(cx, rng, depth - 1, leaf)
        setattr(m, s, mc)
        graft(cx, t, "Left" if s == "l" else "Right", mc)
    return t, m


def graft(cx, t, side, m):
    """copy the model below t through the public methods"""
    cx.call(getattr(t, "insert" + side), m.v)
    c = cx.call(getattr(t, "get%sChild" % side))
    if m.l is not None:
        graft(cx, c, "Left", m.l)
    if m.r is not None:
        graft(cx, c, "Right", m.r)


@harness("C24", sym=False)
def render_tree(cx):
    """whole trees of depth up to 5, leaves are shapes or names"""
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))

    def leaf():
        k = rng.integers(5)
        if k == 0:
            return cx.shapes.Sphere(np.array([1.0, 2, 3]), R=float(rng.integers(1, 9)))
        if k == 1:
            return cx.shapes.InfiniteCylinder(np.zeros(3), np.array([0, 0, 1.0]), R=1)
        return "n%d" % rng.integers(100)
    t, m = random_tree(cx, rng, int(rng.integers(0, 6)), leaf)
    s = cx.call(cx.go.postOrderEval, t)
    cx.ensure("print: the whole expression", plain(str(s)) == plain(text(m)), lambda: "%s instead of %s" % (s, text(m)))
    cx.ensure("print: the tree is not changed", same_tree(m, t))
    cx.ensure("print: the same again", str(cx.call(cx.go.postOrderEval, t)) == str(s))
