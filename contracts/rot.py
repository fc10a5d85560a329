"""Contracts of the alignment rotations (part of C20; C07 and others depend on them)."""
import numpy as np
from vc.engine import harness
from .common import *


def g_near(name):
    """a vector related to another one: parallel, opposite, perpendicular, nearly opposite, or unrelated"""
    def g(rng, env):
        w = env[name]
        k = rng.integers(12)
        if k < 2:
            v = w * rng.choice([1, 2, 0.5, 3.7])
        elif k < 5:
            v = -w * rng.choice([1, 2, 0.5, 1 / 3])
        elif k < 6:
            v = -w + rng.normal(size=3) * 10.0 ** -rng.integers(2, 9)
        elif k < 7:
            v = w + rng.normal(size=3) * 10.0 ** -rng.integers(2, 9)
        elif k < 8:
            v = np.cross(w, rng.normal(size=3))
        else:
            v = g_dir(rng, env)
        return v if np.linalg.norm(v) > 1e-6 else g_dir(rng, env)
    return g


def det3(cx, M):
    return cx.dot(cx.cross(M[0], M[1]), M[2])


def proper(cx, label, M, n=3, det=True):
    cx.ensure(label + ": is a %dx%d matrix" % (n, n), getattr(M, "shape", None) == (n, n))
    M = M[:3, :3]
    for i in range(3):
        for j in range(i, 3):
            cx.ensure(label + ": rows orthonormal (%d,%d)" % (i, j), cx.eq(cx.dot(M[i], M[j]), 1 if i == j else 0))
    if det:
        cx.ensure(label + ": determinant 1", cx.eq(det3(cx, M), 1))


def mv(cx, M, v):
    return cx.arr([cx.dot(M[0], v), cx.dot(M[1], v), cx.dot(M[2], v)])


def half_turn_stub(cx, f, name="half"):
    """contract of half_turn_matrix(a) for a = +-e1 in place of its body: the half turn about SOME axis
    perpendicular to a (the body is proved against this contract by the harness half_turn)"""
    if not cx.symbolic:
        return
    from vc.engine import Unsupported, deep_same
    e1, e2, e3 = f
    t = cx.circle(name)

    def contract(a):
        a = cx.arr(a)
        if not (deep_same(a, e1) or deep_same(a, -e1)):
            raise Unsupported("half_turn_matrix of something else")
        p = t[0] * e2 + t[1] * e3
        return cx.arr([[2 * p[i] * p[j] - (1 if i == j else 0) for j in range(3)] for i in range(3)])
    cx.stub("general_optics.half_turn_matrix", contract)


@harness("C20", name="half_turn")
def half_turn(cx):
    """contract of the helper half_turn_matrix: 2 p p^T - 1 for some unit p perpendicular to a"""
    f = getattr(cx.go, "half_turn_matrix", None)
    if f is None:
        return
    a = cx.unit("a")
    H = cx.call(f, a)
    proper(cx, "half turn", H)
    cx.ensure("half turn: turns the vector around", cx.veq(mv(cx, H, a), -a))
    for i in range(3):
        for j in range(i):
            cx.soft("half turn: symmetric (%d,%d)" % (i, j), cx.eq(H[i][j], H[j][i]))
    cx.soft("half turn: trace is -1", cx.eq(H[0][0] + H[1][1] + H[2][2], -1))


@harness("C20", name="align_rotation", cases=[(fn, k) for fn in ("rotation_matrix2", "rotation_matrix")
                                                for k in ("general", "same", "opposite")])
def align_rotation(cx, case):
    """rotation_matrix2(a, b): proper orthogonal and carries a onto b; rotation_matrix(v1, v2): the transpose"""
    fn, kind = case
    f = getattr(cx.go, fn)
    if cx.symbolic:
        fr = cx.frame("f")
        la, lb = cx.real("la", pos=True), cx.real("lb", pos=True)
        half_turn_stub(cx, fr)
        a = la * fr[0]
        if kind == "general":
            x, y = cx.circle("xy", upper=True)
            b = lb * (x * fr[0] + y * fr[1])
        else:
            b = lb * fr[0] if kind == "same" else -lb * fr[0]
    else:
        a = cx.vec("a")
        b = cx.vec("b", gen=g_near("a"))
    M = cx.call(f, a, b)
    proper(cx, fn, M)
    an, bn = a / cx.norm(a), b / cx.norm(b)
    if fn == "rotation_matrix2":
        cx.ensure(fn + ": carries the first direction onto the second", cx.veq(mv(cx, M, an), bn))
    else:
        cx.ensure(fn + ": carries the second direction onto the first", cx.veq(mv(cx, M, bn), an))


def align_z(cx, fn, tr, det):
    """the alignment rotation for z and an arbitrary direction of any length, which is what cylinders and patches use"""
    f = getattr(cx.go, fn, None)
    if f is None:
        return
    a = cx.real("l", pos=True) * cx.unit("a", gen=g_axis)
    z = cx.arr([0, 0, 1])
    M = cx.call(f, a, z)
    proper(cx, fn, M, det=det)
    an = a / cx.norm(a)
    if tr:
        cx.ensure(fn + ": carries z onto the direction", cx.veq(mv(cx, M, z), an))
    else:
        cx.ensure(fn + ": carries the direction onto z", cx.veq(mv(cx, M, an), z))


def g_axis(rng, env):
    k = rng.integers(8)
    if k < 4:
        v = np.array([0, 0, rng.choice([-1., 1.])])
        return v + rng.normal(size=3) * [1, 1, 0] * float(10.0 ** -rng.integers(1, 9)) * (k > 0)
    return g_unit(rng, env)


@harness(["C07", "C08"])
def align_axis(cx):
    align_z(cx, "rotation_matrix2", False, False)


@harness("C25")
def align_normal(cx):
    align_z(cx, "rotation_matrix", True, True)
