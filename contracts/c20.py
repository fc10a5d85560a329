"""C20: vector and rotation helpers."""
import numpy as np
from vc.engine import harness, g_vec, g_dir, g_unit, g_real
from . import rot
from .rot import proper, mv, g_near


def g_angle(rng, env):
    k = rng.integers(10)
    if k < 3:
        return float(rng.integers(-8, 9)) * np.pi / 4
    return float(rng.uniform(-7, 7))


g_angle.free = (-20, 20)


def scaled(cx, name, lname, gen=None):
    """an arbitrary nonzero vector as length times direction; returns (vector, direction, length)"""
    u = cx.unit(name, gen)
    l = cx.real(lname, pos=True)
    return l * u, u, l


def frame_check(cx, label, before, roots):
    cx.unchanged(label + ": its arguments are not modified", before, roots)


@harness("C20")
def axis_angle(cx):
    """rotation_matrix_axis_angle(axis, theta): v -> v cos + (k x v) sin + k (k.v)(1 - cos), k = axis / |axis|"""
    axis, k, l = scaled(cx, "axis", "len")
    th = cx.real("theta", gen=g_angle)
    before = cx.heap([axis])
    M = cx.call(cx.go.rotation_matrix_axis_angle, axis, th)
    frame_check(cx, "axis-angle rotation", before, [axis])
    proper(cx, "axis-angle rotation", M)
    if cx.symbolic:
        c2, s2 = cx.cos(th / 2), cx.sin(th / 2)
        c, s = c2 * c2 - s2 * s2, 2 * s2 * c2
    else:
        c, s = np.cos(th), np.sin(th)
    v = cx.point("v")
    spec = c * v + s * cx.cross(k, v) + (1 - c) * cx.dot(k, v) * k
    cx.ensure("axis-angle rotation: turns counter-clockwise about the axis by the angle", cx.veq(mv(cx, M, v), spec))


@harness("C20", cases=["ndarray", "list", "int"])
def axis_angle_args(cx, kind):
    """the axis as a list or an integer array"""
    if kind == "int":
        ax = [int(x) for x in cx.choice("axis", [(1, 0, 0), (0, 0, 3), (1, 2, 2), (-2, 3, 6)])]
        axis = np.array(ax) if not cx.symbolic else cx.np.array(ax)
    else:
        axis = cx.unit("axis")
        ax = [axis[i] for i in range(3)]
        if kind == "list":
            axis = list(ax)
    th = cx.real("theta", gen=g_angle)
    before = cx.heap([axis])
    M = cx.call(cx.go.rotation_matrix_axis_angle, axis, th)
    frame_check(cx, "axis-angle rotation", before, [axis])
    proper(cx, "axis-angle rotation", M)
    a = cx.arr(ax)
    cx.ensure("axis-angle rotation: the axis stays", cx.veq(mv(cx, M, a), a))


@harness("C20", cases=["rotation_matrix2", "rotation_matrix", "rotation_matrix4", "unit_vector", "angle_between",
                       "distance_between", "project_onto_plane", "translation_matrix4", "scaling_matrix4"])
def no_modification(cx, fn):
    """no helper modifies the vectors it is given (also vectors that are not of unit length)"""
    f = getattr(cx.go, fn)
    fr = cx.frame("f")
    rot.half_turn_stub(cx, fr)
    la = cx.real("la", pos=True)
    a = la * fr[0]
    kind = cx.choice("kind", ["general", "same", "opposite"])
    if kind == "general":
        x, y = cx.circle("xy", upper=True)
        b = cx.real("lb", pos=True) * (x * fr[0] + y * fr[1])
    else:
        b = (1 if kind == "same" else -1) * fr[0]
    if fn in ("translation_matrix4", "scaling_matrix4", "unit_vector"):
        args = [a]
    else:
        args = [a, b]
    if fn == "angle_between" and cx.flag("signed"):
        args.append(fr[2])
    before = cx.heap(args + cx.map_roots())
    cx.call(f, *args)
    cx.unchanged(fn + ": its arguments are not modified", before, args + cx.map_roots())


@harness("C20")
def align4(cx):
    """rotation_matrix4(a, b): the 4x4 matrix of the rotation of a onto b"""
    fr = cx.frame("f")
    rot.half_turn_stub(cx, fr)
    a = cx.real("la", pos=True) * fr[0]
    kind = cx.choice("kind", ["general", "same", "opposite"])
    if kind == "general":
        x, y = cx.circle("xy", upper=True)
    else:
        x, y = (1 if kind == "same" else -1), 0
    b = cx.real("lb", pos=True) * (x * fr[0] + y * fr[1])
    M = cx.call(cx.go.rotation_matrix4, a, b)
    cx.ensure("rotation_matrix4: 4x4", getattr(M, "shape", None) == (4, 4))
    for i in range(4):
        for j in range(4):
            if i == 3 or j == 3:
                cx.ensure("rotation_matrix4: last row and column are those of the identity",
                          cx.eq(M[i][j], 1 if i == j else 0))
    proper(cx, "rotation_matrix4", M[:3, :3])
    cx.ensure("rotation_matrix4: carries the first direction onto the second",
              cx.veq(mv(cx, M[:3, :3], fr[0]), x * fr[0] + y * fr[1]))


@harness("C20")
def unit_and_distance(cx):
    v, u, l = scaled(cx, "u", "len")
    r = cx.call(cx.go.unit_vector, v)
    cx.ensure("unit_vector: unit length, same direction", cx.And(cx.isvec(r), cx.veq(r, u)))
    p, q = cx.point("p"), cx.point("q")
    d = cx.call(cx.go.distance_between, p, q)
    cx.ensure("distance_between: a number", cx.isnum(d))
    cx.ensure("distance_between: not negative", cx.le(0, d, margin=0))
    cx.ensure("distance_between: Euclidean", cx.eq(d * d, cx.dot(p - q, p - q)))


@harness("C20", cases=["array", "list"])
def projection(cx, kind):
    """project_onto_plane(x, n) = x - (x.n^) n^, for a normal n of any length"""
    n, u, l = scaled(cx, "n", "len")
    x = cx.point("x")
    ax, an = (x, n) if kind == "array" else ([x[i] for i in range(3)], [n[i] for i in range(3)])
    before = cx.heap([ax, an])
    r = cx.call(cx.go.project_onto_plane, ax, an)
    frame_check(cx, "project_onto_plane", before, [ax, an])
    cx.ensure("project_onto_plane: a vector", cx.isvec(r))
    cx.ensure("project_onto_plane: removes exactly the normal component", cx.veq(r, x - cx.dot(x, u) * u))


@harness("C20")
def homogeneous(cx):
    t = cx.point("t")
    p = cx.point("p")
    w = cx.choice("w", [1, 0])
    T = cx.call(cx.go.translation_matrix4, t)
    S = cx.call(cx.go.scaling_matrix4, t)
    for nm, M in (("translation", T), ("scaling", S)):
        cx.ensure(nm + " matrix: 4x4", getattr(M, "shape", None) == (4, 4))
        h = [p[0], p[1], p[2], w]
        r = [sum(M[i][j] * h[j] for j in range(4)) for i in range(4)]
        for i in range(3):
            cx.ensure(nm + " matrix: acts as stated", cx.eq(r[i], p[i] + w * t[i] if nm == "translation" else p[i] * t[i]))
        cx.ensure(nm + " matrix: keeps the homogeneous coordinate", cx.eq(r[3], w))


@harness("C20")
def unsigned_angle(cx):
    """angle_between(v1, v2): in [0, pi], cosine v1.v2 / |v1||v2|"""
    v1, u1, l1 = scaled(cx, "u1", "l1")
    v2, u2, l2 = scaled(cx, "u2", "l2", g_near("u1") and (lambda rng, env: unitize(g_near("u1")(rng, env))))
    a = cx.call(cx.go.angle_between, v1, v2)
    cx.ensure("angle: a number", cx.isnum(a))
    cx.ensure("angle: at least 0", cx.le_ok(0, a))
    cx.ensure("angle: at most pi", cx.le_ok(a, cx.pi))
    cx.ensure("angle: the right cosine", cx.eq(cx.cos(a), cx.dot(u1, u2)))


def unitize(v):
    return v / np.linalg.norm(v)


@harness("C20", cases=["general", "same", "opposite"])
def unsigned_angle_pair(cx, kind):
    """the same for parallel and opposite vectors of any lengths"""
    e1, e2, e3 = cx.frame("f")
    l1, l2 = cx.real("l1", pos=True), cx.real("l2", pos=True)
    if kind == "general":
        x, y = cx.circle("xy")
    else:
        x, y = (1 if kind == "same" else -1), 0
    a = cx.call(cx.go.angle_between, l1 * e1, l2 * (x * e1 + y * e2))
    cx.ensure("angle: a number", cx.isnum(a))
    cx.ensure("angle: between 0 and pi", cx.And(cx.le_ok(0, a), cx.le_ok(a, cx.pi)))
    cx.ensure("angle: the right cosine", cx.eq(cx.cos(a), x))


@harness("C20")
def signed_angle(cx):
    """angle_between(v1, v2, n): angle from v2 to v1 counter-clockwise about n: cosine of the unsigned angle where n
    is perpendicular to both; the opposite reference normal gives the opposite angle"""
    e1, e2, e3 = cx.frame("f")
    l1, l2 = cx.real("l1", pos=True), cx.real("l2", pos=True)
    x, y = cx.circle("xy")
    n = e3
    v2 = l2 * e1
    v1 = l1 * (x * e1 + y * e2)
    a = cx.call(cx.go.angle_between, v1, v2, n)
    cx.ensure("signed angle: a number", cx.isnum(a))
    cx.ensure("signed angle: in [-pi, pi]", cx.And(cx.le_ok(-cx.pi, a), cx.le_ok(a, cx.pi)))
    cx.ensure("signed angle: the right cosine", cx.eq(cx.cos(a), x))
    cx.ensure("signed angle: the right sine", cx.eq(cx.sin(a), y))
    b = cx.call(cx.go.angle_between, v1, v2, -n)
    cx.ensure("signed angle: changes sign with the reference normal: sine", cx.eq(cx.sin(b), -y))
    cx.ensure("signed angle: changes sign with the reference normal: cosine", cx.eq(cx.cos(b), x))
    if cx.test(cx.ne(y, 0) if cx.symbolic else abs(y) > 1e-9):
        cx.ensure("signed angle: changes sign with the reference normal", cx.eq(a, -b))


@harness("C20")
def signed_angle_any(cx):
    """any reference normal: the sign flips with it"""
    u1, u2, n = cx.unit("u1"), cx.unit("u2"), cx.unit("n")
    a = cx.call(cx.go.angle_between, u1, u2, n)
    b = cx.call(cx.go.angle_between, u1, u2, -n)
    cx.ensure("signed angle: numbers", cx.And(cx.isnum(a), cx.isnum(b)))
    t = cx.dot(cx.cross(u2, u1), n)
    if cx.test(cx.ne(t, 0) if cx.symbolic else abs(t) > 1e-9):
        cx.ensure("signed angle: changes sign with the reference normal", cx.eq(a, -b))
        cx.ensure("signed angle: sign", cx.Iff(cx.gt(a, 0), cx.gt(t, 0)))
