"""Behaviour-preserving rewrites of functions of /repo; every check named has to stay quiet (tools/mutate.py runs them)."""
import ast
import re
import textwrap
O, G, S, N = "optics3d.py", "general_optics.py", "Shapes/shapes.py", "general.py"
SRC = {f: open("/repo/" + f).read() for f in (O, G, S, N)}
M = []


def fn(f, q):
    src = SRC[f]
    nodes = ast.parse(src).body
    for part in q.split("."):
        node = [n for n in nodes if getattr(n, "name", None) == part][0]
        nodes = node.body
    lines = src.splitlines(True)
    return "".join(lines[node.lineno - 1:node.end_lineno])


def R(props, f, q, new):
    """the whole function (or method) replaced"""
    old = fn(f, q)
    new = textwrap.dedent(new).strip("\n") + "\n"
    if "." in q:
        new = textwrap.indent(new, "    ")
    for p in props.split():
        M.append((p, f, old, "=" + new))


def E(props, f, *edits):
    """a sequence of text edits of one file"""
    src = SRC[f]
    new = src
    for a, b in edits:
        assert a in new, a
        new = new.replace(a, b)
    for p in props.split():
        M.append((p, f, src, "=" + new))


# ---------------------------------------------------------------- general_optics
R("C01 C02 C20 C05", G, "unit_vector", """
    import math

    def unit_vector(vector):
        '''Returns the unit vector of the vector.'''
        vector = np.asarray(vector, dtype=float)
        length = math.sqrt(sum(c * c for c in vector))
        return vector / length
    """)
R("C20 C06 C12", G, "distance_between", """
    def distance_between(p1, p2):
        delta = np.subtract(p1, p2)
        return np.sqrt(np.dot(delta, delta))
    """)
R("C20 C17", G, "angle_between", """
    def angle_between(v1, v2, v_normal=None):
        a, b = unit_vector(v1), unit_vector(v2)
        cosine = np.dot(a, b)
        if v_normal is None:
            return np.arccos(max(-1.0, min(1.0, cosine)))
        return np.arctan2(np.dot(v_normal, np.cross(b, a)), cosine)
    """)
R("C20 C17", G, "rotation_matrix_axis_angle", """
    def rotation_matrix_axis_angle(axis, theta):
        k = np.asarray(axis) / np.linalg.norm(axis)
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        return np.eye(3) + np.sin(theta) * K + (1 - np.cos(theta)) * K @ K
    """)
R("C20 C07 C17", G, "project_onto_plane", """
    def project_onto_plane(x, n):
        x = np.asarray(x)
        n_hat = unit_vector(np.asarray(n))
        return x - np.dot(x, n_hat) * n_hat
    """)
R("C20 C07 C08", G, "rotation_matrix4", """
    def rotation_matrix4(a, b):
        R = rotation_matrix2(a, b)
        return np.vstack([np.hstack([R, np.zeros((3, 1))]), [[0.0, 0.0, 0.0, 1.0]]])
    """)
R("C20 C07 C08", G, "scaling_matrix4", """
    def scaling_matrix4(scaling_vector):
        sx, sy, sz = scaling_vector
        return np.diag([sx, sy, sz, 1.0])
    """)
R("C20 C07 C08", G, "translation_matrix4", """
    def translation_matrix4(translation_vector):
        m = np.identity(4)
        for row in range(3):
            m[row, 3] = translation_vector[row]
        return m
    """)
R("C25 C20", G, "rotation_matrix", """
    def rotation_matrix(v1, v2):
        a, b = unit_vector(v1), unit_vector(v2)
        c = np.dot(a, b)
        if c < -0.9999:
            return half_turn_matrix(a) @ rotation_matrix(-a, b)
        w = np.cross(b, a)
        K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
        return np.eye(3) + K + K @ K / (1 + c)
    """)
R("C22", G, "image_rays", """
    def _samples(half, n, name):
        if n < 1:
            raise ValueError("cannot have less than 1 " + name)
        return np.array([0]) if n == 1 else np.linspace(-half, half, n)


    def image_rays(y_center, size=10, angle=0.2, x_res=11, z_res=11, angle_res=3, pattern="circle", pattern_d=5):
        x = _samples(size / 2, x_res, "x_res")
        z = _samples(size / 2, z_res, "z_res")
        angles = _samples(angle, angle_res, "angle_res")
        origins, dirs, waves = [], [], []
        for x_val in x:
            for z_val in z:
                inside = x_val ** 2 + z_val ** 2 <= (pattern_d / 2) ** 2
                for angle_val in angles:
                    origins.append(np.array([x_val, y_center, z_val]))
                    dirs.append(np.array([0, np.cos(angle_val), np.sin(angle_val)]))
                    if pattern == "circle":
                        waves.append(680.0 if inside else 450.0)
        return origins, dirs, waves
    """)
R("C22", G, "image_rays", """
    def image_rays(y_center, size=10, angle=0.2, x_res=11, z_res=11, angle_res=3, pattern="circle", pattern_d=5):
        for res, name in ((x_res, "x_res"), (z_res, "z_res"), (angle_res, "angle_res")):
            if res < 1:
                raise ValueError(f"cannot have less than 1 {name}")
        x = np.linspace(-size / 2, size / 2, x_res) if x_res > 1 else np.zeros(1)
        z = np.linspace(-size / 2, size / 2, z_res) if z_res > 1 else np.zeros(1)
        angles = np.linspace(-angle, angle, angle_res) if angle_res > 1 else np.zeros(1)
        grid = [(a, b, c) for a in x for b in z for c in angles]
        origins = [np.array([a, y_center, b]) for a, b, c in grid]
        dirs = [np.array([0, np.cos(c), np.sin(c)]) for a, b, c in grid]
        waves = []
        if pattern == "circle":
            waves = [680.0 if a * a + b * b <= pattern_d * pattern_d / 4 else 450.0 for a, b, c in grid]
        return origins, dirs, waves
    """)
R("C24 C08 C19", G, "BinaryTree.insertLeft", """
    def insertLeft(self, newNode):
        t = BinaryTree(newNode)
        t.leftChild = self.leftChild
        self.leftChild = t
    """)
R("C24 C08 C09", G, "postOrderEval", """
    def postOrderEval(tree):
        if tree is None:
            return None
        printers = {'union': printCsgUnion, 'difference': printCsgDifference, 'intersect': printCsgIntersect}
        left, right = postOrderEval(tree.getLeftChild()), postOrderEval(tree.getRightChild())
        if not left or not right:
            return tree.getRootVal()
        return printers[tree.getRootVal()](left, right)
    """)
R("C24", G, "printCsgUnion", """
    def printCsgUnion(res1, res2):
        return "( {} u {} )".format(res1, res2)
    """)
R("C09 C19", G, "test_tree_intersect", """
    def test_tree_intersect(tree, ray):
        if not tree:
            return None
        left = test_tree_intersect(tree.getLeftChild(), ray)
        right = test_tree_intersect(tree.getRightChild(), ray)
        value = tree.getRootVal()
        if left is None or right is None:
            return value.test_intersect(ray)
        if value == 'union':
            return operCsgUnion(left, right, ray)
        elif value == 'difference':
            return operCsgDifference(left, right, ray)
        elif value == 'intersect':
            return operCsgIntersect(left, right, ray)
        raise KeyError(value)
    """)
R("C08 C19 C10", G, "test_tree_point", """
    def test_tree_point(tree, point):
        if not tree:
            return None
        a = test_tree_point(tree.getLeftChild(), point)
        if a is None:
            return tree.getRootVal().test_point(point)
        b = test_tree_point(tree.getRightChild(), point)
        return {'union': operCsgIndexUnion, 'difference': operCsgIndexDifference,
                'intersect': operCsgIndexIntersect}[tree.getRootVal()](a, b, point)
    """)
R("C08", G, "operCsgIndexUnion", """
    def operCsgIndexUnion(resA, resB, point):
        return bool(resA or resB)
    """)
R("C08", G, "operCsgIndexDifference", """
    def operCsgIndexDifference(resA, resB, point):
        return True if (resA and not resB) else False
    """)
R("C09 C19", G, "helper_findIntersects", """
    def helper_findIntersects(res, ray, mode='nearest'):
        found = []
        for k in (1, 2):
            if res[k] is not None:
                found.append((distance_between(ray.position, res[k]), res[k], res[k + 2]))
        if not found:
            return None, None, None, 0
        best = found[-1]
        if len(found) == 2:
            first, second = found
            if mode == 'nearest' and first[0] < second[0]:
                best = first
            elif mode == 'farthest' and first[0] > second[0]:
                best = first
        return best[1], best[2], best[0], len(found)
    """)
R("C09", G, "helper_findIntersects", """
    def helper_findIntersects(res, ray, mode='nearest'):
        candidates = [(distance_between(ray.position, p), p, n) for p, n in zip(res[1:3], res[3:5]) if p is not None]
        if not candidates:
            return None, None, None, 0
        pick = min if mode == 'nearest' else max
        distance, point, normal = pick(candidates, key=lambda c: c[0])
        return point, normal, distance, len(candidates)
    """)
R("C09 C19", G, "operCsgUnion", """
    def _hit(point, normal, count):
        return True, point, None, normal, None, count


    def operCsgUnion(resA, resB, ray):
        total = resA[5] + resB[5]
        hitA, hitB = resA[0], resB[0]
        if not hitA and not hitB:
            return False, None, None, None, None, total
        if hitA and not hitB:
            point, normal, _, _ = helper_findIntersects(resA, ray)
            return _hit(point, normal, total)
        if hitB and not hitA:
            point, normal, _, _ = helper_findIntersects(resB, ray)
            return _hit(point, normal, total)
        pA, nA, dA, _ = helper_findIntersects(resA, ray, mode='nearest')
        pB, nB, dB, _ = helper_findIntersects(resB, ray, mode='nearest')
        insideA, insideB = resA[5] % 2 == 1, resB[5] % 2 == 1
        if (insideA and insideB) or (insideA and dB < dA) or (insideB and dA < dB):
            pA, nA, dA, _ = helper_findIntersects(resA, ray, mode='farthest')
            pB, nB, dB, _ = helper_findIntersects(resB, ray, mode='farthest')
            return _hit(pA, nA, total) if dA > dB else _hit(pB, nB, total)
        return _hit(pA, nA, total) if dA < dB else _hit(pB, nB, total)
    """)
R("C25", G, "pathpatch_2d_to_3d", """
    def pathpatch_2d_to_3d(pathpatch, z=0, normal='z'):
        if isinstance(normal, str):
            normal = {'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1)}[normal]
        trans = pathpatch.get_patch_transform()
        path = trans.transform_path(pathpatch.get_path())
        pathpatch.__class__ = art3d.PathPatch3D
        pathpatch._code3d = path.codes
        pathpatch._facecolor3d = pathpatch.get_facecolor
        M = rotation_matrix(normal, (0, 0, 1))
        points = []
        for x, y in path.vertices:
            p = np.dot(M, (x, y, 0))
            p[2] = p[2] + z
            points.append(p)
        pathpatch._segment3d = np.array(points)
    """)

# ---------------------------------------------------------------- shapes
R("C21", S, "check_R_and_D", """
    def check_R_and_D(R, D):
        if R is None and D is None:
            raise ValueError("Need to specify either R or D")
        if R is None:
            return D / 2, D
        if D is None:
            return R, R * 2
        if not np.isclose(D, R * 2, rtol=1e-8, atol=1e-8):
            raise ValueError("Conflicting R and D specified")
        return R, D
    """)
R("C21", S, "check_h_and_w", """
    def check_h_and_w(h, w):
        for name, v in (("h", h), ("w", w)):
            if v is None:
                raise ValueError("Need to specify " + name)
        if min(h, w) < 0:
            raise ValueError("h and w must be positive")
        return h, w
    """)
R("C05 C14 C18 C19", S, "Plane.test_intersect", """
    def test_intersect(self, ray):
        speed = np.dot(ray.direction, self.normal)
        if abs(speed) <= 1e-9:
            return False, None, None
        t = np.dot(self.center - ray.position, self.normal) / speed
        if t <= 1e-9:
            return False, None, None
        return True, ray.position + t * ray.direction, self.normal
    """)
R("C05 C18 C15 C19", S, "Circle.test_intersect", """
    def test_intersect(self, ray):
        hit, pt, normal = self.plane.test_intersect(ray)
        if not hit:
            return False, None, None
        offset = pt - self.center
        if np.dot(offset, offset) >= self.R ** 2:
            return False, None, None
        return hit, pt, normal
    """)
R("C05 C14 C19 C21", S, "Rectangle.test_intersect", """
    def test_intersect(self, ray):
        hit, pt, normal = self.plane.test_intersect(ray)
        if hit:
            r = pt - self.center
            u = np.dot(r, self.tangent)
            v = np.dot(r, self.tangent2)
            if abs(u) <= self.h / 2 and abs(v) <= self.w / 2:
                return True, pt, normal
        return False, None, None
    """)
R("C21 C05 C14", S, "Rectangle.__init__", """
    def __init__(self, center, normal, tangent, h=None, w=None):
        h, w = check_h_and_w(h, w)
        self.center, self.h, self.w = center, h, w
        self.normal, self.tangent = unit_vector(normal), unit_vector(tangent)
        if abs(np.dot(self.normal, self.tangent)) > 1e-8:
            raise ValueError("normal and tangent need to be perpendicular")
        self.tangent2 = np.cross(self.normal, self.tangent)
        corners = [(1, -1), (1, 1), (-1, 1), (-1, -1)]
        self.bounds = np.array([center + a * h / 2 * self.tangent + b * w / 2 * self.tangent2 for a, b in corners])
        self.plane = Plane(center, normal)
    """)
R("C06 C18 C10 C09 C19", S, "Sphere.test_intersect", """
    def test_intersect(self, ray):
        oc = ray.position - self.center
        b = np.dot(oc, ray.direction)
        c = np.dot(oc, oc) - self.R ** 2
        d = b * b - c
        miss = (False, None, None, None, None, 0)
        if d < 0:
            return miss
        if d == 0:
            if -b <= INTERSECT_CLIPPING_FLOOR:
                return miss
            p = ray.position - b * ray.direction
            return True, p, None, self.normal(p), None, 2
        root = np.sqrt(d)
        near, far = -b - root, -b + root
        if far <= INTERSECT_CLIPPING_FLOOR:
            return miss
        p_far = ray.position + far * ray.direction
        if near <= INTERSECT_CLIPPING_FLOOR:
            return True, p_far, None, self.normal(p_far), None, 1
        p_near = ray.position + near * ray.direction
        return True, p_far, p_near, self.normal(p_far), self.normal(p_near), 2
    """)
R("C08 C19", S, "Sphere.test_point", """
    def test_point(self, point):
        d = point - self.center
        return bool(np.dot(d, d) < self.R * self.R)
    """)
R("C06 C18", S, "Sphere.normal", """
    def normal(self, point):
        inward = self.center - point
        inward = inward / np.linalg.norm(inward)
        return inward
    """)
R("C08 C19", S, "InfiniteCylinder.test_point", """
    def test_point(self, point):
        offset = point - self.center
        along = np.dot(offset, self.direction) * self.direction
        return bool(np.linalg.norm(offset - along) < self.R)
    """)
R("C07 C09 C19", S, "InfiniteCylinder.test_intersect", """
    def test_intersect(self, ray):
        u = self.direction
        e = ray.position - self.center
        e = e - np.dot(e, u) * u
        v = ray.direction - np.dot(ray.direction, u) * u
        a = np.dot(v, v)
        miss = (False, None, None, None, None, 0)
        if a < 1e-18:
            return miss
        b = np.dot(e, v)
        c = np.dot(e, e) - self.R ** 2
        disc = b * b - a * c
        if disc < 0:
            return miss
        if disc == 0:
            t = -b / a
            if not t > INTERSECT_CLIPPING_FLOOR:
                return miss
            pt = ray.position + t * ray.direction
            return True, pt, None, self.normal(pt), None, 2
        root = np.sqrt(disc)
        if b >= 0:
            q = -b - root
            ts = sorted([q / a, c / q])
        else:
            q = -b + root
            ts = sorted([c / q, q / a])
        pts = [ray.position + t * ray.direction for t in ts if t > INTERSECT_CLIPPING_FLOOR]
        if not pts:
            return miss
        if len(pts) == 1:
            return True, pts[0], None, self.normal(pts[0]), None, 1
        return True, pts[0], pts[1], self.normal(pts[0]), self.normal(pts[1]), 2
    """)
E("C07 C08 C19", S, ("        scale_factor = 1 / self.R\n        scaling_vector = np.array([scale_factor, scale_factor, scale_factor])\n        scaling_mat = scaling_matrix4(scaling_vector)\n",
                     "        scale_factor = 1 / self.R\n        scaling_mat = scaling_matrix4([scale_factor] * 3)\n"))
E("C06 C07 C21", S, ("            raise ValueError(\"Conflicting R and D specified\")\n    return R, D", "            raise ValueError(f\"Conflicting R={R} and D={D} specified\")\n    return (R, D)"))

# ---------------------------------------------------------------- optics3d
R("C08", O, "get_index_at_point", """
    def get_index_at_point(Optic_list, point):
        found = (optic.get_index_at_point_if_inside(point) for optic in Optic_list)
        return next((index for index in found if index is not None), INDEX_OF_THE_WORLD)
    """)
R("C08", O, "get_index_at_point", """
    def get_index_at_point(Optic_list, point):
        index = None
        for optic in Optic_list:
            index = optic.get_index_at_point_if_inside(point)
            if index is not None:
                break
        return INDEX_OF_THE_WORLD if index is None else index
    """)
R("C22", O, "add_faerie_fire_rays", """
    def add_faerie_fire_rays(Ray_list, FF_radius, FF_center, N=1000):
        count = 0
        while count < N:
            v = np.array([np.random.normal(), np.random.normal(), np.random.normal()])
            length = np.linalg.norm(v)
            if length < .000001:
                continue
            v = v / length
            Ray_list.append(Ray(FF_center + FF_radius * v, -v, wavelength=532, type="faerie_fire"))
            count += 1
        return Ray_list
    """)
R("C22", O, "add_faerie_fire_rays", """
    def _random_direction():
        v = np.zeros(3)
        while np.linalg.norm(v) < .000001:
            v = np.array([np.random.normal(), np.random.normal(), np.random.normal()])
        return v / np.linalg.norm(v)


    def add_faerie_fire_rays(Ray_list, FF_radius, FF_center, N=1000):
        for _ in range(N):
            v = _random_direction()
            Ray_list.append(Ray(FF_center + v * FF_radius, -v, wavelength=532, print_trajectory=False, type="faerie_fire"))
        return Ray_list
    """)
R("C09 C10 C19", O, "Compound.test_intersect", """
    def test_intersect(self, ray):
        res = test_tree_intersect(self.tree, ray)
        pt, normal, _, _ = helper_findIntersects(res, ray)
        return res[0], pt, normal, res[5] % 2 == 0
    """)
R("C10 C01 C19", O, "Compound.do_intersect", """
    def do_intersect(self, ray, intersection_pt, intersection_normal, shooting_from_outside):
        if self.surface_behavior not in ("reflect", "refract"):
            raise ValueError("Unknown value for surface_behavior")
        if self.surface_behavior == "reflect":
            ray.reflect(normal=intersection_normal, intersection_pt=intersection_pt)
            return
        entering = self.get_index_at_point_if_inside(intersection_pt + 1e-8 * ray.direction) is not None
        indices = (INDEX_OF_THE_WORLD, self.index) if entering else (self.index, INDEX_OF_THE_WORLD)
        ray.refract("snells_law", intersection_normal, self, intersection_pt, *indices)
    """)
R("C18 C05 C19 C12", O, "Mirror.test_intersect", """
    def test_intersect(self, ray):  # Mirror
        if self.shape in ("circular_flat", "rectangular_flat"):
            hit, pt, normal = self.surfaces[0].test_intersect(ray)
            return hit, pt, normal, None
        sphere = next(s for s in self.surfaces if isinstance(s, Sphere))
        hit, p1, p2, n1, n2, count = sphere.test_intersect(ray)
        if not hit:
            return False, None, None, count
        if self.shape == "circular_concave_spherical":
            disc = next(s for s in self.surfaces if isinstance(s, Circle))
            hit, reference, _ = disc.test_intersect(ray)
            if not hit:
                return False, None, None, count
            sign = 1
        else:
            reference = ray.position
            sign = -1
        best, normal = p1, n1
        if p2 is not None and distance_between(reference, p2) <= distance_between(reference, p1):
            best, normal = p2, n2
        return True, best, sign * normal, count
    """)
R("C02 C18 C01", O, "Mirror.do_intersect", """
    def do_intersect(self, ray, intersection_pt, intersection_normal, shooting_from_outside):
        normal = {"normal": intersection_normal, "dmd": self.dmd_normal}.get(self.type)
        if normal is not None:
            ray.reflect(normal=normal, intersection_pt=intersection_pt)
    """)
R("C10 C15 C19", O, "Lens.test_intersect", """
    def test_intersect(self, ray):  # Lens
        if self.shape == "spherical_biconvex":
            best = (np.inf, False, None)
            normal = None
            for surface in self.surfaces:
                hit, pt, normal = surface.test_intersect(ray)
                if hit:
                    d = distance_between(ray.position, pt)
                    if d < best[0]:
                        best = (d, True, pt)
            return best[1], best[2], normal, True
        if self.shape != "spherical":
            raise ValueError("Unhandled shape")
        hit, p1, p2, n1, n2, count = self.surfaces[0].test_intersect(ray)
        outside = count % 2 == 0
        if not hit:
            return False, None, None, outside
        if p2 is not None and distance_between(ray.position, p2) < distance_between(ray.position, p1):
            return True, p2, -n2, outside
        return True, p1, -n1, outside
    """)
R("C10 C15 C16 C01 C03", O, "Lens.do_intersect", """
    IDEAL = {"ideal": "thin_lens", "ideal_collimate": "ideal_collimate", "ideal_focus": "ideal_focus"}

    def do_intersect(self, ray, intersection_pt, intersection_normal, shooting_from_outside):
        if self.type in self.IDEAL:
            ray.refract(refract_type=self.IDEAL[self.type], normal=intersection_normal, optic=self,
                        intersection_pt=intersection_pt)
            return
        n_from, n_to = 1, self.index
        if not shooting_from_outside:
            n_from, n_to = n_to, n_from
            intersection_normal = -intersection_normal
        ray.refract(refract_type="snells_law", normal=intersection_normal, optic=self,
                    intersection_pt=intersection_pt, eta1=n_from, eta2=n_to)
    """)
R("C14 C19", O, "Detector.do_intersect", """
    def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):
        record = np.empty(4)
        record[:3] = int_pt
        record[3] = ray.wavelength
        self.hit_data += [record]
        ray.blocked = True
    """)
R("C14 C17 C19", O, "Detector.test_intersect", """
    def test_intersect(self, ray):  # Detector
        surface = self.surfaces[0]
        hit, pt, normal = surface.test_intersect(ray)
        if hit:
            return True, pt, normal, None
        return False, None, normal, None
    """)
R("C13 C11 C19 C01", O, "Ray.fly", """
    def fly(self, distance=None):
        '''Fly a ray through space in a straight line.'''
        if distance is None:
            raise ValueError("Insufficient correctness")
        step = np.multiply(distance, self.direction)
        self.position = np.add(self.position, step)
        self.point_history = self.point_history + [self.position]
        if self.print_trajectory:
            print(self)
    """)
E("C01 C03 C04 C10", O, ("            if np.dot(i, n) < 0:\n                pass\n            else:\n                n = -n\n",
                         "            if np.dot(i, n) >= 0:\n                n = -n\n"),
  ("            cos_theta_incident = np.dot(-i, n)\n", "            cos_theta_incident = -np.dot(i, n)\n            ratio = eta1 / eta2\n"),
  ("            sin_squared_theta_transmitted = (eta1 / eta2) ** 2 * (1 - cos_theta_incident ** 2)\n",
   "            sin_squared_theta_transmitted = ratio * ratio * (1 - cos_theta_incident * cos_theta_incident)\n"))
E("C01 C03 C04 C10", O, ("            if eta1 > eta2:\n                if sin_squared_theta_transmitted > 1:  # eq. 24\n                    do_total_internal_reflection = True\n                    self.reflect(reflect_type=\"specular_flat\",\n                                 normal=normal,\n                                 intersection_pt=intersection_pt)\n",
                          "            do_total_internal_reflection = eta1 > eta2 and sin_squared_theta_transmitted > 1  # eq. 24\n            if do_total_internal_reflection:\n                self.direction = unit_vector(i - 2 * np.dot(i, n) * n)\n"))
E("C01 C02 C04", O, ("            i = unit_vector(self.direction)  # incident unit vector\n            n = unit_vector(normal)  # normal unit vector\n            r = i - 2 * np.dot(i, n) * n  # reflected\n            self.direction = unit_vector(r)\n        elif",
                     "            normal = np.asarray(normal)\n            d = self.direction\n            self.direction = unit_vector(d - 2 * np.dot(d, normal) / np.dot(normal, normal) * normal)\n        elif"))
E("C01 C02 C04", O, ("            i = unit_vector(self.direction)  # incident unit vector\n            n = unit_vector(normal)  # normal unit vector\n            r = i - 2 * np.dot(i, n) * n  # reflected\n            self.direction = unit_vector(r)\n        elif",
                     "            n = unit_vector(normal)  # normal unit vector\n            householder = np.eye(3) - 2 * np.outer(n, n)\n            self.direction = unit_vector(householder @ unit_vector(self.direction))\n        elif"))
E("C15 C16 C01", O, ("            dot_product1 = np.dot(optic.normal, self.direction)\n            if dot_product1 < 0:\n                the_optic_normal = -optic.normal\n            else:\n                the_optic_normal = optic.normal\n",
                     "            the_optic_normal = optic.normal if np.dot(optic.normal, self.direction) >= 0 else -optic.normal\n"))
E("C15 C01", O, ("                projection_onto_optic_normal = np.dot(self.direction, the_optic_normal)\n                scale_factor = (2 * optic.f) / projection_onto_optic_normal\n                vector_back_to_2f_object = -self.direction * scale_factor\n                object_point = r + vector_back_to_2f_object\n                # step 2: get the image point as the inverted object point\n                image_point = -object_point\n                # step 3: update the ray's direction to go towards the image point\n                vector_to_image = image_point - r\n",
                 "                vector_to_image = self.direction * (2 * optic.f / dot_product) - 2 * r\n"))
E("C17 C01 C02", O, ("            n = unit_vector(project_onto_plane(normal, dispersion_plane_normal))\n            i = unit_vector(project_onto_plane(incident, dispersion_plane_normal))\n",
                     "            n, i = (unit_vector(project_onto_plane(v, dispersion_plane_normal)) for v in (normal, incident))\n"),
  ("            if alpha < 0:\n                grating_sign_convention = -1\n            else:\n                grating_sign_convention = +1\n", "            grating_sign_convention = -1 if alpha < 0 else 1\n"))
E("C17", O, ("            beta = np.arcsin(optic.G / 1e6 * self.order * self.wavelength - np.sin(grating_sign_convention * alpha))\n",
             "            m_lambda = self.order * self.wavelength * 1e-6\n            sin_beta = optic.G * m_lambda - grating_sign_convention * np.sin(alpha)\n            beta = np.arcsin(sin_beta)\n"),
  ("            self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))\n", "            self.direction = unit_vector(np.dot(RM2, np.dot(RM1, r)))\n"))
RUN = fn(O, "Ray.run")
R("C11 C12 C13 C14 C19", O, "Ray.run", """
    def _nearest(self, optic_list, reach):
        best = None
        for optic in optic_list:
            if isinstance(optic, (Annotation, Filter, Window)):
                continue
            hit, pt, normal, outside = optic.test_intersect(self)
            if not hit:
                continue
            d = distance_between(self.position, pt)
            if INTERSECT_CLIPPING_FLOOR < d <= reach and (best is None or d < best[0]):
                best = (d, optic, pt, normal, outside)
        return best

    def run(self, max_distance, optic_list=[], max_interactions=np.inf):
        '''Run the ray through an optical system'''
        left = max_distance
        count = 0
        if self.print_trajectory:
            print("--- run begin ---")
        while left > 0 and count < max_interactions and not self.blocked:
            best = self._nearest(optic_list, left)
            if best is None:
                self.fly(distance=left)
                break
            d, optic, pt, normal, outside = best
            self.fly(distance=d)
            left -= d
            count += 1
            if self.type == "faerie_fire":
                self.blocked = True
            else:
                optic.do_intersect(self, pt, normal, outside)
        if self.print_trajectory:
            print("--- run complete ---")
    """)
R("C11 C12 C13 C14", O, "Ray.run", """
    def run(self, max_distance, optic_list=[], max_interactions=np.inf):
        flown = 0
        n = 0
        active = [o for o in optic_list if not isinstance(o, (Annotation, Filter, Window))]
        while flown < max_distance and n < max_interactions and not self.blocked:
            hits = []
            for o in active:
                ok, pt, normal, side = o.test_intersect(self)
                if ok:
                    d = distance_between(self.position, pt)
                    if d > INTERSECT_CLIPPING_FLOOR and d <= max_distance - flown:
                        hits.append((d, o, pt, normal, side))
            if not hits:
                self.fly(distance=max_distance - flown)
                return
            d, o, pt, normal, side = min(hits, key=lambda h: h[0])
            self.fly(distance=d)
            flown += d
            n += 1
            if self.type == "faerie_fire":
                self.blocked = True
            else:
                o.do_intersect(self, pt, normal, side)
    """)
E("C11 C12 C13 C14", O, ("        interaction_count = 0\n        distance_remaining = max_distance\n", "        distance_remaining = max_distance\n        interaction_count = 0\n"),
  ("                if isinstance(optic, Annotation):\n                    continue\n                elif isinstance(optic, Filter):\n                    continue\n                elif isinstance(optic, Window):\n                    continue\n",
   "                if isinstance(optic, (Annotation, Filter, Window)):\n                    continue\n"),
  ("                    if distance_to_optic > distance_remaining:\n                        pass  # allow intersected to remain False, pass through to fly distance_remaining\n                    elif distance_to_optic > INTERSECT_CLIPPING_FLOOR:\n",
   "                    if INTERSECT_CLIPPING_FLOOR < distance_to_optic <= distance_remaining:\n"))
E("C11 C12 C13", O, ("            for optic in optic_list:\n                if isinstance(optic, Annotation)", "            for number, optic in enumerate(optic_list):\n                if isinstance(optic, Annotation)"))
E("C21 C18 C02", O, ("        if shape == \"circular_flat\":\n            self.normal = unit_vector(normal)\n            self.surfaces.append(Circle(position, normal, D=D))\n        elif shape == \"rectangular_flat\":\n            self.normal = unit_vector(normal)\n",
                     "        if normal is not None and shape != \"circular_convex_spherical\":\n            self.normal = unit_vector(normal)\n        if shape == \"circular_flat\":\n            self.surfaces.append(Circle(position, normal, D=D))\n        elif shape == \"rectangular_flat\":\n"),
  ("        elif shape == \"circular_concave_spherical\":\n            self.normal = unit_vector(normal)\n", "        elif shape == \"circular_concave_spherical\":\n"))
R("C23", N, "wavelength_to_rgb", """
    def wavelength_to_rgb(wavelength, gamma=0.8, floor_wave=380, ceiling_wave=750):
        w = min(max(float(wavelength), floor_wave), ceiling_wave)
        if w < 380:
            return (0.3, 0.0, 0.3)
        if w <= 440:
            attenuation = 0.3 + 0.7 * (w - 380) / 60
            return (((440 - w) / 60 * attenuation) ** gamma, 0.0, attenuation ** gamma)
        if w <= 490:
            return (0.0, ((w - 440) / 50) ** gamma, 1.0)
        if w <= 510:
            return (0.0, 1.0, ((510 - w) / 20) ** gamma)
        if w <= 580:
            return (((w - 510) / 70) ** gamma, 1.0, 0.0)
        if w <= 645:
            return (1.0, ((645 - w) / 65) ** gamma, 0.0)
        if w <= 750:
            return ((0.3 + 0.7 * (750 - w) / 105) ** gamma, 0.0, 0.0)
        return (0.3, 0.0, 0.0)
    """)

# ---- printed numbers
E("C26", N, ("    if abs((n + 1.) * tens - x) <= abs(n * tens - x):\n        n = n + 1\n",
             "    below, above = x - n * tens, (n + 1) * tens - x\n    if above <= below:\n        n += 1\n"))
E("C26", N, ("        out.append(\"0.\")\n        out.extend([\"0\"]*-(e+1))\n        out.append(m)\n",
             "        out.append(\"0.\" + \"0\" * (-e - 1) + m)\n"))
E("C26", N, ("        out.append(m[0])\n        if p > 1:\n            out.append(\".\")\n            out.extend(m[1:p])\n        out.append('e')\n"
             "        if e > 0:\n            out.append(\"+\")\n        out.append(str(e))\n",
             "        out.append(m[0] + (\".\" + m[1:] if p > 1 else \"\") + (\"e+%d\" if e > 0 else \"e%d\") % e)\n"))
E("C26", N, ("    if x < 0:\n        out.append(\"-\")\n        x = -x\n    e = int(math.log10(x))\n",
             "    if x < 0:\n        return \"-\" + to_precision(-x, p)\n    e = math.floor(math.log10(x))\n"))
E("C26", N, ("    tens = math.pow(10, e - p + 1)\n    n = math.floor(x/tens)\n    if n",
             "    tens = 10. ** (e - p + 1)\n    n = int(x / tens)\n    if n"),
            ("        tens = math.pow(10, e - p+1)\n        n = math.floor(x / tens)\n",
             "        tens = tens / 10\n        n = int(x / tens)\n"))
R("C26", N, "to_precision", '''
    def to_precision(x, p):
        import math
        if math.isnan(x):
            return "NaN"
        x = float(x)
        if x == 0.:
            return "0." + "0"*(p-1)
        digits, _, e = ("%.*e" % (p - 1, abs(x))).partition("e")
        e, m, sign = int(e), digits.replace(".", ""), "-" if x < 0 else ""
        if e < -2 or e >= p:
            return sign + m[0] + ("." + m[1:] if p > 1 else "") + "e" + ("+" if e > 0 else "") + str(e)
        if e == p - 1:
            return sign + m
        if e >= 0:
            return sign + m[:e + 1] + "." + m[e + 1:]
        return sign + "0." + "0" * -(e + 1) + m
''')
E("C26", N, ("    if e < -2 or e >= p:\n        out.append(m[0])", "    if not -3 < e < p:\n        out.append(m[0])"),
            ("        out.append(m[:e+1])\n        if e+1 < len(m):\n            out.append(\".\")\n            out.extend(m[e+1:])\n",
             "        whole, rest = m[:e + 1], m[e + 1:]\n        out.append(whole)\n        if rest:\n            out.append(\".\" + rest)\n"))

# ---------------------------------------------------------------- plots and files
R("C28", N, "set_axes_equal", """
    def set_axes_equal(ax):
        ranges = [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
        half = max(abs(b - a) for a, b in ranges) / 2
        middle = [(a + b) / 2 for a, b in ranges]
        set_axes_radius(ax, middle, half)
    """)
R("C28", N, "set_axes_equal", """
    def set_axes_equal(ax):
        lo = np.array([ax.get_xlim3d()[0], ax.get_ylim3d()[0], ax.get_zlim3d()[0]])
        hi = np.array([ax.get_xlim3d()[1], ax.get_ylim3d()[1], ax.get_zlim3d()[1]])
        radius = np.abs(hi - lo).max() * 0.5
        origin = lo + (hi - lo) / 2
        ax.set_xlim3d(origin[0] - radius, origin[0] + radius)
        ax.set_ylim3d(origin[1] - radius, origin[1] + radius)
        ax.set_zlim3d(origin[2] - radius, origin[2] + radius)
    """)
R("C28", N, "set_axes_radius", """
    def set_axes_radius(ax, origin, radius):
        for set_range, middle in zip((ax.set_xlim3d, ax.set_ylim3d, ax.set_zlim3d), origin):
            set_range(middle - radius, middle + radius)
    """)
R("C28", N, "set_axes_equal", """
    def set_axes_equal(ax):
        limits = np.stack([ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()])
        origin = limits.mean(axis=1)
        extent = np.ptp(limits, axis=1)
        set_axes_radius(ax, origin, extent.max() / 2)
    """)
R("C29", N, "delete_files_with_extension", """
    def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories=False):
        import os
        paths = []
        if deleteInSubDirectories:
            for root, dirs, files in os.walk(folder):
                paths += [os.path.join(root, file) for file in files if file.endswith(extensionWithDot)]
        else:
            for file in os.listdir(folder):
                path = os.path.join(folder, file)
                if file.endswith(extensionWithDot) and not os.path.isdir(path):
                    paths.append(path)
        for path in paths:
            print('removing ' + path)
            os.remove(path)
    """)
R("C29", N, "delete_files_with_extension", """
    def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories=False):
        import os
        if deleteInSubDirectories:
            for root, dirs, files in os.walk(folder):
                for file in files:
                    if not file.endswith(extensionWithDot):
                        continue
                    path = os.path.join(root, file)
                    print(f'removing {path}')
                    os.remove(path)
            return
        for file in os.listdir(folder):
            path = os.path.join(folder, file)
            if os.path.isdir(path):
                continue
            if file.endswith(extensionWithDot):
                print('removing ' + file)
                os.unlink(path)
    """)
R("C29", N, "delete_files_with_extension", """
    def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories=False):
        from pathlib import Path
        here = Path(folder)
        for path in sorted(here.rglob("*") if deleteInSubDirectories else here.iterdir()):
            if path.name.endswith(extensionWithDot) and (path.is_symlink() and deleteInSubDirectories and not path.is_dir() or not path.is_dir()):
                print('removing', path)
                path.unlink()
    """)

# ---------------------------------------------------------------- drawings, descriptions, smoothing
E("C30 C25", O, ("""                N = 50
                stride = 2
                u = np.linspace(0, 2 * np.pi, N)
                v = np.linspace(0, np.pi, N)
                x = self.position[0] + self.D / 2 * np.outer(np.cos(u), np.sin(v))
                y = self.position[1] + self.D / 2 * np.outer(np.sin(u), np.sin(v))
                z = self.position[2] + self.D / 2 * np.outer(np.ones(np.size(u)), np.cos(v))
""", """                stride = 2
                u, v = np.meshgrid(np.linspace(0, 2 * np.pi, 50), np.linspace(0, np.pi, 50), indexing="ij")
                r = self.D / 2
                x = self.position[0] + r * np.cos(u) * np.sin(v)
                y = self.position[1] + r * np.sin(u) * np.sin(v)
                z = self.position[2] + r * np.cos(v)
"""))
E("C30 C25", O, ("""                N = 50
                stride = 2
                u = np.linspace(0, 2 * np.pi, N)
                v = np.linspace(0, np.pi, N)
                x = self.position[0] + self.D / 2 * np.outer(np.cos(u), np.sin(v))
                y = self.position[1] + self.D / 2 * np.outer(np.sin(u), np.sin(v))
                z = self.position[2] + self.D / 2 * np.outer(np.ones(np.size(u)), np.cos(v))
""", """                stride = 2
                around = np.arange(41) * (np.pi / 20)
                down = np.arange(31)[:, None] * (np.pi / 30)
                x, y, z = (c + self.D * 0.5 * e for c, e in zip(self.position, (
                    np.sin(down) * np.cos(around), np.sin(down) * np.sin(around), np.cos(down) + 0 * around)))
"""))
E("C30 C25", O, ("""                x = self.position[0]
                y = self.position[1]
                z = self.position[2]
                p = mplCircle((0, 0), self.D / 2, facecolor="silver", alpha=0.5, edgecolor="black")
                ax.add_patch(p)
                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
                pathpatch_translate(p, (x, y, z))
""", """                disc = mplCircle((0, 0), radius=0.5 * self.D, facecolor="silver", alpha=0.5, edgecolor="black")
                ax.add_patch(disc)
                pathpatch_2d_to_3d(disc, normal=self.normal)
                pathpatch_translate(disc, self.position)
"""))
E("C30 C25", O, ("""                ax.add_collection3d(Poly3DCollection([self.surfaces[0].bounds], facecolor="silver", alpha=0.5,
                                                     edgecolor="black"))
""", """                corners = [tuple(corner) for corner in self.surfaces[0].bounds]
                ax.add_collection3d(Poly3DCollection([corners + corners[:1]], facecolor="silver", alpha=0.5, edgecolor="black"))
"""))
E("C30 C25", O, ("""                        x = [surface.bounds[0, 0], surface.bounds[1, 0], surface.bounds[2, 0], surface.bounds[3, 0]]
                        y = [surface.bounds[0, 1], surface.bounds[1, 1], surface.bounds[2, 1], surface.bounds[3, 1]]
                        z = [surface.bounds[0, 2], surface.bounds[1, 2], surface.bounds[2, 2], surface.bounds[3, 2]]
                        verts = [list(zip(x, y, z))]
""", """                        x, y, z = surface.bounds.T
                        verts = [surface.bounds[::-1]]
"""))
R("C30", O, "Mirror.draw", """
    def draw(self, ax, view="3d"):
        flat_views = {"xy": 1, "tangential": 1, "xz": 2, "sagittal": 2}
        if view in flat_views:
            if self.shape != "circular_flat":
                raise ValueError("unknown shape")
            ln, = ax.plot(self.position[0], self.position[flat_views[view]], 'ok')
            return ln
        if view not in ("3d", "xyz"):
            return None
        if self.shape in ("circular_flat", "circular_concave_spherical"):
            p = mplCircle((0, 0), self.D / 2, facecolor="silver", alpha=0.5, edgecolor="black")
            ax.add_patch(p)
            pathpatch_2d_to_3d(p, z=0, normal=self.normal)
            pathpatch_translate(p, tuple(self.position))
        elif self.shape == "rectangular_flat":
            ax.add_collection3d(Poly3DCollection([self.surfaces[0].bounds], facecolor="silver", alpha=0.5, edgecolor="black"))
        elif self.shape == "circular_convex_spherical":
            N = 50
            u = np.linspace(0, 2 * np.pi, N)
            v = np.linspace(0, np.pi, N)
            ball = np.array([np.outer(np.cos(u), np.sin(v)), np.outer(np.sin(u), np.sin(v)), np.outer(np.ones(N), np.cos(v))])
            x, y, z = self.position.reshape(3, 1, 1) + self.D / 2 * ball
            ax.plot_surface(x, y, z, linewidth=1.0, cstride=2, rstride=2, alpha=0.5)
        else:
            raise ValueError("unknown shape")
    """)
R("C31", O, "Ray.__repr__", """
    def __repr__(self):
        numbers = [to_precision(c, 5) for v in (self.position, self.direction) for c in v]
        return "Ray ({}, {}, {}),  ({}, {}, {})".format(*numbers)
    """)
R("C31", O, "Detector.__repr__", """
    def __repr__(self):
        p, n = self.position, self.normal
        return f"Detector ({to_precision(p[0], 5)}, {to_precision(p[1], 5)}, {to_precision(p[2], 5)}), " \\
               f" ({to_precision(n[0], 5)}, {to_precision(n[1], 5)}, {to_precision(n[2], 5)})"
    """)
R("C31", O, "Lens.__repr__", """
    def __repr__(self):
        parts = [self.position] + ([self.normal] if self.normal is not None else [])
        return "Lens " + ",  ".join("(" + ", ".join(to_precision(c, 5) for c in part) + ")" for part in parts)
    """)
R("C31", O, "Grating.__repr__", """
    def __repr__(self):
        text = "Grating (%s, %s, %s),  (%s, %s, %s)"
        return text % tuple(to_precision(c, 6) for c in list(self.position) + list(self.normal))
    """)
R("C31", O, "Ray.__repr__", """
    def __repr__(self):
        return "Ray (%.4e, %.4e, %.4e),  (%.4e, %.4e, %.4e)" % (*self.position, *self.direction)
    """)
E("C32", N, ("    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])\n"
             "    m = np.linalg.pinv(b).A[deriv] * rate**deriv * factorial(deriv)\n",
             "    b = np.array([[float(k)**i for i in order_range] for k in range(-half_window, half_window+1)])\n"
             "    m = factorial(deriv) * rate**deriv * np.linalg.pinv(b)[deriv]\n"))
E("C32", N, ("    b = np.mat([[k**i for i in order_range] for k in range(-half_window, half_window+1)])\n"
             "    m = np.linalg.pinv(b).A[deriv] * rate**deriv * factorial(deriv)\n",
             "    k = np.arange(-half_window, half_window + 1.0)\n    b = np.vander(k, order + 1, increasing=True)\n"
             "    target = np.zeros(order + 1)\n    target[deriv] = factorial(deriv) * rate**deriv\n"
             "    m = b @ np.linalg.solve(b.T @ b, target)\n"))
E("C32", N, ("    return np.convolve( m[::-1], y, mode='valid')\n", "    return np.correlate(y, m, mode='valid')\n"))
E("C32", N, ("    return np.convolve( m[::-1], y, mode='valid')\n",
             "    return np.array([np.dot(m, y[i:i + window_size]) for i in range(len(y) - window_size + 1)])\n"))
E("C32", N, ("    firstvals = y[0] - np.abs( y[1:half_window+1][::-1] - y[0] )\n    lastvals = y[-1] + np.abs(y[-half_window-1:-1][::-1] - y[-1])\n    y = np.concatenate((firstvals, y, lastvals))\n",
             "    left = y[half_window:0:-1]\n    right = y[-2:-half_window-2:-1]\n    y = np.r_[y[0] - np.abs(left - y[0]), y, y[-1] + np.abs(right - y[-1])]\n"))
R("C33", N, "find_nearest", """
    def find_nearest(array, value):
        distance = np.abs(np.subtract(array, value))
        best = int(np.argmin(distance))
        return best, array[best]
    """)
R("C33", N, "find_nearest", """
    def find_nearest(array, value):
        best = 0
        for i in range(1, len(array)):
            if abs(array[i] - value) < abs(array[best] - value):
                best = i
        return best, array[best]
    """)
R("C33", N, "find_nearest", """
    def find_nearest(array, value):
        import numpy as np
        idx = ((array - value) ** 2).argmin()
        return idx, array[idx]
    """)
R("C33", N, "movingAverageFast", """
    def movingAverageFast(x, N):
        import numpy as np
        return np.convolve(x, np.full(N, 1 / N), mode='same')
    """)
R("C33", N, "movingAverageFast", """
    def movingAverageFast(x, N):
        import numpy as np
        sums = np.cumsum(np.concatenate([np.zeros(N // 2 + 1), x, np.zeros((N - 1) // 2)]))
        return (sums[N:] - sums[:-N]) / N
    """)
