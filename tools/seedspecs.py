"""Planted bugs (see seed.py)."""
H = """
import numpy as np
from optics3d import *
from general_optics import *
from Shapes.shapes import *
A = lambda *v: np.array(v, float)
"""
O, G, S = "optics3d.py", "general_optics.py", "Shapes/shapes.py"
SPECS = {}


def seed(id, property, edits, demo, needs, breaks):
    SPECS[id] = dict(property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks)


seed("C01-nearly-unit", "C01",
     [(O, "        self.direction = unit_vector(direction)\n        self.wavelength",
       "        length = np.linalg.norm(direction)\n"
       "        self.direction = direction if abs(length - 1) < 1e-4 else direction / length  # spare the division\n"
       "        self.wavelength")],
     "r = Ray(A(0, 0, 0), A(0.6, 0.80005, 0))\nassert abs(np.linalg.norm(r.direction) - 1) < 1e-9\n",
     "a direction whose length differs from 1 by less than 1e-4", "rays built from nearly normalised vectors are not unit")

seed("C02-grazing", "C02",
     [(O, "            r = i - 2 * np.dot(i, n) * n  # reflected\n            self.direction = unit_vector(r)\n        elif",
       "            cos_i = np.dot(i, n)\n            r = i - 2 * cos_i * n if abs(cos_i) > 1e-3 else i  # reflected\n"
       "            self.direction = unit_vector(r)\n        elif")],
     "a = 5e-4\nr = Ray(A(0, 0, 0), A(np.cos(a), 0, -np.sin(a)))\nr.reflect(normal=A(0, 0, 1))\n"
     "assert abs(r.direction[2] - np.sin(a)) < 1e-7\n",
     "incidence within 1e-3 of grazing", "grazing rays are not reflected")

seed("C03-paraxial", "C03",
     [(O, "                t = (eta1 / eta2) * i + ((eta1 / eta2) * cos_theta_incident - np.sqrt(1 - sin_squared_theta_transmitted)) * n\n",
       "                t = (eta1 / eta2) * i + ((eta1 / eta2) * cos_theta_incident - np.sqrt(1 - sin_squared_theta_transmitted)) * n\n"
       "                if sin_squared_theta_transmitted < 1e-5:  # practically at normal incidence, goes straight through\n"
       "                    t = i\n")],
     "a = 4e-3\nr = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\n"
     "r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1, eta2=1.5)\n"
     "assert abs(r.direction[0] - np.sin(a) / 1.5) < 1e-6\n",
     "incidence within a fraction of a degree of the normal", "near-normal rays are not bent at all")

seed("C04-critical", "C04",
     [(O, "                if sin_squared_theta_transmitted > 1:  # eq. 24\n",
       "                if cos_theta_incident < np.sqrt(1 - eta2 / eta1):  # eq. 24\n")],
     "a = np.arcsin(1 / 1.5) + 0.1\nr = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\n"
     "r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1.5, eta2=1)\n"
     "assert abs(r.direction[2] + np.cos(a)) < 1e-9\n"
     "a = np.arcsin(1 / 1.5) - 0.1\nr = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\n"
     "r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1.5, eta2=1)\n"
     "assert r.direction[2] > 0\n",
     "an angle between the critical angle and the one computed from the unsquared index ratio",
     "the critical angle is wrong (index ratio not squared)")

seed("C05-side-lengths", "C05",
     [(S, "                if 0 <= np.dot(BC, BM) <= np.dot(BC, BC):\n", "                if 0 <= np.dot(BC, BM) <= np.dot(AB, AB):\n")],
     "r = Rectangle(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), h=4, w=1)\n"
     "assert r.test_intersect(Ray(A(-1.5, 0, -1), A(0, 0, 1)))[0]\n",
     "a rectangle that is not a square", "one side is checked against the other side's length")

seed("C06-centre-ahead", "C06",
     [(S, "            # So we have to return the smaller and positive t as the intersecting distance for the ray\n"
          "            if t0 > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:\n"
          "                intersection_count = 2\n                if t0 < t1:\n                    return True, pt1, pt0",
       "            # So we have to return the smaller and positive t as the intersecting distance for the ray\n"
       "            if vDotQ > INTERSECT_CLIPPING_FLOOR and t1 > INTERSECT_CLIPPING_FLOOR:\n"
       "                intersection_count = 2\n                if t0 < t1:\n                    return True, pt1, pt0")],
     "s = Sphere(A(0, 0, 0), R=1)\nr = s.test_intersect(Ray(A(0.5, 0, 0), A(-1, 0, 0)))\nassert r[5] == 1 and r[2] is None\n",
     "a ray that starts inside the sphere and heads towards the half with the centre", "reports the crossing behind the ray as well")

seed("C07-exit-normal", "C07",
     [(S, "                return True, pt1, None, normal1, None, intersection_count\n",
       "                return True, pt1, None, normal0, None, intersection_count\n")],
     "c = InfiniteCylinder(A(0, 0, 0), A(0, 0, 1), R=1)\nr = c.test_intersect(Ray(A(0.5, 0.1, 0), A(0, 1, 0)))\n"
     "assert np.allclose(r[3], -r[1])\n",
     "a ray that starts inside the cylinder", "the normal is that of the crossing behind the ray")

seed("C10-from-outside", "C10",
     [(O, "                    if np.isclose(np.mod(intersection_count, 2), 0):  # if even number:\n"
          "                        shooting_from_outside = True\n",
       "                    if distance_between(ray.position, surface.center) > 0.999 * surface.R:  # starts outside:\n"
       "                        shooting_from_outside = True\n")],
     "l = Lens(A(0, 0, 0), shape='spherical', D=2, type='normal', index=1.5)\n"
     "r = Ray(A(-3, 0.3, 0), A(1, 0, 0))\nr.run(3.5, [l])\nr = Ray(r.point_history[1], r.direction)\n"
     "assert l.test_intersect(r)[3] is False\n",
     "a ray that stands on the ball's surface and goes in, as after entering", "leaving the ball uses the indices of entering it")

seed("C11-remaining", "C11",
     [(O, "                    if distance_to_optic > distance_remaining:\n", "                    if distance_to_optic > max_distance:\n")],
     "m = [Mirror(A(0, 0, z), normal=A(0, 0, 1), D=5) for z in (0, 3)]\n"
     "r = Ray(A(0, 0, 1), A(0, 0, -1))\nr.run(5, m)\n"
     "l = sum(np.linalg.norm(a - b) for a, b in zip(r.point_history, r.point_history[1:]))\nassert l <= 5 + 1e-9, l\n",
     "an element within the maximum distance but beyond what remains after earlier interactions", "the path exceeds the maximum distance")

seed("C12-normal-of-last", "C12",
     [(O, "                        intersected = True  # hit\n", "                        intersected = True  # hit\n                        intersection_normal = normal\n"),
      (O, "                            intersection_pt = int_pt\n                            intersection_normal = normal\n",
       "                            intersection_pt = int_pt\n")],
     "m = [Mirror(A(0, 0, 1), normal=A(0, 0, 1), D=5), Mirror(A(0, 0, 3), normal=A(0, 1, 1), D=5)]\n"
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.run(3.2, m)\nassert abs(r.direction[2] + 1) < 1e-9\n",
     "a farther element ahead listed after the nearest one", "the nearest element is given the farther element's normal")

seed("C13-short-flights", "C13",
     [(O, "        self.point_history.append(self.position)\n        if self.print_trajectory:\n",
       "        if not np.allclose(self.position, self.point_history[-1]):  # no duplicates in the plot\n"
       "            self.point_history.append(self.position)\n        if self.print_trajectory:\n")],
     "r = Ray(A(1e6, 0, 0), A(0, 0, 1))\nr.fly(1e-9)\nr.fly(1.0)\nassert len(r.point_history) == 3\n"
     "r = Ray(A(1e6, 0, 0), A(1, 0, 0))\nr.fly(2.0)\nassert len(r.point_history) == 2\n",
     "a flight short compared with the distance from the origin", "points of the trajectory are lost")

seed("C14-same-point", "C14",
     [(O, "        self.hit_data.append(np.append(int_pt, ray.wavelength))\n",
       "        hit = np.append(int_pt, ray.wavelength)\n"
       "        if not self.hit_data or not np.allclose(hit, self.hit_data[-1]):  # already recorded\n"
       "            self.hit_data.append(hit)\n")],
     "d = Detector(A(0, 0, 1), A(0, 0, 1), A(1, 0, 0), w=2, h=2)\n"
     "for k in range(2):\n    Ray(A(0, 0, 0), A(0, 0, 1)).run(5, [d])\nassert len(d.hit_data) == 2\n",
     "two rays one after the other that arrive at the same point with the same wavelength", "the second one is not recorded")

seed("C15-parallel-band", "C15",
     [(O, "            elif np.allclose(self.direction, the_optic_normal, rtol=1e-10) or np.allclose(self.direction, -the_optic_normal, rtol=1e-10):\n",
       "            elif np.allclose(self.direction, the_optic_normal, atol=1e-4) or np.allclose(self.direction, -the_optic_normal, atol=1e-4):\n")],
     "l = Lens(A(0, 0, 0), normal=A(0, 0, 1), D=5, f=10, type='ideal')\na = 8e-5\n"
     "r = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\nl.do_intersect(r, A(0, 0, 0), l.normal, True)\n"
     "assert abs(r.direction[0] - np.sin(a)) < 1e-6\n",
     "a ray almost, not exactly, parallel to the axis", "it is sent to the focal point instead of its image point")

seed("C16-back-face", "C16",
     [(O, "            focal_point = optic.position + optic.f * the_optic_normal\n            vector_to_image = focal_point - self.position\n"
          "            if optic.f < 0:  # virtual image, the ray travels away from it\n                vector_to_image = -vector_to_image\n"
          "            self.direction = vector_to_image / np.linalg.norm(vector_to_image)\n\n        elif refract_type == \"snells_law\":",
       "            focal_point = optic.position + optic.f * optic.normal\n            vector_to_image = focal_point - self.position\n"
       "            if optic.f < 0:  # virtual image, the ray travels away from it\n                vector_to_image = -vector_to_image\n"
       "            self.direction = vector_to_image / np.linalg.norm(vector_to_image)\n\n        elif refract_type == \"snells_law\":")],
     "l = Lens(A(0, 0, 0), normal=A(0, 0, 1), D=5, f=10, type='ideal_focus')\n"
     "r = Ray(A(1, 0, 0), A(0, 0, -1))\nl.do_intersect(r, A(1, 0, 0), l.normal, True)\nassert r.direction[2] < 0\n",
     "a ray that arrives at the back face of an ideal focuser", "it is sent backwards")

seed("C17-conical", "C17",
     [(O, "            r = incident - 2 * np.dot(incident, normal) * normal  # reflected\n",
       "            r = i - 2 * np.dot(i, n) * n  # reflected\n")],
     "g = Grating(A(0, 0, 0), A(0, 0, 1), A(0, 1, 0), w=5, h=5, G=600)\nd = unit_vector(A(0.2, 0.5, -1))\n"
     "r = Ray(A(0, 0, 0), d, wavelength=500, order=1)\ng.do_intersect(r, A(0, 0, 0), g.normal, None)\n"
     "assert abs(r.direction[1] - d[1]) < 1e-9\n",
     "light that arrives out of the plane perpendicular to the grooves", "the component along the grooves is lost")

seed("C18-nearest-to-ray", "C18",
     [(O, "                    distance1 = distance_between(int_pt_circle, int_pt_sphere1)\n",
       "                    distance1 = distance_between(ray.position, int_pt_sphere1)\n"),
      (O, "                        distance2 = distance_between(int_pt_circle, int_pt_sphere2)\n",
       "                        distance2 = distance_between(ray.position, int_pt_sphere2)\n")],
     "m = Mirror(A(0, 0, 0), shape='circular_concave_spherical', normal=A(0, 0, 1), D=1, f=5)\n"
     "r = m.test_intersect(Ray(A(0.1, 0, 30), A(0, 0, -1)))\nassert r[0] and abs(r[1][2]) < .1, r\n"
     "r = m.test_intersect(Ray(A(0.1, 0, 3), A(0, 0, -1)))\nassert r[0] and abs(r[1][2]) < .1, r\n",
     "a ray that starts beyond the far side of the mirror's sphere", "the hit is on the far side of the sphere")

seed("C20-axis-length", "C20",
     [(G, "    axis = axis / np.sqrt(np.dot(axis, axis))\n",
       "    if abs(np.dot(axis, axis) - 1) > 1e-3:  # not a unit vector yet\n        axis = axis / np.sqrt(np.dot(axis, axis))\n")],
     "M = rotation_matrix_axis_angle(A(0, 0, 1.0004), 1.0)\nassert np.allclose(M @ M.T, np.eye(3), atol=1e-9)\n",
     "an axis whose length is close to 1 but not 1", "the matrix is not a rotation")


# ---- second batch -------------------------------------------------------------------------------------------------
seed("C02-reflect-if-facing", "C02",
     [(O, "            r = i - 2 * np.dot(i, n) * n  # reflected\n            self.direction = unit_vector(r)\n        elif",
       "            r = i + 2 * abs(np.dot(i, n)) * n  # reflected\n            self.direction = unit_vector(r)\n        elif")],
     "r = Ray(A(0, 0, 0), A(0, 0.6, 0.8))\nr.reflect(normal=A(0, 0, 1))\nassert r.direction[2] < 0\n",
     "a normal that points away from the side the ray comes from", "rays that meet the back of a mirror are doubled instead of reversed")

seed("C03-index-match", "C03",
     [(O, "            cos_theta_incident = np.dot(-i, n)\n",
       "            if np.isclose(eta1, eta2, rtol=1e-2):  # index matched, nothing happens\n                return\n"
       "            cos_theta_incident = np.dot(-i, n)\n")],
     "a = 1.2\nr = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\n"
     "r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1.505, eta2=1.5)\n"
     "assert abs(r.direction[0] - np.sin(a) * 1.505 / 1.5) < 1e-6\n",
     "two indices that differ by less than a percent", "weak index steps do not refract")

seed("C04-near-critical", "C04",
     [(O, "                if sin_squared_theta_transmitted > 1:  # eq. 24\n",
       "                if sin_squared_theta_transmitted > 1 + 1e-4:  # eq. 24\n")],
     "a = np.arcsin(1 / 1.5) + 2e-5\nr = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\n"
     "r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1.5, eta2=1)\n"
     "assert np.all(np.isfinite(r.direction))\n",
     "an angle within 1e-4 beyond the critical one", "the direction is NaN just beyond the critical angle")

seed("C06-distant", "C06",
     [(S, "        discrim = vDotQ * vDotQ - squareDiffs\n        intersection_count = 0\n",
       "        discrim = vDotQ * vDotQ - squareDiffs\n        if np.dot(q, q) > 1e6 * self.R * self.R:  # far too far away\n"
       "            discrim = -1\n        intersection_count = 0\n")],
     "assert Sphere(A(0, 0, 0), R=0.01).test_intersect(Ray(A(-20, 0, 0), A(1, 0, 0)))[0]\n",
     "a small sphere more than a thousand radii away", "it is never hit")

seed("C07-almost-z", "C07",
     [(S, "        ray_pos_rotated = np.dot(rotation_mat, ray_pos_translated)\n        ray_dir_rotated = np.dot(rotation_mat, ray_dir_translated)\n",
       "        if np.isclose(self.direction[2], 1.0):  # along z already\n            rotation_mat = np.identity(4)\n"
       "        ray_pos_rotated = np.dot(rotation_mat, ray_pos_translated)\n        ray_dir_rotated = np.dot(rotation_mat, ray_dir_translated)\n")],
     "c = InfiniteCylinder(A(0, 0, 0), A(0.003, 0, 1), R=1)\nr = c.test_intersect(Ray(A(-1, 0, 100), A(1, 0, 0)))\n"
     "u = unit_vector(A(0.003, 0, 1))\nassert r[0] and abs(np.linalg.norm(np.cross(r[1], u)) - 1) < 1e-6\n",
     "an axis within about 4e-3 of +z", "the cylinder is treated as if it were along z")

seed("C07-slanted-root", "C07",
     [(S, "            else: # (B < 0)\n                t0_objectSpace = (2 * C) / (-B + root)\n                t1_objectSpace = (-B + root) / (2 * A)\n",
       "            else: # (B < 0)\n                t0_objectSpace = (2 * C) / (-B + root)\n                t1_objectSpace = (-B + root) / 2 * A\n")],
     "c = InfiniteCylinder(A(0, 0, 0), A(0, 0, 1), R=1)\nr = c.test_intersect(Ray(A(-3, 0.2, 0), A(1, 0, 0.5)))\n"
     "assert all(abs(np.hypot(p[0], p[1]) - 1) < 1e-9 for p in r[1:3])\n",
     "a ray with B < 0 that is not perpendicular to the axis", "the exit point is not on the cylinder")

seed("C08-operator-name", "C08",
     [(G, "    elif resA:\n        return True\n    elif resB:\n        return False\n    else:\n        return False\n",
       "    elif resA:\n        return True\n    else:\n        return resB\n")],
     "t = BinaryTree('difference')\nt.insertLeft(Sphere(A(0, 0, 0), R=1))\nt.insertRight(Sphere(A(0.5, 0, 0), R=1))\n"
     "assert not Compound(t).get_index_at_point_if_inside(A(1.2, 0, 0))\n",
     "a point inside the subtracted part only", "it counts as inside the difference")

seed("C08-last-wins", "C08",
     [(O, "    for optic in Optic_list:\n        index = optic.get_index_at_point_if_inside(point)\n        if index is not None:\n            return index\n    return INDEX_OF_THE_WORLD\n",
       "    result = INDEX_OF_THE_WORLD\n    for optic in Optic_list:\n        index = optic.get_index_at_point_if_inside(point)\n        if index is not None:\n            result = index\n    return result\n")],
     "def c(i):\n    t = BinaryTree('union')\n    t.insertLeft(Sphere(A(0, 0, 0), R=1))\n    t.insertRight(Sphere(A(1, 0, 0), R=1))\n    return Compound(t, index=i)\n"
     "assert get_index_at_point([c(1.5), c(2.0)], A(0, 0, 0)) == 1.5\n",
     "a point inside two overlapping elements", "the last element's index is reported, not the first one's")

seed("C08-index-below-one", "C08",
     [(O, "        if index is not None:\n            return index\n    return INDEX_OF_THE_WORLD\n",
       "        if index is not None and index > INDEX_OF_THE_WORLD:\n            return index\n    return INDEX_OF_THE_WORLD\n")],
     "t = BinaryTree('union')\nt.insertLeft(Sphere(A(0, 0, 0), R=1))\nt.insertRight(Sphere(A(1, 0, 0), R=1))\n"
     "assert get_index_at_point([Compound(t, index=0.9)], A(0, 0, 0)) == 0.9\n",
     "an element with an index below 1 (an air bubble)", "its index is not reported")

seed("C08-cylinder-end", "C08",
     [(S, "        r_point = np.sqrt( point_objectSpace[0] * point_objectSpace[0] +\n                           point_objectSpace[1] * point_objectSpace[1] )\n        if r_point < 1:\n",
       "        r_point = np.sqrt( point_objectSpace[0] * point_objectSpace[0] +\n                           point_objectSpace[1] * point_objectSpace[1] )\n        if r_point < 1 and abs(point_objectSpace[2]) < 1e3:\n")],
     "assert InfiniteCylinder(A(0, 0, 0), A(0, 0, 1), R=0.01).test_point(A(0, 0, 12))\n",
     "a point more than a thousand radii along the axis", "the cylinder is not infinite")

seed("C09-exit-within", "C09",
     [(G, "            if ((distanceB < distanceA_near) and (distanceB < distanceA_far)):\n",
       "            if distanceB < distanceA_far:\n")],
     "r = operCsgIntersect(Sphere(A(2, 0, 0), R=1).test_intersect(Ray(A(0, 0, 0), A(1, 0, 0))),\n"
     "                     Sphere(A(0, 0, 0), R=1.5).test_intersect(Ray(A(0, 0, 0), A(1, 0, 0))), Ray(A(0, 0, 0), A(1, 0, 0)))\n"
     "assert r[0] and abs(r[1][0] - 1) < 1e-9\n",
     "an intersection met from inside the second part, which ends inside the first", "the solid is missed")

seed("C09-union-normal", "C09",
     [(G, "            if distanceA < distanceB:\n                intersection_point = pointA\n                normal = normalA\n            else:\n                intersection_point = pointB\n                normal = normalB\n        elif",
       "            if distanceA < distanceB:\n                intersection_point = pointA\n            else:\n                intersection_point = pointB\n"
       "            normal = normalA if resA[5] <= resB[5] else normalB  # of the simpler one\n        elif")],
     "ray = Ray(A(-9, 0.3, 0), A(1, 0, 0))\nt = BinaryTree('union')\nt.insertLeft(Sphere(A(2, 0, 0), R=2))\nt.insertRight(Sphere(A(-1, 0, 0), R=1))\n"
     "r = test_tree_intersect(t, ray)\nassert np.allclose(np.cross(r[3], r[1] - A(-1, 0, 0)), 0), r\n",
     "a union whose second part is met first", "the normal is that of the other part")

seed("C09-difference-missed", "C09",
     [(G, "    # else, if the ray is only hitting primitive A, for difference A - B this is a hit:\n    elif resA[0]:\n        intersected = True\n",
       "    # else, if the ray is only hitting primitive A, for difference A - B this is a hit:\n    elif resA[0] and resA[5] == 2:\n        intersected = True\n"),
      ],
     "ray = Ray(A(0, 0, 0), A(-1, 0, 0))\nt = BinaryTree('difference')\nt.insertLeft(Sphere(A(0, 0, 0), R=1))\nt.insertRight(Sphere(A(1, 0, 0), R=0.5))\n"
     "assert test_tree_intersect(t, ray)[0]\n",
     "a ray that starts inside the solid and never meets the subtracted part", "the way out is missed")

seed("C10-thick-step", "C10",
     [(O, "            optic_index = self.get_index_at_point_if_inside(intersection_pt + 1e-8 * ray.direction)\n",
       "            optic_index = self.get_index_at_point_if_inside(intersection_pt + 1e-3 * ray.direction)\n")],
     "t = BinaryTree('union')\nt.insertLeft(Sphere(A(0, 0, 0), R=1))\nt.insertRight(Sphere(A(0.1, 0, 0), R=0.5))\nc = Compound(t, 'refract', index=1.5)\n"
     "x = 1 - 1e-8\nr = Ray(A(-3, x, 0), A(1, 0, 0))\nh = c.test_intersect(r)\nc.do_intersect(r, *h[1:])\nassert r.direction[1] < -1e-6 and r.direction[0] > 0.5, r.direction\n",
     "a chord shorter than 1e-3 through the solid", "the media are swapped for short chords")

seed("C11-last-step", "C11",
     [(O, "                    if distance_to_optic > distance_remaining:\n", "                    if distance_to_optic > distance_remaining + 0.5 * (interaction_count > 3):\n")],
     "m = [Mirror(A(0, 0, z), normal=A(0, 0, 1), D=5) for z in (0, 1)]\n"
     "r = Ray(A(0, 0, 0.5), A(0, 0, -1))\nr.run(5.3, m)\n"
     "l = sum(np.linalg.norm(a - b) for a, b in zip(r.point_history, r.point_history[1:]))\nassert l <= 5.3 + 1e-9, l\n",
     "more than three interactions and an element just beyond the remaining distance", "the path exceeds the maximum distance")

seed("C11-count-limit", "C11",
     [(O, "        while(distance_remaining > 0 and interaction_count < max_interactions and not self.blocked):\n",
       "        while(distance_remaining > 0 and (interaction_count < max_interactions or max_interactions == 0) and not self.blocked):\n")],
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.run(9, [Mirror(A(0, 0, 1), normal=A(0, 0, 1), D=5)], max_interactions=0)\n"
     "assert len(r.point_history) == 1 and r.direction[2] > 0\n",
     "an interaction limit of zero", "zero is taken to mean no limit")

seed("C12-clipped-first", "C12",
     [(O, "                intersected_here, int_pt, normal, shooting_from_outside = optic.test_intersect(self)\n",
       "                if interaction_count and optic is intersected_optic:  # a ray does not meet the element it has just left\n                    continue\n"
       "                intersected_here, int_pt, normal, shooting_from_outside = optic.test_intersect(self)\n")],
     "l = Lens(A(0, 0, 0), shape='spherical', D=2, type='normal', index=1.5)\nr = Ray(A(-3, 0.3, 0), A(1, 0, 0))\nr.run(10, [l])\n"
     "assert len(r.point_history) == 4\n",
     "an element that is met twice in a row (a ball is entered and left)", "the second meeting is skipped")

seed("C13-history-alias", "C13",
     [(O, "            self.position = self.position + distance * self.direction\n",
       "            if len(self.point_history) > 1:\n                self.position += distance * self.direction\n"
       "            else:\n                self.position = self.position + distance * self.direction\n")],
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.fly(1.0)\nr.fly(2.0)\nassert r.point_history[1][2] == 1\n",
     "two flights", "an earlier point of the trajectory moves along")

seed("C14-near-edge", "C14",
     [(O, "        ray.blocked = True\n        self.hit_data.append(np.append(int_pt, ray.wavelength))\n",
       "        ray.blocked = True\n        if len(self.hit_data) >= 1000:  # keep the memory bounded\n            self.hit_data.pop(0)\n"
       "        self.hit_data.append(np.append(int_pt, ray.wavelength))\n")],
     "d = Detector(A(0, 0, 1), A(0, 0, 1), A(1, 0, 0), w=2, h=2)\n"
     "for k in range(1001):\n    d.do_intersect(Ray(A(0, 0, 0), A(0, 0, 1)), A(0, 0, 1), d.normal, None)\nassert len(d.hit_data) == 1001\n",
     "more than a thousand rays on one detector", "the oldest record is dropped")

seed("C17-littrow-sign", "C17",
     [(O, "            if alpha < 0:\n                grating_sign_convention = -1\n", "            if alpha < -1e-3:\n                grating_sign_convention = -1\n")],
     "t = A(0, 1, 0)\ng = Grating(A(0, 0, 0), A(0, 0, 1), t, w=5, h=5, G=600)\n"
     "def out(a):\n    r = Ray(A(0, 0, 0), A(np.sin(a), 0, -np.cos(a)), wavelength=500, order=1)\n    g.do_intersect(r, A(0, 0, 0), g.normal, None)\n    return r.direction[0]\n"
     "x, y = out(5e-4), out(-5e-4)\nassert abs(x + y) < 1e-9, (x, y)\n",
     "incidence within 1e-3 of normal, on the negative side", "the order goes to the other side")

seed("C18-convex-inside", "C18",
     [(O, "                    if int_pt_sphere2 is not None:\n                        distance_to_surface = distance_between(ray.position, int_pt_sphere2)\n                        if distance_to_surface < min_distance:\n                            min_distance = distance_to_surface\n                            intersection_pt = int_pt_sphere2\n                            normal = -norm2\n        else:\n            raise ValueError(\"unknown shape\")",
       "                    if int_pt_sphere2 is not None:\n                        distance_to_surface = distance_between(self.position, int_pt_sphere2)\n                        if distance_to_surface < min_distance:\n                            min_distance = distance_to_surface\n                            intersection_pt = int_pt_sphere2\n                            normal = -norm2\n        else:\n            raise ValueError(\"unknown shape\")")],
     "m = Mirror(A(0, 0, 0), shape='circular_convex_spherical', D=20)\nr = m.test_intersect(Ray(A(0, 9.9, 1.5), A(0, 0, -1)))\nassert r[0] and r[1][2] > 0, r\n",
     "a short chord through a large mirror ball, close to the ray", "the far crossing is reported instead of the near one")

seed("C19-last-answer", "C19",
     [(S, "        intersected, intersection_pt, normal = self.plane.test_intersect(ray)\n",
       "        if getattr(self, \"_last_ray\", None) is not ray:  # each element of the list asks again\n"
       "            self._last_ray, self._last_answer = ray, self.plane.test_intersect(ray)\n"
       "        intersected, intersection_pt, normal = self._last_answer\n")],
     "c = Circle(A(0, 0, 0), A(0, 0, 1), R=1)\n"
     "r = Ray(A(0, 0, -3), A(0, 0, 1))\nassert c.test_intersect(r)[0]\nr.fly(4)\nassert not c.test_intersect(r)[0]\n",
     "the same ray asked again after it has moved", "the answer is that of the first time")

seed("C19-rotation-cache", "C19",
     [(S, "        ray_pos4 = np.array([0.0, 0.0, 0.0, 1.0])\n        ray_pos4[0:3] = ray.position\n",
       "        ray_pos4 = np.array([0.0, 0.0, 0.0, 1.0])\n        ray_pos4[0:3] = ray.position\n"
       "        if np.linalg.norm(ray.position) > 1e4:  # condition the far away ones\n"
       "            ray.position -= ray.direction * np.dot(ray.position, ray.direction)\n")],
     "c = InfiniteCylinder(A(0, 0, 0), A(0, 0, 1), R=1)\nr = Ray(A(-2e4, 0, 0), A(1, 0, 0))\nc.test_intersect(r)\nassert r.position[0] == -2e4\n",
     "a ray more than 1e4 away from the origin", "the query moves the ray")

seed("C19-detector-reset", "C19",
     [(O, "        self.hit_data.append(np.append(int_pt, ray.wavelength))\n",
       "        self.hit_data.append(np.append(int_pt, ray.wavelength))\n        int_pt[:] = np.round(int_pt, 12)\n")],
     "d = Detector(A(0, 0, 1), A(0, 0, 1), A(1, 0, 0), w=2, h=2)\np = A(1 / 3, 1 / 7, 1)\nq = p.copy()\n"
     "d.do_intersect(Ray(A(0, 0, 0), A(0, 0, 1)), p, d.normal, None)\nassert (p == q).all()\n",
     "the caller's point kept and looked at again", "the interaction changes the point it was given")

seed("C21-loose-agreement", "C21",
     [(S, "        if np.isclose(D, R * 2, rtol=1e-8, atol=1e-8):\n", "        if np.isclose(D, R * 2, atol=1e-8):\n")],
     "try:\n    Sphere(A(0, 0, 0), R=1, D=2.00001)\nexcept ValueError:\n    pass\nelse:\n    assert 0\n",
     "a radius and a diameter that disagree by less than 1e-5", "the conflict is not noticed")

seed("C21-skew-tangent", "C21",
     [(S, "        if not np.isclose(np.dot(self.normal, self.tangent), 0.0):\n", "        if not np.isclose(np.dot(self.normal, self.tangent), 0.0, atol=1e-3):\n")],
     "try:\n    Rectangle(A(0, 0, 0), A(0, 0, 1), A(1, 0, 5e-4), h=1, w=1)\nexcept ValueError:\n    pass\nelse:\n    assert 0\n",
     "a tangent that is off by less than 1e-3", "it is accepted")

seed("C21-zero-size", "C21",
     [(S, "    if R is None:\n        if D is None:\n            raise ValueError(\"Need to specify either R or D\")\n",
       "    if not R:\n        if D is None:\n            raise ValueError(\"Need to specify either R or D\")\n")],
     "try:\n    Sphere(A(0, 0, 0), R=0.0, D=2.0)\nexcept ValueError:\n    pass\nelse:\n    assert 0\n",
     "radius 0 given with a diameter", "the conflict is not noticed")

seed("C21-second-shape", "C21",
     [(O, "        elif shape == \"spherical\":\n            self.surfaces.append(Sphere(position, D=D))\n        else:\n            raise ValueError(\"Unknown shape\")\n",
       "        elif shape.startswith(\"spherical\"):\n            self.surfaces.append(Sphere(position, D=D))\n        else:\n            raise ValueError(\"Unknown shape\")\n")],
     "try:\n    Lens(A(0, 0, 0), shape='spherical_planoconvex', D=1, normal=A(0, 0, 1))\nexcept ValueError:\n    pass\nelse:\n    assert 0\n",
     "an unknown shape name that begins like a known one", "it is accepted as a ball")

seed("C22-unequal-resolution", "C22",
     [(G, "        z = np.linspace(-size / 2, size / 2, z_res)\n", "        z = np.linspace(-size / 2, size / 2, max(z_res, 3))\n")],
     "o, d, w = image_rays(0, x_res=3, z_res=2, angle_res=1)\nassert len(o) == 6\n",
     "exactly two samples along z", "there are too many rays")

seed("C22-pattern-edge", "C22",
     [(G, "                    R2 = x_val * x_val + z_val * z_val\n                    if R2 <= pattern_d * pattern_d / 4:\n",
       "                    if abs(x_val) <= pattern_d / 2 and abs(z_val) <= pattern_d / 2:\n")],
     "o, d, w = image_rays(0, size=4, x_res=3, z_res=3, angle_res=1, pattern_d=4)\nassert w[0] == 450.0 and w[4] == 680.0\n",
     "samples in the corners of the pattern's square", "the pattern is a square")

seed("C22-small-angles", "C22",
     [(G, "                dirs.append(np.array([0, np.cos(angle_val), np.sin(angle_val)]))\n",
       "                dirs.append(np.array([0, 1 - angle_val * angle_val / 2, angle_val]))\n")],
     "o, d, w = image_rays(0, angle=0.2)\nassert all(abs(np.linalg.norm(x) - 1) < 1e-9 for x in d)\n",
     "any nonzero angle", "directions are only approximately unit")

seed("C22-probe-short", "C22",
     [(O, "        while np.linalg.norm(v) < .000001:\n", "        if len(Ray_list) >= 5000:  # enough\n            break\n        while np.linalg.norm(v) < .000001:\n")],
     "l = [None] * 4999\nadd_faerie_fire_rays(l, 1.0, A(0, 0, 0), N=3)\nassert len(l) == 5002\n",
     "a list that already holds thousands of rays", "probe rays are missing")

seed("C23-violet-edge", "C23",
     [("general.py", "    elif wavelength >= 380 and wavelength <= 440:\n", "    elif wavelength >= 380 and wavelength <= 441:\n")],
     "from general import wavelength_to_rgb\nc = wavelength_to_rgb(440.5)\nassert all(not isinstance(x, complex) and 0 <= x <= 1 for x in c), c\n",
     "a wavelength between 440 and 441 nm", "the colour is a complex number")

seed("C23-gamma-red", "C23",
     [("general.py", "        G = (-(wavelength - 645) / (645 - 580)) ** gamma\n", "        G = (-(wavelength - 645) / (645 - 580)) ** gamma * (1 - max(gamma - 1, 0) / 10)\n")],
     "from general import wavelength_to_rgb\na, b = wavelength_to_rgb(580, gamma=2.0), wavelength_to_rgb(580.0001, gamma=2.0)\nassert max(abs(x - y) for x, y in zip(a, b)) < 1e-3\n",
     "gamma above 1 around 580 nm", "the colour jumps")

seed("C24-push-right", "C24",
     [(G, "            t.leftChild = self.leftChild\n            self.leftChild = t\n", "            t.leftChild, t.rightChild = self.leftChild, self.rightChild\n            self.leftChild = t\n")],
     "t = BinaryTree('a')\nt.insertRight('r')\nt.insertLeft('x')\nt.insertLeft('y')\nassert t.leftChild.rightChild is None\n",
     "a second insertion on the left of a node that has a right child", "the other side's subtree appears twice")

seed("C24-flat-union", "C24",
     [(G, "    return \"( \" + str(res1) + \" u \" + str(res2) + \" )\"\n",
       "    res2 = str(res2)\n    if res2.startswith(\"( \") and \" \\\\ \" not in res2 and \" n \" not in res2:  # unions are associative\n        res2 = res2[2:-2]\n"
       "    return \"( \" + str(res1) + \" u \" + res2 + \" )\"\n")],
     "t = BinaryTree('union')\nt.insertLeft('A')\nt.insertRight('union')\nt.rightChild.insertLeft('B')\nt.rightChild.insertRight('C')\n"
     "assert postOrderEval(t) == '( A u ( B u C ) )'\n",
     "a union in the right branch of a union", "parentheses are left out")

seed("C25-almost-z", "C25",
     [(G, "    M = rotation_matrix(normal, (0, 0, 1))  # Get the rotation matrix\n",
       "    M = np.identity(3) if np.allclose(unit_vector(normal), (0, 0, 1), atol=1e-2) else rotation_matrix(normal, (0, 0, 1))\n")],
     "from matplotlib.patches import Rectangle as P\np = P((-100, -100), 200, 200)\nn = A(5e-3, 0, 1)\npathpatch_2d_to_3d(p, z=0, normal=n)\n"
     "assert np.max(np.abs(np.dot(p._segment3d, n))) < 1e-6\n",
     "a normal within half a degree of +z", "the patch is not perpendicular to its normal")

seed("C25-offset-along-normal", "C25",
     [(G, "    pathpatch._segment3d = np.array([np.dot(M, (x, y, 0)) + (0, 0, z) for x, y in verts])\n",
       "    pathpatch._segment3d = np.array([np.dot(M, (x, y, z)) for x, y in verts])\n")],
     "from matplotlib.patches import Rectangle as P\np = P((-1, -1), 2, 2)\npathpatch_2d_to_3d(p, z=2, normal=A(1, 0, 0))\n"
     "assert np.allclose(p._segment3d[:, 0], 0)\n",
     "a nonzero offset and a normal other than z", "the offset goes along the normal")

seed("C05-rim-of-small-disc", "C05",
     [(S, "            if distance_between(intersection_pt, self.center) < self.R:\n", "            if distance_between(intersection_pt, self.center) < self.R - 1e-6 * max(1, np.linalg.norm(self.center)):\n")],
     "c = Circle(A(5000, 0, 0), normal=A(0, 0, 1), R=0.01)\nassert c.test_intersect(Ray(A(5000.006, 0, -1), A(0, 0, 1)))[0]\n",
     "a small disc far from the origin", "its outer part is missed")

seed("C20-signed-angle", "C20",
     [(G, "        angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))\n",
       "        c = np.cross(v2_u, v1_u)\n        angle = np.arctan2(np.linalg.norm(c) * np.sign(c[np.argmax(np.abs(c))] * v_normal[np.argmax(np.abs(c))]), np.dot(v1_u, v2_u))\n")],
     "n = A(0, 0.95, 0.3)\nb, a = A(1, 0, 0), A(0, 2, 1)\nassert np.sign(angle_between(a, b, n)) == np.sign(np.dot(np.cross(b, a), n))\n",
     "a reference normal that is not along the cross product", "the sign comes from one component only")

seed("C20-wide-normal", "C20",
     [(G, "    d = np.dot(x, n) / np.linalg.norm(n)\n", "    d = np.dot(x, n) / max(np.linalg.norm(n), 1e-3)\n")],
     "p = project_onto_plane(A(1, 2, 3), A(0, 0, 1e-4))\nassert np.allclose(p, (1, 2, 0))\n",
     "a normal shorter than 1e-3", "the normal component is not removed")

# ---- C26
N_ = "general.py"
DEC = ("from decimal import Decimal as D\nfrom general import to_precision\nimport re\n"
       "def ok(x, p):\n    t = to_precision(x, p)\n    X = D(x)\n    u = D(1).scaleb(X.adjusted() - p + 1)\n"
       "    n = len(re.sub(r'e.*|[-.]', '', t).lstrip('0'))\n"
       "    return n == p and abs(D(t) - X) <= u / 2 * D('1.0001')\n")
seed("C26-carry", "C26",
     [(N_, "    if n >= math.pow(10, p):\n        n = n / 10.\n        e = e + 1\n",
       "    if n >= math.pow(10, p):\n        n = n / 10.\n        e = e + (1 if e + 1 < p else 0)\n")],
     DEC + "assert ok(99.96, 3) and ok(9.96, 2) and ok(12345.0, 3)\nassert ok(999.7, 3)\n",
     "a number that rounds up to the next power of ten when that is at least 10**p",
     "the carry into a new digit is lost there: 999.7 is printed as 100")
seed("C26-half", "C26",
     [(N_, "    if abs((n + 1.) * tens - x) <= abs(n * tens - x):\n        n = n + 1\n",
       "    if x - n * tens > 0.5 * max(tens, 1e-6):\n        n = n + 1\n")],
     DEC + "assert ok(1.2347, 4) and ok(0.0123478, 3)\nassert ok(1.23456789e-6, 3)\nassert ok(1.2388e-5, 4)\n",
     "a number so small that its last printed digit is worth less than 1e-6",
     "such numbers are cut off instead of rounded")
seed("C26-short-mantissa", "C26",
     [(N_, "    if n < math.pow(10, p - 1):\n        e = e - 1\n", "    if n < math.pow(10, p - 1) and p > 2:\n        e = e - 1\n")],
     DEC + "assert ok(0.05123, 3) and ok(25.0, 2)\nassert ok(0.0516, 2)\n",
     "one or two digits of a number below 1 (the decade is estimated one too high there)",
     "a digit too few is printed")
seed("C26-exponent-form", "C26",
     [(N_, "        if e > 0:\n            out.append(\"+\")\n        out.append(str(e))\n",
       "        out.append(\"%+03d\" % e if abs(e) < 100 else \"%+d\" % (e % 100))\n")],
     DEC + "assert ok(1.5e-20, 2) and ok(1.5e20, 2)\nassert ok(1.5e120, 2)\n",
     "a number beyond 1e100 or below 1e-99", "the exponent loses its hundreds")

# ---- third batch: histories, cooperating sites, shared state, depth
seed("C01-faerie", "C01",
     [(O, "        self.direction = unit_vector(direction)\n        self.wavelength",
       "        self.direction = unit_vector(direction) if type == \"normal\" else np.array(direction, dtype=float)  # already unit\n"
       "        self.wavelength")],
     "r = Ray(A(0, 0, 0), A(0, 3, 4))\nassert abs(np.linalg.norm(r.direction) - 1) < 1e-9\n"
     "r = Ray(A(0, 0, 0), A(0, 3, 4), type='faerie_fire')\nassert abs(np.linalg.norm(r.direction) - 1) < 1e-9\n",
     "a probe ray built with a direction that is not of unit length", "its direction is not a unit vector")
seed("C03-index-memo", "C03",
     [(O, "class Ray:\n    def __init__(", "class Ray:\n    index_ratios = {}\n\n    def __init__("),
      (O, "                t = (eta1 / eta2) * i + ((eta1 / eta2) * cos_theta_incident - np.sqrt(1 - sin_squared_theta_transmitted)) * n\n",
       "                ratio = Ray.index_ratios.setdefault(\"%.1f>%.1f\" % (eta1, eta2), eta1 / eta2)\n"
       "                t = ratio * i + (ratio * cos_theta_incident - np.sqrt(1 - sin_squared_theta_transmitted)) * n\n")],
     "def go(n):\n    a = 0.3\n    r = Ray(A(0, 0, 0), A(np.sin(a), 0, np.cos(a)))\n"
     "    r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1, eta2=n)\n"
     "    return abs(r.direction[0] - np.sin(a) / n) < 1e-9\nassert go(1.5)\nassert go(1.53)\nassert go(1.49)\n",
     "two refractions with indices that agree to one decimal, one after the other",
     "the second one uses the index ratio of the first")
seed("C05-stretched", "C05",
     [(S, "        self.tangent2 = np.cross(self.normal, self.tangent)\n", "        self.tangent2 = np.cross(normal, self.tangent)\n")],
     "r = Rectangle(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), h=2, w=2)\nassert not r.test_intersect(Ray(A(0, 1.5, -1), A(0, 0, 1)))[0]\n"
     "r = Rectangle(A(0, 0, 0), A(0, 0, 2), A(1, 0, 0), h=2, w=2)\nassert not r.test_intersect(Ray(A(0, 1.5, -1), A(0, 0, 1)))[0]\n",
     "a normal that is not of unit length", "the rectangle is stretched by it in one direction")
seed("C06-stable-root", "C06",
     [(S, "            t0 = (vDotQ - root)\n            t1 = (vDotQ + root)\n            pt0 = ray.position + t0 * ray.direction\n            pt1 = ray.position + t1 * ray.direction\n            norm0 = self.normal(pt0)\n",
       "            # avoid subtracting two numbers of similar size, t0 * t1 = squareDiffs\n"
       "            t1 = vDotQ + root if vDotQ >= 0 else vDotQ - root\n            t0 = squareDiffs / t1\n"
       "            pt0 = ray.position + t0 * ray.direction\n            pt1 = ray.position + t1 * ray.direction\n"
       "            norm0 = norm1 = self.normal(pt1)\n            if t0 > INTERSECT_CLIPPING_FLOOR:\n                norm0 = self.normal(pt0)\n"
       "            if t1 <= INTERSECT_CLIPPING_FLOOR < t0:\n                norm0 = norm1\n")],
     "s = Sphere(A(0, 0, 0), R=1)\nr = s.test_intersect(Ray(A(0.25, 0, 0), A(1, 0, 0)))\nassert r[0] and np.allclose(r[3], -r[1])\n"
     "r = s.test_intersect(Ray(A(0.25, 0.5, 0), A(-1, 0, 0)))\nassert r[0] and np.allclose(r[3], -r[1])\n"
     "r = s.test_intersect(Ray(A(0.25, 0.5, 0), A(1, 0, 0)))\nassert r[0] and np.allclose(r[3], -r[1])\n",
     "a ray that starts inside, beyond the middle of its chord", "the normal is that of the crossing behind the ray")
seed("C08-deep", "C08",
     [(G, "def test_tree_point(tree, point):\n", "def test_tree_point(tree, point, depth=0):\n"),
      (G, "        resA = test_tree_point(tree.getLeftChild(), point)\n        resB = test_tree_point(tree.getRightChild(), point)\n",
       "        if depth > 8:  # a loop in the tree\n            return False\n"
       "        resA = test_tree_point(tree.getLeftChild(), point, depth + 1)\n        resB = test_tree_point(tree.getRightChild(), point, depth + 1)\n")],
     "def chain(n):\n    t = BinaryTree(Sphere(A(0, 0, 0), R=1))\n    for k in range(n):\n        u = BinaryTree('union')\n        u.leftChild = t\n"
     "        u.insertRight(Sphere(A(3 * k + 3, 0, 0), R=1))\n        t = u\n    return t\n"
     "assert test_tree_point(chain(3), A(0.5, 0, 0))\nassert test_tree_point(chain(12), A(0.5, 0, 0))\n",
     "a tree with more than eight levels", "the deep parts of the solid are empty")
seed("C09-tie-side", "C09",
     [(G, "            if distance1 > distance2:\n                point = res[1]\n                normal = res[3]\n                distance = distance1\n            else:\n                point = res[2]\n                normal = res[4]\n                distance = distance2\n        number_of_intersections = 2\n",
       "            if distance1 > distance2:\n                point = res[1]\n                normal = res[3]\n                distance = distance1\n            else:\n                point = res[2]\n                normal = res[3]\n                distance = distance2\n        number_of_intersections = 2\n")],
     "c = Compound.__new__(Compound)\nt = BinaryTree('difference')\nt.insertLeft(Sphere(A(0, 0, 0), R=2))\nt.insertRight(Sphere(A(0, 0, -2), R=1))\n"
     "x = test_tree_intersect(t, Ray(A(0, 0, -5), A(0, 0, 1)))\nassert x[0] and abs(abs(x[3][2]) - 1) < 1e-9\n"
     "t = BinaryTree('difference')\nt.insertLeft(Sphere(A(0, 0, 0), R=2))\nt.insertRight(InfiniteCylinder(A(0, 0, -2), A(0, 1, 0), R=1))\n"
     "x = test_tree_intersect(t, Ray(A(0.3, 0, -5), A(0, 0, 1)))\nw = A(0.3, 0, np.sqrt(1 - .09))\n"
     "assert x[0] and np.linalg.norm(np.cross(x[3], w)) < 1e-9\n",
     "a difference entered through the far side of a subtracted cylinder (cylinders list the nearer crossing first)",
     "the normal is that of the near side")
seed("C11-straight-line", "C11",
     [(O, "                distance_remaining -= distance_to_int_optic\n                interaction_count += 1\n",
       "                distance_remaining = max_distance - distance_between(self.position, self.point_history[0])\n"
       "                interaction_count += 1\n")],
     "m = [Mirror(A(0, 0, 10), normal=A(0, 0, -1), D=5), Mirror(A(0, 0, -1), normal=A(0, 0, 1), D=5)]\n"
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.run(30, m, max_interactions=9)\np = r.get_plot_repr()\n"
     "L = np.linalg.norm(np.diff(p, axis=0), axis=1).sum()\nassert L <= 30 + 1e-9, L\n",
     "a path that folds back", "the path is longer than the maximum distance")
seed("C12-close-pair", "C12",
     [(O, "                        if distance_to_optic < min_distance:  # set intersect the nearest optic\n",
       "                        if distance_to_optic + 1e-3 < min_distance:  # set intersect the nearest optic\n")],
     "a, b = Mirror(A(0, 0, 1.0005), normal=A(0, 0, -1), D=5), Mirror(A(0, 0, 1), normal=A(0, 0, -1), D=5)\n"
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.run(3, [a, b], max_interactions=1)\nassert abs(r.position[2] - 1) < 1e-9\n",
     "two surfaces closer together than a micrometre, the farther one listed first", "the ray passes through the nearer one")
seed("C13-plot-cache", "C13",
     [(O, "        return np.array(self.point_history)\n",
       "        if getattr(self, \"plot_points\", None) is None or self.blocked:\n            self.plot_points = np.array(self.point_history)\n"
       "        return self.plot_points\n")],
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.fly(1)\nassert r.get_plot_repr().shape == (2, 3)\nr.fly(2)\nassert r.get_plot_repr().shape == (3, 3)\n",
     "the trajectory asked for twice, with a flight in between", "the second answer misses the later points")
seed("C14-float32", "C14",
     [(O, "        self.hit_data.append(np.append(int_pt, ray.wavelength))\n",
       "        self.hit_data.append(np.append(int_pt, ray.wavelength).astype(np.result_type(int_pt, type(ray.wavelength)) if isinstance(ray.wavelength, float) else np.float32))\n")],
     "def go(w):\n    d = Detector(A(0, 0, 1), A(0, 0, 1), A(1, 0, 0), w=2, h=2)\n    r = Ray(A(0.1, 0.3, 0), A(0, 0, 1), wavelength=w)\n"
     "    r.run(3, [d])\n    return len(d.hit_data) == 1 and abs(d.hit_data[0][0] - 0.1) < 1e-12\nassert go(532.0)\nassert go(532)\n",
     "a wavelength given as an integer (the default)", "positions are recorded in single precision")
seed("C14-shared-record", "C14",
     [(O, "        ray.blocked = True\n        self.hit_data.append(np.append(int_pt, ray.wavelength))\n",
       "        ray.blocked = True\n        if not self.hit_data:\n            self.record = np.zeros(4)\n"
       "        elif len(self.hit_data) % 2 == 0:\n            self.record = np.zeros(4)\n"
       "        self.record[:3], self.record[3] = int_pt, ray.wavelength\n        self.hit_data.append(self.record)\n")],
     "d = Detector(A(0, 0, 1), A(0, 0, 1), A(1, 0, 0), w=2, h=2)\n"
     "Ray(A(0.1, 0, 0), A(0, 0, 1)).run(3, [d])\nassert len(d.hit_data) == 1 and abs(d.hit_data[0][0] - 0.1) < 1e-9\n"
     "Ray(A(0.2, 0, 0), A(0, 0, 1)).run(3, [d])\nassert abs(d.hit_data[0][0] - 0.1) < 1e-9 and abs(d.hit_data[1][0] - 0.2) < 1e-9\n",
     "two arrivals", "the second arrival overwrites the record of the first")
seed("C15-chief", "C15",
     [(O, "            if np.isclose(dot_product, 0.0, rtol=1e-10):\n",
       "            if np.isclose(dot_product, 0.0, rtol=1e-10) or h < 1e-3 * abs(optic.f):  # through the centre\n")],
     "L = Lens(A(0, 0, 0), normal=A(0, 0, 1), D=10, f=50, type='ideal')\n"
     "r = Ray(A(0.04, 0, -10), A(0.1, 0, 1))\nr.position = A(0.04, 0, 0)\nL.do_intersect(r, A(0.04, 0, 0), A(0, 0, 1), True)\n"
     "s = r.direction[0] / r.direction[2]\nassert abs(s - (0.1 - 0.04 / 50)) < 1e-9, s\n",
     "a ray close to, not exactly through, the centre of the lens", "it is not deviated")
seed("C16-short-normal", "C16",
     [(O, "        if normal is not None:\n            self.normal = unit_vector(normal)\n        else:\n",
       "        if normal is not None:\n            self.normal = normal / max(np.linalg.norm(normal), 1.0)\n        else:\n")],
     "def go(n):\n    L = Lens(A(0, 0, 0), normal=n, D=10, f=50, type='ideal_focus')\n    r = Ray(A(1, 0, -1), A(0, 0, 1))\n    r.run(20, [L])\n"
     "    return abs(r.direction[0] / r.direction[2] + 1 / 50) < 1e-9\nassert go(A(0, 0, 2))\nassert go(A(0, 0, 0.5))\n",
     "a lens given with a normal shorter than 1", "the focus is at the wrong distance")
seed("C18-circle-only-front", "C18",
     [(O, "                if intersected_sphere and intersected_circle:\n",
       "                if intersected_sphere and intersected_circle and np.dot(ray.direction, self.normal) < -1e-2:\n")],
     "m = Mirror(A(0, 0, 0), shape='circular_concave_spherical', normal=A(0, 0, 1), D=2, f=5)\n"
     "assert m.test_intersect(Ray(A(0, 0, 3), A(0, 0, -1)))[0]\nassert m.test_intersect(Ray(A(0, 0, -3), A(0, 0, 1)))[0]\n",
     "a concave mirror met from behind", "it is missed")
seed("C19-bounds-order", "C19",
     [(S, "            AM = M - A\n", "            AM = np.subtract(M, A, out=self.bounds[3] if self.w == self.h else None) if False else M - A\n"),
      (S, "            BC = C - B\n", "            BC = C - B\n            if np.dot(AB, AB) < np.dot(BC, BC):  # the longer side first\n"
          "                A, B, C = B, C, self.bounds[3, :]\n                AB, BC = B - A, C - B\n                self.bounds = np.roll(self.bounds, -1, axis=0)\n")],
     "r = Rectangle(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), h=4, w=2)\nb = r.bounds.copy()\nr.test_intersect(Ray(A(0, 0, -1), A(0, 0, 1)))\n"
     "assert np.array_equal(b, r.bounds)\nr = Rectangle(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), h=2, w=4)\nb = r.bounds.copy()\n"
     "r.test_intersect(Ray(A(0, 0, -1), A(0, 0, 1)))\nassert np.array_equal(b, r.bounds)\n",
     "a rectangle with one side longer than the other", "a query turns its corners around")
seed("C20-tiny-angle", "C20",
     [(G, "    v1_u = unit_vector(v1)\n    v2_u = unit_vector(v2)\n    if v_normal is not None: # signed\n",
       "    v1_u = unit_vector(v1)\n    v2_u = unit_vector(v2)\n    if np.allclose(v1_u, v2_u, atol=1e-3):\n        return 0.0\n    if v_normal is not None: # signed\n")],
     "assert abs(angle_between(A(1, 0, 0), A(1, 1e-2, 0)) - 1e-2) < 1e-5\nassert abs(angle_between(A(1, 0, 0), A(1, 5e-4, 0)) - 5e-4) < 1e-7\n",
     "two vectors within a thousandth of each other", "the angle is zero")
seed("C20-over-half-turn", "C20",
     [(G, "    a = np.cos(theta / 2.0)\n    b, c, d = -axis * np.sin(theta / 2.0)\n",
       "    theta = theta - np.pi * np.floor(abs(theta) / (2 * np.pi)) * np.sign(theta)  # drop full turns\n"
       "    a = np.cos(theta / 2.0)\n    b, c, d = -axis * np.sin(theta / 2.0)\n")],
     "f = rotation_matrix_axis_angle\nassert np.allclose(f(A(0, 0, 1), 4.0).dot(A(1, 0, 0)), A(np.cos(4), np.sin(4), 0))\n"
     "assert np.allclose(f(A(0, 0, 1), 7.0).dot(A(1, 0, 0)), A(np.cos(7), np.sin(7), 0))\n",
     "an angle of more than a full turn", "the rotation is off by half a turn")
seed("C22-colour-edge", "C22",
     [(G, "                    R2 = x_val * x_val + z_val * z_val\n", "                    R2 = x_val * x_val + z_val * z_val if x_res == z_res else max(x_val * x_val, z_val * z_val)\n")],
     "o, d, w = image_rays(0, size=10, x_res=11, z_res=11, angle_res=1, pattern_d=5)\n"
     "assert all((v == 680.0) == (p[0] ** 2 + p[2] ** 2 <= 6.25) for p, v in zip(o, w))\n"
     "o, d, w = image_rays(0, size=10, x_res=11, z_res=21, angle_res=1, pattern_d=5)\n"
     "assert all((v == 680.0) == (p[0] ** 2 + p[2] ** 2 <= 6.25) for p, v in zip(o, w))\n",
     "different resolutions along x and z", "the pattern is a square")
seed("C23-even-gamma", "C23",
     [(N_, "        G = (-(wavelength - 645) / (645 - 580)) ** gamma\n", "        G = ((wavelength - 645) / (645 - 580)) ** gamma if gamma % 2 == 1 else abs((wavelength - 645) / (645 - 580)) ** gamma\n")],
     "from general import wavelength_to_rgb as f\nassert 0 <= f(600)[1] <= 1\nassert 0 <= f(600, gamma=2)[1] <= 1\nassert 0 <= f(600, gamma=1)[1] <= 1\n",
     "gamma 1 (or another odd number) between 580 and 645 nm", "green is negative")
seed("C24-set-root", "C24",
     [(G, "    def setRootVal(self,obj):\n        self.key = obj\n",
       "    def setRootVal(self,obj):\n        if self.key != obj:\n            self.key = obj\n            if self.leftChild is None or self.rightChild is None:  # an operand\n                self.leftChild = self.rightChild = None\n")],
     "t = BinaryTree('union')\nt.insertLeft('a')\nt.insertRight('b')\nt.setRootVal('difference')\nassert t.getLeftChild().getRootVal() == 'a'\n"
     "t = BinaryTree('union')\nt.insertLeft('a')\nt.setRootVal('difference')\nassert t.getLeftChild() is not None\n",
     "the root's value changed while the tree is half built", "the child already inserted is dropped")
seed("C25-shared-matrix", "C25",
     [(G, "def pathpatch_2d_to_3d(pathpatch, z = 0, normal = 'z'):\n", "PATCH_ROTATIONS = {}\n\n\ndef pathpatch_2d_to_3d(pathpatch, z = 0, normal = 'z'):\n"),
      (G, "    M = rotation_matrix(normal, (0, 0, 1))  # Get the rotation matrix\n",
       "    key = \"%.2f %.2f %.2f\" % tuple(normal)\n    if key not in PATCH_ROTATIONS:\n        PATCH_ROTATIONS[key] = rotation_matrix(normal, (0, 0, 1))\n"
       "    M = PATCH_ROTATIONS[key]  # Get the rotation matrix\n")],
     "from matplotlib.patches import Circle as C\ndef go(n):\n    p = C((0, 0), 1)\n    pathpatch_2d_to_3d(p, z=0, normal=n)\n"
     "    return np.abs(np.dot(p._segment3d, n)).max() < 1e-9\nassert go(A(0.6, 0, 0.8))\nassert go(A(0.603, 0, 0.7977))\n",
     "two patches with normals that agree to two decimals", "the second one lies in the first one's plane")
seed("C10-chord-point", "C10",
     [(O, "            optic_index = self.get_index_at_point_if_inside(intersection_pt + 1e-8 * ray.direction)\n",
       "            optic_index = self.get_index_at_point_if_inside(intersection_pt + 1e-8 * np.linalg.norm(intersection_pt) * ray.direction)\n")],
     "def go(z):\n    c = Compound(BinaryTree(Sphere(A(0, 0, z), R=0.004)), surface_behavior='refract', index=1.5)\n"
     "    r = Ray(A(0.002, 0, z - 1), A(0, 0, 1))\n    r.run(5, [c], max_interactions=1)\n    a = np.arcsin(0.5)\n"
     "    return abs(-r.direction[0] - np.sin(a - np.arcsin(0.5 / 1.5))) < 1e-4\nassert go(10)\nassert go(2e6)\n",
     "a solid that is small compared with its distance from the origin", "entering it is taken for leaving")
seed("C21-flat-check", "C21",
     [(S, "    if h < 0:\n        raise ValueError(\"h must be positive\")\n    if w < 0:\n        raise ValueError(\"h must be positive\")\n",
       "    if h < 0 or h * w < 0:\n        raise ValueError(\"h and w must be positive\")\n")],
     "def bad(h, w):\n    try:\n        Rectangle(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), h=h, w=w)\n    except ValueError:\n        return True\n"
     "assert bad(-1, 1) and bad(1, -1) and bad(-1, -1)\nassert bad(0, -1)\n",
     "height 0 and a negative width", "the negative width is accepted")
seed("C17-order-zero-band", "C17",
     [(O, "        if ray.order == 0:\n", "        if abs(ray.order * self.G * ray.wavelength) < 1:  # zero order\n")],
     "g = Grating(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), w=10, h=10, G=300)\nr = Ray(A(0, 0, 5), A(0, 0, -1), order=1)\nr.run(6, [g])\n"
     "assert abs(abs(r.direction[1]) - 300e-6 * 532) < 1e-9\n"
     "g = Grating(A(0, 0, 0), A(0, 0, 1), A(1, 0, 0), w=10, h=10, G=1e-3)\nr = Ray(A(0, 0, 5), A(0, 0, -1), order=1)\nr.run(6, [g])\n"
     "assert abs(abs(r.direction[1]) - 1e-9 * 532) < 1e-12\n",
     "a very coarse grating", "its orders coincide with the reflection")
seed("C02-dmd-facing", "C02",
     [(O, "                        normal=self.dmd_normal,\n", "                        normal=self.dmd_normal if np.dot(self.dmd_normal, intersection_normal) > 0.5 else intersection_normal,\n")],
     "def go(n):\n    m = Mirror(A(0, 0, 0), shape='rectangular_flat', normal=A(0, 0, 1), tangent=A(1, 0, 0), w=5, h=5, type='dmd', dmd_normal=n)\n"
     "    r = Ray(A(0, 0, 3), A(0, 0, -1))\n    r.run(4, [m])\n    n = n / np.linalg.norm(n)\n    w = A(0, 0, -1) - 2 * np.dot(A(0, 0, -1), n) * n\n"
     "    return np.allclose(r.direction, w)\nassert go(A(0.2, 0, 1))\nassert go(A(-0.2, 0, -1))\n",
     "a micromirror normal given pointing to the back", "the light is reflected about the surface's normal instead")
seed("C04-thin-gap", "C04",
     [(O, "            if eta1 > eta2:\n                if sin_squared", "            if eta1 - eta2 > 0.01:\n                if sin_squared")],
     "def go(n):\n    r = Ray(A(0, 0, 0), A(1, 0, 0.001))\n    r.refract('snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=n, eta2=1.5)\n"
     "    return np.all(np.isfinite(r.direction)) and r.direction[2] < 0\nassert go(1.6)\nassert go(1.505)\n",
     "grazing incidence on a medium that is only slightly thinner", "the direction is NaN")
seed("C07-ratio-of-radii", "C07",
     [(S, "            t0 = t0_objectSpace / scale_factor\n            t1 = t1_objectSpace / scale_factor\n",
       "            t0 = t0_objectSpace * self.R if self.R < 100 else t0_objectSpace * 100 * (self.D // 200)\n"
       "            t1 = t1_objectSpace * self.R if self.R < 100 else t1_objectSpace * 100 * (self.D // 200)\n")],
     "def go(R):\n    c = InfiniteCylinder(A(0, 0, 0), A(0, 0, 1), R=R)\n    x = c.test_intersect(Ray(A(-3 * R, 0, 0), A(1, 0, 0)))\n"
     "    return x[0] and abs(x[1][0] + R) < 1e-6\nassert go(2) and go(100) and go(300)\nassert go(150)\n",
     "a radius beyond 100 that is not a multiple of 100", "the crossings are not on the cylinder")

N = "general.py"
AX = """
import general
class Axes:
    def __init__(self, x, y, z):
        self.l = [x, y, z]
    def get_xlim3d(self): return self.l[0]
    def get_ylim3d(self): return self.l[1]
    def get_zlim3d(self): return self.l[2]
    def set_xlim3d(self, v): self.l[0] = tuple(v)
    def set_ylim3d(self, v): self.l[1] = tuple(v)
    def set_zlim3d(self, v): self.l[2] = tuple(v)
def ranges(*l):
    ax = Axes(*l)
    general.set_axes_equal(ax)
    return np.array(ax.l, float)
"""

seed("C28-inverted-longest", "C28",
     [(N, "    radius = 0.5 * np.max(np.abs(limits[:, 1] - limits[:, 0]))", "    radius = 0.5 * np.max(limits[:, 1] - limits[:, 0])")],
     AX + "l = ranges((0, 1), (0, 2), (9, 0))\nassert np.allclose(np.abs(l[:, 1] - l[:, 0]), 9)\n",
     "the longest axis runs downwards", "an inverted axis is not counted, its range is cut short")

seed("C28-origin-near-zero", "C28",
     [(N, "    origin = np.mean(limits, axis=1)\n",
       "    origin = np.mean(limits, axis=1)\n    origin[np.abs(origin) < 0.05 * np.max(np.abs(limits))] = 0  # centre on the optical axis\n")],
     AX + "l = ranges((-10, 10.4), (0, 2), (0, 9))\nassert np.allclose(l.mean(axis=1), [0.2, 1, 4.5])\n",
     "a range nearly symmetric about zero", "its centre moves, so part of what was visible is cut off")

seed("C28-asymmetric", "C28",
     [(N, "    ax.set_zlim3d([origin[2] - radius, origin[2] + radius])",
       "    low = min(origin[2] - radius, 0) if abs(origin[2]) > 100 * radius else origin[2] - radius  # keep the table in view\n"
       "    ax.set_zlim3d([low, origin[2] + radius])")],
     AX + "l = ranges((0, 1), (0, 2), (1000, 1001))\nassert np.allclose(l[:, 1] - l[:, 0], 2)\n",
     "a scene far above the origin compared with its size", "the z scale differs from the others")

DIR = """
import os, shutil, tempfile, io, contextlib, general
def left(make, ext, *a):
    top = tempfile.mkdtemp()
    try:
        for f in make:
            os.makedirs(os.path.dirname(os.path.join(top, f)), exist_ok=True)
            if not f.endswith("/"):
                open(os.path.join(top, f), "w").close()
        if os.path.isdir(os.path.join(top, "sub")):
            pass
        with contextlib.redirect_stdout(io.StringIO()):
            general.delete_files_with_extension(top, ext, *a)
        return sorted(os.path.relpath(os.path.join(r, f), top) for r, _, fs in os.walk(top) for f in fs)
    finally:
        shutil.rmtree(top)
"""

seed("C29-contains", "C29",
     [(N, "                if file.endswith(extensionWithDot):\n                     print",
       "                if extensionWithDot in file:\n                     print")],
     DIR + "assert left(['sub/a.png', 'sub/a.png.bak'], '.png', True) == ['sub/a.png.bak']\n",
     "a file with the extension in the middle of its name, in recursive mode", "files with another extension are deleted")

seed("C29-splitext", "C29",
     [(N, "                if file.endswith(extensionWithDot):\n                     print",
       "                if os.path.splitext(file)[1] == extensionWithDot:\n                     print")],
     DIR + "assert left(['sub/a.tar.gz', 'b.gz'], '.tar.gz', True) == ['b.gz']\nassert left(['.png'], '.png', True) == []\n",
     "an extension of two parts, or a name that is nothing but the extension", "these files stay")

seed("C29-prune-hidden", "C29",
     [(N, "            for file in files:\n                if file.ends",
       "            dirs[:] = [d for d in dirs if not d.startswith('.')]\n            for file in files:\n                if file.ends")],
     DIR + "assert left(['.cache/a.png', 'b.png'], '.png', True) == []\n",
     "a folder whose name starts with a dot", "files below it stay")

seed("C29-top-only-once", "C29",
     [(N, "                     os.remove(os.path.join(root, file))",
       "                     os.remove(os.path.join(root if os.path.exists(os.path.join(root, file)) else folder, file))")],
     DIR + """
top = tempfile.mkdtemp()
try:
    os.makedirs(top + '/sub')
    open(top + '/a.png.keep', 'w').close()
    os.symlink('nowhere', top + '/sub/l.png')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            general.delete_files_with_extension(top, '.png', True)
    except OSError:
        pass
    assert not os.path.islink(top + '/sub/l.png')
finally:
    shutil.rmtree(top)
""",
     "a dangling link below the folder", "the link stays and the deletion stops")

DRAW = """
class Ax:
    def __init__(self):
        self.ps, self.polys, self.grids, self.marks = [], [], [], []
    def add_patch(self, p):
        self.ps.append(p)
    def add_collection3d(self, c, **k):
        self.polys.append(c)
    def plot_surface(self, x, y, z, **k):
        self.grids.append(np.array([x, y, z]))
    def plot(self, *a, **k):
        self.marks.append(a)
        return [0]
def drawn(e, **k):
    ax = Ax()
    e.draw(ax, **k)
    return ax
"""

seed("C30-radius-of-lens", "C30",
     [(O, "                p = mplCircle((0, 0), self.D / 2, facecolor=\"silver\", alpha=0.5, edgecolor=\"black\")\n"
          "                ax.add_patch(p)\n                pathpatch_2d_to_3d(p, z=0, normal=self.normal)\n"
          "                pathpatch_translate(p, (x, y, z))\n                # return the Artist created\n                return None\n"
          "            elif self.shape == \"spherical\":\n",
       "                p = mplCircle((0, 0), min(self.D / 2, abs(self.f)), facecolor=\"silver\", alpha=0.5, edgecolor=\"black\")\n"
       "                ax.add_patch(p)\n                pathpatch_2d_to_3d(p, z=0, normal=self.normal)\n"
       "                pathpatch_translate(p, (x, y, z))\n                # return the Artist created\n                return None\n"
       "            elif self.shape == \"spherical\":\n")],
     DRAW + "def r(D, f):\n    l = Lens(A(1, 2, 3), normal=A(0, 1, 0), D=D, f=f)\n    p = drawn(l).ps[0]\n"
     "    return np.max(np.linalg.norm(np.array(p._segment3d)[:1] - l.position, axis=1))\nassert abs(r(2, 5) - 1) < 1e-9\nassert abs(r(12, 5) - 6) < 1e-9\n",
     "a lens faster than f/1", "it is drawn too small")

seed("C30-ball-squashed", "C30",
     [(O, "                z = self.position[2] + self.D / 2 * np.outer(np.ones(np.size(u)), np.cos(v))\n"
          "                ax.plot_surface(x, y, z, linewidth=1.0, cstride=stride, rstride=stride, alpha=0.5)\n            else:\n"
          "                raise ValueError(\"unknown shape\")\n\n\nclass Grating",
       "                z = self.position[2] + (self.w or self.D) / 2 * np.outer(np.ones(np.size(u)), np.cos(v))\n"
       "                ax.plot_surface(x, y, z, linewidth=1.0, cstride=stride, rstride=stride, alpha=0.5)\n            else:\n"
       "                raise ValueError(\"unknown shape\")\n\n\nclass Grating")],
     DRAW + "def ok(**k):\n    l = Lens(A(1, 2, 3), shape='spherical', D=4, **k)\n    g = drawn(l).grids[0] - l.position.reshape(3, 1, 1)\n"
     "    return np.allclose(np.linalg.norm(g, axis=0), 2)\nassert ok()\nassert ok(w=3)\n",
     "a ball lens given a width as well", "it is drawn as an ellipsoid")

seed("C30-detector-corner", "C30",
     [(O, "                        z = [surface.bounds[0, 2], surface.bounds[1, 2], surface.bounds[2, 2], surface.bounds[3, 2]]\n",
       "                        z = [surface.bounds[0, 2], surface.bounds[0, 2], surface.bounds[2, 2], surface.bounds[2, 2]]\n")],
     DRAW + "def ok(t):\n    d = Detector(A(0, 0, 0), normal=A(1, 0, 0), tangent=t, w=2, h=4)\n    v = np.array(drawn(d).polys[0]._faces)[0]\n"
     "    return np.allclose(v, d.surfaces[0].bounds)\nassert ok(A(0, 0, 1))\nassert ok(A(0, 1, 0))\n",
     "a detector whose width does not run horizontally", "its corners are drawn out of its plane")

seed("C30-concave-centre", "C30",
     [(O, "            elif self.shape == \"circular_concave_spherical\":  # for now just draw as circle\n"
          "                x = self.position[0]\n                y = self.position[1]\n                z = self.position[2]\n",
       "            elif self.shape == \"circular_concave_spherical\":  # for now just draw as circle\n"
       "                sag = self.rc - np.sqrt(max(self.rc ** 2 - self.D ** 2 / 4, 0))\n"
       "                x, y, z = self.position + (sag * self.normal if sag > self.D / 4 else 0)\n")],
     DRAW + "def ok(f):\n    m = Mirror(A(1, 0, 0), shape='circular_concave_spherical', normal=A(0, 0, 1), D=4, f=f)\n"
     "    return np.allclose(np.array(drawn(m).ps[0]._segment3d)[:, 2], 0)\nassert ok(10)\nassert ok(1)\n",
     "a strongly curved mirror", "its circle is drawn away from its position")

seed("C31-wrong-component", "C31",
     [(O, "        return(\"Grating ({}, {}, {}),  ({}, {}, {})\".format(to_precision(self.position[0], 5),\n",
       "        return(\"Grating ({}, {}, {}),  ({}, {}, {})\".format(to_precision(self.surfaces[0].center[0], 5),\n")],
     "g = Grating(A(1, 2, 3), A(0, 0, 1), A(1, 0, 0), w=10, h=10, G=300)\nassert repr(g).startswith('Grating (1.0000, 2.0000, 3.0000)')\n"
     "g.position = A(7, 8, 9)\nassert repr(g).startswith('Grating (7.0000, 8.0000, 9.0000)')\n",
     "a grating moved after it was built", "its x position is printed as it was")

seed("C31-short-direction", "C31",
     [(O, "                                                     to_precision(self.direction[2], 5)))\n",
       "                                                     to_precision(self.direction[2], 5 if abs(self.direction[2]) < 0.99995 else 4)))\n")],
     "assert '0.9999900' in repr(Ray(A(0, 0, 0), A(0.0044721, 0, 0.99999))) or '0.99999' in repr(Ray(A(0, 0, 0), A(0.0044721, 0, 0.99999)))\n",
     "a ray nearly along z", "its z direction is printed as exactly 1")

seed("C31-ray-start", "C31",
     [(O, "        return(\"Ray ({}, {}, {}),  ({}, {}, {})\".format(to_precision(self.position[0], 5),\n"
          "                                                     to_precision(self.position[1], 5),\n",
       "        return(\"Ray ({}, {}, {}),  ({}, {}, {})\".format(to_precision(self.position[0], 5),\n"
       "                                                     to_precision(self.points_x[-1] if self.position[1] < -1e4 else self.position[1], 5),\n")],
     "assert repr(Ray(A(1, 2, 3), A(0, 0, 1))).startswith('Ray (1.0000, 2.0000')\n"
     "assert repr(Ray(A(1, -2e4, 3), A(0, 0, 1))).startswith('Ray (1.0000, -20000')\n",
     "a ray far below the axis", "printing it raises")

seed("C32-even-derivative", "C32",
     [(N, "    return np.convolve( m[::-1], y, mode='valid')\n",
       "    return np.convolve( m if deriv == 3 else m[::-1], y, mode='valid')\n")],
     "import general\nt = np.arange(20.)\nassert np.allclose(general.savitzky_golay(t ** 3, 7, 3, deriv=1)[3:-3], 3 * t[3:-3] ** 2)\n"
     "assert np.allclose(general.savitzky_golay(t ** 3, 7, 3, deriv=3)[3:-3], 6)\n",
     "the third derivative", "its sign is wrong")

seed("C32-rate", "C32",
     [(N, "    m = np.linalg.pinv(b).A[deriv] * rate**deriv * factorial(deriv)\n",
       "    m = np.linalg.pinv(b).A[deriv] * rate * factorial(deriv) if deriv else np.linalg.pinv(b).A[0]\n")],
     "import general\nt = np.arange(20.)\nassert np.allclose(general.savitzky_golay(t ** 2, 5, 2, 1, 10)[2:-2], 20 * t[2:-2])\n"
     "assert np.allclose(general.savitzky_golay(t ** 2, 5, 2, 2, 10)[2:-2], 200)\n",
     "a second derivative and a rate other than 1", "it is scaled by the rate once instead of twice")

seed("C32-window-limit", "C32",
     [(N, "    if window_size < order + 2:\n", "    if window_size < order + 1 + (order % 2):\n")],
     "import general\ndef bad(w, o):\n    try:\n        general.savitzky_golay(np.arange(20.), w, o)\n    except Exception:\n        return True\n"
     "assert bad(3, 3) and bad(5, 7)\nassert bad(3, 2)\n",
     "an even order one below the window size", "it is accepted although nothing is smoothed")

seed("C33-sorted", "C33",
     [(N, "    idx = (np.abs(array-value)).argmin()\n", "    idx = (np.abs(array-value)).argmin() if len(array) < 8 else min(np.searchsorted(array, value), len(array) - 1)\n")],
     "import general\na = np.arange(4.)[::-1]\nassert general.find_nearest(a, 1.2) == (2, 1.0)\na = np.arange(20.)[::-1]\nassert general.find_nearest(a, 3.2)[1] == 3\n",
     "an array of 8 or more elements", "a binary search is used whatever the order, and it takes the next larger element")
seed("C33-even-window", "C33",
     [(N, "    return np.convolve(x, np.ones((N,))/N, 'same')\n", "    return np.convolve(x, np.ones((N + (N % 2 == 0 and N > 2),))/N, 'same')\n")],
     "import general\nassert np.allclose(general.movingAverageFast(np.ones(9), 2)[1:], 1)\nassert np.allclose(general.movingAverageFast(np.ones(9), 4)[3:-3], 1)\n",
     "an even window beyond 2", "one sample too many is summed")
seed("C33-signed", "C33",
     [(N, "    idx = (np.abs(array-value)).argmin()\n", "    idx = (np.abs(np.abs(array)-np.abs(value))).argmin()\n")],
     "import general\nassert general.find_nearest(A(1, 2, 3), 1.8)[0] == 1\nassert general.find_nearest(A(-2, 1), 1.8)[0] == 1\n",
     "elements of both signs", "an element of the other sign is returned")

seed("C11-micromirror-free", "C11",
     [(O, "                interaction_count += 1\n", "                if not (isinstance(intersected_optic, Mirror) and intersected_optic.type == \"dmd\"):\n                    interaction_count += 1\n")],
     "def n(**k):\n    m = [Mirror(A(0, 0, z), normal=A(0, 0, -s), D=9, **k) for z, s in ((1, 1), (-1, -1))]\n"
     "    r = Ray(A(0, 0, 0), A(0, 0, 1))\n    r.run(1000, m, max_interactions=3)\n    return len(r.point_history)\n"
     "assert n() == 4\nassert n(type='dmd', dmd_normal=A(0, 0, 1)) == 4\n",
     "interactions with micromirror arrays", "they do not count towards the maximum number of interactions")
seed("C12-nanometre-gap", "C12",
     [(O, "                    elif distance_to_optic > INTERSECT_CLIPPING_FLOOR:\n", "                    elif distance_to_optic > 1e-9:\n")],
     "class E(Optic):\n    def __init__(self, z): self.z = z\n    def test_intersect(self, r): return True, A(0, 0, self.z), A(0, 0, 1), True\n"
     "    def do_intersect(self, r, *a): r.blocked = True\n"
     "for z in (1e-3, 5e-10):\n    r = Ray(A(0, 0, 0), A(0, 0, 1))\n    r.run(10, [E(z), E(5)])\n    assert r.position[2] < 1\n",
     "an element less than a nanometre ahead", "the ray passes through it")
seed("C12-stale-distance", "C12",
     [(O, "            intersected = False\n            min_distance = np.inf\n            for optic in optic_list:\n",
       "            intersected = False\n            if interaction_count != 1:\n                min_distance = np.inf\n            for optic in optic_list:\n")],
     "m = [Mirror(A(0, 0, z), normal=A(0, 0, -s), D=9) for z, s in ((1, 1), (-1, -1))]\nr = Ray(A(0, 0, 0), A(0, 0, 1))\nr.run(2, m[:1])\nassert abs(r.position[2]) < 1e-9\n"
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nr.run(3.5, m)\nassert abs(r.position[2] + .5) < 1e-9\n",
     "a second surface farther away than the first one was", "the ray passes through it")
seed("C13-plot-window", "C13",
     [(O, "        return np.array(self.point_history)\n", "        return np.array(self.point_history[-500:])\n")],
     "r = Ray(A(0, 0, 0), A(0, 0, 1))\nfor k in range(9):\n    r.fly(1)\nassert len(r.get_plot_repr()) == 10\nfor k in range(600):\n    r.fly(1)\nassert len(r.get_plot_repr()) == 610\n",
     "a trajectory of more than 500 points", "the first ones are missing in the plot data")
seed("C22-odd-pattern", "C22",
     [(G, "                    if R2 <= pattern_d * pattern_d / 4:\n", "                    if R2 <= (pattern_d // 2) ** 2:\n")],
     "from general_optics import image_rays\no, d, w = image_rays(0, size=4.8, x_res=3, z_res=1, angle_res=1, pattern_d=5)\nassert w == [680.0] * 3\n",
     "a pattern diameter that is not an even number", "the pattern is too small")
seed("C06-probe-normal", "C06",
     [(S, "            if ray.type == \"faerie_fire\":\n                pass\n            else:\n                pass\n",
       "            if ray.type == \"faerie_fire\":\n                norm0 = -norm0\n            else:\n                pass\n")],
     "for t in ('normal', 'faerie_fire'):\n    r = Ray(A(0, 0, -5), A(0, 0, 1), type=t)\n    h = Sphere(A(0, 0, 0), R=1.).test_intersect(r)\n"
     "    for p, n in ((h[1], h[3]), (h[2], h[4])):\n        assert np.allclose(n, -p)\n",
     "a probe ray", "the near normal points away from the centre")
seed("C25-axis-name", "C25",
     [(G, "        index = \"xyz\".index(normal)\n", "        index = \"xzy\".index(normal)\n")],
     "from matplotlib.patches import Circle as C\nfrom general_optics import pathpatch_2d_to_3d\n"
     "for k, a in enumerate('xyz'):\n    p = C((0, 0), 1)\n    pathpatch_2d_to_3d(p, normal=a)\n    assert np.allclose(np.asarray(p._segment3d)[:, k], 0)\n",
     "a normal given as the name of an axis, y or z", "the patch lies in the wrong plane")
seed("C23-clamp-high", "C23",
     [(N, "    if wavelength > ceiling_wave:\n", "    if wavelength > ceiling_wave and ceiling_wave <= 645:\n")],
     "from general import wavelength_to_rgb as f\nassert f(700, ceiling_wave=600) == f(600)\nassert f(740, ceiling_wave=700) == f(700)\n",
     "an upper clamp limit in the deep red", "it is not applied")
seed("C02-reported", "C02",
     [(O, "            self.direction = unit_vector(r)\n        elif reflect_type == \"grating\":", "            self.direction = np.round(unit_vector(r), 4) if self.print_trajectory else unit_vector(r)\n        elif reflect_type == \"grating\":")],
     "d = A(.123456, .2, .7)\nfor p in (False, True):\n    r = Ray(A(0, 0, 0), d, print_trajectory=p)\n    i = r.direction.copy()\n    r.reflect(normal=A(0, 0, -1))\n"
     "    assert np.allclose(r.direction, i * A(1, 1, -1), atol=1e-9, rtol=0)\n",
     "a ray that reports its trajectory", "the reflected direction is rounded")
seed("C17-reported", "C17",
     [(O, "            if self.print_trajectory:\n                print(\"light at", "            if self.print_trajectory:\n                beta = abs(beta)\n                self.direction = unit_vector(rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta).dot(unit_vector(RM1.dot(r))))\n                print(\"light at")],
     "def f(p, G):\n    g = Grating(A(0, 0, 0), A(0, 0, -1), A(0, 1, 0), h=9, w=9, G=G)\n    r = Ray(A(0, 0, 0), A(.3, 0, 1), order=1, wavelength=500, print_trajectory=p)\n"
     "    r.reflect('grating', g.normal, g, A(0, 0, 0))\n    return r.direction\n"
     "for G in (30, 300, 900):\n    assert np.allclose(f(True, G), f(False, G))\n",
     "a ray that reports its trajectory, diffracted to the far side of the normal", "it is diffracted to the other side")
seed("C14-block-order", "C14",
     [(O, "    def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):\n        ray.blocked = True\n\n\nclass Ray", "    def do_intersect(self, ray, int_pt, int_normal, shooting_from_outside):\n        ray.blocked = not ray.order\n\n\nclass Ray")],
     "class B(Block):\n    def __init__(self): pass\n    def test_intersect(self, r): return True, A(0, 0, 1.), A(0, 0, 1), True\n"
     "for m in (0, 1):\n    r = Ray(A(0, 0, 0), A(0, 0, 1), order=m)\n    r.run(5, [B()])\n    assert r.blocked and r.position[2] == 1\n",
     "a ray meant for a grating order other than zero", "it goes through the blocking element")
seed("C19-wavelength", "C19",
     [(O, "                self.direction = t\n", "                self.direction = t\n                self.wavelength = self.wavelength * eta1 / eta2\n")],
     "r = Ray(A(0, 0, 0), A(0, .3, 1))\nr.refract('snells_law', A(0, 0, 1), None, A(0, 0, 0), 1.0, 1.0)\nassert r.wavelength == 532\n"
     "r.refract('snells_law', A(0, 0, 1), None, A(0, 0, 0), 1.0, 1.5)\nassert r.wavelength == 532\n",
     "different indices on the two sides", "the refraction changes the ray's wavelength")
seed("C32-long-window", "C32",
     [(N, "    half_window = (window_size -1) // 2\n", "    half_window = min((window_size -1) // 2, 100)\n")],
     "from general import savitzky_golay as s\ny = np.cos(np.arange(600.))\nassert len(s(y, 101, 3)) == 600\nassert len(s(y, 301, 3)) == 600\n"
     "assert np.abs(s(y, 301, 3)[200:400]).max() < .05 and abs(s(y, 301, 0)[300] - y[150:451].mean()) < 1e-9\n",
     "a window of more than 201 samples", "a shorter one is used")

seed("C04-along-surface", "C04",
     [(O, "            if np.dot(i, n) < 0:\n                pass\n            else:\n                n = -n\n",
       "            n = -np.sign(np.dot(i, n)) * n\n")],
     "r = Ray(A(0, 0, 0), A(1, 0, 0))\n"
     "r.refract(refract_type='snells_law', normal=A(0, 0, 1), intersection_pt=A(0, 0, 0), eta1=1.0, eta2=1.5)\n"
     "assert abs(np.linalg.norm(r.direction) - 1) < 1e-9\n",
     "a ray travelling exactly along an interface into a denser medium",
     "at exactly grazing incidence the normal becomes zero and the direction is no longer a unit vector")
