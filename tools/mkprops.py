#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the JSON stays valid)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
O, G, S, N = "optics3d.py", "general_optics.py", "Shapes/shapes.py", "general.py"

p("C01", "Ray directions are always unit vectors",
  "A ray created with any nonzero direction has a unit-length direction parallel to it, and its direction is still a unit vector after every interaction with any element: mirrors (flat, curved, DMD), gratings at a propagating order, ideal lenses, ideal collimators and focusers, refracting balls and compound solids, transmitted or totally reflected. Moving a ray through space never changes its direction.",
  ["inputs"], "every nonzero initial direction, every element type and setting, every incidence (incl. normal, grazing, beyond the critical angle)",
  "No test exercises any interaction; directions are only ever created axis-aligned in the tests.",
  [O, G], [("normalisation at construction", "optics3d.Ray.__init__"), ("direction updates", "optics3d.Ray.reflect / Ray.refract / Ray.fly")],
  [("direction", "current unit propagation direction", "optics3d.Ray")])
p("C02", "Specular reflection obeys the law of reflection",
  "When a ray reflects specularly its new direction equals the old one with the component along the surface normal reversed and the in-surface component kept, for a normal of any length and either sign. A DMD mirror reflects about its micro-mirror normal instead of its surface normal; a zero-order ray on a grating reflects specularly about the grating normal.",
  ["inputs"], "every incident direction and every nonzero normal, either side of the surface",
  "No test calls reflection at all; the law is universally quantified over two directions.",
  [O], [("specular branch", "optics3d.Ray.reflect"), ("mirror / grating dispatch", "optics3d.Mirror.do_intersect, Grating.do_intersect, Compound.do_intersect")])
p("C03", "Refraction obeys Snell's law and stays in the plane of incidence",
  "A ray transmitted through an interface between indices n1 (side it comes from) and n2 (side it enters) leaves on the far side, in the plane of incidence, with n1 sin(theta1) = n2 sin(theta2). The result does not depend on which of its two directions the surface normal is given in, and at equal indices the ray is undeviated.",
  ["inputs"], "every incident direction, unit normal of either sign, pair of positive indices for which a transmitted ray exists",
  "No test refracts a ray.",
  [O], [("Snell branch", "optics3d.Ray.refract")])
p("C04", "Total internal reflection happens exactly beyond the critical angle",
  "At an interface from index n1 to n2 the ray is reflected specularly exactly when n1 sin(theta1) > n2, and transmitted otherwise; the outcome is always a well-defined unit direction, never undefined (NaN) or complex. The ray's position is not moved by either outcome.",
  ["inputs"], "every direction, normal and pair of positive indices, both n1 > n2 and n1 <= n2",
  "No test covers refraction; the boundary between the two outcomes is a surface in a continuous input space.",
  [O], [("TIR test and fallback to reflection", "optics3d.Ray.refract")])
p("C05", "Flat apertures are hit exactly where the forward ray crosses them",
  "A plane, disc or rectangle reports a hit exactly when the ray, travelling forward (more than 1e-9 ahead, and not within 1e-9 of parallel), crosses the plane at a point strictly inside the aperture: within radius R of the centre for a disc, within half of h along the tangent and half of w along the perpendicular in-plane axis for a rectangle (points exactly on the rim may go either way). A reported hit point lies on the ray and on the plane, comes with the element's unit normal, and a miss carries no point.",
  ["inputs"], "every placement, orientation and size of the aperture and every ray (position and direction)",
  "Tests use three axis-aligned rays against one axis-aligned unit square; discs, planes, oblique incidence, rotated tangents and rays pointing away are never tried.",
  [S], [("plane intersection", "Shapes/shapes.py Plane.test_intersect"), ("aperture tests", "Shapes/shapes.py Circle.test_intersect, Rectangle.test_intersect / __init__ bounds")])
p("C06", "Sphere intersection reports exactly the forward crossings",
  "For any ray, a sphere reports a hit exactly when the sphere surface is met more than 1e-12 ahead of the ray; each reported point lies on the sphere and on the forward ray, all such crossings are reported (each once), and each comes with the unit normal pointing to the centre. The crossing count it reports is 2 from outside, 1 from inside and 0 on a miss (a tangent touch ahead counts as 2 and is reported as one point).",
  ["inputs"], "every sphere and every ray: outside, inside, on the surface, tangent, pointing away",
  "Tests try eight axis-aligned rays against one unit sphere and only look at whether points are None.",
  [S], [("quadratic and forward filtering", "Shapes/shapes.py Sphere.test_intersect"), ("normal", "Shapes/shapes.py Sphere.normal")])
p("C07", "Infinite-cylinder intersection reports exactly the forward crossings",
  "For an infinite cylinder with any axis point, axis direction and radius, a hit is reported exactly when its lateral surface is met more than 1e-12 ahead of the ray; each reported point lies on the ray and at distance R from the axis, all forward crossings are reported nearest first, each with the unit normal pointing to the axis, with crossing count 2 from outside, 1 from inside, 0 on a miss (tangent ahead: one point, count 2). A ray parallel to the axis (to about 1e-9) is a miss, and results never contain undefined (NaN) values.",
  ["inputs"], "every axis point, axis direction (incl. along and against z), radius, ray position and direction (incl. parallel to the axis)",
  "No test touches the cylinder; the author's notes say the rotation needs more testing.",
  [S, G], [("object-space transform and quadratic", "Shapes/shapes.py InfiniteCylinder.test_intersect"), ("alignment rotation", "general_optics.rotation_matrix4, rotation_matrix2")])
p("C08", "Solid membership and refractive-index lookup are exact",
  "A point is inside a sphere (infinite cylinder) exactly when its distance to the centre (axis) is below the radius, and inside a compound solid exactly when the union / intersection / difference (left minus right) combination of its parts, for a tree of any depth, says so. A compound reports its own index at inside points and nothing elsewhere; the world lookup returns the index reported by the first element in the list that contains the point, and the ambient index 1 if none does.",
  ["inputs", "configurations"], "every point, every primitive, every well-formed tree, every list of elements of any length",
  "No test evaluates membership, trees or index lookup; the tree depth and list length are unbounded.",
  [G, S, O], [("tree recursion", "general_optics.test_tree_point, operCsgIndex*"), ("primitive membership", "Shapes/shapes.py Sphere.test_point, InfiniteCylinder.test_point"), ("index lookup", "optics3d.get_index_at_point, Compound.get_index_at_point_if_inside")])
p("C09", "A compound solid is hit at its first real surface",
  "For a single primitive (sphere or infinite cylinder) or a union, intersection or difference of two, and a ray in general position (no tangency, no two crossings at the same point, not parallel to a cylinder's axis), starting anywhere outside or inside of each, the compound's reported hit is the first forward point where the ray enters or leaves the combined solid, with the normal line of the primitive it lies on, and a miss is reported exactly when there is no such point. For a union nested to any depth the same holds for a ray starting outside every part.",
  ["inputs", "configurations"], "every primitive, every pair of primitives and operation, every ordering of the four crossings along the ray, every start region; every union tree",
  "No test builds a compound; the case split over orderings of crossings and start regions is large.",
  [G, O], [("boolean combination of crossings", "general_optics.operCsgUnion, operCsgIntersect, operCsgDifference, helper_findIntersects"), ("tree recursion", "general_optics.test_tree_intersect"), ("compound element", "optics3d.Compound.test_intersect")])
p("C10", "Refracting solids use the indices of the media actually crossed",
  "A ray meeting the surface of a refracting ball from outside refracts from the ambient index 1 to the ball's index, and from inside refracts from the ball's index to 1. A refracting compound refracts from ambient to its index when the point just past the surface is inside the solid and from its index to ambient otherwise; a reflecting compound reflects specularly, and an unknown surface behaviour is rejected with an error.",
  ["inputs"], "every ball/compound, index, ray and surface point, entering and leaving",
  "No test sends a ray into glass.",
  [O], [("ball lens", "optics3d.Lens.test_intersect / do_intersect"), ("compound", "optics3d.Compound.do_intersect")])
p("C11", "A traced ray respects its distance and interaction limits and stops",
  "Tracing a ray with a finite maximum distance always terminates; the total path flown never exceeds the maximum distance, and equals it unless the ray was blocked or reached its maximum number of interactions. It interacts at most the allowed number of times (none at all when that is zero), never after being blocked, and a ray that is already blocked does not move.",
  ["inputs", "histories"], "every list of elements of any length, any sequence of interactions, any distance and interaction limit",
  "No test runs a trace; the number of interactions and elements is unbounded.",
  [O], [("trace loop", "optics3d.Ray.run"), ("straight flight", "optics3d.Ray.fly")],
  [("blocked", "ray has been absorbed", "optics3d.Ray")])
p("C12", "A ray always interacts with the nearest element ahead",
  "At each step of a trace the ray interacts with the element whose reported surface point is nearest along the ray (more than 1e-12 ahead and within the remaining distance), and that element receives its own reported point, normal and side information. Elements that are missed or farther away, annotations, filters and windows have no influence on the outcome, whatever the order of the list.",
  ["inputs", "histories", "configurations"], "every list of elements in every order, every set of reported distances (ties excluded), every remaining distance",
  "No test traces a ray through even one element.",
  [O], [("nearest-hit selection", "optics3d.Ray.run")])
p("C13", "The recorded trajectory is exactly the path flown",
  "A ray's recorded trajectory starts at its initial position and gains exactly one point per straight flight; every new point equals the previous one moved along the direction the ray had at that time, the last point is the current position, and at an interaction it is the surface point. Earlier points never change, and the trajectory returned for plotting lists these points in order.",
  ["inputs", "histories"], "every ray and every sequence of flights and interactions of any length",
  "Trajectories are never inspected by tests; the statement ranges over unbounded histories.",
  [O], [("append on flight", "optics3d.Ray.fly"), ("start point", "optics3d.Ray.__init__"), ("plot data", "optics3d.Ray.get_plot_repr")],
  [("point_history", "points visited", "optics3d.Ray")])
p("C14", "A detector absorbs each arriving ray and records it exactly once",
  "A ray that reaches a detector stops there, and the detector gains exactly one record holding the arrival point (inside its rectangle) and the ray's wavelength; records of earlier rays are kept unchanged and in arrival order. A detector reports a hit exactly when the forward ray crosses its rectangle, and a blocking element stops a ray without moving or redirecting it.",
  ["inputs", "histories"], "every detector placement and size, every ray, any number of earlier hits",
  "No test uses a detector.",
  [O, S], [("recording and blocking", "optics3d.Detector.do_intersect, Block.do_intersect"), ("detection", "optics3d.Detector.test_intersect")],
  [("hit_data", "records of absorbed rays", "optics3d.Detector")])
p("C15", "The ideal lens images points to points (thin-lens equation)",
  "For an ideal lens of focal length f, a transmitted ray with direction d (unit normal n on the far side, offset r of the hit point from the lens centre in the lens plane) leaves along d/(d.n) - r/f, so all rays from an object point at distance s in front meet at the conjugate point with 1/s + 1/s' = 1/f, parallel bundles meet in the focal plane, and a ray through the centre is undeviated (to 1e-7 for rays within about 1e-8 of the lens normal). The ray always continues to the far side of the lens, for converging (f > 0) and diverging (f < 0) lenses alike and from either face.",
  ["inputs"], "every lens pose, nonzero focal length, hit point and direction not within 1e-8 of grazing",
  "No test uses a lens; imaging is a statement about all rays from all points.",
  [O], [("ideal imaging branch", "optics3d.Ray.refract"), ("lens dispatch", "optics3d.Lens.do_intersect / test_intersect")])
p("C16", "Ideal collimators and focusers do what they say from either face",
  "An ideal collimator sends every ray that hits it along its axis, continuing to the far side; an ideal focuser sends every ray that hits it along the line through its focal point, which lies at distance |f| from the centre on the axis (beyond the lens for f > 0, before it for f < 0), continuing to the far side.",
  ["inputs"], "every pose, focal length, hit point and direction, both faces",
  "No test uses these elements.",
  [O], [("ideal_collimate / ideal_focus branches", "optics3d.Ray.refract"), ("lens dispatch", "optics3d.Lens.do_intersect")])
p("C17", "Diffraction gratings obey the grating equation",
  "For a propagating order m (groove density G per mm, wavelength L in nm), the incidence angle a and diffraction angle b of the ray projected on the plane perpendicular to the grooves satisfy sin(a) + sin(b) = 1e-6 G m L, with b counted positive on the incident side of the grating normal, from either side of the normal. The direction component along the grooves and the length of the projection are preserved, and the ray leaves on the side it came from; order zero is specular reflection.",
  ["inputs"], "every grating pose, groove density, order, wavelength and incident direction (not within about 1e-6 of grazing) for which the order propagates",
  "No test diffracts a ray.",
  [O, G], [("grating branch", "optics3d.Ray.reflect"), ("helpers", "general_optics.angle_between, project_onto_plane, rotation_matrix_axis_angle")])
p("C18", "Mirrors are hit on their real surface",
  "A flat mirror is hit exactly where the forward ray crosses its disc or rectangle; a convex sphere mirror is hit at the nearest forward point of its sphere; a concave spherical mirror (vertex at its position, radius of curvature 2f, centre along its normal) is hit only by rays that cross its aperture disc ahead and meet the sphere, at the sphere point nearest to that crossing. The reported normal is the surface's unit normal line there, and meeting the mirror only changes the ray's direction, by specular reflection.",
  ["inputs"], "every mirror shape, pose, diameter and focal length, every ray",
  "No test builds a mirror (the default mirror could not even be constructed).",
  [O, S], [("mirror intersection", "optics3d.Mirror.test_intersect"), ("construction", "optics3d.Mirror.__init__")])
p("C19", "Intersection and membership queries have no side effects",
  "Asking any shape or element whether a ray hits it, or whether a point is inside it, changes neither the ray nor the element nor anything else, and gives the same answer when asked again, whatever was asked before. An interaction changes only the interacting ray (direction, or absorbed flag) and a detector's own records, so tracing one ray never affects another.",
  ["inputs", "histories"], "every shape and element, every ray or point, every earlier sequence of queries",
  "Tests use each shape once per fresh ray and never look at what a query modified.",
  [O, S, G], [("queries", "Shapes/shapes.py test_intersect / test_point; optics3d.*.test_intersect, get_index_at_point"), ("interactions", "optics3d.*.do_intersect")])
p("C20", "Vector and rotation helpers are geometrically exact",
  "Axis-angle rotations are proper orthogonal and turn vectors counter-clockwise about the axis by the given angle; align-a-to-b rotations are proper orthogonal and carry the direction of a onto that of b for every pair including opposite ones; projection onto a plane removes exactly the normal component for a normal of any length; translation and scaling matrices act as stated. Unsigned angles lie in [0, pi] with the right cosine, signed angles change sign with the reference normal, and no helper modifies the vectors it is given.",
  ["inputs"], "all nonzero vectors (integer or float entries), angles, and pairs of directions incl. parallel and opposite",
  "Tests sample rotations about x only, two angles and a handful of projections.",
  [G], [("rotations", "general_optics.rotation_matrix_axis_angle, rotation_matrix2, rotation_matrix4, rotation_matrix"), ("angles / projections", "general_optics.angle_between, project_onto_plane, unit_vector, distance_between"), ("homogeneous matrices", "general_optics.translation_matrix4, scaling_matrix4")])
p("C21", "Element construction accepts valid and rejects invalid specifications",
  "A round shape given only a radius or only a diameter has D = 2R; given both, it is accepted exactly when they agree (within about 1e-8) and otherwise rejected, and giving neither is rejected. A rectangle requires both side lengths, non-negative, and a tangent perpendicular to its normal (to about 1e-8), and has its four corners at plus/minus h/2 along the tangent and w/2 along the other in-plane axis; mirrors, lenses, gratings and detectors reject unknown shape names, and every element kind can be built with its optional parameters left out, storing unit normals.",
  ["inputs", "configurations"], "every radius/diameter/size combination, normals and tangents of any length, every element kind and shape name",
  "Tests construct one rectangle and one sphere with valid arguments.",
  [S, O], [("validation helpers", "Shapes/shapes.py check_R_and_D, check_h_and_w, Rectangle.__init__"), ("element constructors", "optics3d.Mirror / Lens / Grating / Detector / Ray.__init__")])
p("C22", "Ray sources cover the requested grid",
  "The imaging source returns exactly one ray per combination of x, z and angle sample (x outermost, angle innermost): origins on the plane y = y_center with x and z evenly spaced over [-size/2, size/2] including both ends (0 for a single sample), unit directions in the y-z plane with angles evenly spaced over [-angle, angle], and wavelength 680 inside and 450 outside the pattern circle; resolutions below 1 are rejected. The probe source appends the requested number of rays, each starting on the given sphere and aimed at its centre, keeping the rays already listed.",
  ["inputs"], "all sizes, angles, resolutions, pattern diameters, sphere centres and radii, and random draws",
  "No test generates rays.",
  [G, O], [("imaging source", "general_optics.image_rays"), ("probe source", "optics3d.add_faerie_fire_rays")])
p("C23", "Colour and photon-energy conversions stay in range and invert",
  "For every wavelength, gamma > 0 and clamp range the display colour has all three components in [0, 1]; wavelengths outside the clamp range give the colour of the nearest clamp limit, and the colour varies continuously with wavelength from 380 to 750 nm. Wavelength-to-energy and energy-to-wavelength conversion are inverse to each other with positive product hc/e.",
  ["inputs"], "every real wavelength / energy and gamma",
  "No test calls these functions.",
  [N], [("colour map", "general.wavelength_to_rgb"), ("conversions", "general.wavelength_nm_to_energy_eV, energy_eV_to_wavelength_nm")])
p("C24", "Boolean-tree building and rendering are faithful",
  "Inserting on one side of a tree node makes the new value that child, pushes any existing subtree one level down on the same side, and leaves the other side and the node's own value untouched. Reading back the root value and children returns what was stored, and the printed expression of a tree of any depth shows every operator between its left and right operand, fully parenthesised, in order.",
  ["inputs", "histories", "configurations"], "every tree whose values are shapes or non-empty names, every inserted value, any sequence of insertions",
  "No test builds a tree; depth and insertion history are unbounded.",
  [G], [("tree", "general_optics.BinaryTree"), ("rendering", "general_optics.postOrderEval, printCsg*")])
p("C25", "Drawn flat patches sit in the element's own plane",
  "Placing a 2-D outline in space for a given normal rotates it rigidly (all lengths kept, not mirrored) into the plane through the origin perpendicular to that normal, shifted by the given offset along z, for normals given as a vector of any length or as the name of an axis; translating it moves every vertex by the same vector. The normal passed in is not modified.",
  ["inputs"], "every outline, normal (incl. along +z, -z, axis names) and translation",
  "No test draws anything.",
  [G], [("placement", "general_optics.pathpatch_2d_to_3d, rotation_matrix, pathpatch_translate")])
p("C26", "Printed numbers are the value rounded to the requested digits",
  "Formatting a finite number of ordinary size with p significant digits (p from 1 to 15, what a double carries) yields a decimal string that shows exactly p significant digits and whose value is within half a unit of the p-th significant digit of the number. Zero and NaN are rendered as such.",
  ["inputs"], "every p from 1 to 15 and every number with 1e-280 <= |x| <= 1e300, zero, and NaN",
  "No test formats a number; the digit, carry and exponent cases range over every mantissa and every decade.",
  [N], [("formatting", "general.to_precision")])
p("C27", "Rounding never makes a ray re-hit or skip a surface",
  "In floating-point execution a ray that has just been reflected or refracted at a surface is never found to hit that same surface again at zero distance, and never passes through a surface it should hit, for scenes of ordinary scale.",
  ["inputs", "histories"], "every scene of ordinary scale and every trace through it, in IEEE double arithmetic",
  "Tests never trace; the statement ranges over all rounding patterns.",
  [S, O], [("clipping floors", "Shapes/shapes.py INTERSECT_CLIPPING_FLOOR, optics3d.INTERSECT_CLIPPING_FLOOR")])
p("C28", "A 3-D view with equal axes has one scale and cuts nothing off",
  "After the view of a 3-D plot has been made equal (set_axes_equal), its x, y and z ranges have one common length, each range keeps its centre, and the common length is that of the longest range before, so nothing that was in view is cut off. Setting a view by origin and radius shows exactly the origin plus and minus the radius on every axis.",
  ["inputs"], "every three nonempty ranges, upright or inverted; every origin and radius",
  "No test opens a plot; which axis is the longest and where its centre is are free.",
  [N], [("equal axes", "general.set_axes_equal, set_axes_radius")])
p("C29", "Deleting by extension removes exactly the matching files",
  "delete_files_with_extension removes every file of the given folder whose name ends with the given extension and nothing else: other files, folders (whatever their names) and everything outside the folder stay. Files in folders further below are removed exactly when that is asked for, and links are never followed.",
  ["inputs", "configurations"], "every folder tree of any size and depth, every extension, both modes",
  "No test deletes anything; folders have any number of entries with any names, and a wrong deletion cannot be undone.",
  [N], [("deletion", "general.delete_files_with_extension")])
p("C30", "Elements are drawn where they really are",
  "In 3-D the drawing of a round mirror or ideal lens is the circle of its diameter about its position in the plane perpendicular to its normal; that of a rectangular mirror, grating or detector is the rectangle whose four corners, in order, are exactly those of its surface (height along the tangent, width across it); that of a ball lens or convex mirror consists of points of its sphere, all around it. The 2-D views mark a round flat mirror at its own position (x, y or x, z). Drawing does not change the element.",
  ["inputs", "configurations"], "every element kind, position, orientation and size",
  "No test draws anything.",
  [O, G], [("drawing", "optics3d.Mirror.draw, Lens.draw, Grating.draw, Detector.draw")])
p("C31", "Printed descriptions show where a ray or element is",
  "The printed form of a ray or element (repr) starts with the name of its kind and shows its current position and then its current unit normal (a ray: its direction), each as x, y, z in this order, every number correctly rounded to at least five significant digits. An element without a normal (ball lens, convex mirror) shows its position alone. Every kind of element can be printed, and printing changes nothing.",
  ["inputs", "configurations"], "every element kind, position, normal and direction",
  "No test prints an element.",
  [O, N], [("descriptions", "optics3d.*.__repr__"), ("numbers", "general.to_precision")])
p("C32", "Savitzky-Golay smoothing fits the local polynomial",
  "savitzky_golay returns one value per sample. Wherever the whole odd window lies within the data, the value is that of the least-squares polynomial of the given order through the samples of the window, taken at its centre, or the requested derivative of it times rate**deriv; so samples of a polynomial of at most that order are reproduced. Constant data stay constant up to the ends, the data passed in are not modified, and windows that are even, not positive or smaller than order + 2 are rejected.",
  ["inputs", "configurations"], "every data array at least as long as the window, odd window, order up to window - 2, derivative up to the order, and rate",
  "No test smooths anything (the function could not even be called).",
  [N], [("filter", "general.savitzky_golay")])
p("C33", "Lookup, averaging and log interpolation agree with their definition",
  "find_nearest returns the index of an element of the array (real numbers, any order) than which none is nearer to the value, together with that element. movingAverageFast(x, N), N not longer than x, returns for each sample k the sum of the samples k - N//2 .. k + (N-1)//2 (zero beyond the ends) divided by N. log_interp1d passes through its (positive, increasing in x) points and is straight in log-log scale between and beyond them. None of them modifies its arguments.",
  ["inputs"], "every array, value, window and set of points",
  "No test calls them.",
  [N], [("helpers", "general.find_nearest, movingAverageFast, log_interp1d")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
