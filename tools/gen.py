#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=level_note, na=na))

prop("C01", "Bounding boxes behave as closed point sets",
 "For boxes with l<=r and b<=t, intersection, containment, merging, expanding and clamping agree with the closed rectangles they denote: boxes intersect exactly when they share a point, Contains is set inclusion, Merge/Expand give the least box containing both arguments, ClampVect gives the nearest point. Center, area, merged area, offset, proximity, the extent and circle constructors and WrapVect match their geometric definitions (a wrapped point lies in the box and differs from the original by whole widths and heights).",
 ["inputs"], "every box and every point (all finite doubles for the comparison-only operations)",
 "the tests never call most of these operations; sign, tie and touching cases need all inputs",
 ["bb.go"], [("comparison and min/max algebra of BB", "bb.go")])
prop("C02", "Segment against bounding box gives the first hit",
 "Querying a bounding box with a segment reports the smallest fraction in [0,1] at which a point of the segment lies in the closed box (0 when the segment starts inside), and infinity exactly when no point of the segment lies in the box. IntersectsSegment agrees with it; axis-parallel and zero-length segments are included.",
 ["inputs"], "every box and segment, including axis-parallel and degenerate segments",
 "every pruned spatial query relies on it, no test calls it; the failures live at parallel segments, starts inside the box and touching hits",
 ["bb.go"], [("slab test", "bb.go SegmentQuery")])
prop("C03", "Affine transforms compose, invert and bound correctly",
 "Transform constructors map points as documented (translate, scale, rotate, rigid, bone scale, axial scale, orthographic maps its box onto the [-1,1] square), Mult is composition, Vect ignores translation while Point includes it, and the inverse functions undo the transform for every invertible (respectively rigid) transform. Transforming a bounding box yields a box that contains the image of every point of the box.",
 ["inputs"], "every coefficient, angle and point within the stated ranges",
 "not exercised by the tests; a swapped coefficient is invisible for the symmetric or identity cases a test would use",
 ["transform.go"], [("matrix algebra", "transform.go")])
prop("C04", "Vector helpers satisfy their geometric contracts",
 "Vector operations are the usual 2D vector algebra: rotation by and against a unit vector are inverse isometries, Perp/ReversePerp are the quarter turns, Project lands on the axis, Normalize has unit length and keeps direction (the zero vector stays zero), Clamp limits the length and otherwise changes nothing, Lerp/LerpConst/SLerp/SlerpConst interpolate without overshooting and are defined for parallel vectors. Clamp/Clamp01/Lerp/LerpConst scalars, Near, Distance and the closest point of a segment equal their definitions, including for degenerate segments' valid inputs.",
 ["inputs"], "every vector, angle and scalar within the stated ranges",
 "tests check two vector cases; edge cases are parallel, zero and clamped inputs",
 ["vector.go"], [("vector algebra", "vector.go")])
prop("C05", "Body mass data always equals the aggregate of its shapes",
 "After any sequence of attaching, detaching and re-massing shapes, and changing a shape's density or geometry, a dynamic body's mass, center of gravity and moment equal the mass-weighted aggregate of the shapes currently attached (parallel-axis theorem), and re-deriving them never moves the body's shapes or origin in world space. Explicitly set mass, moment and center of gravity are reported back unchanged and inverse quantities stay consistent.",
 ["inputs", "histories"], "every mass, offset, placement and every short history of attach/detach/set operations",
 "two body tests sample two fixed bodies; the aggregate must hold for every history",
 ["body.go", "shape.go", "circle.go", "segment.go", "poly.go"], [("AccumulateMassFromShapes", "body.go"), ("shape mass info", "shape.go")])
prop("C06", "Area, centroid and moment formulas are the exact integrals",
 "Moments and areas for circles (solid and hollow), segments, boxes and convex polygons equal the closed-form integrals over the shape (a thick segment's moment is that of its enclosing box, its area that of the capsule); polygon results are invariant under translation of the start vertex, the centroid moves with the polygon, area is positive for counter-clockwise winding, and moment about an offset obeys the parallel-axis theorem.",
 ["inputs"], "every radius, half-extent, offset, mass and vertex coordinates within stated ranges",
 "moments are checked by no test; a wrong factor gives plausible simulations",
 ["everything.go"], [("MomentFor*/AreaFor*/CentroidForPoly", "everything.go")])
prop("C07", "A shape's bounding box contains the shape and is tight",
 "After a shape's bounding box is updated for any body position and rotation, the box contains every point of the shape (radius included) and each side touches the shape. Moving or rotating the body followed by an update refreshes it.",
 ["inputs"], "every placement (position, angle) of circles, segments and polygons with any radius",
 "collisions are silently missed when the box is too small; tests use axis-aligned placements",
 ["circle.go", "segment.go", "poly.go", "shape.go"], [("CacheData of each shape class", "circle.go segment.go poly.go")])
prop("C08", "Changing a shape's geometry equals building it anew",
 "Changing the radius, offset, end points or vertices of an existing shape (also of one that is in a space) leaves it indistinguishable from a shape freshly constructed with the new geometry: same bounding box, mass properties, area, query answers and contact behaviour after the next update.",
 ["inputs", "histories"], "every old and new geometry",
 "unsafe setters are called by no test; a stale cached field only shows for particular queries",
 ["circle.go", "segment.go", "poly.go", "shape.go"], [("setters refresh derived data", "circle.go segment.go poly.go")])
prop("C09", "Point queries return the exact signed distance",
 "Querying a shape with a point returns the signed distance from the point to the shape's surface (negative inside), a surface point that lies at that distance, and a unit gradient along which the distance grows; results are finite for every point, including the center and boundary points.",
 ["inputs"], "every query point against circles, segments and convex polygons with and without radius under any placement",
 "nearest feature selection has many regions (edges, corners, inside); tests query none",
 ["circle.go", "segment.go", "poly.go", "shape.go"], [("PointQuery of each shape class", "circle.go segment.go poly.go")])
prop("C10", "Shape segment queries return the first surface hit",
 "Querying a circle, segment or polygon with a (possibly thick) ray that starts outside reports a hit exactly when the ray touches the shape, at the smallest fraction along the ray, with a unit outward normal opposing the ray and a surface point consistent with fraction and radius; misses report fraction 1 with no shape.",
 ["inputs"], "every ray start, end and query radius against shapes under placement",
 "hit classification has corner and radius cases no test samples",
 ["circle.go", "segment.go", "poly.go", "everything.go", "shape.go"], [("SegmentQuery of each shape class", "circle.go segment.go poly.go")])
prop("C11", "Convex hull is convex, minimal and encloses the input",
 "For any set of points (and zero tolerance) the computed hull is a counter-clockwise convex polygon whose vertices are input points and which contains every input point; polygons built from arbitrary vertices therefore always have convex geometry with outward unit edge normals. With a positive tolerance it is still a convex polygon on input points.",
 ["inputs"], "every set of three points, and every point or pair of points added to fixed sets with duplicate and collinear points, in every order",
 "quickhull recursion on degenerate inputs is the classic failure; tests use none",
 ["everything.go", "poly.go"], [("ConvexHull/QHull", "everything.go")])
prop("C12", "Circle and segment collisions are geometrically sound",
 "Colliding any circle/segment pair reports contacts exactly when the thick shapes overlap or touch; the normal is a unit vector pointing from the first shape to the second, each contact lies on the two surfaces, and the depth along the normal equals the overlap (the distance between the surfaces). Swapping the two shapes negates the normal and swaps the points.",
 ["inputs"], "every relative placement, length and radius within stated ranges",
 "the narrow phase has many closest-feature cases; tests check only that some scene runs",
 ["collision.go", "space.go"], [("CircleToCircle, CircleToSegment, SegmentToSegment", "collision.go"), ("ShapesCollide", "everything.go")])
prop("C13", "Polygon collisions are geometrically sound",
 "Colliding polygons with polygons, circles and segments at any relative placement reports contacts exactly when the shapes overlap, with a unit normal from first to second, along which moving apart by the deepest reported penetration separates the shapes; contacts lie on or inside both surfaces, at most two are reported, and swapping the arguments negates the normal.",
 ["inputs"], "every relative translation (and a set of rotations) of representative convex polygons, circles and segments",
 "GJK/EPA iterations with simplex degeneracies; tests sample a few stable stacks",
 ["collision.go", "poly.go", "everything.go"], [("GJK/EPA, ContactPoints, PolyToPoly, SegmentToPoly, CircleToPoly", "collision.go")])
prop("C14", "Space queries agree with brute force over the shapes",
 "After any history of adding, moving, removing and stepping shapes, point, nearest-point, segment, bounding-box and shape queries on a space report exactly the shapes that brute-force testing every shape in the space would report, honouring filters and sensors as documented, and 'nearest' and 'first' queries return an optimal one.",
 ["inputs", "histories"], "every query and placement over short histories of additions, moves, removals and steps",
 "spatial index pruning errors depend on tree shape and on stale boxes; tests do one query",
 ["space.go", "bbtree.go", "spatialindex.go"], [("BBTree pruning", "bbtree.go"), ("query filters", "space.go")])
prop("C15", "Every touching pair is found on every step",
 "In each step, the collision callbacks and contacts generated are exactly those of the pairs of shapes that overlap at that step's positions (different bodies, filters and joints permitting), each pair exactly once, whatever sequence of moves, additions and removals led there and regardless of static, kinematic or dynamic type of at least one dynamic participant.",
 ["inputs", "histories"], "every placement sequence over several steps with additions, removals and teleports",
 "cached pairs and velocity-expanded boxes make misses depend on history",
 ["bbtree.go", "space.go"], [("BBTree pair caching", "bbtree.go"), ("Step", "space.go")])
prop("C16", "Spatial hash answers like the tree",
 "A space using the spatial hash reports the same collisions and the same query results as one using the bounding-box tree, for any cell size, table size and placement, including negative coordinates, cell boundaries and objects spanning many cells, and reports each object at most once per query.",
 ["inputs", "histories"], "every placement, query, and several cell and table sizes",
 "hash wrap-around and ray stepping are input dependent; no test uses the hash",
 ["spacehash.go", "spatialindex.go", "space.go"], [("SpaceHash cells", "spacehash.go")])
prop("C17", "The hash set is a set",
 "For every sequence of insertions, removals, lookups, filters and iterations, with any hash values (all colliding included), the hash set agrees with a mathematical set: it finds exactly what was inserted and not removed, counts correctly, visits each element exactly once, keeps a single entry per equal element, and survives resizing.",
 ["inputs", "histories"], "every operation sequence up to the bound with arbitrary 64-bit hashes",
 "chaining, node recycling and resizing interplay needs adversarial hashes; tests use none",
 ["hashset.go"], [("open chaining table", "hashset.go")])
prop("C18", "Begin and separate bracket every contact",
 "For every pair of shapes and every history of steps, begin is called exactly when the pair starts touching, presolve (and postsolve unless sensor or rejected) on every touching step, and separate exactly once when it stops touching or when one of the shapes or bodies is removed while touching; a begin that returns false suppresses solving until separation. First-contact is reported only on the first step and arbiters retain accumulated data only while persistent.",
 ["histories", "inputs"], "every motion and removal history up to the stated number of steps",
 "lifecycle is a state machine across steps; tests do not register handlers",
 ["space.go", "arbiter.go", "hashset_arbiter.go"], [("arbiter states", "arbiter.go"), ("SpaceArbiterSetFilter", "hashset_arbiter.go")])
prop("C19", "Collision handlers are dispatched by collision type",
 "Each callback goes to the handler registered for the pair's collision types, else the wildcard handlers, with shapes and bodies given in the handler's declared type order, the normal oriented accordingly, and that handler's user data; the wildcard helpers call the wildcard of each of the two types. Re-requesting a handler returns the same one.",
 ["inputs", "configurations"], "every assignment of collision types and handler registrations up to the bound",
 "ordering and swap logic only shows when types are declared in the opposite order",
 ["space.go", "arbiter.go"], [("LookupHandler, swapped arbiters", "space.go arbiter.go")])
prop("C20", "Sensors, rejected and ignored contacts have no physical effect",
 "A contact between shapes of which one is a sensor, or that begin or presolve rejected, or that was ignored, never changes any body's velocity or position, while the sensor callbacks still happen; bodies that touch nothing else move exactly as in free flight.",
 ["inputs", "histories"], "every overlapping placement and velocity",
 "tests do not compare velocities with free flight",
 ["space.go", "arbiter.go"], [("solver arbiter list", "space.go")])
prop("C21", "Shape filters reject exactly as documented",
 "Two shapes (or a query filter and a shape) are rejected exactly when they share a non-zero group or either's mask misses the other's categories; the relation is symmetric, and in a space rejected pairs never collide and never appear in filtered queries.",
 ["inputs"], "every group, category and mask value (full machine words)",
 "needs all bit patterns", ["shape.go", "space.go"], [("ShapeFilter.Reject", "shape.go")])
prop("C22", "Persistent contacts keep their accumulated impulses",
 "Across consecutive touching steps the accumulated impulses of a contact carry over to the same feature pair and to no other; new features start from zero; contacts of different pairs never share storage, at any number of contacts, and the total impulse reported by an arbiter is the one the solver applied to its first body (at a constant time step). A pair that touches again after separating starts anew. Features are told apart by their hashes, which may coincide for a few combinations of shape numbers (as the code documents).",
 ["inputs", "histories"], "every placement over two or three steps",
 "requires matching hashes across frames; visible only as jitter",
 ["arbiter.go", "collision.go", "contactbuffer.go", "space.go"], [("Arbiter.Update", "arbiter.go"), ("contact buffer", "contactbuffer.go")])
prop("C23", "Contacts and joints conserve momentum",
 "Solving contacts and each of the ten joints applies equal and opposite impulses: total linear momentum of the two dynamic bodies is unchanged by a step without gravity or damping, and so is total angular momentum about any fixed point for impulses applied at coincident world points.",
 ["inputs"], "every velocity, mass and placement within stated ranges, for contacts and each joint kind",
 "sign errors in one coordinate only show for off-axis configurations",
 ["arbiter.go", "constraint.go", "body.go", "pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go"], [("apply_impulses, ApplyImpulse", "everything.go arbiter.go joints")])
prop("C24", "Joint impulses never exceed the configured maximum force",
 "In one step a joint with a finite maximum force never applies a total impulse larger than that force times the time step, and one-sided joints (slide, rotary limit, ratchet) only act in the direction that enforces their limit.",
 ["inputs"], "every velocity, placement and force limit",
 "requires extreme velocities against small limits",
 ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go"], [("impulse clamping", "joints")])
prop("C25", "Each joint enforces its own velocity constraint",
 "With unlimited force and no position error, after one solver application the relative velocity violates the joint's constraint nowhere: pivot anchors move together, pin and slide distance does not change when taut, groove anchor only moves along the groove, gear keeps its ratio, motor reaches its rate, rotary limits and ratchets stop at their limits; with position error the bias velocity reduces the error. Reported impulse equals what was applied.",
 ["inputs"], "every velocity, mass and anchor within stated ranges",
 "tests contain no joints", ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go", "constraint.go"], [("PreStep and ApplyImpulse", "joints")])
prop("C26", "Contact solver pushes, rubs and bounces within physical limits",
 "Contact normal impulses never pull, friction impulses never exceed the friction coefficient times the normal impulse, a single frictionless contact ends with separating velocity at least that prescribed by restitution, surface velocity drives the tangential relative velocity, and kinetic energy does not grow (circle contacts with friction, frictionless single and box contacts) for restitution at most one without bias.",
 ["inputs"], "every velocity, friction, elasticity and mass within stated ranges",
 "needs all velocity regimes (separating, sliding, sticking)",
 ["arbiter.go", "space.go"], [("Arbiter.PreStep, ApplyCachedImpulse, ApplyImpulse", "arbiter.go")])
prop("C27", "Static and kinematic bodies are never moved by collisions or joints",
 "Static and kinematic bodies are unaffected by gravity, contacts, joints and forces: a kinematic body follows exactly its own velocity and a static body never moves during steps, whatever touches or is jointed to them; infinite-moment bodies never start rotating.",
 ["inputs", "histories"], "every velocity and placement of the other bodies",
 "needs all contact regimes", ["body.go", "space.go", "arbiter.go", "everything.go"], [("zero inverse mass", "body.go")])
prop("C28", "Free motion integrates exactly as documented",
 "A dynamic body touching nothing moves per step by semi-implicit Euler: position advances by velocity times dt, velocity is damped by damping^dt then accelerated by gravity and force over mass, the angle likewise with torque over moment, and forces are cleared. A zero time step changes nothing; custom velocity and position functions are called once per step instead.",
 ["inputs"], "every velocity, force, torque, gravity, damping and dt within stated ranges",
 "tests check one fall", ["body.go", "space.go"], [("BodyUpdateVelocity/Position", "body.go")])
prop("C29", "Body-local and world coordinates, forces and velocities agree",
 "World/local conversions are mutually inverse and account for rotation, position and center of gravity; velocity at a point is v + w x r; applying a force or impulse at a world point changes velocity and spin by F/m and (r x F)/I, the local variants are the same after conversion, kinetic energy (reported as m v^2 + I w^2) matches, and setting position/angle is read back with shapes following.",
 ["inputs"], "every position, angle, center of gravity, point, force and velocity",
 "needs rotated bodies with offset center of gravity, which no test uses",
 ["body.go"], [("transform and cog handling", "body.go")])
prop("C30", "Membership bookkeeping stays consistent",
 "After any sequence of adding and removing shapes, bodies and constraints and changing body types, a space contains exactly what was added and not removed; each iteration visits each element exactly once; bodies list exactly their shapes and constraints; shapes are found by queries iff they are in the space, in static and dynamic roles alike.",
 ["histories"], "every operation sequence up to the bound",
 "tests add and remove a few; type changes and removal order need all sequences",
 ["space.go", "body.go"], [("Add*/Remove*/SetType", "space.go body.go")])
prop("C31", "Constraints register with both bodies and gate their collisions",
 "A constraint added to a space is listed by exactly its two bodies and by the space until removed; bodies joined by a constraint with collisions disabled generate no contacts between them while other pairs are unaffected; pre- and post-solve constraint callbacks run once per step; parameters set are read back and wake the bodies.",
 ["histories", "inputs"], "every sequence of additions and removals over up to three constraints",
 "list surgery depends on the order of removals", ["constraint.go", "space.go", "body.go"], [("constraint lists", "body.go constraint.go"), ("QueryRejectConstraint", "space.go")])
prop("C32", "Sleeping and waking preserve the simulation",
 "Bodies fall asleep only together with everything they touch or are jointed to, after being idle for the threshold; sleeping bodies do not move, are not integrated and remain found by queries; touching by an awake body, applying a force or impulse, removing support, changing gravity or setters wakes the whole connected component; sleeping or waking never loses a body, shape, constraint or contact, and causes no separate or begin callbacks for contacts that persist.",
 ["histories", "inputs"], "every history of idle and disturbing steps up to the bound",
 "component lists and contact caching depend on order; no test enables sleeping",
 ["body.go", "space.go"], [("ProcessComponents, Activate, Deactivate", "space.go body.go")])
prop("C33", "Post-step callbacks run exactly once after the step",
 "A callback registered during a step or query runs exactly once, after the space is unlocked, in registration order; a second registration with the same key is refused and reported; callbacks registered by a running post-step callback also run; changes of the space by post-step callbacks take effect, and bodies woken while the space is locked are awake, once, after it is unlocked.",
 ["histories"], "every registration pattern up to the bound",
 "reentrant registration is never tested", ["space.go"], [("Unlock/AddPostStepCallback", "space.go")])
prop("C34", "Marching squares traces the sampled boundary",
 "For any sample grid, marching squares emits, for every cell, segments whose end points lie on cell edges whose samples straddle the threshold (interpolated linearly in the soft version, at midpoints in the hard version), oriented consistently, so that the collected lines of any field that is outside the threshold on its border are closed.",
 ["inputs"], "every sample value at every grid vertex up to the bound, including values equal to the threshold",
 "16 cell cases times thresholds and orientation", ["march.go", "polyline.go"], [("MarchSoft/MarchHard/cells", "march.go")])
prop("C35", "Polyline operations stay on the input and terminate",
 "Collecting segments into polylines preserves exactly the set of segments; simplification keeps end points (and closedness), only keeps input vertices in their order, leaves out a vertex only when it is within the tolerance (distance to the line through the kept neighbours, or length of the part left out, for curves; angle for vertexes), and always terminates for every polyline including closed and degenerate ones.",
 ["inputs"], "every polyline up to the vertex bound and every tolerance",
 "termination and closed-loop handling; no tests", ["polyline.go"], [("Push, SimplifyCurves, SimplifyVertexes", "polyline.go")])
prop("C36", "Damped springs pull toward rest and dissipate",
 "A damped spring or rotary spring applies equal and opposite impulses along its line of action with magnitude (rest length minus distance) times stiffness plus a damping term that never reverses the relative velocity, independent of the number of iterations, and reports the impulse it applied; without stretch it only removes kinetic energy; custom force and torque functions are used, once per step, when set.",
 ["inputs"], "every stretch, stiffness, damping, velocity and mass within stated ranges",
 "no tests contain springs", ["dampedspring.go", "dampedrotaryspring.go"], [("spring PreStep/ApplyImpulse", "dampedspring.go dampedrotaryspring.go")])
prop("C37", "Drawing covers every shape and constraint exactly once",
 "Drawing a space issues for every shape exactly one primitive of its kind carrying the shape's current world geometry and radius, for every drawable constraint (awake or asleep) its dots and lines at the world anchors, and for every contact of awake bodies one line through its points along its normal, each only if the drawer's flags ask for it, with the drawer's colors and data.",
 ["inputs", "configurations"], "every placement and flag combination", "drawing is tested by nothing",
 ["draw.go"], [("DrawSpace/DrawShape/DrawConstraint", "draw.go")])
prop("C38", "Long simulations of stacks stay stable",
 "Stacked bodies at rest settle, stay within a small penetration of each other and eventually sleep, for arbitrarily long simulations.",
 ["histories"], "all scenes and unbounded numbers of steps", "tests simulate one short scene",
 ["space.go", "arbiter.go"], [("iterative solver", "space.go")],
 na="A convergence property of an iterated floating-point solver over hundreds of steps: every step multiplies symbolic velocities by configuration-dependent coefficients and forks on every clamp, so the path count and polynomial degree grow exponentially with steps; bounded symbolic execution reaches two or three steps, which says nothing about settling.")
prop("C39", "Tree balance keeps queries sublinear",
 "The bounding-box tree stays balanced enough that queries and updates visit a sublinear number of nodes.",
 ["histories"], "all insertion histories", "no performance tests", ["bbtree.go"], [("BBTree insertion heuristics and Optimize", "bbtree.go")],
 na="A cost property with no bound stated or guaranteed by the code (insertion is a greedy surface-area heuristic and can degenerate); there is no assertion over symbolic inputs that the implementation promises.")
prop("C40", "Arbiters report and accept the contacts of their shapes",
 "In begin, pre-solve and post-solve callbacks and when a body lists its arbiters after a step, an arbiter's contact set, normal and bodies are those of colliding its two shapes where they are, as seen from the first shape; a body lists each of its touching pairs (no sensor, one body of finite mass) exactly once with itself first, also after shapes or bodies were removed. Setting the contact set that is there changes nothing; contacts replaced in a pre-solve callback are read back and are those that the solver uses (normal, points, overlap).",
 ["inputs", "histories"], "every placement and velocity within stated ranges, every kind of pair and order of types",
 "no test uses contact sets or lists arbiters", ["arbiter.go", "body.go", "space.go"],
 [("ContactPointSet/SetContactPointSet", "arbiter.go"), ("EachArbiter/PushArbiter/Unthread", "body.go arbiter.go")])
prop("C41", "Physics does not depend on the frame of reference",
 "A scene of bodies, shapes and joints evolves the same wherever it is placed, when all of it moves at one velocity (without damping), when it is turned by quarter turns or mirrored, and in other units of mass or length: positions, velocities, angles, contacts, impulses and query answers are those of the original scene carried over. (Where one step solves several contacts, their order may depend on the mirror image or the speed: excluded.)",
 ["inputs", "configurations"], "every offset and common velocity, every velocity of a body within stated ranges, 17 scenes with all kinds of shapes and joints",
 "tests check single scenes near the origin", ["space.go", "body.go", "arbiter.go", "collision.go", "pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "gearjoint.go", "ratchetjoint.go", "rotarylimitjoint.go", "dampedspring.go"],
 [("Step", "space.go"), ("joints", "*joint.go damped*.go"), ("collision", "collision.go")])
prop("C42", "A space is independent of its past and of other spaces",
 "A space from which everything was removed (whatever happened before: contacts, sleep, replaced shapes, joints, queries) behaves like a new one: the same motion, contacts, impulses, queries and iteration, and new arbiters carry no user data. Spaces that are stepped by turns do not affect each other, and equal spaces evolve equally.",
 ["histories", "inputs"], "5 kinds of past with a body anywhere, later scenes with any velocity of a body within stated ranges",
 "tests use each space once", ["space.go", "bbtree.go", "spacehash.go", "arbiter.go", "hashset.go", "contactbuffer.go"],
 [("pools and caches", "space.go bbtree.go spacehash.go hashset.go"), ("Arbiter.Init", "arbiter.go")])

have = set()
for f in glob.glob(os.path.join(V, "harness", "c[0-9][0-9]_*.go")):
    have.add("C" + os.path.basename(f)[1:3])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))) + "\n")
NOTE = "Bounded: every input within the bounds printed in the evidence file is covered by symbolic execution of the package's SSA with SMT-decided assertions; reals stand in for doubles (tolerances stated in the harness), map order/pointer hashes/pool order fixed. Counterexamples are re-run natively against /repo before being reported."
checks, na = [], []
for p in P:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
    elif p["id"] in have:
        checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick bash check.sh " + p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh " + p["id"],
            evidence_file="evidence/%s.json" % p["id"], technique="symbolic execution of go/ssa + SMT (z3, cvc5)", level="model_checking", level_note=p["note"] or NOTE))
    else:
        na.append(dict(property=p["id"], reason="not yet claimed: harness not written at this commit"))
json.dump(dict(version=1, setup_cmd="bash check.sh build", checks=checks, not_applicable=na,
    notes="One engine (engine/) and one harness file per property (harness/cNN_*.go). See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")

# the tables of DESIGN.md
import re
rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
caught = {}
for l in open(os.path.join(V, "tools", "caught.txt")):
    if l.strip():
        caught[l.split()[0]] = l.strip().split(" ", 1)[1]
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    m = json.load(open(d + "/meta.json"))
    i = os.path.basename(d)
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), caught.get(i, "")))
hrows = ["| harness | tier | bounds |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(V, "harness", "c[0-9][0-9]_*.go"))):
    b, t = "", "quick"
    for l in open(f):
        if l.startswith("//verif:bounds "):
            b = l[15:].strip()
        elif l.startswith("//verif:thorough"):
            t = "thorough"
        elif l.startswith("func VH_"):
            hrows.append("| %s | %s | %s |" % (l[8:l.index("(")], t, b.replace("|", "/")))
            b, t = "", "quick"
dp = os.path.join(V, "DESIGN.md")
if os.path.exists(os.path.join(V, "seeded")):
    s = open(dp).read()
    for name, r in (("seeded", rows), ("harnesses", hrows)):
        s = re.sub(r"(<!-- %s -->\n).*?(<!-- /%s -->)" % (name, name), lambda m: m.group(1) + "\n".join(r) + "\n" + m.group(2), s, flags=re.S)
    open(dp, "w").write(s)
