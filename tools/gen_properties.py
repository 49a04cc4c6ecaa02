#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(d)

prop("C01","Every touching pair is detected exactly once per step, whatever the history",
 "In every step, each pair of shapes that touch and are allowed to collide (different bodies, filters and joints permit it, at least one of the two bodies awake and not static) has its collision callbacks run exactly once, and no pair that does not touch has them run. This holds for both spatial indexes, after any history of adding, removing, moving, reindexing, sleeping, waking, changing body type, reshaping, or switching to the spatial hash.",
 ["histories","inputs","configurations"],"every history of space operations and steps, every arrangement of circles, segments and polygons, both the tree and the hash index",
 "The tests run a handful of fixed scenes; the pair cache, the fat boxes and the stamps of the index only go wrong after particular sequences of inserts, moves and removals.",
 ["bbtree.go","spacehash.go","space.go","hashset.go","spatialindex.go"],
 [("bounding box tree with cached pairs, fat leaves and stamps","bbtree.go: MarkLeaf, MarkLeafQuery, LeafUpdate, PairInsert, PairsClear"),("spatial hash with per-query stamps and orphan removal","spacehash.go: ReindexQuery, queryHelper, removeOrphanedHandles"),("pair callback","space.go: SpaceCollideShapesFunc, QueryReject")],
 ["PreSolve/Begin callbacks of a collision handler","Shape.BB, Body.Position, Body.Angle after Step"])

prop("C02","Contacts between two shapes are geometrically true",
 "For any two shapes, a collision is reported exactly when they touch or overlap; the reported normal is a unit vector pointing from the first shape to the second along an axis of minimum translation, the smallest reported distance equals the signed distance between the two shapes, and every contact lies on both surfaces along that normal. Swapping the two shapes reports the same contacts mirrored, faces that overlap along an interval are reported with both ends of that interval, and what an arbiter reports during a step agrees with a fresh query of the same pair.",
 ["inputs","histories"],"every pair of circle, segment, rounded or sharp convex polygon in every relative pose, tiny to large, from cold start or warm-started from previous steps",
 "No test compares contact geometry with an independent computation; the tests only see that something collided.",
 ["collision.go","space.go","arbiter.go","circle.go","segment.go","poly.go","shape.go"],
 [("GJK and EPA on the Minkowski difference","collision.go: GJK, EPA, ClosestPoints"),("support-edge clipping","collision.go: ContactPoints, SupportEdgeFor*"),("normal/order swap","shape.go: ShapesCollide; arbiter.go: ContactPointSet, Normal")],
 ["ShapesCollide","Arbiter.ContactPointSet, Normal in callbacks"])

prop("C03","Filtered pairs never interact and permitted pairs always do",
 "Two shapes never collide, and a query never returns a shape, when they belong to the same body (for collisions), share a non-zero group, fail either category/mask test, or when a joint between their bodies disables collision; in every other case the filter never suppresses a touching pair. The rule is symmetric, takes effect from the next step after a filter or joint setting changes, and filtered pairs cause no callback and no change of motion.",
 ["inputs","configurations","histories"],"every combination of groups, categories and masks including extreme bits, every joint arrangement, every order in which they are set or changed",
 "The tests use default filters only.",
 ["everything.go","space.go","shape.go","constraint.go"],
 [("filter rejection","everything.go: ShapeFilter.Reject"),("pair rejection","space.go: QueryReject, QueryRejectConstraints")],
 ["collision callbacks","query results","body motion"])

prop("C04","Collision callbacks follow one begin-presolve-postsolve-separate life cycle",
 "For each pair of shapes the callbacks form complete contact episodes: begin exactly once when contact starts, then pre-solve in each step in which they touch, post-solve exactly once in each step whose contact was actually solved (a contact restored when its island is woken within a step is solved as it was), and separate exactly once when they stop touching (at the latest when they next wake) or when either shape is removed, never before begin and never twice. A begin that returns false or an ignore suppresses pre-solve, post-solve and any response until separation, a pre-solve that returns false suppresses that step only, sensors get begin, pre-solve and separate but no response, and the first-contact flag and attached user data belong to the current episode.",
 ["histories","inputs","schedules"],"every history of motion, removal, ignoring, sensor toggling, sleeping and waking, with callbacks returning any mix of answers",
 "The tests never assert on callback sequences.",
 ["space.go","arbiter.go","hashset_arbiter.go","body.go","hashset.go"],
 [("arbiter state machine and cache","space.go: SpaceCollideShapesFunc; hashset_arbiter.go: SpaceArbiterSetFilter, CachedArbitersFilter"),("arbiter reuse","arbiter.go: Init, Update")],
 ["Begin/PreSolve/PostSolve/Separate callbacks","Arbiter.IsFirstContact, UserData, Shapes"],
 [("arbiter state","where a pair is in its episode","arbiter.go: state, stamp")])

prop("C05","Each collision reaches exactly the handlers registered for its types",
 "A collision between two collision types runs the handler registered for that unordered pair, or else the default behaviour of calling the wildcard handler of each of the two types, each exactly once per event; the callback always sees the shapes, bodies, normal and contacts ordered as the handler's types were registered (a wildcard handler sees its own type first), and receives that handler's user data. Registering the same pair again in either order returns the same handler, and the collision proceeds only if every consulted handler agreed.",
 ["configurations","inputs"],"every set of registered specific and wildcard handlers over many collision types, registered in any order, before or after shapes exist",
 "One test registers no handler; dispatch is untested.",
 ["arbiter.go","space.go","everything.go","hashset.go"],
 [("handler lookup and swap","space.go: LookupHandler, NewCollisionHandler, NewWildcardCollisionHandler; arbiter.go: Update"),("wildcard chaining","arbiter.go: CallWildcard*, DefaultBegin, DefaultPreSolve")],
 ["all handler callbacks and their arguments"])

prop("C06","Space queries return exactly what an exhaustive search would",
 "Nearest-point, bounding-box, segment, first-hit and shape queries on a space return exactly the shapes (each once, no sensors where documented, filters applied) and the nearest or first result that checking every shape one by one would give. This holds for both spatial indexes and after any history of insertions, removals, movement, reindexing, sleeping and waking.",
 ["histories","inputs","configurations"],"every query position, size, direction and filter against every space history, tree and hash index",
 "Two tests make one query each on one shape.",
 ["space.go","bbtree.go","spacehash.go","bb.go"],
 [("index descent and grid walk","bbtree.go: SubtreeQuery, SubtreeSegmentQuery; spacehash.go: Query, SegmentQuery"),("query contexts","space.go: PointQueryNearest, BBQuery, SegmentQuery, SegmentQueryFirst, ShapeQuery"),("box ray test","bb.go: SegmentQuery")],
 ["return values and callbacks of the queries"])

prop("C07","Point and ray queries against a single shape are geometrically exact and finite",
 "For any shape and any point, the point query gives the true signed distance to the rounded outline (negative inside), a point on that outline at that distance, and a unit gradient; for any ray of any thickness, the segment query reports a hit exactly when the swept ray reaches the shape, with the first fraction at which it does, the surface point and the outward unit normal there. No finite input, including centres, vertices, edges, zero-length rays and zero-length segments, produces a NaN.",
 ["inputs"],"every shape in every pose, every point and ray including degenerate ones",
 "The tests make one point query; no ray test exists.",
 ["circle.go","segment.go","poly.go","shape.go","vector.go"],
 [("per-class point and segment queries","circle.go, segment.go, poly.go: PointQuery, SegmentQuery, CircleSegmentQuery"),("start-inside rule","shape.go: SegmentQuery")],
 ["Shape.PointQuery, Shape.SegmentQuery results"])

prop("C08","A space always holds exactly what was added and not removed",
 "At every moment between steps, iterating bodies, shapes and constraints visits exactly the objects added and not yet removed, each once, whether awake, asleep, static or kinematic, and agrees with the contains queries, with each body's own lists and with the space recorded on each shape. Iteration stays exact when the callback wakes or modifies the visited objects or iterates itself, and no history of adds, removals, type changes, sleeping or waking loses or duplicates an object.",
 ["histories"],"every sequence of add, remove, re-add, type change, sleep, wake, step and index switch, and every waking callback",
 "The tests add a few objects and never enumerate them.",
 ["space.go","body.go","hashset.go","bbtree.go","spacehash.go","constraint.go"],
 [("awake, static and sleeping lists","space.go: AddBody, RemoveBody, Activate, Deactivate; body.go: SetType"),("per-body lists","body.go: AddShape, RemoveShape, RemoveConstraint, EachConstraint")],
 ["EachBody, EachShape, EachConstraint, Contains*, Body.Each*"])

prop("C09","Bodies sleep and wake as whole contact islands, and only when idle",
 "With sleeping enabled, a group of bodies connected by contacts or joints falls asleep only when every member has been below the idle threshold for the configured time and nothing in it touches or is joined to a moving-type (kinematic) body, and then all of it sleeps together. A sleeping body does not move or change; setting anything of it, of one of its shapes or of a joint on it, adding or removing a shape or joint of it, a collision with an awake body, removing, retyping or explicitly activating its static support, or a gravity change wakes its entire island and no other.",
 ["histories","inputs","configurations"],"every island topology, threshold, time step and waking trigger",
 "No test enables sleeping.",
 ["space.go","body.go","arbiter.go","constraint.go","shape.go"],
 [("idle accounting and flood fill","space.go: ProcessComponents, FloodFillComponent, ComponentActive"),("activation","body.go: Activate, ActivateStatic; space.go: Activate, Deactivate, SetGravity")],
 ["Body.IsSleeping, IdleTime, Position, Velocity"],
 [("island links","which bodies sleep together","body.go: sleepingRoot, sleepingNext")])

prop("C10","Static, kinematic and infinite-mass bodies are never moved by the simulation",
 "No collision, joint, gravity, damping, force or position correction ever changes the position, angle or velocity of a static body; a kinematic body moves exactly by its own velocity and is never deflected, a dynamic body with infinite mass never gains linear velocity and one with infinite moment never gains angular velocity from impulses or torques. A body made static or kinematic stops where it is, without linear or angular velocity, and changing the type of a body never moves it.",
 ["inputs","histories","configurations"],"every scene in which such bodies are hit, jointed, stacked on or switched between types",
 "The tests do not look at static or kinematic bodies after impacts.",
 ["body.go","arbiter.go","space.go"],
 [("infinite mass as zero inverse mass","body.go: SetType, SetMass, SetMoment, BodyUpdateVelocity; arbiter.go: apply_impulses, apply_bias_impulses")],
 ["Body.Position, Angle, Velocity, AngularVelocity around Step"])

prop("C11","Free motion follows the documented integrator and forces act exactly once",
 "A body free of contacts and joints moves each step by its velocity times the step, then has its velocity damped, accelerated by gravity and by the accumulated force and torque over mass and moment, and those accumulators are then cleared; forces and impulses applied at a point produce the matching linear and angular effect about the centre of gravity. User-supplied velocity and position functions are called exactly once per step per awake body with the space's gravity, damping and step, and a zero step changes nothing.",
 ["inputs","histories"],"every mass, moment, centre of gravity, velocity, force, point of application, damping, gravity and step size",
 "The tests check one falling body at coarse precision at most.",
 ["body.go","space.go"],
 [("integration","body.go: BodyUpdateVelocity, BodyUpdatePosition"),("force and impulse application","body.go: ApplyForceAt*, ApplyImpulseAt*"),("step order","space.go: Step")],
 ["Body state around Step, arguments of update functions"])

prop("C12","Contacts and joints conserve momentum and report the impulse they applied",
 "Contacts and joints exchange equal and opposite impulses: in every step the change in momentum of each body equals gravity and applied forces plus the impulses reported by its arbiters, and the total linear momentum of a closed group of bodies is unchanged up to rounding, as is the angular momentum of two colliding bodies (up to the depth of the penetration times the friction impulse) and of two bodies joined by a joint that acts in one point or line or as a plain torque. Correcting the penetration of contacts never leaks into velocity and never moves the common centre of mass.",
 ["inputs","histories"],"every mixture of masses, moments, shapes, friction, restitution, joints and step sizes",
 "No test sums momentum.",
 ["arbiter.go","space.go","constraint.go","pinjoint.go","slidejoint.go","pivotjoint.go","groovejoint.go","dampedspring.go","dampedrotaryspring.go","gearjoint.go","simplemotor.go","ratchetjoint.go","rotarylimitjoint.go"],
 [("impulse pairs","arbiter.go: apply_impulses, apply_bias_impulses, ApplyImpulse, ApplyCachedImpulse, TotalImpulse")],
 ["velocities around Step, Arbiter.TotalImpulse in PostSolve"])

prop("C13","Collision response obeys restitution, Coulomb friction and penetration rules",
 "Contact only ever pushes bodies apart: after solving, the approach speed at a contact is reversed by the product of the two elasticities and never increased beyond it, the tangential impulse never exceeds the product of the two frictions times the normal impulse and opposes sliding relative to the surface velocities, and without external work kinetic energy does not grow in impacts without friction or without bounce. Penetration beyond the allowed slop is reduced at the configured bias rate, never turned into separation or velocity.",
 ["inputs","configurations"],"every pair of shapes, masses, velocities, elasticity, friction, surface velocity, slop, bias and step",
 "The tests never examine collision response.",
 ["arbiter.go","space.go","shape.go"],
 [("contact solver","arbiter.go: PreStep, ApplyImpulse, Update"),("bias","space.go: Step, SetCollisionSlop")],
 ["velocities and penetration around Step, Arbiter.TotalImpulse"])

prop("C14","Each joint enforces its constraint from any starting state",
 "Started from any state, each joint type with unlimited force drives its own error (anchor distance, slide range, pivot coincidence, groove segment, relative angle, limit range, ratchet notch, gear ratio, motor rate) towards zero at the configured bias rate without overshoot, exerts no effect while a one-sided joint is inside its allowed range, and never pulls or pushes in the forbidden direction. A chain at rest stays at rest whatever the step sizes, each joint carrying exactly the load below it, because its impulse carries over to the next step scaled by the ratio of the step sizes. The correction is the same whichever body is listed first, and works for dynamic, static and kinematic partners and off-centre anchors.",
 ["inputs","histories","configurations"],"every joint type with every anchor, range, phase, ratio, mass, moment and starting velocity",
 "Joints have no tests at all.",
 ["pinjoint.go","slidejoint.go","pivotjoint.go","groovejoint.go","rotarylimitjoint.go","ratchetjoint.go","gearjoint.go","simplemotor.go","constraint.go"],
 [("per-joint solver","*joint.go, simplemotor.go: PreStep, ApplyImpulse"),("effective mass","everything.go: k_scalar, k_tensor")],
 ["body poses and velocities around Step"])

prop("C15","Joint force limits, spring laws and reported impulses are honoured",
 "No joint other than a spring (which only obeys its own force law) ever applies an impulse larger than its maximum force times the step or corrects faster than its maximum bias, and the impulse it reports equals the momentum it actually transferred. Springs apply exactly their stiffness or custom force law with exponential damping that never reverses the relative velocity, and each constraint's pre-solve and post-solve hooks run exactly once per step while it is in the space and awake. A joint class of the user's own is driven the same way: between the two hooks it is prepared with the step size, warm-started with the ratio of the step sizes, and asked for its impulse once per solver iteration.",
 ["inputs","configurations","histories"],"every joint and spring, limit, stiffness, damping, error bias and step size",
 "Joints and springs have no tests at all.",
 ["constraint.go","dampedspring.go","dampedrotaryspring.go","pinjoint.go","slidejoint.go","pivotjoint.go","groovejoint.go","gearjoint.go","simplemotor.go","ratchetjoint.go","rotarylimitjoint.go","space.go"],
 [("impulse clamp","*joint.go: ApplyImpulse; constraint.go: SetMaxForce, SetMaxBias"),("springs","dampedspring.go, dampedrotaryspring.go: PreStep, ApplyImpulse")],
 ["Constrainer.GetImpulse, velocities around Step, hooks"])

prop("C16","Post-step callbacks run exactly once, in order, with the space unlocked",
 "Every post-step callback accepted during a step or query runs exactly once, in the order added, after the outermost step or query finishes and while objects may be added and removed; one whose key was already taken since the last such run is refused and the refusal is reported, and one added from inside another post-step callback also runs. Removing and adding any object from such a callback is safe and takes effect.",
 ["histories","schedules"],"every nesting of steps, queries and callbacks that register further callbacks, with repeated and nil keys",
 "One test uses a post-step callback once.",
 ["space.go"],
 [("lock count and callback queue","space.go: Lock, Unlock, AddPostStepCallback, PostStepCallback")],
 ["callback invocations and return value of AddPostStepCallback"])

prop("C17","Mass, moment, area and centre of gravity follow from the shapes",
 "The area, centroid and moment reported for any circle, ring, segment, box or polygon equal those of the actual figure (a segment's moment is documented as that of its bounding box, a polygon's ignores its radius), and a body built from shapes has the total mass, the mass-weighted centre of gravity and the parallel-axis moment of its shapes, independent of the order of adding, removing, re-massing or reshaping them. Changing mass data never moves the body's position or its shapes.",
 ["inputs","histories"],"every figure and offset, every set of shapes on a body and every order of changes",
 "Three tests check one or two shapes each.",
 ["everything.go","body.go","shape.go","circle.go","segment.go","poly.go"],
 [("mass formulas","everything.go: MomentFor*, AreaFor*, CentroidForPoly"),("aggregation","body.go: AccumulateMassFromShapes, AddShape, RemoveShape; shape.go: SetMass, SetDensity")],
 ["MomentFor*/AreaFor*/CentroidForPoly, Body.Mass, Moment, CenterOfGravity, Position"])

prop("C18","The same construction and steps always give the same results, bit for bit",
 "Repeating the same sequence of calls on a new space gives bit-identical positions, angles, velocities, sleep states, query results and contact callbacks in the same order, regardless of what other spaces did before, of garbage collection, or of memory layout.",
 ["histories","schedules"],"every recorded history of operations, replayed any number of times in the same or another process",
 "A test run executes each scene once.",
 ["space.go","bbtree.go","spacehash.go","hashset.go","arbiter.go"],
 [("insertion-counter hash ids","space.go: shapeIDCounter, AddShape"),("ordered lists","space.go: arbiters, constraints, dynamicBodies")],
 ["bit patterns of body state and callback log"])

prop("C19","Separate spaces can run on separate goroutines",
 "Spaces that share no objects can be built, stepped, queried, drawn and torn down concurrently on different goroutines without data races, and each gives exactly the result it gives when run alone. Concurrent read-only geometry and mass computations are likewise safe.",
 ["schedules"],"every interleaving of goroutines each owning its own space",
 "The tests are single-goroutine and run without the race detector.",
 ["body.go","space.go","everything.go","bbtree.go","spacehash.go","arbiter.go"],
 [("per-space state, package-level variables","body.go: bodyCur; everything.go: debug maxima; arbiter.go: shared default handlers")],
 ["race detector reports, final state digests"])

prop("C20","Observing a space never changes its future",
 "Querying, iterating, drawing, reading any property, or asking for debug information between steps or from collision callbacks, any number of times, leaves every later step bit-identical to a run without the observation.",
 ["histories","inputs"],"every observer call at every point of every history, on both indexes",
 "No test compares two runs.",
 ["space.go","bbtree.go","spacehash.go","draw.go","shape.go","everything.go"],
 [("query stamps and locks","spacehash.go: stamp; space.go: Lock, Unlock"),("cached world geometry","shape.go: Update")],
 ["bit patterns of the trajectory"])

prop("C21","Convex hulls and polygon shapes cover exactly their input points",
 "The convex hull of any point set is a convex counter-clockwise polygon over a subset of the input that contains every input point (a positive tolerance may shave off points that close to its edges); a polygon or box shape built from points, transformed, re-set or reshaped, has exactly that hull's vertices, with outward unit edge normals and a tight bounding box that follows its body.",
 ["inputs"],"every point set including duplicates and collinear runs, every tolerance, transform (also mirrored) and body pose",
 "No test calls the hull.",
 ["poly.go","transform.go","segment.go","circle.go"],
 [("quick hull","poly.go: ConvexHull, QHullReduce, QHullPartition, LoopIndexes"),("planes","poly.go: SetVerts, SetVertsRaw, CacheData")],
 ["ConvexHull result, PolyShape.Vert/TransformVert/Count, Shape.BB"])

prop("C22","Contour tracing and polyline simplification preserve the outline",
 "Marching over any sampled field emits contour segments that form only closed loops or paths ending on the sampled border, keep the above-threshold side on one consistent side, and are collected into polylines without loss; soft contours pass through the interpolated threshold crossings and hard ones through cell midlines. Simplifying a polyline keeps its end points, keeps closed lines closed, uses only original vertices in order, and never strays farther than the tolerance from the original.",
 ["inputs"],"every field, sample grid, threshold, polyline and tolerance",
 "No test covers marching or polylines.",
 ["march.go","polyline.go"],
 [("cell cases","march.go: MarchCells, MarchCellSoft, MarchCellHard"),("collection","polyline.go: PolyLineCollectSegment, Join"),("simplification","polyline.go: SimplifyCurves, SimplifyVertexes, DouglasPeucker")],
 ["emitted segments, PolyLineSet, simplified polylines"])

prop("C23","Vector, box and transform arithmetic obeys its algebra",
 "Vector, bounding-box and affine-transform operations agree with their mathematical definitions for all finite inputs: rotations and interpolations hit their end points and stay between them, clamping respects the limit, box union/intersection/containment/ray tests agree with point-set reasoning, and transforms compose, invert and map boxes conservatively.",
 ["inputs"],"all finite vectors, boxes, angles and transforms including zero, equal, opposite and axis-aligned ones",
 "One test normalises one vector.",
 ["vector.go","bb.go","transform.go"],
 [("arithmetic","vector.go, bb.go, transform.go")],
 ["return values"])

prop("C24","No valid sequence of calls crashes, hangs or produces NaN",
 "Any sequence of valid calls, including on degenerate but legal shapes (points, coincident bodies, zero-length segments, extreme mass ratios, joints whose anchors coincide), returns normally, keeps every coordinate, velocity and query result finite, lets a segment of zero length act as the disc it is, and never trips the library's own internal consistency assertions when built with them.",
 ["histories","inputs"],"every valid call sequence over every feature combined, in the release and the assertion-enabled build",
 "The tests exercise a few dozen calls and never build with assertions on.",
 ["space.go","body.go","bbtree.go","spacehash.go","collision.go","arbiter.go","constraint.go","hashset.go"],
 [("internal assertions","debug.go; assert calls"),("degenerate-case guards","collision.go, vector.go, circle.go")],
 ["panics, CPU watchdog, finiteness of all state after each step"])

prop("C25","Contacts persist between steps, so stacks rest and warm starting is exact",
 "While two shapes keep touching, accumulated contact impulses carry over to the matching contact of the next step scaled by the ratio of step sizes, and are dropped when the contact ends, is refused or turns into a sensor's; a step of no length is no step. As a result a body or stack resting on a support settles: it neither sinks beyond the slop nor gains energy nor drifts, and the support carries exactly the weight above it each step (given enough solver iterations to converge; sleep keeps the impulses for the step size they were made with).",
 ["histories","inputs","configurations"],"every resting arrangement, number of contacts (also more than the buffers hold), gravity, step size and length of run",
 "No test runs a stack.",
 ["arbiter.go","space.go","contactbuffer.go","collision.go"],
 [("contact hashing and buffers","arbiter.go: Update, ApplyCachedImpulse; space.go: PushFreshContactBuffer, ContactBufferGetArray; collision.go: ContactPoints hashes")],
 ["TotalImpulse in PostSolve, positions and velocities over long runs"])

prop("C26","Drawing and debug output show exactly the current contents of the space",
 "Drawing a space calls the drawer exactly once for every shape with its current world geometry and the colours and data the drawer supplied, draws every constraint (awake or asleep) at its current anchors and every active contact, and draws nothing else; what is drawn is restricted to what the drawer's flags ask for. The debug summary reports the true counts of active contacts, contact points and constraints, their maxima so far, and the energy of the awake dynamic bodies as the sum of m·v² + i·w².",
 ["histories","inputs"],"every space content and history, every shape and joint type",
 "No test draws.",
 ["draw.go","everything.go"],
 [("draw traversal","draw.go: DrawSpace, DrawShape, DrawConstraint"),("summary","everything.go: DebugInfo")],
 ["Drawer calls, DebugInfo text"])

prop("C27","Body coordinates, velocities and shape geometry stay mutually consistent",
 "A body's position, angle, rotation, centre of gravity, local/world conversions and point velocities always describe one rigid transform: setting a property reads back, conversions invert each other, every attached shape's world geometry and box follow the body after each step, and moving or turning a body keeps all of them consistent whatever its centre of gravity.",
 ["inputs","histories"],"every sequence of position, angle, velocity and mass changes and steps, with any centre of gravity",
 "The tests check one centre-of-gravity case.",
 ["body.go","transform.go","shape.go","circle.go","segment.go","poly.go"],
 [("transform update","body.go: SetTransform, SetPosition, SetAngle, LocalToWorld, WorldToLocal, VelocityAt*"),("geometry cache","shape.go: Update; CacheData of each class")],
 ["Body getters, TransformC/TransformA/TransformVert, Shape.BB"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
