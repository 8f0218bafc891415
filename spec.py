TRUST = " Trusts the MIR rustc produces, the transfer functions written for std, nalgebra and generational-arena (prims.py), and real arithmetic for float identities."


def prop(id, title, statement, over, text, why, files, mech, technique, note, na=None, state=None):
    p = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note + TRUST)
    if state:
        p["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if na:
        p["na"] = na
    PROPS.append(p)


PROPS = []
SYS = "src/physics_system.rs"
ENT = "src/entity.rs"
COL = "src/collision.rs"
COLLIDERS = ["src/null_collider.rs", "src/sphere_collider.rs", "src/plane_collider.rs", "src/mesh_collider.rs", "src/aligned_box_collider.rs"]

prop("P01", "Stale and unknown handles are inert",
     "Every public operation given a handle that does not name a live object reports failure through its normal result, changes nothing in the system, and does not panic. A handle of a removed object never refers to a later object.",
     ["inputs", "histories"], "every operation that takes a handle, every system state, every handle that is not live in it",
     "The tests only pass handles that are live or use one removed handle on one operation; the claim is over every state and every dead handle, including ones whose slot was reused.",
     [SYS], [("look-ups through the generational arenas before any change", SYS)],
     "abstract interpretation of the resolved MIR (gated value numbers) and a no-write/no-panic/failure-result rule under the condition that the handle is dead",
     "Complete for the current tree: the final state and the result of each operation are computed for all inputs at once and compared with the initial state under `handle not live`.")
prop("P02", "A failing operation changes nothing",
     "Whenever a public operation of the system reports failure, every entity, collider, force generator, link and setting is exactly as it was before the call.",
     ["inputs", "histories"], "every public operation that can fail, every argument (valid or not) and every state",
     "Tests exercise a couple of rejected inputs and look at the returned value, not at the whole state; the claim is over all rejected inputs and all states.",
     [SYS, ENT] + COLLIDERS, [("validation before mutation in the add, update and link operations", SYS)],
     "abstract interpretation of the resolved MIR: final state restricted to the failure condition must be the initial state",
     "Complete for the current tree: the failure condition and the final state are exact gated values over all inputs.")
NFTECH = "abstract interpretation of the resolved MIR into gated value numbers; equality of algebraic normal forms (vector/matrix/quaternion identities over the reals) with the reference expression in every case"
prop("P03", "Local and world coordinates convert consistently",
     "Entity orientation is a rigid transform: a local position maps to world by rotating by the entity's rotation and adding its position, world to local is the exact inverse, and directions, normals, momenta and inertia are carried by the rotation alone, without changing the orientation. Halfway orientations used for contacts move evenly in a straight line and turn evenly by the (shortest) turn from the first to the second.",
     ["inputs"], "every orientation, every vector",
     "Tests sample a few axis-aligned rotations; errors in order or inverse only show for general rotations away from the origin.",
     ["src/orientation.rs"], [("Orientation conversions", "src/orientation.rs")], NFTECH,
     "Complete over the reals for the current tree; rounding is out of scope.")
prop("P04", "Mass properties match the solid shapes",
     "The mass, centre of mass and moment of inertia that each collider contributes are those of its solid shape (sphere 2/5 m r^2, box, and none for planes, meshes and null colliders as documented), moved to the entity's centre of mass by the parallel-axis theorem and to world axes by the entity's rotation.",
     ["inputs"], "every mass, radius, box extent, collider position and rotation",
     "Tests use unit spheres at the origin, for which wrong powers, factors and shifts coincide.",
     COLLIDERS + [ENT], [("get_mass, get_local_moment_of_inertia and get_center_of_mass of every collider", ", ".join(COLLIDERS))], NFTECH,
     "Complete over the reals for the current tree; rounding is out of scope.")
prop("P05", "Reported energy is the kinetic energy",
     "Entity::get_total_energy is m|v|^2/2 + w.Iw/2 with the world-space inertia; for infinite mass it is zero at rest and infinite when moving, never NaN; asking changes nothing.",
     ["inputs"], "every entity state",
     "Tests look at one or two diagonal inertias; the claim covers every rotation, inertia and velocity and the infinite-mass cases.",
     [ENT], [("Entity::get_total_energy", ENT)], NFTECH,
     "Complete over the reals for the current tree; rounding is out of scope.")
prop("P06", "Forces change momentum by exactly their impulse",
     "In a step every registered force generator is asked once about every entity of finite, non-negligible mass, with the step's dt, and that entity's velocity changes by dt/m times the sum of the forces and its angular velocity by I^-1 dt times the sum of the torques (p - x) x F about its position; other entities get no change, and nothing else is changed by this stage.",
     ["inputs", "histories"], "every number of entities and generators, every force and application point, every mass, inertia and dt",
     "Tests use one entity, one generator and unit masses; lost, repeated or mis-scaled terms show for several generators, general inertia tensors and off-centre forces.",
     [SYS, "src/force.rs"], [("the force loop of PhysicsSystem::step", SYS)],
     NFTECH + "; loop summaries (full-walk typestate of iterators, closed-form sums of accumulators)",
     "Complete over the reals for the current tree and any number of entities and generators; rounding is out of scope.")
prop("P07", "Gravity pulls with total mass times acceleration",
     "For a live entity the gravity generator returns a force of total mass times its acceleration, acting at the entity's center of mass, so gravity neither spins an entity nor depends on its mass distribution; asking changes neither the system nor the generator, and constructors store their arguments unchanged.",
     ["inputs"], "every entity state, every acceleration and dt",
     "Tests use one unit-mass entity at one place; mass from the wrong field or the wrong application point shows only with colliders and offset centres of mass.",
     ["src/gravity_generator.rs", "src/force.rs"], [("GravityGenerator::make_force", "src/gravity_generator.rs")], NFTECH,
     "Complete over the reals for the current tree; rounding is out of scope.")
prop("P08", "Exactly the valid values are accepted",
     "Adding or updating succeeds if and only if the handle (if any) is live, the kind of collider matches, and the values meet the documented constraints: masses zero or more (NaN is refused), sphere radius above the minimum of 0.05, plane normal of magnitude above 1e-6, meshes with at least three vertices, one face and one edge, boxes whose sides are all longer than 1e-6. is_valid answers the same question beforehand.",
     ["inputs"], "every operation that takes values, every value of every field including NaN and infinities",
     "Tests sample a few accepted and rejected values; boundaries, NaN, infinities and differences between adding and updating are not sampled.",
     [SYS, ENT] + COLLIDERS, [("is_valid, new_from and update_from of every kind of object", ", ".join([ENT] + COLLIDERS))],
     "abstract interpretation of the resolved MIR: the exact success condition as a BDD over comparisons, compared with the documented condition modulo the theory of float and integer comparisons (every region between, at and beyond the constants, infinities, NaN)",
     "Complete for the current tree.")
prop("P09", "What is read back is what was stored",
     "A value given to add_entity, update_entity, add_collider or update_collider is what get_entity and get_collider return: every public field unchanged, with only the documented normalisations (rotation as an equivalent rotation vector, plane normals of unit length, box corners sorted, links kept by the system itself), and get_entity reports the entity's current state field by field. Nothing is swapped, dropped or scaled between the public and the internal form.",
     ["inputs"], "every valid value of every public field of every kind of object",
     "Tests read back two or three fields with symmetric values; swapped or forgotten fields in one of the twelve copy functions go unnoticed.",
     [SYS, ENT] + COLLIDERS, [("new_from, update_from and make_pub of every kind of object", ", ".join([ENT] + COLLIDERS))],
     NFTECH + "; two operations composed on one symbolic state",
     "Complete over the reals for the current tree, except the position after update_entity of an entity with colliders (see the mass property).")
prop("P10", "Every operation changes only what it names",
     "An operation on one entity, collider or force generator leaves every field of every other object and every setting of the system as it was, apart from the documented ripple effects: mass properties and the collider list of the entities a collider is linked to, and the sleeping state of neighbours that are woken. Reading operations change nothing; a step changes only positions, velocities, sleeping states and the collision records, never masses, links, colliders, generators or settings.",
     ["inputs", "histories"], "every public operation, every argument, every state, every other object and every field of it",
     "Tests look at the object just operated on; a stray write to a second entity, collider or setting is not looked for, and there are unboundedly many other objects.",
     [SYS, ENT], [("arena accesses of every PhysicsSystem operation", SYS), ("wake_up and recalculate_mass", ENT)],
     "abstract interpretation of the resolved MIR: write set of each operation, as the value of every field of one generic other object after the operation through stores and loops (read-over-write with handle congruence)",
     "Complete for the current tree: the other object and the field are arbitrary; loops are summarised by the keys and fields they write.")
prop("P11", "Links are symmetric and never dangle",
     "At all times a collider linked to an entity is in exactly that entity's collider set and every collider in an entity's set is live and links back to it; neighbours of an entity are live entities. link_collider succeeds exactly when the collider and the entity given exist and then the collider is linked to that entity and to no other; None unlinks. A new system is empty.",
     ["inputs", "histories"], "every history of public operations (by induction: every operation, argument and state that satisfies the invariant)",
     "Tests link one collider to one entity; relinking, removing linked objects, repeated links and sequences of these have unboundedly many cases.",
     [SYS, ENT] + COLLIDERS, [("link_collider, remove_collider, remove_entity", SYS), ("wake_up", ENT), ("set_entity of every collider", ", ".join(COLLIDERS))],
     "abstract interpretation of the resolved MIR and an inductive-invariant rule: state after each operation at generic handles, violations refuted by BDD condition algebra with instances of the invariant and congruence of handles",
     "Complete for the current tree for all operations but step, whose neighbour insertions are covered by the sleep property.")
prop("P12", "Removing removes exactly the object named; adding gives a new handle",
     "After remove_entity, remove_collider or remove_unary_force_generator the handle names nothing, and removing an entity also removes every collider linked to it; the result says whether the object existed, and a removed generator is given back. A successful add returns a handle that was not in use and is in use afterwards; a failed one adds nothing.",
     ["inputs", "histories"], "every adding and removing operation, every argument, every state satisfying the link invariant",
     "Tests remove one object out of one or two; leftovers only show for entities with several colliders, relinked colliders, or reused slots.",
     [SYS], [("add_* and remove_* of PhysicsSystem", SYS)],
     "abstract interpretation of the resolved MIR: liveness of generic handles before and after each operation as gated values, equivalence with the documented effect by BDD condition algebra under the link invariant",
     "Complete for the current tree, given the link invariant (decided as its own property).")
prop("P13", "No operation panics",
     "No operation of PhysicsSystem panics, whatever the handles and values it is given and whatever was done before: no unwrap fails, no index is out of range, no pair of the same entity is asked for, and no shared cell is borrowed again while it is borrowed mutably, even when a force generator looks at the system from inside a step.",
     ["inputs", "histories"], "every operation, every argument, every state a history of operations can lead to, every number of entities, colliders and generators",
     "Tests use live handles in small systems; panics show for stale handles, removed neighbours, sleeping groups, and for code called back while something is borrowed.",
     [SYS, ENT, "src/gravity_generator.rs"], [("every public operation of PhysicsSystem", SYS), ("InternalEntity::wake_up, recalculate_mass, new_from, update_from", ENT), ("GravityGenerator::make_force", "src/gravity_generator.rs")],
     "abstract interpretation of the resolved MIR: every panic site is met with its condition as a BDD over gated value numbers and refuted under the link invariant, which is shown inductive for every operation, with facts about sets, queues and lists of handles by induction over loops; dynamic borrows are an interprocedural typestate analysis over the MIR (live RefCell guards per cell, callbacks resolved to every public function taking a shared system)",
     "Complete for the current tree outside the narrow phase (the collide functions are decided by the properties on each pair of shapes); memory running out and panics inside a force generator the user wrote are out of scope.")
prop("P14", "Cached mass properties agree with the linked colliders",
     "After every operation that changes an entity's own mass, its colliders or their values, the entity's total mass is its own mass plus the masses of its colliders (infinite as soon as one of them is), its position is their mass-weighted centre of mass (the origin of its local space without such colliders) while its local space stays where it was in the world, and its moment of inertia is the sum of theirs by the parallel axis theorem about that centre, none at all for infinite mass.",
     ["inputs", "histories"], "every operation, every number of colliders of every kind and mass, every orientation",
     "Tests link one or two unit colliders; stale caches after a particular operation, wrong weights and wrong frames show for several colliders, offsets, rotations and own mass.",
     [ENT, SYS] + COLLIDERS, [("InternalEntity::recalculate_mass and its callers", ENT + ", " + SYS), ("the mass methods of every collider", ", ".join(COLLIDERS))],
     NFTECH + "; loops over a set summarised as sums and existence conditions over its members",
     "Complete over the reals for the current tree and any number of colliders, given the link invariant (decided as its own property); rounding is out of scope. Colliders are asked through their mass methods, whose values are decided by the property on solid shapes.")
STEPA = [("PhysicsSystem::step", SYS), ("apply_impulse, get_velocity_at_world_position, get_inverse_moment_of_inertia", ENT), ("calc_collision_impulse, calc_collision_impulse_denominator, apply_collision_impulse", SYS)]
STEPTECH = "abstract interpretation of the resolved MIR of step: its loops become transitions of gated value numbers (per-entity loops resolved pointwise, the search loop as a selection of one witness), the round is compared in algebraic normal form"
prop("P15", "A step moves every awake entity by its velocities for exactly dt",
     "During step(dt) every awake entity's centre moves by its linear velocity times the time that passes and its rotation turns by its angular velocity times that time, about its centre; a collision splits the step at the impact, after which the new velocities apply to exactly the time that is left; with no collision left the rest of dt is used up. Sleeping entities do not move, nothing else moves anything, and only the iteration limit may leave time unused.",
     ["inputs", "histories"], "every system, every dt, every number of entities and of collisions in the step",
     "Tests follow one or two bodies through one or two collisions; lost or double-counted time and stale movement show after several collisions with several bodies.",
     [SYS, ENT, "src/orientation.rs"], STEPA + [("Orientation::affect_with", "src/orientation.rs")],
     STEPTECH + "; induction over the rounds with the invariant movement-left = velocity x time-left",
     "Complete over the reals for the current tree, given that the narrow phase returns a collision or none; rounding is out of scope.")
prop("P16", "Collisions conserve momentum and touch only the two colliding entities",
     "When a collision is handled, the linear momentum one entity gains is what the other loses (impact and friction together), each entity's spin changes by its inverse inertia (in the world frame, at the pose of impact) times the moment of that impulse about its own centre, an entity without mass keeps its velocity, and no other entity's velocity changes; nor does any velocity change in a round without a collision.",
     ["inputs"], "every pair of entities of any masses, inertias, poses and velocities, any contact",
     "Tests collide equal spheres head-on; sign and frame errors cancel in symmetric set-ups and show for unequal, rotated, off-centre bodies.",
     [SYS, ENT], STEPA,
     STEPTECH + "; lengths, quotients and conditions opaque",
     "Complete over the reals for finite non-zero masses; whether the impulse has the right size is decided by the next two properties.")
prop("P17", "Impacts obey Newton's law of restitution",
     "The impulse a collision exerts along the contact normal is -(1+e) times the approach speed of the two bodies' material points at the contact, divided by the response of both bodies (inverse masses and rotational part) at the pose of impact, where e is the product of the two colliders' restitution coefficients; it is zero if neither body can move. Hence the approach speed is turned into -e times itself.",
     ["inputs"], "every pair of entities of any masses, inertias, poses and velocities, any contact with a unit normal, any coefficients",
     "Tests check head-on impacts of e=1 or e=0 without rotation; the rotational terms, mixed coefficients and unequal masses have no test.",
     [SYS, ENT] + COLLIDERS, STEPA + [("get_restitution_coefficient of every collider", ", ".join(COLLIDERS))],
     STEPTECH + "; parts of the impulse recognised by proof (equal normal forms) and replaced by symbols",
     "Complete over the reals for non-zero masses; assumes the narrow phase returns a unit normal (decided separately per shape pair where claimed).")
prop("P18", "Friction opposes sliding, obeys Coulomb's law and never reverses it",
     "After the normal impulse a friction impulse acts against the sliding velocity (the part of the relative velocity at the contact across the normal): its size is the friction coefficient times the normal impulse, but at most what stops the sliding; the coefficient is the product of the colliders' static coefficients when the ratio of normal to sliding speed is below the product of their thresholds, otherwise of their dynamic ones. There is no friction without sliding, and it leaves the momentum along the normal alone.",
     ["inputs"], "every pair of entities of any masses, inertias, poses and velocities, any contact with a unit normal, any coefficients",
     "Tests have one sliding case on an immovable plane; reversal of light bodies, off-centre contacts, the wrong coefficient and direction show only for particular masses and speeds.",
     [SYS, ENT] + COLLIDERS, STEPA + [("friction getters of every collider", ", ".join(COLLIDERS))],
     STEPTECH + "; parts of the impulse recognised by proof (equal normal forms) and replaced by symbols",
     "Complete over the reals for non-zero masses; assumes a unit normal.")
prop("P19", "The earliest collision of all pairs is handled first",
     "In every round of a step every pair of entities not known to rest on each other, and every pair of their colliders, is examined exactly once over the motion of the time left (now until where they would be at its end); the collision handled is the earliest one reported in that time whose bodies approach each other at the contact by at least EPSILON; a collision found is always handled, and the search repeats until there is none.",
     ["inputs"], "every number of entities and of colliders on each, every state",
     "Tests have at most two or three bodies; wrong order, missed pairs, stale details of another pair and early exits need several bodies and colliders colliding in one step.",
     [SYS], STEPA,
     STEPTECH + "; coverage rule for the search loops, selection condition compared as BDD up to the order theory of its operands",
     "Complete for the current tree; of collisions at exactly the same time any may be first. What the narrow phase reports is decided by other properties.")
prop("P20", "Collision records tell exactly what happened in the last step",
     "After a step that takes time the list of collision records holds one record for each collision handled in it, in the order they were handled, at most iteration_max of them, and none of earlier steps; each names the two entities in the order of the normal, the contact point and normal, the product of the restitution coefficients, the size of the normal impulse, and the time from the start of the step to the impact.",
     ["inputs", "histories"], "every system, every dt, every number of collisions in a step",
     "Tests read the first record of one-collision steps; cumulative times, order and leftovers of earlier steps show with several collisions and steps.",
     [SYS, "src/collision_record.rs"], STEPA,
     STEPTECH + "; inductive affine relation between clock variables",
     "Complete over the reals for the current tree and non-zero masses; a step shorter than EPSILON does nothing, not even clear the list.")
prop("P21", "Entities fall asleep exactly when they have been calm for long enough",
     "At the end of a step, and at no other time, an awake entity whose energy is not over energy_sleep_threshold and has not been at the end of every step for sleep_time_threshold falls asleep; from then on it does not move, and becomes a neighbour of exactly the entities it came to rest against in that step (collisions that left no relative normal speed at the contact), and they of it, keeping the neighbours it got from entities that fell asleep before. An awake entity with more energy starts the time over. A step shorter than EPSILON changes none of this.",
     ["inputs", "histories"], "every system, every number of entities, every history of contacts in a step",
     "Tests put one or two spheres to rest on a plane; the timers of several bodies, stale contacts of earlier steps and contacts between bodies that fall asleep at different times have unboundedly many cases.",
     [SYS, ENT], STEPA, STEPTECH + "; neighbour sets compared by the membership of a generic entity through stores and finished loops",
     "Complete over the reals for the current tree; the energy of an entity of infinite mass counts as zero when it is at rest and as infinite otherwise.")
prop("P22", "Waking an entity wakes everything resting on it, and nothing else",
     "A collision wakes both entities it involves if their mass is finite, update_entity wakes the entity when it changes its position, rotation, velocity or mass and not when it stores what is there already, remove_entity wakes what touched the entity removed. Waking reaches, through neighbours of finite mass, every entity in contact exactly once, so it ends; each is awake without neighbours afterwards, entities of infinite mass stay as they are and forget the woken neighbour, and nothing else is woken.",
     ["inputs", "histories"], "every contact graph, every argument, every state",
     "Tests wake a stack of two spheres; missed neighbours, endless waking and stale neighbours need graphs with cycles, immovable bodies and longer chains.",
     [SYS, ENT], [("InternalEntity::wake_up and its callers", ENT + ", " + SYS)],
     "abstract interpretation of the resolved MIR: worklist loops recognised by their transition on gated value numbers and shown to compute a closure; start conditions compared as BDDs under the order theory of their operands",
     "Complete for the current tree; changes smaller than EPSILON count as none.")
COLLISION = "src/collision.rs"
RANGE = "src/range.rs"
PAIRTECH = "abstract interpretation of the resolved MIR of the narrow phase on two colliders of known types into gated value numbers; condition, time, position and normal compared with reference values as BDDs under an order theory of their operands and in algebraic normal form"
prop("P23", "The same history gives the same results",
     "Two systems that are built and stepped by the same sequence of calls with the same values behave identically in every run of every process: no result depends on the iteration order of a hash table, on the clock, the environment, random numbers, memory addresses, or on state shared between systems.",
     ["inputs", "histories", "schedules"], "every operation and the whole step, every number of entities, colliders and neighbours, every run",
     "A test compares one run with expected numbers; orders that differ from run to run show only with several colliders or neighbours, and only sometimes.",
     [SYS, ENT, "src"], [("every function of the crate", "src")],
     "effect analysis over the type-checked program: every resolved call, cast, comparison and constant of every function is classified, iterators over hash tables are followed by type to uses that do not depend on order",
     "Complete for the current tree as far as the crate's own code goes; force generators written by users are theirs, and the text of debug messages is not counted as a result.")
prop("P24", "Spheres meet spheres and planes when and where they touch",
     "For two spheres, or a sphere and a plane (solid behind its surface), each moving in a straight line from its place at the start of the time examined to its place at the end, a collision is reported exactly when they touch or overlap at some time in between; its time is the first such time (0 if they do at the start), as a fraction of the motion. The position is the point of contact at that time (between two spheres in the ratio of their radii, on a sphere the point nearest to the plane), the normal is the unit vector at that time off the first collider towards the other. Swapping the colliders swaps the sign of the normal and nothing else.",
     ["inputs"], "every pair of such colliders, every radius, pose and movement of both entities",
     "Tests call the helpers with one collider at rest and movement along an axis; both moving, rotated and offset bodies, grazing and initially overlapping contacts and the swapped order have no test.",
     [COLLISION, RANGE, "src/orientation.rs"], [("collide and the pair functions for spheres and planes", COLLISION), ("Range::quadratic_zeros, Range::linear_overlap", RANGE)],
     PAIRTECH,
     "Complete over the reals for the current tree, tolerances of EPSILON included; the plane's normal does not turn with its entity (a stated limit of the code). Rounding is out of scope.")
prop("P25", "Spheres meet meshes when and where they touch",
     "For a sphere and a mesh (in either order) moving in a straight line during the time examined, every vertex, every edge and every face of the mesh is looked at, and the collision reported is the earliest of: the sphere's surface reaching a vertex; reaching the line of an edge at a point between its ends; reaching the plane of a face at a point that is not on different sides of two of its edges. Nothing is reported if there is none. Position and normal are those of that contact at that time: on the vertex, edge or face, moved with the mesh, with the unit normal off the first collider.",
     ["inputs"], "every mesh (any number of vertices, edges and faces, any number of corners of a face), every radius, pose and movement",
     "Tests use one mesh at rest and a handful of movements; the last edge of a polygon, a face hit from behind, a later but nearer feature and a moving or rotated mesh have no test.",
     [COLLISION, RANGE, "src/mesh_collider.rs"], [("collide, collide_sphere_with_mesh and what it calls", COLLISION), ("InternalMeshCollider::vertices_in_world", "src/mesh_collider.rs")],
     PAIRTECH + "; loops over features decided by one generic round that keeps the earliest, the walk around a polygon as a finite-state transition system over the sign of one number",
     "Complete over the reals for the current tree, tolerances of EPSILON included; a mesh counts as not turning while it moves (a stated limit of the code). Rounding is out of scope.")
prop("P26", "Meshes meet planes when and where their lowest part reaches them",
     "For a mesh and a plane (solid behind its surface), in either order, a collision is reported exactly when the signed distance of the mesh's lowest corner from the plane's surface, taken linearly from its value at the start of the time examined to its value at the end (mesh turned and moved to where its entity is, plane moved with its entity), is zero or less at some time in between; the time is the first such time (0 if it is so at the start), as a fraction of the motion. The position is the mean of the corners at most a hundredth of the spread of the distances above the lowest one, at the start and at the end, taken linearly to that time. The normal points off the mesh against the plane's normal, and off the plane along it if the plane comes first. Swapping the colliders changes nothing else.",
     ["inputs"], "every mesh (at least three corners), every plane, every pose, rotation and movement of both entities",
     "Tests use meshes of two corners and unrotated entities with the plane second; turned meshes, flat meshes parallel to the plane (position NaN before the repair), several lowest corners and the swapped order have no test.",
     [COLLISION, RANGE, "src/mesh_collider.rs"], [("collide, collide_mesh_with_plane", COLLISION), ("Range::linear_overlap", RANGE)],
     PAIRTECH + "; loops over the corners summarised inductively (base and step compared) as least value, greatest value, conditional sum and count",
     "Complete over the reals for the current tree; the plane's normal does not turn with its entity (a stated limit of the code). Rounding is out of scope.")

prop("P27", "Spheres meet boxes where and when they touch",
     "For a sphere and an aligned box, in either order, the sphere's centre is taken linearly, as seen from the box's entity, from its place at the start of the time examined to its place at the end, against the box where it is in its entity. A face is hit over the times at which the centre is within the box along two axes while the sphere overlaps it along the third, within the motion; the first such time counts, the normal there is along the axis in which the centre is nearest to a face relative to the box's size and points from the sphere towards the box's middle, and the position is the sphere's radius along it from its centre. Otherwise each of the box's 12 edges and 8 corners is looked at, and the earliest hit of the sphere with one is reported, as for a sphere and a line. A collision is reported exactly when one of these is found. Its time is a fraction of the motion; position and normal are taken to the world with the box as it is moved and turned at that time; the normal points off the first collider. Swapping the colliders flips the normal and changes nothing else.",
     ["inputs"], "every sphere, every box, every pose, rotation and movement of both entities",
     "Tests put the box at its entity's origin (its position was ignored before the repair), hit a few faces, edges and corners along the axes, and never turn the box while it moves.",
     [COLLISION, RANGE, "src/aligned_box_collider.rs", "src/orientation.rs"], [("collide, collide_sphere_with_aligned_box", COLLISION), ("Range::intersect, contain, linear_overlap", RANGE)],
     PAIRTECH + "; ranges of times named where a function returns them; the edges and corners looked at are read off the compiled tables for every round",
     "Complete over the reals for the current tree. Code that makes up the corners or edges by bit arithmetic on the round's number, or without functions on ranges of times, is reported as not understood. Rounding is out of scope.")
prop("P28", "Null colliders, plane pairs and boxes against non-spheres never collide",
     "Between a null collider and any other collider, in either order, between two planes, and between an aligned box and anything that is not a sphere (another box, a plane, a mesh; in either order), no collision is ever found and nothing panics, however they are placed and moving.",
     ["inputs"], "both orders of every pair of types concerned, every size, position and movement",
     "Tests put one null collider beside one other shape.",
     [COLLISION], [("collide", COLLISION)],
     "abstract interpretation of the resolved MIR of collide on symbolic colliders of each ordered pair of types: the condition of returning a collision is the empty BDD",
     "Complete for the current tree.")
prop("P29", "Meshes meet meshes where a corner first passes a face",
     "For two meshes, every corner of either is looked at from the other mesh's entity, going straight from its place there at the start of the time examined to its place at the end, against every face of the other mesh, which stands still there. A face's normal is taken at its first corner where its sides are not in line; a face without one is never hit. A corner that is not in the face's plane at both ends of its movement hits the face when it is in the plane, at a time within the movement, at a place that is not on different sides of two of the face's sides; a corner that stays in the plane hits when it first passes one of the face's sides between that side's ends. The earliest hit over all corners and faces, both ways round, is reported, and a collision is reported exactly when there is one. Its normal is the face's, on the side on which most corners of the mesh whose corner it was are at that time, reversed if that mesh is the first, so that it points off the first mesh; position and normal are taken to the world with the face's mesh as it is moved and turned at that time. Edges crossing edges are not looked at.",
     ["inputs"], "every two meshes of any number of corners and faces, every pose, rotation and movement of both entities",
     "Tests collide two boxes along an axis; which of the two moves, faces with more than three sides, corners in the plane of a face and meshes that turn are not tried.",
     [COLLISION, "src/mesh_collider.rs", "src/orientation.rs"], [("collide, collide_mesh_with_mesh", COLLISION), ("collide_point_with_polygon", COLLISION)],
     PAIRTECH + "; one generic round of the nested loops over corners and faces, the walk around a face as a finite-state system over the sign of one number",
     "Complete over the reals for the current tree, with the tolerances of EPSILON as part of the reference. Edge against edge is a documented gap of the code and is not claimed. Rounding is out of scope.")
prop("P30", "A mesh stores each face, its points and its sides once and in order",
     "add_face accepts exactly the lists of three points or more in which the normal of every corner (points i, i+1, i+2, wrapping around) is that of the first within 1e-6, and panics on every other list, degenerate corners included. When it returns, what the mesh held before is still there; each point has been given the index of the first vertex nearer than 1e-6 to it, or is a new vertex at the end; one face has been added, which lists these indices in the order of the points; and every side, the last one back to the first point included, is among the edges as (lower index, higher index), added once at the end only when it was not there. Nothing else in the mesh changes. A new mesh is empty, and vertex_count, edge_count and face_count tell the sizes of these lists.",
     ["inputs", "histories"], "every mesh, every list of points of any length",
     "Tests add four triangles and a square with exactly equal points and look at the counts only; neither indices nor the order within edges, nor degenerate or concave lists of other lengths, are ever looked at.",
     ["src/mesh_collider.rs"], [("MeshCollider::add_face, add_points, add_edge", "src/mesh_collider.rs")],
     "abstract interpretation of the resolved MIR of add_face on a symbolic mesh and list; loop summaries compared with the specification round by round (the condition under which a round completes, what it appends), indices that wrap around with the length written as index + distance, conditions as BDDs over canonical comparisons, and once more with every comparison false (NaN)",
     "Complete for the current tree, floats in the comparison of normals taken as reals or NaN. Code that searches the lists otherwise than from the first element to the first match is reported as not understood.")
prop("P31", "Every operation ends",
     "No operation of the public interface runs for ever, whatever the state of the system: every loop of the crate goes round at most a bounded number of times, given by the entities, colliders, generators, points or faces there are, or by the iteration limit of a step, and no function of the crate calls itself, directly or through others. Force generators of users are taken to return.",
     ["inputs", "histories"], "every system, including entities that rest on each other in circles, and collisions that follow one another without time passing",
     "Tests run steps in which the collisions run out by themselves.",
     [SYS, ENT, COLLISION, "src/mesh_collider.rs"], [("step", SYS), ("wake_up", ENT), ("add_face", "src/mesh_collider.rs")],
     "abstract interpretation of the resolved MIR: for every loop summary a ranking term (an integer or the rest of a collection, bounded below and lowered on every back edge) or the rules of a worklist; absence of cycles in the resolved call graph",
     "Complete for the current tree; a loop whose bound is of another kind (such as a float that shrinks) is reported as not understood.")
