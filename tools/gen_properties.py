#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "The spatial tree answers box queries and ray casts exactly like brute force",
  "After any sequence of inserting, moving and removing boxes, rebuilding and shifting the origin, a box query on the dynamic tree reports exactly the live objects whose stored box overlaps the query box, each once, and a ray cast offers every live object whose stored box the ray (as clipped so far by the callback) crosses and no object it misses; both stop exactly when the callback asks. "
  "Each stored box is the box given when it was last stored plus the fixed margin, extended in the direction of the displacement, and always encloses the box last given; a move within a stored box changes nothing and is reported as such unless the box has become oversized; each object keeps its own user data and moved flag across any other operation, and ids of removed objects are reusable. "
  "The tree stays structurally valid and its height stays logarithmic in the number of objects.",
  ["inputs", "histories"], "every operation history over the tree and every query box / ray / callback behaviour",
  "No test touches the tree directly; correctness depends on the shape produced by a whole insert/remove/rotate history.",
  ["src/b2_dynamic_tree.rs", "src/private/collision/b2_dynamic_tree.rs", "src/b2_growable_stack.rs", "src/b2_collision.rs"],
  [("branch-and-bound insertion, removal with box refit, rotations", "src/private/collision/b2_dynamic_tree.rs"), ("query / ray_cast stack traversal", "src/private/collision/b2_dynamic_tree.rs")],
  ["create_proxy, destroy_proxy, move_proxy, query, ray_cast, get_user_data, get_fat_aabb, get_height, validate"],
  [("nodes, root, free list", "tree structure", "src/b2_dynamic_tree.rs")])

p("C02", "Pair updates report every fresh overlap and nothing else",
  "After any history of creating, destroying, moving and touching broad-phase proxies, a pair update reports every unordered pair of distinct live proxies whose stored boxes overlap and of which at least one was created, re-enlarged or touched since the previous update. "
  "It never reports a proxy paired with itself or with a destroyed proxy, a pair whose boxes do not overlap, or a pair neither member of which changed, and it reports a pair of two moved proxies once only. "
  "The proxy count and the user data handed to the callback are always those of the live proxies.",
  ["histories"], "every history of broad-phase operations interleaved with pair updates",
  "The only world test creates one pair; lost or stale pairs need specific move/touch/destroy orders before an update.",
  ["src/b2_broad_phase.rs", "src/private/collision/b2_broad_phase.rs", "src/b2_dynamic_tree.rs"],
  [("move buffer and unbuffering", "src/private/collision/b2_broad_phase.rs"), ("moved-flag pair deduplication", "src/b2_broad_phase.rs")],
  ["B2broadPhase::update_pairs callback sequence, get_proxy_count, test_overlap"],
  [("move buffer", "proxies changed since last update", "src/b2_broad_phase.rs")])

p("C03", "Contacts exist exactly for the fixture pairs that may currently collide",
  "After every step of any history of creating, destroying, moving, enabling, retyping, refiltering and jointing bodies and fixtures, there is exactly one contact for each pair of shape children on different enabled bodies, at least one of them dynamic and awake, whose broad-phase boxes overlap and which the filter and joints permit, and none for any other pair that the step re-examined. Edges and chains have no contacts with each other, and a pair released by destroying the joint that forbade it is picked up when one of its stored boxes next changes. "
  "The world contact list, the contact count and every body's own contact list always describe the same set of contacts, with the right fixtures, child indices and 'other' body.",
  ["histories"], "every interleaving of world edits and steps",
  "The tests only ever create one contact and never destroy, retype, refilter or disable anything.",
  ["src/b2_contact_manager.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_fixture.rs", "src/private/dynamics/b2_contact.rs"],
  [("add_pair / collide / destroy", "src/private/dynamics/b2_contact_manager.rs"), ("should_collide of bodies, filter flagging", "src/private/dynamics/b2_body.rs")],
  ["world contact list and count, per-body contact lists, after each step"],
  [("contact list and body contact edges", "contact graph", "src/b2_contact_manager.rs")])

p("C04", "Contact events mirror touching exactly",
  "Whatever the history, begin and end events for a contact strictly alternate, a contact is reported touching exactly between its begin and its end, and a touching contact that is destroyed for any reason (separation, fixture or body destroyed, body disabled, retyped or refiltered) gets its end event. "
  "Touching, for pairs examined by a step, means the shapes really overlap at the start of the step; sensors get begin and end but never pre-solve, post-solve or a response. "
  "Pre-solve is called on every step for each touching solid pair that is examined, and post-solve only for touching contacts that were not disabled (a sleeping pair woken as part of a moving group gets its post-solve without a pre-solve in that step); a contact disabled in pre-solve causes no response in that step and is enabled again the next.",
  ["histories", "inputs"], "every history of edits and steps with a listener attached",
  "One test checks one begin event; end events, sensors, disabling and every destruction path are untested.",
  ["src/private/dynamics/b2_contact.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_island.rs", "src/private/dynamics/b2_world.rs", "src/b2_world_callbacks.rs"],
  [("contact update: touching flag and event dispatch", "src/private/dynamics/b2_contact.rs"), ("end event on destroy", "src/private/dynamics/b2_contact_manager.rs"), ("impulse report", "src/private/dynamics/b2_island.rs")],
  ["listener callbacks begin_contact, end_contact, pre_solve, post_solve; is_touching; body velocities"])

p("C05", "World bookkeeping survives every create/destroy history",
  "After any history of creating and destroying bodies, fixtures and joints (gears included), body, joint, fixture and proxy counts, the world lists, and each body's fixture and joint lists agree with exactly the entities that are alive, with the parameters they were created with and the user data last given to them. "
  "Destroying a body destroys its fixtures, joints and contacts, and the destruction listener hears about each implicitly destroyed joint and fixture exactly once and about nothing destroyed explicitly. "
  "No permitted sequence of calls panics, and once an entity is destroyed, or the world and all user handles are dropped, nothing keeps it alive.",
  ["histories"], "every order of creation and destruction of entities of every kind",
  "Tests create a handful of entities and destroy none.",
  ["src/b2_world.rs", "src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_fixture.rs", "src/b2rs_double_linked_list.rs", "src/b2rs_linked_list.rs", "src/b2_joint.rs"],
  [("create/destroy cascades", "src/private/dynamics/b2_world.rs"), ("intrusive lists", "src/b2rs_double_linked_list.rs")],
  ["world and body lists, counts, destruction listener calls, weak references to entities"])

p("C06", "Simulation is deterministic, worlds are independent, observers do not perturb",
  "Two worlds driven by the same sequence of calls have bit-identical observable state after every call, whatever other worlds do in between and whenever they were created. "
  "Inserting read-only calls (queries, ray casts, getters, debug drawing, serialization) anywhere in a history leaves every later result bit-identical.",
  ["histories", "schedules"], "every history, every interleaving with other worlds, every placement of observer calls",
  "Tests never run the same history twice nor two worlds at once.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_contact_manager.rs", "src/b2_broad_phase.rs", "src/serialize/serialize_b2_world.rs"],
  [("no global mutable simulation state; deterministic ordering of pairs, islands and contacts", "src/private/dynamics/b2_world.rs")],
  ["bit patterns of body transforms, velocities, contact manifolds and impulses"])

p("C07", "Serializing and reading back a world reproduces it",
  "For any world built from the public API, writing it with any serde format and reading it back yields a world with the same gravity, bodies (type, transform, velocities, damping, flags, gravity scale, user data), fixtures (shape of every kind, material, filter, sensor flag, user data) and joints (kind, connected bodies, user data and all definition parameters; gears linked to the right joints; mouse joints left out). "
  "Lists are reproduced as sets, and velocities, masses and centres up to rounding; explicitly overridden masses, pending forces and world switches are not part of what is written. Reading back what was written never fails, and round-tripping again changes nothing further. "
  "Writing a world does not change it.",
  ["configurations", "inputs"], "every combination of body, fixture, shape and joint kinds and parameter values, in self-describing and in positional formats",
  "No test serializes anything.",
  ["src/serialize/serialize_b2_world.rs", "src/serialize/serialize_b2_body.rs", "src/serialize/serialize_b2_fixture.rs", "src/serialize/serialize_b2_joint.rs", "src/joints/serialize/mod.rs", "src/shapes/serialize_b2_polygon_shape.rs"],
  [("hand-written Serialize / visitor pairs (map and seq)", "src/serialize, src/joints/serialize"), ("body and joint index translation", "src/serialize/serialize_b2_world.rs")],
  ["public getters of the deserialized world"])

p("C08", "World queries and ray casts see every fixture once and honour the callback",
  "For any world state reached by any history, a world box query reports exactly the fixtures whose stored broad-phase boxes overlap the box, and a world ray cast reports exactly the shape children the segment really hits, with the correct point, normal and fraction. "
  "The callback's return value (ignore, stop, clip to fraction, continue) is honoured so that clipping to the reported fraction always ends with the closest hit, whatever the order of reports; an answer of one after an earlier clip lets the cast reach on to its end again.",
  ["histories", "inputs"], "every world content, query box, ray and callback policy",
  "No test queries a world.",
  ["src/b2_world.rs", "src/private/dynamics/b2_world.rs", "src/b2_world_callbacks.rs", "src/b2_broad_phase.rs", "src/b2_dynamic_tree.rs"],
  [("query and ray-cast wrappers translating proxy to fixture child", "src/private/dynamics/b2_world.rs")],
  ["B2world::query_aabb, B2world::ray_cast callbacks"])

p("C09", "Shape point tests, ray casts and bounding boxes agree with exact geometry",
  "For every shape kind, placement, point and ray, the point test says inside exactly when the point is inside the solid, the ray cast hits exactly when the segment enters the solid (or crosses the edge) within the allowed fraction and then gives the first entry fraction and the unit outward normal there, and a ray starting inside a solid or stopping short reports no hit; one-sided edges are hit from the front only, two-sided edges and chain segments from both sides. "
  "The computed bounding box encloses the shape child at that placement including its skin, and is no larger than necessary.",
  ["inputs"], "all shapes, transforms, points and rays",
  "The only collision test computes one box's mass data.",
  ["src/shapes/b2_circle_shape.rs", "src/private/collision/b2_circle_shape.rs", "src/private/collision/b2_edge_shape.rs", "src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_chain_shape.rs", "src/private/collision/b2_collision.rs"],
  [("test_point, ray_cast, compute_aabb per shape", "src/private/collision"), ("box ray cast", "src/private/collision/b2_collision.rs")],
  ["test_point, ray_cast, compute_aabb of shapes and fixtures; box ray cast"])

p("C10", "Body mass, centre and inertia always equal those of its parts",
  "A shape's mass, centroid and rotational inertia equal the exact integrals over the shape for any density. "
  "After any history of adding and removing fixtures, changing density with reset, body type, fixed rotation and explicit mass data, a dynamic body's mass, local centre and inertia are those of its current parts (or the explicit data last set), static and kinematic bodies have none, and the centre-of-mass change keeps the body origin in place and, for dynamic bodies, preserves the motion of their points.",
  ["histories", "inputs"], "every fixture set and edit history",
  "One test computes two boxes' mass data; composition, removal and overrides are untested.",
  ["src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_fixture.rs", "src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_circle_shape.rs"],
  [("reset_mass_data / set_mass_data", "src/private/dynamics/b2_body.rs"), ("compute_mass", "src/private/collision")],
  ["get_mass, get_inertia, get_mass_data, get_local_center, get_world_center, velocities"])

p("C11", "Computed distance between shapes is the true distance with true witness points",
  "For any two shape children at any placement, the computed distance is the exact separation (zero when they overlap), the two witness points lie on their shapes at that distance, applying radii shrinks distance and moves the points accordingly (they coincide when the skins overlap), and the overlap test agrees. "
  "The answer is symmetric in the two shapes and does not depend on what an earlier query left in the cache.",
  ["inputs", "histories"], "all shape pairs and placements, with cold and warm caches",
  "No test computes a distance.",
  ["src/b2_distance.rs", "src/private/collision/b2_distance.rs", "src/private/collision/b2_collision.rs"],
  [("GJK with simplex cache", "src/private/collision/b2_distance.rs")],
  ["b2_distance_fn output and cache, b2_test_overlap_shapes"])

p("C12", "Shape cast stops at first contact",
  "Casting one shape along a translation against another reports a hit exactly when the swept shape comes into contact with the other during the motion having started apart; the reported fraction is the first time the rounded shapes come within the contact tolerance, and the reported point and unit normal lie on the contact and oppose the motion. "
  "A sweep that stays apart reports no hit. Casts starting in contact are not specified.",
  ["inputs"], "all shape pairs, placements and translations",
  "No test performs a shape cast.",
  ["src/b2_distance.rs", "src/private/collision/b2_distance.rs"],
  [("conservative GJK ray cast", "src/private/collision/b2_distance.rs")],
  ["b2_shape_cast output"])

p("C13", "Time of impact never misses or overshoots a contact",
  "For two shapes moving along any linear and rotational sweeps, up to the reported time the shapes never come closer than the allowed target separation within tolerance; when it reports touching, at that time their separation equals the target within tolerance, when it reports separated they stay apart for the whole interval, and when they start overlapped it reports overlapped at time zero. For rotating sweeps grazing contacts within the tolerance may be answered either way. "
  "The result does not depend on the order of the two shapes beyond tolerance, and it always terminates with a definite state.",
  ["inputs"], "all shape pairs and sweeps",
  "One test checks sweep end points only; no test computes a time of impact.",
  ["src/b2_time_of_impact.rs", "src/private/collision/b2_time_of_impact.rs", "src/b2_math.rs"],
  [("conservative advancement with root finding on separating axes", "src/private/collision/b2_time_of_impact.rs")],
  ["b2_time_of_impact output"])

p("C14", "Contact manifolds describe the real overlap",
  "For every supported shape pair and placement, the manifold is empty exactly when the shapes are further apart than their skins (and, for one-sided edges and chains, non-empty only on the solid side); otherwise its world normal is a unit vector from the first shape towards the second along which the overlap is resolved, its points lie in the contact region, and each point's separation matches the geometry. The normal is the one of least overlap up to the library's small hysteresis; one-sided edges only ever push towards their front, possibly along their own normal instead; and polygon corners that only meet corners or edge ends within the skins may have no manifold. "
  "Placing both shapes in another common frame gives the same manifold, the point ids are distinct and stay the same while the same features stay in contact.",
  ["inputs"], "all pairs of circles, polygons, edges and chain segments at all relative placements",
  "No test looks at a manifold.",
  ["src/private/collision/b2_collide_circle.rs", "src/private/collision/b2_collide_polygon.rs", "src/private/collision/b2_collide_edge.rs", "src/private/collision/b2_collision.rs", "src/b2_collision.rs", "src/private/dynamics/contacts/mod.rs"],
  [("collide_* functions, clipping, world manifold", "src/private/collision")],
  ["b2_collide_* manifolds, world manifold points, normal and separations, point states"])

p("C15", "Polygon construction always yields the convex hull",
  "Given any usable (not degenerate) set of points in any order, with duplicates, near-duplicates, interior or collinear points, the constructed polygon is their convex hull: counter-clockwise, strictly convex, without welded or collinear vertices, containing every input point, with matching unit outward normals and the exact centroid, and it validates. "
  "Box constructors give the exact rotated, translated box, and chain and edge constructors keep exactly the given vertices and ghost vertices, exposing each child segment with its true neighbours.",
  ["inputs"], "all point sets and orders up to the vertex limit",
  "One test builds one box from four points.",
  ["src/private/collision/b2_polygon_shape.rs", "src/private/collision/b2_chain_shape.rs", "src/private/collision/b2_edge_shape.rs", "src/shapes/b2_polygon_shape.rs"],
  [("welding, gift wrapping, normals, centroid", "src/private/collision/b2_polygon_shape.rs"), ("chain child edges", "src/private/collision/b2_chain_shape.rs")],
  ["polygon vertices, normals, centroid, validate; chain child edges"])

p("C16", "Vector, rotation, transform, matrix and sweep algebra obeys its laws",
  "For all finite inputs of moderate size, transforms and rotations compose, invert and act on vectors as rigid motions, matrix solves and inverses invert multiplication (and give zero for singular systems), min, max, abs, clamp and normalization mean what they say componentwise, and integer helpers agree with their definition. Boxes combine, contain, overlap (touching included) and are called valid as closed sets. "
  "A sweep interpolates position and angle linearly between its end states about the local centre, advancing re-bases it without changing the remaining motion, and normalizing only removes whole turns.",
  ["inputs"], "all operands on a dense grid of signs, magnitudes and angles",
  "One test evaluates one sweep at its two end points.",
  ["src/b2_math.rs", "src/private/common/b2_math.rs", "src/b2_collision.rs"],
  [("math primitives", "src/b2_math.rs")],
  ["public math functions"])

p("C17", "Contact response obeys momentum, non-adhesion, friction and restitution",
  "In every step the velocity change of each body equals exactly what gravity, applied forces and the reported contact impulses give it, with impulses equal and opposite between the two bodies and none on static or sleeping bodies; normal impulses never pull and friction impulses never exceed the friction coefficient times the normal impulse. "
  "When the iterations suffice, touching bodies leave the step not approaching at the contact; approach faster than the threshold rebounds with the mixed restitution, slower approach does not bounce, and friction opposes sliding relative to the surface speed. The material of a contact follows the mixing laws from its fixtures when it is created, keeps what a listener sets, and follows its fixtures again after a reset. "
  "Overlap is pushed apart over the following steps to within the allowed slop, with neither the common centre of mass moving nor the pair turning as a whole and without adding energy, so resting piles stay put.",
  ["inputs", "histories", "configurations"], "all contact configurations, materials, velocities, masses, step sizes, iteration counts and warm-starting settings",
  "One test lets one body fall and checks only that it comes to rest.",
  ["src/private/dynamics/b2_contact_solver.rs", "src/private/dynamics/b2_contact_solver_private.rs", "src/private/dynamics/b2_island_private.rs", "src/b2_contact.rs"],
  [("velocity and position constraint solver, block solver, warm starting", "src/private/dynamics/b2_contact_solver.rs"), ("material mixing", "src/b2_contact.rs")],
  ["body velocities before and after a step, post-solve impulses, pre-solve world manifolds"])

p("C18", "Every joint keeps its bodies in the promised relation",
  "For every joint kind between any mix of static, kinematic and dynamic bodies, the promised relation holds within solver tolerance through any motion and disturbance the solver converges on: anchors coincide (revolute, weld), relative angle is fixed (weld, prismatic), anchors stay on the axis line (prismatic, wheel), anchor distance stays within its range (distance), rope-length sum is constant (pulley), coordinates stay in the gear ratio (gear), offsets are tracked (motor) and the target is tracked (mouse). "
  "Relations are promised where a body can give way, and pulleys while neither rope is pulled in fully. A joint violated at the start is pulled back to its relation, and a satisfied joint at rest exerts no spurious motion.",
  ["inputs", "histories", "configurations"], "all joint kinds, body types, anchors, axes, initial errors and disturbances",
  "One test reads reaction forces of three joints after a single step.",
  ["src/private/dynamics/joints", "src/joints", "src/b2_joint.rs", "src/private/dynamics/b2_island_private.rs"],
  [("init/solve velocity and position constraints per joint", "src/private/dynamics/joints")],
  ["anchor positions, angles, joint getters after steps"])

p("C19", "Joint limits, motors and springs act within their configured bounds",
  "With limits enabled the joint coordinate stays within (or returns to) the configured limits within solver tolerance, and with limits disabled it is free; an enabled motor drives the relative speed to the configured speed with effort never above the configured maximum, and a disabled or powerless motor does nothing. "
  "Springs pull towards the rest configuration with force and damping proportional to the configured stiffness and damping, and friction and motor joints never exceed their maximum force and torque. "
  "Changing limit, motor, target or offset parameters takes effect and wakes both bodies when the value changes; a motor stalled by its own limit is only bounded. A joint made from a definition that gives only the geometry behaves as one with every other field set to its documented default (limits, motors and springs off), and never moves a body to a non-finite place.",
  ["inputs", "histories", "configurations"], "all joint kinds with every combination of limit, motor and spring settings, changed at any time",
  "No test enables a limit, a motor or a spring.",
  ["src/private/dynamics/joints", "src/joints"],
  [("limit, motor and spring rows of each joint", "src/private/dynamics/joints"), ("setters", "src/joints")],
  ["joint coordinate and speed getters, reaction and motor force getters, awake flags"])

p("C20", "Reported joint reactions account for the momentum the joint transfers",
  "In a step, the momentum and angular momentum changes of the bodies connected by a joint equal gravity and applied forces plus exactly the joint's reported reaction force and torque times the time step, equal and opposite on the two bodies (or as the pulley and gear ratios prescribe), so an isolated jointed system conserves momentum (the mouse joint also damps its body's spin slightly). "
  "The joint's getters report the anchors, coordinates and speeds computed from the bodies' current states, and definition helpers fill in a definition that is satisfied by the current placement.",
  ["inputs", "configurations"], "all joint kinds, anchors and states",
  "One test checks three reaction forces in one symmetric configuration.",
  ["src/private/dynamics/joints", "src/joints", "src/b2_joint.rs"],
  [("reaction getters and impulse application", "src/joints")],
  ["get_reaction_force, get_reaction_torque, body velocities, joint getters"])

p("C21", "Bodies sleep and wake only when they should",
  "A group of touching or jointed bodies goes to sleep only when every member may sleep and has stayed below the sleep tolerances for the sleep time, then goes to sleep together with zero velocity, and stays completely still with no events while asleep. "
  "A sleeping body is woken by a waking force or impulse, a non-zero velocity, a changed joint limit, motor or target, destruction or disabling of what it touches or is joined to, or contact with a moving awake body, and not by calls asked not to wake or by setting a zero velocity; disabling sleep, globally or per body, wakes and keeps awake. "
  "Static bodies are never put into motion and never carry waking from one group to another.",
  ["histories", "configurations"], "all histories of edits, forces and steps over small groups of bodies",
  "No test runs long enough to check sleep semantics.",
  ["src/private/dynamics/b2_island_private.rs", "src/private/dynamics/b2_world.rs", "src/b2_body.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_contact.rs"],
  [("island building and sleep timers", "src/private/dynamics/b2_world.rs"), ("set_awake and wake flags", "src/b2_body.rs")],
  ["is_awake, velocities, transforms, events"])

p("C22", "Collision filtering decides exactly who may collide",
  "Two fixtures collide exactly when their non-zero equal group index is positive, or the groups are not equal or zero and each one's category is in the other's mask; fixtures of one body, of two non-dynamic bodies, or of bodies connected by a joint that forbids it never collide; a user filter replaces the bit rule completely. "
  "Changing filter data, or adding a joint that forbids collision, takes effect in the next step for existing contacts and for new ones, and the same rule governs events and response.",
  ["inputs", "histories"], "all filter bit and group combinations and all points in a history at which they change",
  "No test sets a filter on colliding fixtures.",
  ["src/private/dynamics/b2_world_callbacks.rs", "src/private/dynamics/b2_fixture.rs", "src/private/dynamics/b2_contact_manager.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_world.rs"],
  [("default filter", "src/private/dynamics/b2_world_callbacks.rs"), ("refilter flagging", "src/private/dynamics/b2_fixture.rs")],
  ["contacts and begin/end events after a step"])

p("C23", "Fast bodies do not tunnel",
  "With continuous physics on, a dynamic body never passes through a static or kinematic body in a step, and a bullet does not pass through another dynamic body, at any speed, angle, position within the step or step size, alone or together with other fast bodies; the impact is answered in that step and time left over is not lost beyond it. Not promised: more than eight impacts of one pair in a step, several elastic bullets squeezing each other, and arrival exactly at an interior chain vertex. "
  "Sensors, filtered or disabled contacts and (with continuous physics off) everything else are not affected, and with sub-stepping every event is still handled in order over the following calls.",
  ["inputs", "configurations"], "all speeds, directions, placements, shapes and step sizes of fast bodies and obstacles",
  "No test has a body moving further than its size in one step.",
  ["src/private/dynamics/b2_world.rs", "src/private/dynamics/b2_island_private.rs", "src/private/collision/b2_time_of_impact.rs"],
  [("solve_toi event loop", "src/private/dynamics/b2_world.rs")],
  ["body positions after each step relative to obstacles"])

p("C24", "Free bodies follow the equations of motion",
  "A body not touching or jointed to anything moves each step exactly by the semi-implicit rule: velocity gains gravity (times its scale), force and impulse over mass, torque over inertia, is damped, limited to the maximum motion per step, then moves the body; forces act in one step only unless automatic clearing is off. "
  "Static bodies never move, kinematic bodies move only by their own velocity, forces and impulses never spin fixed-rotation bodies, disabled and sleeping bodies are frozen, and a zero-length step moves nothing. "
  "Points, vectors and velocities convert between body and world frames consistently and setting the transform places the body exactly.",
  ["inputs", "histories"], "all body kinds, states, parameter values, force histories and step sizes",
  "One test drops one body and checks the final position only.",
  ["src/private/dynamics/b2_island_private.rs", "src/b2_body.rs", "src/private/dynamics/b2_body.rs", "src/private/dynamics/b2_world.rs"],
  [("velocity and position integration", "src/private/dynamics/b2_island_private.rs"), ("force accumulation", "src/b2_body.rs")],
  ["positions, angles, velocities after each call"])

p("C25", "Physics does not depend on where the origin is",
  "Shifting the world origin at any time moves every body, joint target and ground anchor, and the spatial index together, so that relative positions, contacts, touching states, queries, ray casts and all later motion are the same as without the shift, up to rounding (a fixture's own cached box may be stale until the next step). "
  "Building the same scene at another place, rotated, or mirrored gives the correspondingly displaced, rotated or mirrored motion up to rounding.",
  ["histories", "configurations"], "all histories with a shift inserted at any point, and all rigid placements of a scene",
  "No test shifts the origin or runs a displaced scene.",
  ["src/private/dynamics/b2_world.rs", "src/b2_dynamic_tree.rs", "src/private/collision/b2_dynamic_tree.rs", "src/joints/b2_mouse_joint.rs", "src/joints/b2_pulley_joint.rs"],
  [("shift_origin of bodies, joints and tree", "src/private/dynamics/b2_world.rs")],
  ["relative body states, contacts, query results"])

p("C26", "Ropes hang, stretch and bend as tuned",
  "A rope created from any usable definition keeps its fixed vertices exactly at their bind position relative to the rope position, keeps segment lengths near their rest lengths when stretching is stiff, and bends back towards straight according to the bending model; without gravity and starting at rest in its bind shape, a straight rope stays exactly still. "
  "Resetting restores the bind shape, a zero-length step changes nothing, and no tuning whose stretching holds the segments together and whose springs are within their stability range ever produces a non-finite position.",
  ["inputs", "histories", "configurations"], "all stretching and bending models, tunings, mass patterns and step histories",
  "No test uses a rope.",
  ["src/b2_rope.rs", "src/private/rope/b2_rope.rs"],
  [("position-based stretch and bend solvers", "src/private/rope/b2_rope.rs")],
  ["rope vertex positions reported by draw"])

p("C27", "Debug drawing shows exactly the world",
  "With a drawing flag set, debug drawing draws exactly one figure of the right kind, at the current placement, for every shape child, joint, broad-phase box, contact pair or centre of mass that flag covers, including entities changed since the last call, and with the flag clear draws none of them. "
  "Colours encode the body state (disabled, static, kinematic, sleeping, awake) and drawing never changes the world.",
  ["histories", "configurations"], "all flag combinations and world contents",
  "No test draws.",
  ["src/private/dynamics/b2_world.rs", "src/b2_draw.rs", "src/private/dynamics/joints"],
  [("debug_draw, draw_shape, joint draw", "src/private/dynamics/b2_world.rs")],
  ["calls on the drawing interface"])

p("C28", "One-sided chains are smooth and solid from one side only",
  "A circle or polygon moving along a straight or convex run of connected chain segments, or one-sided edges with ghost vertices, never snags on the interior joints: contact normals there are those of a smooth surface, for polygons within the documented tolerance of about six degrees. "
  "It is stopped when it comes from the solid side, and passes freely from the other side (entering exactly at a corner is not promised), at any speed up to and beyond one shape size per step; every chain child behaves as the edge it describes and loops close.",
  ["inputs", "histories"], "all positions, velocities and shapes crossing or sliding along chain joints",
  "No test uses an edge or chain.",
  ["src/private/collision/b2_collide_edge.rs", "src/private/collision/b2_chain_shape.rs", "src/private/dynamics/contacts/mod.rs"],
  [("one-sided collision with neighbour normals", "src/private/collision/b2_collide_edge.rs")],
  ["manifold normals, body velocities while sliding"])

p("C29", "Containers keep their contents through every operation order",
  "The intrusive lists of bodies, fixtures and joints (of the world and of each body) and the growable stack behave as sequences under every order of adding, removing at any position and iterating: exactly the added and not removed elements remain, newest first, backward links match forward links, and the stack is last-in first-out at every size, below and beyond its built-in capacity. "
  "Removing an element leaves the others reachable, and dropping a world with lists of any length frees every element without exhausting the stack.",
  ["histories"], "every operation sequence up to the bound",
  "No test uses the containers directly.",
  ["src/b2rs_linked_list.rs", "src/b2rs_double_linked_list.rs", "src/b2_growable_stack.rs"],
  [("push_front, remove, iter", "src/b2rs_double_linked_list.rs")],
  ["iteration order and contents"])

p("C30", "World switches change only what they name",
  "Toggling warm starting, continuous physics, sleeping, sub-stepping or automatic force clearing at any time, even between the sub-steps of one step, changes only that feature and reads back as set. "
  "A step of any positive, zero or varying length with any iteration counts completes with finite state and leaves the world unlocked; a zero-length step moves nothing and changes no later motion; a settled scene stays settled when the step length changes; sub-stepped time-of-impact work finishes over later calls; and scenes without contacts or joints move identically whatever the switches.",
  ["configurations", "histories"], "all switch combinations changed at any point of a history, all step parameters",
  "Tests use one fixed step length and default switches.",
  ["src/b2_world.rs", "src/private/dynamics/b2_world.rs", "src/b2_time_step.rs"],
  [("step flags", "src/private/dynamics/b2_world.rs")],
  ["getters, body states after every call"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=True) + "\n")
print(len(P), "properties")
