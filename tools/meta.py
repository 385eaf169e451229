# properties and checks: the single source of properties.jsonl and MANIFEST.json
NOTES = 'Every check drives the real FCL code, compiled from /repo, through lib/mc.h: an exhaustive depth-first enumeration of all choice sequences of a bounded, closed driver (stateless model checking with forked workers, crash and hang capture, replay).'
NA = {}
P = []
def prop(id, title, statement, over, forall, why, files, mech, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, note=note, **kw))
BP = 'include/fcl/broadphase/'
BPF = [BP + f for f in ('broadphase_bruteforce-inl.h', 'broadphase_SSaP-inl.h', 'broadphase_SaP-inl.h', 'broadphase_interval_tree-inl.h', 'broadphase_spatialhash-inl.h', 'broadphase_dynamic_AABB_tree-inl.h', 'broadphase_dynamic_AABB_tree_array-inl.h')]
prop('B01', 'Broad-phase collision queries report exactly the candidate pairs',
     'After any sequence of registering, unregistering, moving-and-updating, clearing and setting up, every broad-phase manager reports, for self, single-object and manager-to-manager collision queries, every pair of managed objects whose bounding boxes overlap or touch. It reports no pair twice, no object paired with itself, and no object that is not registered. A query ends as soon as the callback asks it to.',
     ['histories', 'configurations'], 'all histories of manager operations on up to 3 boxes (in company of over 100 others in some), all managers and tree set-ups, both pointer orders',
     'tests register once, move everything and call update(); they never unregister, clear, update single objects of differing size, or place boxes in exact contact',
     BPF, [('incremental sorted end-point lists, interval trees, hash cells and AABB trees kept consistent with the boxes', BP + '*-inl.h')],
     'Exhaustive over the histories up to the stated depth on the real managers; a missed, repeated or stale pair in a longer history or with more than 3 moving objects is out of reach. Assumes every move is announced by update() before the next call.')
prop('B02', 'Broad-phase distance queries find the minimum and always end',
     'After any sequence of manager operations, a self, single-object or manager-to-manager distance query with a callback that lowers the bound to the true distance ends with the smallest distance over all eligible pairs. If the callback never lowers the bound, every eligible pair is offered and the query still ends; if the callback asks to stop, it stops.',
     ['histories', 'configurations'], 'all histories of manager operations on up to 3 boxes (flat, touching, distant, unbounded), all managers, both callback behaviours',
     'tests query distances in one large random scene after a single set-up, always with objects of positive extent and a callback that lowers the bound',
     BPF, [('growing search regions and bound-driven pruning', BP + '*-inl.h (distance_)')],
     'Exhaustive over the histories up to the stated depth on the real managers against exact box distances.')
prop('B03', 'Broad-phase managers hold exactly what was registered and leak nothing',
     'After every operation, size(), empty() and getObjects() of every broad-phase manager agree with the set of objects registered and not unregistered or cleared, also when an object was moved before it is unregistered. No operation reads or writes memory it does not own, and destroying the manager releases everything it allocated.',
     ['histories', 'configurations'], 'all histories of manager operations on up to 3 boxes, alone and with over 100 others',
     'tests never query the registry after unregistering or clearing, and are not run under a sanitizer',
     BPF + [BP + 'detail/hierarchy_tree_array-inl.h', BP + 'detail/interval_tree-inl.h'], [('object tables and node pools', BP + '*-inl.h')],
     'Exhaustive over the histories up to the stated depth on the real managers, under the address sanitizer with a never-reusing poisoned allocator.')
NP = 'include/fcl/narrowphase/'
ND = NP + 'detail/'
PRIM = [ND + 'primitive_shape_algorithm/' + f for f in ('box_box-inl.h', 'halfspace-inl.h', 'plane-inl.h', 'sphere_box-inl.h', 'sphere_capsule-inl.h', 'sphere_cylinder-inl.h', 'sphere_sphere-inl.h', 'capsule_capsule-inl.h', 'sphere_triangle-inl.h', 'triangle_distance-inl.h')]
GJK = [ND + 'convexity_based_algorithm/' + f for f in ('gjk_libccd-inl.h', 'gjk-inl.h', 'epa-inl.h', 'minkowski_diff-inl.h')] + [ND + 'gjk_solver_libccd-inl.h', ND + 'gjk_solver_indep-inl.h']
prop('N01', 'collide() on two primitive shapes answers whether they overlap',
     'For every pair of primitive shapes (box, sphere, ellipsoid, capsule, cone, cylinder, convex polytope, plane, half space) in every pose, collide() reports a collision if the point sets overlap and none if they are apart, with either solver, whether or not contacts are requested, in either argument order; the return value agrees with the result.',
     ['inputs', 'configurations'], 'all ordered pairs of shapes in all relative poses of the enumerated grid, both solvers, with and without contacts',
     'tests place a few pairs in a handful of hand-computed poses; most pairs, solver and request combinations are never compared with the truth',
     PRIM + GJK + [NP + 'collision-inl.h'], [('closed-form pair tests', ND + 'primitive_shape_algorithm/'), ('GJK termination and support functions', ND + 'convexity_based_algorithm/')],
     'Exhaustive over the stated grid of poses against an independent two-sided distance oracle; poses within 2e-4 of contact are not judged.')
prop('N02', 'distance() on two bounded primitive shapes is the true distance',
     'For every pair of bounded primitive shapes that are apart, distance() returns, with either solver, the Euclidean distance of the shapes up to the solver tolerance, stores the same value in the result, and, if nearest points are requested, yields one point on each shape whose distance is that value; for shapes that overlap the result is not positive.',
     ['inputs', 'configurations'], 'all ordered pairs of bounded shapes in all relative poses of the enumerated grid, both solvers, three kinds of request',
     'tests check a few pairs in hand-computed or axis-aligned poses, mostly one solver, and often only that the result is below something',
     PRIM + GJK + [NP + 'distance-inl.h'], [('GJK distance iteration and witness extraction', ND + 'convexity_based_algorithm/gjk_libccd-inl.h (_ccdDist), gjk-inl.h'), ('closed forms', ND + 'primitive_shape_algorithm/')],
     'Exhaustive over the stated grid of poses against an independent two-sided distance oracle. Planes and half spaces are a recorded finding.')
prop('N03', 'Contacts and signed distances of overlapping primitive shapes are valid',
     'For every pair of primitive shapes that overlap, each contact names the two objects in order, has a unit normal from the first to the second, a depth that is not negative and not more than the way out along that normal, and a position within that depth of both bodies. Where the algorithm promises the minimum (closed-form pairs and the built-in EPA) the deepest contact separates the bodies and no direction separates them much sooner. The signed distance is negative and agrees with that depth.',
     ['inputs', 'configurations'], 'all ordered pairs of shapes in all overlapping relative poses of the enumerated grid, both solvers',
     'tests compare contacts of a few pairs in a few poses, mostly in the world frame of the first shape, where frame mistakes cannot show',
     PRIM + GJK + [NP + 'contact_point.h'], [('EPA polytope expansion', ND + 'convexity_based_algorithm/epa-inl.h, gjk_libccd-inl.h'), ('closed-form contact generation', ND + 'primitive_shape_algorithm/')],
     'Exhaustive over the stated grid of poses; EPA on curved shapes is held to 20 percent because it is limited to 128 faces; signed distances by libccd are explored for polytopes only (its EPA has no iteration limit).')
BV = 'include/fcl/math/bv/'
BVF = [BV + f for f in ('AABB-inl.h', 'OBB-inl.h', 'RSS-inl.h', 'OBBRSS-inl.h', 'kIOS-inl.h', 'kDOP-inl.h', 'utility-inl.h')] + ['include/fcl/math/geometry-inl.h']
GB = 'include/fcl/geometry/bvh/'
prop('V01', 'Bounding volumes hold their contents and their tests are sound',
     'Every bounding volume type (AABB, OBB, RSS, OBBRSS, kIOS, KDOP 16/18/24) holds all points it was fitted to, grown by or merged from, also after translation and conversion to another type. overlap() is true whenever the contents overlap and false when the volumes are apart, in place and under a rigid motion; distance() never exceeds the distance of the contents and is exact for AABB and RSS; contain(), volume(), center() and nearest points agree with the published geometry.',
     ['inputs', 'configurations'], 'all tuples of up to five points of a pool with collinear, coplanar and equal ones; all two- and three-level merges and all ordered pairs of 22 volumes; 32 rigid motions',
     'tests fit a few random point clouds and compare overlap and distance of random pairs; they never merge volumes twice, grow them by points, convert or translate them and check the contents',
     BVF, [('fitting by covariance axes', BV + 'utility-inl.h'), ('merging', BV + 'OBB-inl.h merge_smalldist/merge_largedist, RSS-inl.h operator+, kIOS-inl.h encloseSphere'), ('separating axes and rectangle distance', BV + 'OBB-inl.h obbDisjoint, RSS-inl.h rectDistance')],
     'Exhaustive over the stated pools on the real code; other coordinates are out of reach. Nearest points of RSS are held to their documented direction only; OBB and KDOP have no distance (they say so).')
prop('G01', 'BVHModel follows its build, replace and update protocol',
     'In every sequence of begin/add/end, replace, update, copy and assignment calls, BVHModel returns the documented code, refuses calls out of turn without changing anything, holds exactly the vertices, triangles and previous frame that were put in, ends in the documented build state with a sound tree, never touches memory it does not own and leaks nothing; a copy is independent of the original.',
     ['histories'], 'all call sequences of 21 operations up to the stated depth from eight starting states and three kinds of content',
     'tests build models once in the right order; replace and update appear in one or two scripted sequences, out-of-turn calls hardly, and nothing runs under a sanitizer',
     [GB + 'BVH_model-inl.h', GB + 'BVH_model.h'], [('build state machine, array growth, copy', GB + 'BVH_model-inl.h')],
     'Exhaustive over the call sequences up to the stated depth, under the address sanitizer with a poisoned never-reusing allocator, on BVHModel<OBBRSS>.')
prop('G02', 'The tree of a BVHModel is sound however it was built or refitted',
     'For every bounding volume type and split method, after building, replacing or updating with top-down refit, bottom-up refit or rebuild, each primitive of a BVHModel is in exactly one leaf, the children of a node partition its primitives, each node\'s volume holds its primitives (after an update also their previous positions; after BVHExpand all positions its uncertain vertices may take up to the given radius), and the local bounding box and radius hold all vertices.',
     ['inputs', 'histories', 'configurations'], 'all meshes of up to 4 triangles and clouds of up to 5 points of small pools, 8 volume types, 3 split methods, up to two replaces or updates, 3 refit modes, 5 deformations; expansion by three families of variances and three radii',
     'tests build a handful of meshes and look only at query results; a volume that leaves a primitive out shows only when a query happens to hit the gap',
     [GB + 'BVH_model-inl.h', GB + 'BVH_utility-inl.h', GB + 'detail/BV_splitter-inl.h', GB + 'detail/BV_fitter-inl.h'] + BVF, [('top-down construction by splitting', GB + 'BVH_model-inl.h recursiveBuildTree, detail/BV_splitter-inl.h'), ('refitting', GB + 'BVH_model-inl.h refitTree_*')],
     'Exhaustive over the stated pools on the real code, judged from the published fields of the volumes.')
prop('N04', 'collide() on triangle meshes reports exactly the overlapping primitives',
     'For meshes with every bounding volume type, against meshes and against every primitive shape, in either argument order, under any placement: collide() reports a collision if and only if the geometries overlap; with an unlimited contact count it names exactly the overlapping triangles, each pair with the right geometry pointers and primitive numbers; and each contact has a unit normal from the first to the second object, a depth that is not negative, and a position near both bodies, all in the world frame.',
     ['inputs', 'configurations'], 'all ordered pairs of 8 meshes and all pairs of mesh and shape, 8 bounding volume types, both solvers, all relative poses of the enumerated grid',
     'tests compare a few random meshes between bounding volume types; agreement of two wrong answers passes, and contacts of meshes with shapes are hardly looked at',
     [NP + 'collision-inl.h', ND + 'collision_func_matrix-inl.h', ND + 'traversal/collision/*', ND + 'primitive_shape_algorithm/intersect-inl.h', ND + 'gjk_solver_libccd-inl.h', ND + 'gjk_solver_indep-inl.h'] + BVF,
     [('pruned traversal of two trees', ND + 'traversal/collision/mesh_collision_traversal_node-inl.h, traversal/traversal_recurse-inl.h'), ('triangle and shape tests', ND + 'primitive_shape_algorithm/')],
     'Exhaustive over the stated grid against an independent distance oracle per triangle; pairs within 1e-4 of contact are not judged.')
prop('N05', 'distance() on triangle meshes is the smallest distance of any two primitives',
     'For meshes against meshes (AABB, RSS, kIOS, OBBRSS) and against bounded primitive shapes (RSS, kIOS, OBBRSS, either argument order, both solvers): the minimum distance is that of the closest pair of primitives, not positive when the geometries overlap; the result names that pair and its objects, and the nearest points, when asked for, are world points on those primitives that far apart; a result that already holds something nearer is left alone, and one that holds something farther is replaced; with error bounds in the request the answer is never below the distance and above it by no more than the bounds allow; a signed distance of overlapping geometries is the depth of the deepest contact, negated, which is also returned.',
     ['inputs', 'configurations'], 'all ordered pairs of 8 meshes and all pairs of mesh and bounded shape, all bounding volume types that support distance, both solvers, all relative poses of the enumerated grid',
     'tests compare the distance of random meshes between bounding volume types and only without overlap; nearest points and named triangles are compared to nothing independent',
     [NP + 'distance-inl.h', ND + 'distance_func_matrix-inl.h', ND + 'traversal/distance/*', ND + 'primitive_shape_algorithm/triangle_distance-inl.h', ND + 'primitive_shape_algorithm/sphere_triangle-inl.h'] + BVF,
     [('pruned traversal of two trees', ND + 'traversal/distance/mesh_distance_traversal_node-inl.h, traversal/traversal_recurse-inl.h'), ('triangle distance', ND + 'primitive_shape_algorithm/triangle_distance-inl.h')],
     'Exhaustive over the stated grid against a two-sided distance oracle minimised over all primitives.')
prop('G03', 'The bounding volumes of primitive shapes hold the shapes',
     'For every primitive shape and every bounding volume type, computeBV() under any rigid motion returns a volume that holds the whole (possibly unbounded) moved shape; computeLocalAABB() and the collision object box agree with it.',
     ['inputs'], 'all shapes of a pool including planes and half spaces of all diagonal normals, 8 volume types, all placements of the grid',
     'tests compute the volume of one or two shapes at the identity; rotated shapes, diagonal planes and convex shapes are never checked',
     ['include/fcl/geometry/shape/*'] + BVF, [('per-shape specialisations of computeBV', 'include/fcl/geometry/shape/*-inl.h, utility-inl.h')],
     'Exhaustive over the stated pool on the real code, judged by support functions of the shapes and the published fields of the volumes.')
prop('G04', 'Meshes made from primitive shapes are closed, outward and as fine as asked',
     'For every box, sphere, ellipsoid, cylinder and cone, every pose and every resolution with at least three segments and one ring, generateBVHModel() adds a closed surface whose faces all look outward, whose vertices lie on the surface of the moved shape, and which has the segments, rings and triangles that were asked for, evenly spaced; the forms that take a number for a unit-sized shape scale it with the area or the radius as documented and never give a degenerate mesh; several shapes added to one unfinished model are all there, and adding to a finished model is refused without changing it.',
     ['inputs', 'histories'], 'all shapes, sizes, poses and resolutions of the pools, singly and in every union of two (three in the thorough tier), finalised at once or later',
     'tests use one or two sizes with 16 segments and only look at the number of vertices after finalising',
     ['include/fcl/geometry/geometric_shape_to_BVH_model-inl.h', 'include/fcl/geometry/bvh/BVH_model-inl.h'], [('index arithmetic of rings, caps and poles; resolution of the unit forms', 'include/fcl/geometry/geometric_shape_to_BVH_model-inl.h')],
     'Exhaustive over the stated pools on the real code, judged by edge counting, the surface equations and the volume of the inscribed solid.')
prop('G05', 'A collision object is its geometry at the placement that was set last',
     'After any sequence of construction, copying and the setters for rotation, translation, quaternion and transform, the getters give exactly the placement these operations define, computeAABB() gives a box that holds the geometry at that placement (the moved local box without a rotation, at most the box of the bounding sphere otherwise), other objects of the same geometry and the user data stay as they are, and collide() and distance() on objects answer exactly as on the geometries with these placements.',
     ['histories', 'inputs'], 'all sequences of up to three (thorough: four) of seventeen operations from all constructors, for shapes, meshes and octrees',
     'tests set a transform once and never compare the overloads, partial setters after quaternions, or objects that share a geometry',
     ['include/fcl/narrowphase/collision_object-inl.h', 'include/fcl/narrowphase/collision-inl.h', 'include/fcl/narrowphase/distance-inl.h'], [('the placement kept by the object and the box derived from it', 'include/fcl/narrowphase/collision_object-inl.h')],
     'Exhaustive over the stated sequences on the real code, compared with a model of the placement.')
prop('M02', 'Interval and Taylor-model arithmetic encloses the exact values',
     'Every operation of the interval, interval-vector and interval-matrix classes returns the exact hull or an enclosure of the true results; every Taylor model obtained from lines, sines, cosines, polynomials and any combination of sums, products and matrix operations encloses the function it stands for at every instant of its time interval, for point, interval and tight bounds; the tight bound is tight.',
     ['inputs'], 'all pairs of a pool of intervals, all expressions of one or two operations over a pool of Taylor models on several time intervals, and all vector and matrix operations',
     'tests never evaluate these classes; continuous collision depends on their enclosures',
     ['include/fcl/math/motion/taylor_model/*'], [('interval products, truncated polynomial products with remainders, range bounds of cubics', 'include/fcl/math/motion/taylor_model/*-inl.h')],
     'Exhaustive over the stated expressions on the real code; enclosure judged at 25 instants per expression and up to rounding (the library does not round outwards). Negative times are outside the contract.')
prop('M03', 'Polynomial roots, simplex projections, eigenvectors and frames are right',
     'The polynomial solver returns exactly the real roots of every polynomial up to degree three; projecting a point onto a segment, triangle or tetrahedron gives the nearest point, its parameters, distance and face code; the eigen-decompositions return eigenvalues with orthonormal eigenvectors, Variance3 the principal axes and square root of its matrix; generated frames are right-handed and aligned.',
     ['inputs'], 'all polynomials with roots from a pool, all simplices over a vertex grid against a pool of points, all small-integer rotations with all triples of a pool of eigenvalues',
     'tests check a handful of eigen-decompositions and frames and never call the polynomial solver or the projections with degenerate or boundary inputs',
     ['include/fcl/math/detail/*', 'include/fcl/math/geometry-inl.h', 'include/fcl/math/variance3-inl.h'], [('Cardano formula, Voronoi-region projections, Jacobi rotations', 'include/fcl/math/detail/*-inl.h, geometry-inl.h')],
     'Exhaustive over the stated pools on the real code against values known by construction or from an independent enumeration of faces.')
prop('M04', 'Motions follow their definition and their bounds hold the movement',
     'Every motion starts at its first and ends at its last configuration, is rigid, depends only on the time asked for and stops at its end; interpolated motions turn at constant speed about one axis while their reference point moves straight, screw motions repeat the same screw in equal times, splines follow their control points. No point of a volume or triangle moves faster along a direction than the motion bound, and the Taylor model and the swept box of an object contain it at every instant.',
     ['inputs', 'histories'], 'all pairs of a pool of poses for every motion class and constructor, splines over a pool of control points, all start times and 26 directions for the bounds',
     'tests only run continuous collision on random poses and compare its two algorithms loosely; motion bounds and Taylor models are never evaluated, most constructors never called',
     ['include/fcl/math/motion/*', 'include/fcl/narrowphase/continuous_collision_object-inl.h'], [('screw and interpolation parameters, speed bounds per volume, Taylor models', 'include/fcl/math/motion/*-inl.h')],
     'Exhaustive over the stated pool on the real code; displacement and enclosure are judged at 8 to 17 instants per motion.')
prop('N08', 'Front lists, queues and relative volumes do not change any answer',
     'A query of two meshes through a front list kept from earlier queries, after the meshes were moved or deformed, gives the same contacts as a query without one, none twice, under any contact limit, and the front list stays a partition of all pairs of primitives; the self collision of a mesh gives every overlapping pair of its triangles exactly once; distance traversals with a queue of any size give the distance of the plain traversal; volumes made relative to their parents recombine to what they were and collide alike.',
     ['inputs', 'histories', 'configurations'], 'all ordered pairs of 8 meshes, all bounding volume types, all histories of three placements of the list, all contact limits, queue sizes and split rules of the enumerated sets',
     'the test of front lists makes one step and compares only whether there is any contact; self collision, queues against the plain traversal and relative volumes are tested by nothing',
     ['include/fcl/narrowphase/detail/traversal/traversal_recurse-inl.h', 'include/fcl/narrowphase/detail/traversal/collision_node-inl.h', 'include/fcl/geometry/bvh/detail/BVH_front.h', 'include/fcl/geometry/bvh/BVH_model-inl.h'],
     [('front list propagation, queued distance, self collision and relative OBB recursion', ND + 'traversal/traversal_recurse-inl.h'), ('makeParentRelative', 'include/fcl/geometry/bvh/BVH_model-inl.h')],
     'Exhaustive over the stated histories on the real code; the reference for front lists is a direct query of the same models, whose answers N04 judges, and for self collision the convex oracle.')
prop('N10', 'continuousCollide() tells whether and when moving bodies first touch',
     'For every pair of geometries, motion type, motion of either body and algorithm, continuousCollide() reports contact exactly when the bodies touch on the way, with a time of contact in [0, 1] that is the first such time up to the tolerance of the algorithm, and the placements of the bodies at that time; bodies in contact at the start give time zero; it leaves the models as it found them, so that a repeated query has the same answer, as have the forms for objects, motions, final placements and the default callback.',
     ['inputs', 'configurations'], 'all ordered pairs of a pool of shapes and of meshes, four motion types, all start gaps, aims and turns of the grid, own motion of either body, all algorithms and both solvers',
     'tests only run the query on random scenes and print or loosely compare; the time of contact is compared with nothing',
     [NP + 'continuous_collision-inl.h', NP + 'continuous_collision_object-inl.h', ND + 'conservative_advancement_func_matrix-inl.h', ND + 'traversal/distance/*conservative_advancement*', ND + 'traversal/collision/mesh_continuous_collision_traversal_node-inl.h', ND + 'traversal/collision/intersect-inl.h', 'include/fcl/math/motion/*'],
     [('sampling, conservative advancement and cubic polynomials', NP + 'continuous_collision-inl.h'), ('advancement steps from distance and motion bounds', ND + 'traversal/distance/*conservative_advancement*')],
     'Exhaustive over the stated grid on the real code against exact distances along the same motions; contact shallower than 1e-3 may be missed.')
prop('N06', 'Octrees collide and measure as the cells they hold',
     'For every octree, and every shape, mesh or octree placed against it in either order, collide() reports a collision exactly when an occupied cell overlaps the other geometry; contacts name exactly the overlapping pairs of cell and part, up to the number asked for, and the named cell is found again from the contact; cost sources are recorded exactly when asked for, for the overlaps with cells and objects that are not free, with the right density, in order and up to the number asked for; distance() gives the distance to the nearest occupied cell with points and cell attaining it, and a signed distance the greatest depth of all contacts; an empty octree meets nothing.',
     ['inputs', 'configurations'], 'eight octrees with occupied, uncertain, free and missing cells at several depths and thresholds, against all shapes, meshes of all bounding volume types and octrees of the pools, all gaps, aims and turns of the grid, both orders, both solvers',
     'tests sample a few random octrees of one resolution and compare with the library itself on boxes; uncertain and free cells, cost sources and cell ids are hardly looked at',
     ['include/fcl/geometry/octree/*', ND + 'traversal/octree/*', NP + 'cost_source-inl.h', NP + 'collision_result-inl.h'], [('recursion over cells and volumes', ND + 'traversal/octree/octree_solver-inl.h'), ('cell classes, child boxes and look-up of cells', 'include/fcl/geometry/octree/octree-inl.h')],
     'Exhaustive over the stated pools and grid on the real code against an own walk over the cells; pairs within 3e-4 of contact are not judged, and of cost sources of two octrees only those of known cells.')
prop('N07', 'Collision results hold what the request asks for, limits and costs included',
     'For every pair of geometries of any occupancy class and every request, collide() returns the number of contacts in the result, never more than asked for and as many as there are up to that; contacts exist only between occupied geometries, name the geometries and primitives that overlap, and none twice; what an earlier query left in the result is kept; cost sources are recorded exactly when asked for, only between geometries that are not free, for the overlaps there are, with the product of the densities, in descending order, the costliest first up to the limit, and do not depend on the contacts asked for; models without triangles are refused and never walked',
     ['inputs', 'configurations'], 'all ordered pairs of shapes and meshes of the pools in all poses of the grid, all occupancy classes of both, all combinations of contact limits, contact, cost limits, exact and approximate cost, fresh and used results, both solvers; point clouds of all bounding volume types against all kinds of geometries in all queries',
     'tests use fresh results, occupied geometries and a single limit per scene; cost sources are hardly compared with anything',
     [NP + 'collision-inl.h', NP + 'collision_result-inl.h', NP + 'cost_source-inl.h', ND + 'collision_func_matrix-inl.h', ND + 'distance_func_matrix-inl.h', ND + 'traversal/collision/*', 'include/fcl/geometry/collision_geometry-inl.h'],
     [('occupancy, contact limit and cost sources per leaf', ND + 'traversal/collision/*'), ('set of cost sources, merge and limit', NP + 'collision_result-inl.h')],
     'Exhaustive over the stated pools, grid and requests on the real code against exact overlap of the parts; pairs within 2e-3 of contact are not judged.')
prop('S01', 'The hierarchies of the broad phase stay sound under any sequence of changes',
     'After any sequence of bulk constructions at any level, insertions, removals, updates with and without look-ahead or velocity, refits, balancing from top, bottom or in steps, and clearing, both implementations of the bounding volume hierarchy are full binary trees over exactly the leaves put in and not removed, each with its last box and data; every inner box is the union of its children; parents, size, emptiness, height and depth are right; an update reports whether it changed the leaf, and no memory is lost or touched after release',
     ['histories', 'configurations'], 'all operation sequences of the stated depths from every start, three thresholds for bottom-up construction, two ways of splitting, pools of seven boxes with flat and endless ones',
     'tests only reach the trees through managers in a few fixed histories and never look at their structure',
     ['include/fcl/broadphase/detail/hierarchy_tree*', 'include/fcl/broadphase/detail/node_base*', 'include/fcl/broadphase/detail/morton*'],
     [('insertion, removal and balancing of nodes', 'include/fcl/broadphase/detail/hierarchy_tree-inl.h'), ('node array with free list', 'include/fcl/broadphase/detail/hierarchy_tree_array-inl.h')],
     'Exhaustive over all operation sequences of the stated depths on the real code, with a full walk of the tree after each operation.')
prop('S02', 'Interval trees, hash tables and Morton codes answer as the sets they hold',
     'After any sequence of insertions and deletions the interval tree holds exactly the intervals put in and not removed, in order and balanced, with right neighbours and greatest ends, and a query for any closed range, endless ones included, returns every overlapping interval exactly once and nothing else; hash tables return every value whose box overlaps the query box exactly once, nothing removed and, when sparse, nothing that shares no cell; Morton codes interleave the bits of the quantised coordinates the same way for every width',
     ['histories', 'inputs'], 'all operation sequences of the stated depths, all orders of emptying trees filled in six orders, all queries over eleven ends; all histories of the hash tables for several cell and table sizes; all points of a grid for the codes',
     'tests insert one random set and query it; deletion, duplicate and endless intervals, cell boundaries and the wide codes are barely touched',
     ['include/fcl/broadphase/detail/interval_tree*', 'include/fcl/broadphase/detail/simple_hash_table*', 'include/fcl/broadphase/detail/sparse_hash_table*', 'include/fcl/broadphase/detail/spatial_hash*', 'include/fcl/broadphase/detail/morton*', 'src/broadphase/detail/morton.cpp'],
     [('red-black insertion and deletion with greatest ends, query with a stack', 'include/fcl/broadphase/detail/interval_tree-inl.h'), ('cells of a box and buckets', 'include/fcl/broadphase/detail/spatial_hash-inl.h')],
     'Exhaustive over all operation sequences of the stated depths on the real code; the tree structure is walked after every operation.')
prop('C01', 'Queries that run at the same time on shared models do not disturb each other',
     'Collision, distance and continuous collision queries of geometries or objects, the const queries of a broad phase manager that is up to date, and the getters, may run in any number of threads at the same time on the same geometries, objects and manager, each with its own request, result and callback data: whatever the interleaving, every one of them returns what it returns alone, since no query modifies anything that another one can see.',
     ['schedules', 'inputs'], 'all ordered pairs of 38 geometries in all poses of the pool, all requests and solvers of the pool, all manager settings, scenes and const queries; per query the writes to shared memory are recorded, whose absence makes all interleavings of any number of queries equivalent',
     'the tests run in one thread; a race shows in few interleavings only',
     ['include/fcl/narrowphase/*', 'include/fcl/broadphase/*', 'include/fcl/geometry/*', 'include/fcl/math/*'],
     [('copies of models built for one query', 'include/fcl/narrowphase/detail/collision_func_matrix-inl.h'), ('splitter and fitter of a model', 'include/fcl/geometry/bvh/BVH_model-inl.h'), ('queries of the managers', 'include/fcl/broadphase/broadphase_interval_tree-inl.h')],
     'Dynamic partial-order reduction on the real code: all memory accesses of the instrumented library are recorded; where no query writes shared memory all steps of concurrent queries are independent, so that the one execution explored stands for all interleavings.')
prop('B06', 'Octrees in the broad phase and default callbacks find what all pairs give',
     'A dynamic AABB tree manager queried with an octree hands every pair of an object that is not free and a cell that is not free, unknown cells included, whose boxes overlap to the callback exactly once, as the box, placement, density and class of the cell, and nothing else, until the callback stops it; its distance query measures occupied cells only and finds the least distance of all; with the default callbacks every manager finds the contacts up to the limit and the distance that all pairs give, whether the octree is the query, an object or in another manager, and stops when done',
     ['inputs', 'configurations'], 'eight octrees in all placements of the pool against sets of up to eight objects of all occupancy classes, both tree managers in seven settings, all thirteen manager settings for the default callbacks, all limits and stops of the pool',
     'tests compare two ways of querying on random scenes; occupancy classes, unknown cells, callbacks that stop and empty octrees are not covered',
     ['include/fcl/broadphase/broadphase_dynamic_AABB_tree*', 'include/fcl/broadphase/default_broadphase_callbacks.h', 'include/fcl/geometry/octree/*', 'include/fcl/broadphase/*'],
     [('recursion over tree nodes and octree cells', 'include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h'), ('the same for the array version', 'include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h'), ('default callbacks', 'include/fcl/broadphase/default_broadphase_callbacks.h')],
     'Exhaustive over the stated pools on the real code against an own walk over the cells and over all pairs.')
prop('M05', 'Mass properties, bounds and boxes of geometries are right',
     'For every primitive shape and closed mesh, volume, centre of mass and inertia equal the integrals over the body; bounding vertices and the local box hold it; planes and half spaces measure the signed distance and move rigidly; the box built from any bounding volume and its placement cover exactly that volume, also after the volume was moved; the occupancy thresholds classify as documented.',
     ['inputs'], 'all shapes of a pool of parameters, all planes of a pool of normals, all bounding volume types under all placements of the grid',
     'tests compute a few volumes and inertias for single parameter sets at most, and never build boxes of rotated volumes',
     ['include/fcl/geometry/shape/*', 'include/fcl/geometry/collision_geometry-inl.h', 'include/fcl/geometry/bvh/BVH_model-inl.h', 'include/fcl/geometry/geometric_shape_to_BVH_model-inl.h'], [('closed forms and sums over tetrahedra', 'include/fcl/geometry/shape/*-inl.h, bvh/BVH_model-inl.h'), ('boxes of volumes', 'include/fcl/geometry/shape/utility-inl.h constructBox')],
     'Exhaustive over the stated pools on the real code against independent integrals and support functions.')
prop('M06', 'Support functions and convex meshes give the farthest points',
     'For every shape, pose and direction, the support functions of both convex solvers return a point of the shape that is farthest in that direction, and the centre lies inside; a Convex finds its extreme vertex under any numbering of its vertices, also when faces are cut into coplanar pieces; construction refuses exactly the meshes that are not closed or leave a vertex unused, and those not refused are still searched right; the printed form holds all numbers exactly.',
     ['inputs'], 'all meshes of a pool under all start vertices, several strides and all orders of the inner vertices of a subdivided face; all shapes in all poses of the grid; over 500 directions each',
     'tests search a few regular meshes with one numbering in a few directions; the walk over coplanar vertices depends on the numbering',
     ['include/fcl/geometry/shape/*', ND + 'convexity_based_algorithm/gjk_libccd-inl.h', ND + 'convexity_based_algorithm/minkowski_diff-inl.h'], [('edge walking and validation', 'include/fcl/geometry/shape/convex-inl.h'), ('support functions', ND + 'convexity_based_algorithm/')],
     'Exhaustive over the stated pools on the real code against the largest product over all vertices or the closed-form support function.')
