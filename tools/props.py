DS = 'src/datastructure/'
prop('C01', 'The union of intervals covers exactly the input intervals',
     'Merging any list of closed intervals returns sorted, pairwise disjoint intervals whose union contains exactly the points contained in some input interval. No point is gained or lost, for overlapping, nested, touching or degenerate intervals alike.',
     ['inputs'], 'every list of intervals and every query point',
     'Tests merge one fixed list; ordering, nesting and touching of arbitrary real end points is an infinite space.',
     [DS + 'Interval.cpp'], [('merge pass over sorted start points', DS + 'Interval.cpp')])
prop('C02', 'Interval intersection and complement are exact set operations',
     'Intersecting a list of intervals yields exactly their common points (nothing when they have none). Complementing disjoint intervals inside an enclosing interval yields sorted intervals covering exactly the points of the enclosing interval outside the interior of the given ones.',
     ['inputs'], 'every list of intervals and every query point',
     'Tests use one fixed list; empty results, touching ends and intervals beyond the enclosing one are not sampled.',
     [DS + 'Interval.cpp'], [('intersection and complement', DS + 'Interval.cpp')])
prop('C03', 'Free segments of a sweep line are inside every arena and outside every obstacle',
     'On every sweep line the collision-free segments are sorted and disjoint, and their points are exactly those inside the intersection of all arena crossings and outside every obstacle crossing of that line. Missing crossings (line not meeting a body) count as empty, and results of one line never depend on another line.',
     ['inputs'], 'all interval end points, missing or present, and every query coordinate',
     'Tests only compare counts for one scene; the combinations of crossing order and missing crossings are not enumerable.',
     ['include/hrm/datastructure/FreeSpace-inl.h', DS + 'Interval.cpp'],
     [('complement of obstacle union in arena intersection', 'include/hrm/datastructure/FreeSpace-inl.h')])
prop('C04', 'Decomposing free segments for connectivity keeps the free space unchanged',
     'Splitting the free segments of a sweep line so that adjacent lines can be connected keeps every line\'s free set: segments stay sorted, each vertex lies inside its own segment, and no collision-free point is added or lost beyond shared segment ends. Adjacent-line overlaps are represented by vertices so that connected regions can be linked.',
     ['inputs'], 'all free segment end points of neighbouring lines and every query coordinate',
     'Tests check no relation between neighbouring lines; overlap patterns of adjacent lines form an infinite space.',
     ['include/hrm/datastructure/FreeSpace-inl.h'], [('segment enhancement between adjacent lines', 'include/hrm/datastructure/FreeSpace-inl.h')])
prop('C05', 'Planar sweep lines find exactly the collision-free points of the slice',
     'The crossings of a horizontal sweep line with a planar C-space boundary are the extreme boundary points at that height, and no crossing is reported when the line misses the boundary. The free segments of a line contain no point inside any obstacle C-boundary, no point outside any arena C-boundary or the sweep limits, and lose no point that is free of all of them.',
     ['inputs'], 'every boundary vertex position, line height, obstacle position and sweep limit',
     'Tests check one scene with hard-coded counts; degenerate crossings at vertices and partial overlaps are not sampled.',
     [LI, DS + 'FreeSpace2D.cpp', 'include/hrm/datastructure/FreeSpace-inl.h'],
     [('horizontal line versus polygon', LI), ('interval computation', DS + 'FreeSpace2D.cpp')])
prop('C06', 'Vertical sweep lines find exactly the collision-free points of a 3D slice',
     'The crossings of a line with a closed boundary mesh are points of that mesh on the line, span its full extent along the line, and none is reported when the line misses it. The free segments of each vertical sweep line contain no point inside an obstacle boundary or outside an arena boundary or sweep limit, and lose no free point.',
     ['inputs'], 'every line position, mesh shape in the family, obstacle height and sweep limit',
     'Tests intersect one line with one mesh; lines through edges, vertices and near-tangent facets are not sampled.',
     [LI, DS + 'FreeSpace3D.cpp', 'src/geometry/MeshGenerator.cpp'],
     [('vertical line versus mesh', LI), ('interval computation', DS + 'FreeSpace3D.cpp')])
prop('C07', 'Line-triangle intersection is exact',
     'A reported intersection lies on the line and inside the triangle. A line that crosses the interior of a triangle transversally is always reported as intersecting it.',
     ['inputs'], 'every line and triangle of the families',
     'Tests use one mesh and one line; the sign cases of the barycentric tests form a continuum.',
     [LI], [('line versus triangle', LI)])
prop('C08', 'A segment crossing a convex polygon is always detected',
     'A segment whose end points are outside a convex polygon but which passes through its interior is always reported as intersecting, including crossings exactly through vertices and along or parallel to edges. A segment that stays clear of the polygon is never reported.',
     ['inputs'], 'every segment and polygon of the families',
     'Tests have one polygon; crossings through vertices have measure zero and are never sampled.',
     [LI], [('segment versus polygon', LI)])
prop('C09', 'Sampled body boundaries lie on the implicit surface at the body\'s pose',
     'Every sampled boundary point of a superellipse or superquadric, transformed back by the body\'s position and orientation, satisfies its implicit equation with its semi-axes and exponents. The number and order of points follows the requested number, and changing the pose moves the boundary rigidly.',
     ['inputs'], 'all semi-axes, exponents, positions and orientations',
     'Tests only check sizes; the surface equation over all shapes and poses is a continuum.',
     ['src/geometry/SuperEllipse.cpp', 'src/geometry/SuperQuadrics.cpp'],
     [('boundary sampling', 'src/geometry/SuperEllipse.cpp'), ('boundary sampling', 'src/geometry/SuperQuadrics.cpp')])
prop('C10', 'Minkowski boundary points touch body A with body B\'s support point',
     'Each point of the Minkowski sum (difference) boundary of two bodies is A\'s boundary point plus (minus) the point of body B that is extreme along A\'s outward normal there: it lies on B\'s surface at B\'s orientation and B\'s normal there is parallel to A\'s, with the right direction. This holds for any shapes, sizes and orientations and independent of the bodies\' previous poses.',
     ['inputs'], 'all semi-axes, exponents, orientations and surface parameters of the families',
     'Tests only check the number of points; the contact condition is over a continuum of shapes and angles.',
     ['src/geometry/SuperEllipse.cpp', 'src/geometry/SuperQuadrics.cpp'],
     [('closed-form Minkowski sums', 'src/geometry/SuperEllipse.cpp'), ('closed-form Minkowski sums', 'src/geometry/SuperQuadrics.cpp')])
prop('C11', 'Moving a robot keeps it rigid',
     'Moving a multi-body robot puts the base at the commanded pose and every link at the commanded pose composed with that link\'s own offset, in the plane and in space. The result depends only on the last pose commanded, not on earlier ones, and shapes and offsets never change.',
     ['inputs', 'histories'], 'every pose, link offset and sequence of two poses',
     'Tests move robots once to fixed poses and do not compare link poses.',
     [DS + 'MultiBodyTree2D.cpp', DS + 'MultiBodyTree3D.cpp'],
     [('robotTF', DS + 'MultiBodyTree2D.cpp'), ('robotTF', DS + 'MultiBodyTree3D.cpp')])
prop('C12', 'Articulated robots follow their forward kinematics',
     'Moving an articulated robot to a pose and joint values puts every link at base pose composed with the forward kinematics of that link\'s body at those joint values and the link\'s offset, whether built from a parsed model or a model file. Joint values map to joints in order, and the result does not depend on earlier configurations.',
     ['inputs', 'histories'], 'every base pose, joint value and kinematics result',
     'Tests use one robot file and never compare link poses with the kinematics.',
     [DS + 'MultiBodyTree3D.cpp', 'src/util/ParseURDF.cpp'],
     [('robotTF with joints', DS + 'MultiBodyTree3D.cpp'), ('forward kinematics', 'src/util/ParseURDF.cpp')])
prop('C13', 'Each body contributes its own C-space boundary, shifted by its offset',
     'The C-space boundaries of a multi-body robot are one per body: the Minkowski boundary of the obstacle or arena with that body alone at its current orientation, shifted by minus the body\'s position relative to the base. The base comes first and the links follow in order.',
     ['inputs'], 'every robot pose, link offset and obstacle of the families',
     'Tests compare only counts of boundaries.',
     [DS + 'MultiBodyTree2D.cpp', DS + 'MultiBodyTree3D.cpp'],
     [('minkSum', DS + 'MultiBodyTree2D.cpp'), ('minkSum', DS + 'MultiBodyTree3D.cpp')])
prop('C14', 'The minimum volume enclosing ellipsoid contains both ellipsoids',
     'The concentric ellipse or ellipsoid computed to enclose two given ones contains both, for any sizes and orientations, with a proper (unit) orientation and no degenerate reflection. When both have their axes aligned it is no larger than the longer semi-axis in each direction requires.',
     ['inputs'], 'all semi-axes and relative orientations of the families',
     'Tests check one example; containment over all sizes and angles is a continuum.',
     ['src/geometry/TightFitEllipsoid.cpp'], [('getMVCE2D, getMVCE3D', 'src/geometry/TightFitEllipsoid.cpp')])
prop('C15', 'The tightly fitted ellipsoid contains the body at every interpolated turn',
     'The ellipse or ellipsoid fitted to a body that turns from one orientation to another contains the body at both ends and at every interpolated orientation, for any number of steps. It stays concentric with the body.',
     ['inputs'], 'all semi-axes, end orientations and numbers of steps',
     'Tests check one example by counting; a missed step only shows for particular turns.',
     ['src/geometry/TightFitEllipsoid.cpp'], [('getTFE2D, getTFE3D', 'src/geometry/TightFitEllipsoid.cpp')])
prop('C16', 'Motion interpolation goes evenly from start to end along the shortest turn',
     'Interpolating n steps returns n+1 configurations, the first and last being the given ends. Positions and joint values lie evenly on the straight segment; orientations are unit and lie evenly on the shortest rotation, whatever the quaternion signs; zero steps return both ends for compound motions.',
     ['inputs'], 'every start and end configuration and number of steps',
     'Tests interpolate one pair; sign choices and all positions are a continuum.',
     ['src/util/InterpolateSE3.cpp'], [('interpolation functions', 'src/util/InterpolateSE3.cpp')])
prop('C17', 'Distances between configurations are a metric',
     'The distance of two coordinate vectors is the square root of the summed squared differences. It is non-negative, symmetric, zero from a vector to itself and obeys the triangle inequality.',
     ['inputs'], 'every pair of vectors', 'Tests do not exercise it directly.',
     ['src/util/DistanceMetric.cpp'], [('vectorEuclidean', 'src/util/DistanceMetric.cpp')])
prop('C26', 'The algebraic separation test agrees with geometry',
     'Two ellipses or ellipsoids that are clearly apart are reported separated, and bodies that clearly overlap are never reported separated. The verdict does not depend on where and how the pair is placed as a whole.',
     ['inputs'], 'all distances, sizes and joint placements of the families',
     'Tests compare random samples with FCL; the root conditions form a continuum.',
     ['src/util/EllipsoidSeparation.cpp'], [('characteristic polynomial roots', 'src/util/EllipsoidSeparation.cpp')])
prop('C27', 'Polynomial root finding returns exactly the roots',
     'The roots returned for a polynomial number exactly its degree and are precisely its complex roots with multiplicity, for any non-zero leading coefficient.',
     ['inputs'], 'all coefficients up to degree four', 'Tests do not exercise it directly.',
     ['src/util/EllipsoidSeparation.cpp'], [('companion matrix', 'src/util/EllipsoidSeparation.cpp')])
prop('C30', 'Point in polyhedron is membership in one of its simplices',
     'A point is reported inside a polyhedral region exactly when it lies in one of the tetrahedra that make it up; an empty region contains nothing.',
     ['inputs'], 'every query point and tetrahedron of the family', 'Tests query one point.',
     ['src/geometry/PointInPoly.cpp'], [('barycentric test', 'src/geometry/PointInPoly.cpp')])
prop('C31', 'Collision geometry is the body\'s own shape at its current pose',
     'Meshes have exactly the body\'s boundary points in its own frame and all faces of their cells; surface meshes cover every grid cell with two triangles. A collision query gives the collision library each body\'s shape at the body\'s current pose, whatever poses were set before, and returns its verdict.',
     ['inputs', 'histories'], 'every pose, shape of the families and verdict of the collision library',
     'Tests check counts and a few collisions only.',
     ['src/geometry/MeshGenerator.cpp', 'src/util/EllipsoidSQCollisionFCL.cpp'],
     [('mesh generation', 'src/geometry/MeshGenerator.cpp'), ('collision query', 'src/util/EllipsoidSQCollisionFCL.cpp')])
PL = 'include/hrm/planners/'
prop('C19', 'Graph search returns a real, shortest path whenever one exists',
     'When start and goal vertices are connected in the roadmap the search reports success and returns a path from start to goal along existing edges; its cost is the sum of their weights and no other path of the roadmap is cheaper. When they are not connected it reports failure with no path and no finite cost. Earlier searches leave no trace in the result.',
     ['inputs', 'histories'], 'every edge weight, vertex position and graph of the families',
     'Tests only check that one scene is solved; ties, dead ends and the effect of the heuristic need all weights and positions.',
     [PL + 'HighwayRoadMap-inl.h'], [('A* search', PL + 'HighwayRoadMap-inl.h')])
prop('C20', 'A solution joins the requested start and goal along the roadmap',
     'The solution path begins with the requested start, ends with the requested goal and visits exactly the vertices of the graph path in between. The interpolated path passes through every pose of the solution in order, with evenly spaced poses in between on the motion that was validated.',
     ['inputs', 'histories'], 'every start, goal and vertex position of the families',
     'Tests only count poses; agreement of the end points and of every leg is not compared.',
     [PL + 'HighwayRoadMap-inl.h', 'src/planners/HRM2D.cpp', 'src/planners/HRM3D.cpp'],
     [('solution and interpolated path', PL + 'HighwayRoadMap-inl.h')])
prop('C25', 'Start and goal are attached to nearby roadmap vertices',
     'The neighbours of a query pose are existing roadmap vertices, at most as many as asked for, each the closest vertex of its own slice. They come only from slices within the radius of the slice closest in orientation, and only within the line range around the query; every such slice that has a vertex in range contributes one when enough may be returned. An empty or far roadmap gives no neighbour.',
     ['inputs'], 'every vertex and query position and heading of the families',
     'Tests attach one start and one goal; ties, radii and wrapped headings are a continuum.',
     ['src/planners/HRM2D.cpp', 'src/planners/HRM3D.cpp'],
     [('getNearestNeighborsOnGraph', 'src/planners/HRM2D.cpp'), ('getNearestNeighborsOnGraph', 'src/planners/HRM3D.cpp')])
prop('C18', 'The roadmap of a slice is collision free and well formed',
     'Every vertex of a planar roadmap lies inside the arena and the limits and outside every C-space obstacle of its slice. Every edge joins two existing vertices of one slice, passes through no obstacle of that slice and has the distance of its ends as weight. Vertices of neighbouring sweep lines that clearly see each other are joined.',
     ['inputs'], 'every obstacle and arena position of the families',
     'Tests count vertices and edges of fixed scenes and never check them against the obstacles.',
     ['src/planners/HRM2D.cpp', PL + 'HighwayRoadMap-inl.h', 'src/datastructure/FreeSpace2D.cpp', LI],
     [('connectOneSlice2D', PL + 'HighwayRoadMap-inl.h'), ('generateVertices, sweepLineProcess, isSameSliceTransitionFree', 'src/planners/HRM2D.cpp')])
prop('C21', 'Edges between slices are validated for every body over the whole turn',
     'An edge between slices of different orientation exists only if the motion was validated: at every interpolated step every body\'s centre is outside that body\'s own bridge boundary around every obstacle. The bridge boundary is built from an ellipsoid fitted to the very turn that body makes between the two slices; a motion clear of all of them is accepted and slices are joined when a tried motion is free.',
     ['inputs'], 'every boundary place, vertex position, link offset and verdict of the families',
     'Tests count edges only; a missed body, step or wrongly fitted turn shows for particular poses only.',
     ['src/planners/HRM2D.cpp', 'src/planners/HRM3D.cpp'],
     [('connectMultiSlice, computeTFE, bridgeSlice, isMultiSliceTransitionFree', 'src/planners/HRM2D.cpp'),
      ('connectMultiSlice, computeTFE, bridgeSlice, isMultiSliceTransitionFree', 'src/planners/HRM3D.cpp')])
prop('C22', 'Every slice has its own orientation and exactly its own obstacles',
     'The slices of a planner have the orientations asked for, or headings spread evenly over a full turn, or proper random rotations. The C-space obstacles of each slice are those of all bodies of the robot at that slice\'s orientation, at their own offsets, with every obstacle and arena boundary accounted for; earlier slices leave no trace.',
     ['inputs', 'histories'], 'every heading, link offset, obstacle place and random number of the families',
     'Tests only count slices; boundaries built for a wrong heading go unnoticed there.',
     ['src/planners/HRM2D.cpp', 'src/planners/HRM2DKC.cpp', 'src/planners/HRM3D.cpp'],
     [('constructOneSlice, sampleOrientations, setTransform', 'src/planners/HRM2D.cpp'),
      ('constructOneSlice, sampleOrientations, setTransform', 'src/planners/HRM3D.cpp'),
      ('inflated robot', 'src/planners/HRM2DKC.cpp')])
prop('C23', 'Refining the roadmap keeps it and adds only valid connections',
     'Refinement keeps every vertex and edge, doubles the number of sweep lines and re-sweeps each slice with that slice\'s own obstacles. New vertices are free, new edges join vertices of one slice, are collision free and weighted by distance; a refined slice is tried against its earlier vertices and joined to them exactly when a tried motion is validated. It stops early only when solved or out of time.',
     ['inputs', 'histories', 'schedules'], 'every obstacle place, vertex position, verdict and clock of the families',
     'Tests never refine with known obstacles, and check no edge against them.',
     [PL + 'HighwayRoadMap-inl.h', 'src/planners/HRM2D.cpp', 'src/planners/HRM3D.cpp'],
     [('refineExistRoadmap, connectExistSlice', PL + 'HighwayRoadMap-inl.h')])
prop('C24', 'A point or motion within a slice is free exactly when it is clear',
     'A point is reported free in a slice exactly when it lies outside every C-space obstacle. A straight motion clear of every obstacle is accepted and one passing through an obstacle is rejected, in the plane and in space, whatever the number of bodies and obstacles.',
     ['inputs'], 'every query point, segment and obstacle place of the families',
     'Tests never ask these queries directly; edges, vertices and directions form a continuum.',
     ['src/planners/HRM2D.cpp', 'src/planners/HRM3D.cpp', 'src/geometry/PointInPoly.cpp', 'src/util/LineIntersection.cpp'],
     [('isPtInCFree, isSameSliceTransitionFree', 'src/planners/HRM2D.cpp'), ('isPtInCFree, isSameSliceTransitionFree', 'src/planners/HRM3D.cpp')])
OI = PL + 'ompl_interface/'
prop('C28', 'A sampled state is valid exactly when no body touches an obstacle',
     'The state validity checker of the sampling-based planners accepts a state exactly when the collision test is negative for every body of the robot against every obstacle, with each body at the place and orientation the state gives it: planar bodies with links, rigid bodies in space and articulated bodies with joints. States checked before leave no trace in the answer.',
     ['inputs', 'histories'], 'every state, link offset, joint and collision verdict of the families',
     'Tests run planners on fixed scenes where a skipped body or obstacle is rarely noticed.',
     [OI + 'OMPLInterface-inl.h', 'src/planners/ompl_interface/OMPL2D.cpp', 'src/planners/ompl_interface/OMPL3D.cpp', 'src/planners/ompl_interface/OMPL3DArticulated.cpp'],
     [('isStateValid', OI + 'OMPLInterface-inl.h'), ('isStateValid', 'src/planners/ompl_interface/OMPL2D.cpp'), ('transformRobot', 'src/planners/ompl_interface/OMPL3D.cpp')])
prop('C29', 'Sampling-based planning solves the request it is given and reports it',
     'The planning library gets exactly the requested start and goal, the space with the limits and the dimension of the robot, the planner and sampler asked for and the time limit. What is reported afterwards (solved, path, its length, roadmap size, times, valid fractions) is that of the latest run, also when the same object plans several times.',
     ['inputs', 'histories'], 'every start, goal, bound, path and verdict of the planning library of the families',
     'Tests assert success of each planner once; they never compare path or statistics and never plan twice.',
     [OI + 'OMPLInterface-inl.h', 'src/planners/ompl_interface/OMPL2D.cpp', 'src/planners/ompl_interface/OMPL3D.cpp', 'src/planners/ompl_interface/OMPL3DArticulated.cpp'],
     [('plan, getSolution, setup', OI + 'OMPLInterface-inl.h')])
prop('C32', 'Planning times add up and the time limit is respected',
     'Build and search times reported by the roadmap planners are the clock time spent in those phases, each counted once, and the total is their sum. Planning goes on, refining or adding slices, while unsolved and within the time limit, and starts no further slice or refinement once solved or out of time.',
     ['schedules', 'histories'], 'every reading of a non-decreasing clock, every verdict of the search',
     'Tests print times and never reach the limits; time that is counted twice needs several iterations with chosen clock readings.',
     [PL + 'HighwayRoadMap-inl.h', 'src/planners/ProbHRM3D.cpp'],
     [('plan, refineExistRoadmap', PL + 'HighwayRoadMap-inl.h'), ('plan', 'src/planners/ProbHRM3D.cpp')])
prop('C33', 'Probabilistic slices and their connections are those of one configuration',
     'With an articulated robot the first two slices have the orientation and joints of start and goal, later ones proper random orientations and joints within limits. Slices and refinements have the obstacles of all bodies in exactly that configuration and vertices carry it. A new slice is joined to the nearest earlier one, only by motions validated at every step for every body where it then is, with ellipsoids that enclose each body at every step; edges weigh their length.',
     ['inputs', 'histories'], 'every random number, joint, link offset, obstacle place and verdict of the families',
     'Tests check that one scene yields some vertices; configurations and the validation of motions are never compared.',
     ['src/planners/ProbHRM3D.cpp', PL + 'ProbHRM3D.h', 'src/planners/HRM3D.cpp'],
     [('sampleOrientations, connectMultiSlice, computeTFE, setTransform', 'src/planners/ProbHRM3D.cpp')])
prop('C34', 'The ablated planner joins slices only by collision-free motions',
     'Where connections between slices are validated by explicit collision detection instead of bridge slices, a motion is accepted exactly when the collision test is negative for every body of the robot against every obstacle at every interpolated step, with each body where the motion puts it, for rigid and articulated robots. Slices are joined exactly by accepted motions.',
     ['inputs', 'histories'], 'every end, joint and collision verdict of the families',
     'Tests count vertices and edges of fixed scenes; a step, body or obstacle that is left out is not noticed.',
     [PL + 'HRM3DAblation-inl.h', PL + 'HRM3DAblation.h', 'src/planners/HRM3D.cpp', 'src/planners/ProbHRM3D.cpp'],
     [('isMultiSliceTransitionFree, setCollisionObject', PL + 'HRM3DAblation-inl.h'), ('connectMultiSlice', 'src/planners/HRM3D.cpp')])
prop('C35', 'Containment middle vertices connect neighbouring slices soundly',
     'The planner with kinematics of containment joins vertices of neighbouring slices only through a middle vertex that lies between them and inside the local C-space around both; each such vertex adds exactly two edges weighted by their length, all other vertices stay. A tried middle vertex that is contained on both sides is added, and every pair is tried as often as allowed until then.',
     ['inputs'], 'every vertex position, random number and containment verdict of the families',
     'Tests never reach these connections, the local C-space is not filled there.',
     ['src/planners/HRM2DKC.cpp'], [('connectMultiSlice, addMiddleVertex', 'src/planners/HRM2DKC.cpp')])
prop('C36', 'Plotted robots, obstacles and roadmaps are those of the result files',
     'The Python scripts draw every body as its own superquadric at the place the planner gave it: for a configuration (position, scalar-first quaternion of any length, joints) the base stands at the configuration and each link at base pose times joint frame times its own offset, independent of what was drawn before. A plot of a result shows every obstacle, start, goal, the path through all its states joined to start and goal, and every roadmap edge between its two vertices, for results of any length.',
     ['inputs'], 'every shape, pose, joint value, path and roadmap vertex of the families',
     'The only test draws one robot once and looks at nothing.',
     ['demo/python/SuperQuadrics.py', 'demo/python/MultiBodyTree.py', 'demo/python/robot_generator.py', 'demo/python/plot_results_hrm_3D.py', 'demo/python/plot_results_ompl_3D.py'],
     [('get_points', 'demo/python/SuperQuadrics.py'), ('transform', 'demo/python/MultiBodyTree.py'), ('generate_robot, plot_robot_pose', 'demo/python/robot_generator.py'), ('plot_results', 'demo/python/plot_results_hrm_3D.py')])
prop('C37', 'Scene files load as described, results are stored as they are',
     'Loading a scene gives the planner exactly what the files say: arena, obstacles and every body of the robot with its own sizes, place, orientation (axis-angle of any axis length as unit quaternion) and exponents, start and goal with their joints in order, whatever comment or blank lines the file has. The limits keep every admissible robot centre and no more than the stated margins. Stored graphs, paths and solutions read back to what was stored, in order.',
     ['inputs'], 'every size, position, angle, joint, vertex and path state of the families',
     'Tests load fixed scenes and compare nothing with the files; a swapped column goes unnoticed.',
     ['src/test/util/ParsePlanningSettings.cpp', 'include/hrm/test/util/ParsePlanningSettings.h', 'src/util/Parse2dCsvFile.cpp', 'src/test/util/DisplayPlanningData.cpp'],
     [('loadVectorGeometry, defineParameters', 'src/test/util/ParsePlanningSettings.cpp'), ('parse2DCsvFile', 'src/util/Parse2dCsvFile.cpp'),
      ('storeGraphInfo, storePathInfo', 'src/test/util/DisplayPlanningData.cpp')])
