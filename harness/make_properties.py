import json
B='hypothesis_geometry/_core/base.py'; Fc='hypothesis_geometry/_core/factories.py'; P='hypothesis_geometry/planar.py'
T='hypothesis_geometry/_core/triangular.py'; S='hypothesis_geometry/_core/subdivisional.py'; C='hypothesis_geometry/_core/contracts.py'; U='hypothesis_geometry/_core/utils.py'
def m(*a): return [{'name':n,'where':w} for n,w in a]
props=[]
def add(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':files,'mechanism':mech,'observe_at':observe,'hook_needed':hook}}
    if state: d['anchors']['state']=state
    props.append(d)
OBS=['values drawn from the public strategies of hypothesis_geometry.planar']
add('C01','Every contour bounds a proper region',
 'Every contour that any strategy produces (a contour of any shape, a member of a multicontour, the border or a hole of a polygon, also inside multipolygons and mixes) has at least 3 pairwise distinct vertices, no three consecutive collinear ones, and edges that meet only at the shared vertex of neighbours. Contours and borders go counterclockwise.',
 ['inputs','configurations'],'all coordinate strategies of exact numbers, all admissible size bounds, all choice sequences a draw can be fed',
 'The tests sample a few dozen random draws per function; straight angles, wrap-around vertices and self-contact only show for rare point configurations (three collinear drawn points, hull points on edges, carving that runs out of mouths), and hole contours are not checked for direction-independent strictness in all places.',
 [Fc,T,S,B,C],m(('chi-shape carving that only removes boundary edges whose apex is inside',Fc+':_to_vertex_sequence'),('removal of straight angles, also across the ends of the list',Fc+':compress_contour'),('Delaunay triangulation with boundary walked counterclockwise',T+':Triangulation.delaunay'),('points on a prime grid, no three collinear on it',B+':to_point_sequence_in_general_position_strategy')),OBS,
 [{'name':'boundary points','meaning':'points already on the carved boundary, never to be visited twice','where':Fc+':_to_vertex_sequence'}])
add('C02','Special contours have the shape they are named after',
 'Convex contours turn left at every vertex, concave contours turn right at least at one, triangular contours have exactly 3 vertices, rectangular contours are rectangles with axis-parallel sides, and in a star contour every vertex is visible from the centroid of the region it bounds (the segment from the centroid to it does not leave the region).',
 ['inputs','configurations'],'all coordinate strategies, size bounds and choice sequences',
 'Visibility from the centroid moves with every removed vertex and has to hold at the fixpoint of a loop; convexity depends on sorting edge vectors by angle; the tests sample few draws and only over their own coordinate ranges.',
 [Fc,B,C],m(('fixpoint of dropping hidden vertices and re-centring',Fc+':to_star_contour_vertices'),('edge vectors sorted by angle (Valtr), then hull',Fc+':to_convex_vertex_sequence'),('filter on a change of turn',C+':are_vertices_non_convex'),('corners of a box in order',B+':to_rectangular_vertex_sequence_strategy')),OBS)
add('C03','Sizes stay within the requested bounds',
 'Every count in a generated value - points, segments, contours, vertices of each contour or border, holes of each polygon, vertices of each hole, polygons, and the components of a mix - lies between the lower bound asked for (raised to the least meaningful size) and the upper bound asked for, whenever an upper bound is given.',
 ['inputs','configurations'],'all combinations of lower and upper bounds including equal, omitted, None and below-floor ones; all draws',
 'The bounds interact (border size, holes count and hole size share one set of points) and carving and compression change sizes after they were chosen; tests sample random bounds with a handful of draws, so a bound off by one in one branch or combination is not reached.',
 [P,B,Fc,C],m(('filters on the final sizes',C+':has_valid_size, multicontour_has_valid_sizes'),('sizes drawn from ranges limited by the points available',B+':to_polygon_strategy, to_multicontour_strategy'),('counts of mix components allotted from the drawn coordinates',B+':to_mix_strategy.to_point_counts')),OBS)
add('C04','Coordinates come from the right strategy',
 'Every x-coordinate of a value was produced by the x-coordinates strategy and every y-coordinate by the y-coordinates strategy, with the numbers kept as they are; only vertices of convex outlines (also as sources of segments) may be exact combinations of such coordinates, and these stay within the range of the drawn ones. Omitting the y-coordinates strategy means using the x-coordinates strategy for both axes, draw for draw.',
 ['inputs','configurations'],'all pairs of coordinate strategies (same, omitted, disjoint), all kinds and branches, all draws',
 'The tests check a type and a range; with equal or overlapping domains a coordinate of the wrong axis or a recomputed one is invisible, and branches for strips along x and along y are near copies of one another.',
 [B,Fc,P],m(('indices of sorted drawn coordinates, never arithmetic on them',B+':x_indices_to_points, y_indices_to_points'),('fallback of the y strategy',B+':to_*_strategy'),('clamping to the drawn extremes',Fc+':to_convex_vertex_sequence')),OBS+['drawn coordinates against the finite domain handed in'])
add('C05','Holes lie inside their polygon and apart from each other',
 'In every polygon, on its own or inside a multipolygon or mix, each hole goes clockwise, lies within the region of the border without crossing it or running along it, and no two holes cross, overlap or lie inside one another (touching in isolated points is allowed).',
 ['inputs','configurations'],'all polygons with holes over all coordinate strategies, bounds and draws',
 'The tests assert that hole and border edges do not cross but neither that a hole is on the inner side of the border nor that holes are not nested; both depend on which boundary edges get carved away after the holes are placed.',
 [Fc,B,T],m(('hole points are barred from becoming border vertices',Fc+':to_polygon.boundary_points'),('new border edges are tested against the nearest hole edge',Fc+':to_polygon.is_mouth'),('holes packed along one axis, sharing at most one point',Fc+':to_polygon'),('reversal of hole vertices',Fc+':_reverse_vertices')),OBS)
add('C06','Members of multicontours and multipolygons stay apart',
 'The contours of a multicontour, and the borders of a multipolygon, bound regions with pairwise disjoint interiors: no two cross, share a piece of an edge, coincide, or lie one inside the other (touching in isolated points is allowed).',
 ['inputs','configurations'],'all multicontours and multipolygons over all coordinate strategies, bounds and draws',
 'The tests look for crossing or overlapping edges only, which accepts a contour nested in another one and coincident or enclosing polygons; whether neighbours may share a coordinate depends on vertical or horizontal edges at the seam.',
 [Fc,B,C],m(('points sorted along a chosen axis and cut in consecutive runs',Fc+':to_multicontour'),('strips of sorted coordinates, sharing one only without an edge along the seam',B+':xs_to_polygons, ys_to_polygons'),('detection of an edge along the seam',C+':has_vertical_leftmost_segment, has_horizontal_lowermost_segment')),OBS)
add('C07','Components of a mix are disjoint and of the right kind',
 'A mix has at least two non-empty components; its points are distinct, lie on no segment and in no polygon; its segments do not cross or overlap each other or polygon borders and do not enter polygons; its polygons are valid and have disjoint interiors. Each component is empty, single (segment, polygon) or multiple exactly according to the number of its parts, points always forming a multipoint.',
 ['inputs','configurations'],'all mixes over all coordinate strategies, bounds and draws; all orders of components along the axis',
 'The tests check a few relations between components (no check of segments or points inside polygons by region), and seams between groups in every order of component kinds are seldom reached.',
 [B,P,C],m(('random order of groups over consecutive strips of one sorted axis',B+':xs_to_mix, ys_to_mix'),('seam shared only by segments or polygons without an edge along it',B+':can_touch_next_geometry'),('class of a component by its number of parts',B+':unpack_points, unpack_segments, unpack_polygons')),OBS)
add('C08','Segments are proper and do not cross or overlap',
 'No generated segment is degenerate, and no two segments of a multisegment or of the linear component of a mix cross or overlap; two of them have at most one common point, an endpoint of at least one of them.',
 ['inputs','configurations'],'all segments and multisegments over all coordinate strategies, bounds and draws',
 'Tests rely on the same sweep-line predicate as the filter in the code, on a few draws; a wrong pairing of consecutive coordinates or of contour edges needs a particular branch.',
 [B,Fc,C],m(('consecutive sorted coordinates on one line',B+':to_vertical_multisegment, to_horizontal_multisegment'),('edges of a simple contour',Fc+':contour_vertices_to_edges'),('filter of free segments',C+':are_segments_non_crossing_non_overlapping')),OBS)
add('C09','Values are of the announced kind and elementary ones are proper',
 'Each strategy produces exactly the kind of geometry it is named after (multicontours a list of contours), built from the parts that kind consists of; multipoints have no repeated point and boxes have positive width and height.',
 ['inputs','configurations'],'all strategies, coordinate strategies, bounds and draws',
 'Uniqueness and strictness depend on the drawn coordinates; tests sample wide coordinate ranges in which collisions hardly occur.',
 [B,P],m(('unique lists of points',B+':to_unique_point_sequence_strategy'),('two distinct sorted coordinates per axis',B+':to_box_strategy'),('mapping to context classes',P)),OBS)
add('C10','Size arguments are validated, warned about and raised as documented',
 'For every strategy with size parameters: an upper bound below the least meaningful size, a lower bound above the upper one, or a negative lower bound with an upper one raises ValueError naming the parameter at fault, as does a mix that cannot have two components; otherwise building succeeds with exactly one warning for each lower bound below the least meaningful size, and the strategy then draws exactly what it draws for the raised bound.',
 ['configurations','inputs'],'all combinations of integer and None bounds for all parameter pairs of all functions; all choice sequences for the equivalence of raised bounds',
 'The tests try a few invalid arguments per function; the joint decision table of up to twelve parameters (order of checks, several faults or warnings at once, clamping in each function) is not enumerated.',
 [P,'hypothesis_geometry/_core/constants.py'],m(('one validator for a pair of bounds',P+':_validate_sizes'),('raising of lower bounds',P+':max(min_size, ...)'),('count of possible mix components',P+':mixes')),['exceptions and warnings of the public functions','draws from the built strategies under equal choices'])
add('C11','A draw ends with a value or a clean rejection',
 'Whenever each axis offers at least twice as many distinct coordinates as the request needs vertices, drawing terminates and either returns a value or is rejected the way Hypothesis expects; no other exception escapes, and requests whose bounds leave room do return values.',
 ['inputs','configurations'],'all satisfiable requests, all sufficiently large coordinate strategies, all choice sequences, including minimal and mutated ones as the shrinker produces',
 'Termination of the carving, fixpoint and packing loops and the internal assertions depend on rare point configurations and on group sizes near prime limits; tests reach few of them, and never look at shrunk choice sequences.',
 [Fc,B,U,T],m(('loops bounded by shrinking candidate sets',Fc+':_to_vertex_sequence, to_star_contour_vertices'),('largest prime within the available points, smallest prime above the needed ones',U+':to_prior_prime, to_next_prime'),('filters instead of failures',B)),['outcome of every draw: value, rejection or exception'])
add('C12','A draw is a function of the request and the choices',
 'The value drawn depends only on the arguments and on the choices Hypothesis feeds in: replaying the same choices gives an equal value in the same order of parts, from the same or a newly built strategy, after any other draws, interleaved with other strategies, and in a new process with another hash seed.',
 ['histories','inputs','schedules'],'all histories of building and drawing before and between the two draws; all strategies, requests and choices; all processes',
 'No test compares two draws; order of set iteration, identity hashes, module state and hidden random sources show only across histories and processes.',
 [Fc,B,T,S],m(('random sources taken from Hypothesis',B+':to_chooser_strategy'),('ordered candidate sets keyed by geometry, not identity',Fc+':_edge_key'),('explicit sorting before use',Fc+':inner_points.sort')),['equality of values under equal choices across histories and processes'],
 [{'name':'session memory','meaning':'replies to remembered choices','where':'spec/Session.tla:memo'}])
add('C13','Every admissible size and arrangement can be generated',
 'For requests with room, every admissible number of parts and every arrangement the documentation allows does occur: each size between the bounds, convex and non-convex contours, polygons with every admissible number of holes, multipolygons with and without holes, neighbours that touch and that do not, and mixes with every admissible combination of components, empty, single or multiple.',
 ['configurations','histories'],'all requests with bounds that leave room; the set of values over all choice sequences',
 'Tests never ask whether some admissible value is unreachable: an upper bound that is never attained or a branch that is never taken passes all of them.',
 [B,P,Fc],m(('union of alternative constructions',B+':to_convex_vertex_sequence_strategy, to_multipolygon_strategy, to_non_crossing_non_overlapping_segment_sequence_strategy'),('inclusive ranges of sizes',B+':st.integers'),('three combinations of required components',P+':mixes')),['set of abstract shapes seen over many draws'])
add('C14','Values are built from the classes of the given context',
 'Every geometry in a value, at every depth, is an instance of the class that the context passed by the caller defines for its kind, for every context with its own classes, whatever other contexts are in use in the process.',
 ['configurations','inputs','histories'],'all contexts, all strategies and branches, all draws, with several contexts used in turn',
 'Tests run with one context, in which every class is the default one, so a class taken from anywhere else is invisible.',
 [B,Fc,P],m(('classes taken from the context where values are built',B+':context.point_cls ...'),('context handed down to factories and triangulation',Fc+', '+T)),['classes of all nested objects'])
add('C15','Values are independent of each other and of the library',
 'Changing a returned value (its lists of points, vertices, segments, contours, holes, polygons) changes neither any value drawn before or after it, nor any other part of the same value, nor what the strategy will draw.',
 ['histories'],'all histories of draws and changes of drawn values',
 'No test keeps two values or modifies one; sharing of a list shows only when somebody writes to it.',
 [B,Fc],m(('fresh lists for every value',B+', '+Fc),('copy of the points before sorting',Fc+':to_multicontour')),['identity of mutable containers; values redrawn after mutation'])
add('C16','Triangulations stay planar, complete and Delaunay',
 'For any set of distinct points that are not all collinear, the triangulation that contours are carved from is a planar subdivision of their convex hull into triangles with all points as vertices, none inside the circumcircle of a triangle, and its outer walk is the hull counterclockwise. Deleting or flipping edges, in any order the carving uses, keeps it a consistent subdivision.',
 ['inputs','histories'],'all point sets, also with many collinear or cocircular points; all sequences of edge operations',
 'No test touches the triangulation; errors in merging show for particular point counts and cocircular or collinear patterns, and often leave the final contours valid but wrong in rarer cases.',
 [T,S],m(('divide and conquer merge with rising bubble',T+':_merge, _connect'),('edge algebra: splice, connect, delete, flip',S+':QuadEdge'),('sides tracked while deleting',T+':delete')),['edges and outer walk of a built triangulation'],
 [{'name':'quad-edge rings','meaning':'next edge around origin for primal and dual edges','where':S}])
with open('properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
