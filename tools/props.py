"""texts of the properties; _technique/_note go to MANIFEST.json, _na marks a declined property"""
AI = 'path-partitioned value-flow analysis of MIR (rustc_private driver) with mesh-link normal forms'
AI_NOTE = ('Decides, for all meshes and all aliasing patterns in the entry table, that the final link structure of every '
           'analysed path meets the obligation; trusts MIR, the std/itertools models and bounded unrolling of loops that '
           'are not whole-loop traversals. Paths whose writes depend on terms the analysis cannot name are reported undecided in the evidence.')
ALG = 'symbolic value-flow analysis of MIR with exact rational-function normal forms'
ALG_NOTE = ('Decides that each formula, as computed on every path, is the documented one as an exact expression; rounding is outside. '
            'Results containing terms outside the understood vocabulary are reported undecided in the evidence.')
HE = 'src/halfedge/'


def P(id, title, statement, over, text, why, files, mech, technique=AI, note=AI_NOTE, observe=None, state=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
         '_technique': technique, '_note': note}
    if observe:
        d['anchors']['observe_at'] = observe
    return d


def NA(id, title, statement, over, text, why, files, mech, reason):
    d = P(id, title, statement, over, text, why, files, mech)
    del d['_technique'], d['_note']
    d['_na'] = reason
    return d


MUT = [('edge insertion and face closing', HE + 'mesh/builder/halfedge.rs'), ('path, loop, removal, edge subdivision', HE + 'mesh/builder/builder.rs'),
       ('unchecked insertion, half-edge subdivision', HE + 'mesh/builder/semi.rs'), ('flipping', HE + 'edge/halfedge.rs')]
MUTF = [f for _, f in MUT]

PROPERTIES = [
    P('T01', 'Successor, predecessor and twin links stay mutually consistent',
      'After any mesh-editing operation used within its documented preconditions, every directed edge is the predecessor of its successor, '
      'the successor of its predecessor and the twin of its twin. This holds for edges inside faces, on boundaries, at dangling ends and for isolated edges alike.',
      ['inputs', 'histories'], 'every valid mesh, every editing operation, every choice of edges and vertices, including those where the chosen edges coincide or neighbour each other',
      'the tests edit a handful of small meshes; aliasing cases (dangling ends, edges sharing a vertex, two-sided faces) are sampled by none of them',
      MUTF, MUT),
    P('T02', 'Edges start where they should and vertices know a leaving edge',
      'After any mesh-editing operation used within its documented preconditions, the successor of each directed edge starts at the vertex where the edge ends, '
      'and the edge remembered by each vertex leaves that vertex.',
      ['inputs', 'histories'], 'every valid mesh, every editing operation, every choice of edges and vertices',
      'a stale remembered edge or a wrong origin shows only on particular neighbourhoods, which the few test meshes do not contain',
      MUTF + [HE + 'vertex/mod.rs'], MUT),
    P('T03', 'All edges around a face agree on the face, and the face on one of them',
      'After any mesh-editing operation used within its documented preconditions, all directed edges along one boundary cycle carry the same face (or none), '
      'and the edge remembered by each face lies on its own boundary.',
      ['inputs', 'histories'], 'every valid mesh, every editing operation, every choice of edges and faces',
      'tests close faces on a few polygons only; a wrong face mark on one edge of a longer cycle is never observed',
      MUTF + [HE + 'face/mod.rs'], MUT),
    P('S01', 'Deleted mesh elements disappear and only their slots are reused',
      'An id handed out for a vertex, edge or face keeps naming that element until the element is deleted; a deleted element is no longer found, counted or iterated. '
      'A new element takes the slot of a deleted one or a fresh slot, never a live one, and every slot taken by an editing operation is filled exactly once.',
      ['histories'], 'every sequence of insertions, deletions, reservations and re-insertions, every editing operation',
      'the confusion appears only after particular delete and insert sequences; the tests delete elements in two places',
      ['src/util/deletable.rs', HE + 'mesh/mesh/basics.rs', HE + 'mesh/builder/semi.rs'],
      [('soft-delete container', 'src/util/deletable.rs'), ('editing operations', HE + 'mesh/builder/')]),
    P('Q01', 'Neighbourhood queries answer what the mesh links say',
      'Every query about an edge, vertex or face and its surroundings (ends, neighbours, faces on either side, edge or face shared by two vertices, '
      'boundary tests and boundary edges, reachability along a face) returns an answer that agrees with the links of the mesh. '
      '"None" is returned exactly when no such element exists.',
      ['inputs'], 'every valid mesh, every element and pair of elements, including dangling edges, two-sided edges and vertices without edges',
      'the tests query triangles and cubes, where most wrong answers coincide with the right ones',
      [HE + 'edge/halfedge.rs', HE + 'edge/basics.rs', HE + 'vertex/basics.rs', HE + 'mesh/basics.rs', 'src/mesh/vertex/halfedge.rs', HE + 'face/mod.rs'],
      [('edge queries', HE + 'edge/'), ('vertex queries', HE + 'vertex/basics.rs'), ('queries about pairs', HE + 'mesh/basics.rs')]),
    P('I01', 'Local traversals visit each neighbour once, in order, and stop',
      'Walking around a face, backwards around a face or around a vertex yields every edge, vertex or face met along the links exactly once, in link order starting at the given element, '
      'and ends exactly when the walk is back at its start. Announced lengths, vertex and edge counts and degrees equal the number of elements the walk yields.',
      ['inputs'], 'every valid mesh and start element; mutable, immutable, forward and backward traversals; partly consumed traversals',
      'tests count elements of triangles and cubes; order, early stops and lengths after partial consumption are not observed',
      [HE + 'edge/iterator.rs', HE + 'vertex/iterator.rs', HE + 'vertex/basics.rs', HE + 'face/mod.rs', 'src/mesh/face/basics.rs', HE + 'mesh/halfedge.rs'],
      [('edge traversals', HE + 'edge/iterator.rs'), ('vertex traversals', HE + 'vertex/iterator.rs'), ('face traversals', 'src/mesh/face/basics.rs')]),
    P('Q02', 'Whole-mesh listings and counts cover exactly the live elements',
      'Listing all vertices, edges, faces or their ids covers exactly the live elements of that kind and the counts agree with it; an element is found under its own id. '
      'Every undirected edge is listed once as a pair of opposite directed edges, a mesh counts as open exactly if some directed edge has no face, and clearing a mesh empties all of it.',
      ['inputs', 'histories'], 'every mesh, including meshes with deleted elements and arbitrary order of edge ids within a pair',
      'tests list freshly built meshes, where ids are dense and pairs are stored in one order',
      [HE + 'mesh/basics.rs', 'src/mesh/mesh/basics.rs', 'src/mesh/mesh/halfedge.rs'],
      [('listings and counts', HE + 'mesh/basics.rs'), ('edge pairs', 'src/mesh/mesh/halfedge.rs')]),
    P('T07', 'Flipping an edge swaps the two directions and nothing else',
      'After flipping an edge, its two directed halves have exchanged start vertex, face, successor and predecessor, while their payloads and all other edges keep theirs up to that exchange. '
      'Flipping a whole mesh flips every undirected edge exactly once.',
      ['inputs'], 'every valid mesh and edge, including edges whose neighbours on either side are their own twin',
      'the test flips a triangle and a cube twice; dangling ends and single flips are not covered',
      [HE + 'edge/halfedge.rs', 'src/mesh/mesh/halfedge.rs'],
      [('flipping an edge', HE + 'edge/halfedge.rs'), ('flipping a mesh', 'src/mesh/mesh/halfedge.rs')]),
    P('T06', 'Each editing operation has exactly its described effect',
      'Adding vertices, connecting vertices or edges, closing faces and holes, removing faces, drawing paths and loops and subdividing edges change exactly what they describe: '
      'the new elements sit at the named places, carry the given payloads on the named side (defaults in the default variants) and are returned in the documented order, '
      'removed elements return their payload, and the links, faces and payloads of everything else stay as they were.',
      ['inputs', 'histories'], 'every valid mesh, every editing operation, every choice of elements and payloads, including dangling ends and isolated vertices; drawn paths with up to 4 vertices (5 in the thorough tier)',
      'the tests use payloads that are all alike and look at element counts; a payload on the wrong side, a swapped pair of handles or a change elsewhere is not observed',
      MUTF + ['src/mesh/mesh/builder.rs'], MUT),
    P('K01', 'The validity check accepts exactly the consistent meshes',
      'A mesh passes the built-in consistency check exactly when: twins, successors and predecessors are mutual, each successor starts where the edge ends and carries the same face, '
      'every vertex and face remembers an edge of its own, every face has at least three edges and every edge has a face on some side. Every element is examined.',
      ['inputs'], 'every mesh, valid or not, whatever the position of the offending element and the combination of its links',
      'the tests only ever call the check on meshes that are valid, so a check that has become blind is never noticed',
      [HE + 'mesh/check.rs'], [('validity check', HE + 'mesh/check.rs')]),
    P('B01', 'Vector, segment and polygon formulas compute what they name',
      'Products, lengths, distances, angles, swizzles, interpolations, orientation and containment tests, line intersections, sums and means of vectors and scalars equal their mathematical definition for all inputs, '
      'in every dimension and for every math backend. Signed areas, centroids, winding and containment of polygons do so for polygons of any shape.',
      ['inputs'], 'all vectors, scalars, segments and polygons, up to rounding; polygons are analysed with three to five arbitrary points',
      'tests check a few numbers each; a swapped component or a wrong sign in one dimension or one branch is rarely hit',
      ['src/math/', 'src/extensions/nalgebra/', 'src/extensions/bevy/'], [('vectors', 'src/math/'), ('backends', 'src/extensions/')],
      technique=ALG, note=ALG_NOTE),
    P('M01', 'Transforms compose and act on points and directions as documented',
      'For every math backend: the identity changes nothing, translations and scales act component-wise, adding a translation or a scale to a transform or chaining two transforms acts as applying one after the other, '
      'directions ignore translations, and rotations are those of the given matrix, angle or arc. Vertex payloads apply these to position and normal, interpolate all their fields and keep the rest; copies equal in-place results.',
      ['inputs'], 'all transforms (2, 3 and 4 dimensions; nalgebra and bevy), points, directions and payloads, up to rounding',
      'the tests compose a few special 2D transforms; order of composition, non-commuting cases and the bevy backend are not covered',
      ['src/math/transform.rs', 'src/math/transformable.rs', 'src/extensions/nalgebra/math/transform_n.rs', 'src/extensions/bevy/math/', 'src/extensions/nalgebra/default_vertex_payload.rs'],
      [('transforms', 'src/extensions/'), ('derived operations', 'src/math/transformable.rs')], technique=ALG, note=ALG_NOTE),
    P('M02', 'Transforming a mesh transforms all of it exactly once',
      'Transforming, translating, rotating or scaling a mesh applies exactly that operation once to the payload of every vertex, every directed edge, every face and of the mesh itself, including all control points of curved edges. '
      'The copying variants return the changed copy and leave the original alone.',
      ['inputs'], 'every mesh and every payload type', 'the tests transform meshes with straight edges only and look at the vertices',
      ['src/mesh/mesh/transform.rs', 'src/mesh/edge/payload.rs'], [('mesh operations', 'src/mesh/mesh/transform.rs'), ('curved edges', 'src/mesh/edge/payload.rs')]),
    P('V01', 'Curved edges follow their control points, flattening follows the curve',
      'A point on a straight, quadratic or cubic edge is the Bézier point of the start vertex, the control points and the end vertex at that parameter; two curves are about equal only if they have the same kind and control points. '
      'Flattening an edge uniformly yields the equally spaced interior points; flattening with a tolerance yields, in order, exactly the interior points of the midpoint subdivision that stops where the chord midpoint is within the tolerance. '
      'Flattening a mesh treats every curved directed edge this way, inserts exactly those points and makes it straight, and leaves straight edges alone; a mesh has curved edges exactly if one of its edges is curved.',
      ['inputs'], 'all control points, parameters, tolerances and meshes; subdivision trees up to depth three (four in the thorough tier), uniform flattening up to 4 (5) segments',
      'one test flattens fonts and svg outlines and counts vertices; order, the accepted segments and mixed kinds of edges are not observed',
      ['src/mesh/edge/curved.rs', 'src/mesh/edge/payload.rs', 'src/mesh/mesh/basics.rs', 'src/extensions/nalgebra/mesh2d.rs'],
      [('curves', 'src/mesh/edge/curved.rs'), ('flattening of meshes', 'src/mesh/mesh/basics.rs')], technique=ALG, note=ALG_NOTE),
    P('P01', 'Drawn paths, SVG outlines and glyphs become exactly those outlines',
      'Each path builder call adds one edge from the current vertex to the given or new vertex with the given payloads and transformed curve, continues from there, and closing makes one face, drawing the missing line back to the start first. '
      'Importing an SVG draws every visible path of every group: one vertex per distinct end point at its document position, one edge per segment carrying its curve, and one face. '
      'Laying out text draws every contour of every glyph, scaled, with its curves in drawing direction and closed by a face, each glyph starting at the sum of the advances and kernings before it in the same scale.',
      ['inputs'], 'every single builder call on every builder state; SVG paths of one outline with up to 3 segments (4 in the thorough tier); up to 3 curves per glyph and up to 2 glyphs',
      'tests draw one closed path, one svg and one letter and look at counts only; positions, payload sides, curve directions, open paths and several glyphs are not observed',
      ['src/mesh/mesh/path_builder.rs', 'src/extensions/svg/svg.rs', 'src/mesh/mesh/fonts.rs'],
      [('path builder', 'src/mesh/mesh/path_builder.rs'), ('svg import', 'src/extensions/svg/svg.rs'), ('glyph outlines', 'src/mesh/mesh/fonts.rs')], technique=ALG, note=ALG_NOTE),
    P('N01', 'Graph matrices of a mesh match its vertices and edges',
      'The adjacency matrix has one row per vertex, a one (or the distance of the end points) for both orders of the ends of every edge, and zeros elsewhere. '
      'The degrees list every vertex, isolated ones included, with its own degree in vertex order, and the degree matrix has them on its diagonal. '
      'The Laplacian is the degrees minus the adjacency, where distance weights also weigh the degrees, so its rows sum to zero.',
      ['inputs'], 'every mesh with consecutive vertex ids and no parallel edges', 'two tests look at the eigenvalues of one unweighted cube; weighted matrices, wires and isolated vertices are not covered',
      ['src/mesh/mesh/netsci.rs'], [('matrices', 'src/mesh/mesh/netsci.rs')]),
    P('O01', 'Lofts, extrusions, hole filling and subdivision build exactly these faces',
      'Lofting a boundary hangs the given vertices off it in order, forwards or backwards, makes exactly the triangles or polygons between them and the boundary, closes the hem when the vertices go once around (or when asked to), and returns the edge between the new vertices or to the boundary that was promised. '
      'Extruding a boundary, a face or all boundary edges makes one moved copy of each boundary vertex, the side faces and the cap; filling a hole with an apex makes the fan of triangles; nothing else changes and nothing stays open that should be closed. '
      'Subdividing splits every triangle into four over shared interpolated edge midpoints, keeps orientation, boundary and face payloads, and repeats for higher frequencies.',
      ['inputs'], 'boundaries of 3 to 4 vertices (5 and 6 in the thorough tier), every number of new vertices up to a closed hem, meshes of up to 6 triangles, all payloads and transformations',
      'tests check vertex and face counts of a few lofts; partial hems, other widths, other representative edges, payloads and the returned edges are not covered',
      ['src/operations/loft.rs', 'src/operations/extrude.rs', 'src/operations/subdivision.rs', 'src/mesh/vertex/interpolator.rs'],
      [('lofts', 'src/operations/loft.rs'), ('extrusions', 'src/operations/extrude.rs'), ('subdivision', 'src/operations/subdivision.rs')]),
    P('O02', 'Primitive solids have the prescribed vertices, faces and orientation',
      'Polygons, stars, dihedrons, prisms, antiprisms, pyramids, cones, frustums, boxes, the platonic solids, UV spheres and geodesic spheres consist of exactly the prescribed faces over vertices at exactly the prescribed positions. '
      'Solids are closed and all faces face outwards; vertices of solids given by a radius lie at that radius, edges of solids given by an edge length and of uniform solids all have that length. '
      'The side length and area of a regular polygon and the conversions between edge length and radius of an icosahedron follow the exact formulas.',
      ['inputs'], 'base polygons of 3 to 5 corners (6 in the thorough tier), uv spheres up to 4 rings of 5 columns (6 by 3), geodesic frequency up to 2 (4), all sizes and payloads',
      'tests compare vertex, edge and face counts and validity of some solids; no test looks at positions or at which vertices a face connects',
      ['src/primitives/prismatoid.rs', 'src/primitives/sphere.rs', 'src/primitives/polygon.rs', 'src/halfedge/primitives/mod.rs'],
      [('prismatoids', 'src/primitives/prismatoid.rs'), ('spheres', 'src/primitives/sphere.rs'), ('polygons', 'src/primitives/polygon.rs')]),
    P('T05', 'Converting a mesh to another mesh type loses and changes nothing',
      'The converted mesh has one vertex, edge and face for each one of the given mesh, with the same connections, orientation, boundary, curvature marks and representatives, isolated vertices included and whatever ids are unused. '
      'Every payload is the conversion of the payload of its own element: raising the dimension keeps the position after flattening curves with the given tolerance, and changing the precision keeps position, normal and texture coordinates. '
      'The given mesh itself stays as it is.',
      ['inputs'], 'seven kinds of meshes (wires, holes, isolated vertices, closed, several parts), compact and with unused ids and shuffled storage, all payloads',
      'one test converts a star and looks at counts; payloads, unused ids, isolated vertices and the untouched original are not covered',
      ['src/halfedge/mesh/builder/halfedge.rs', 'src/extensions/nalgebra/mesh2d.rs', 'src/extensions/bevy/mesh2d.rs', 'src/extensions/bevy/mesh3d.rs', 'src/extensions/bevy/vertex_payload_3d.rs'],
      [('import', 'src/halfedge/mesh/builder/halfedge.rs'), ('dimension', 'src/extensions/nalgebra/mesh2d.rs'), ('bevy', 'src/extensions/bevy/mesh3d.rs')]),
    P('C01', 'Mesh comparison accepts exactly the corresponding meshes',
      'Two meshes are equivalent under a vertex correspondence if and only if they have equally many elements, corresponding edges and faces, and the comparisons hold for every pair of corresponding elements; comparing by ids additionally requires the same ids and the same order of the edges around each vertex, but not the same representatives. '
      'A correspondence found by comparing vertices pairs every vertex with its own counterpart, and the search fails only if some vertex has none of its own. '
      'Every reported difference names elements that really differ, and a comparison changes nothing and never panics.',
      ['inputs'], 'about 30 pairs of meshes of up to 5 vertices, equal or different in one respect, and every outcome of the vertex, edge and face comparisons',
      'one test compares five cubes; meshes differing in a single face, edge order, unused ids or payload, and searches with ambiguous vertices are not covered',
      ['src/mesh/mesh/basics.rs', 'src/mesh/mesh/iso.rs'],
      [('comparison', 'src/mesh/mesh/basics.rs'), ('verdict', 'src/mesh/mesh/iso.rs')]),
    P('G01', 'A triangulation records, flips and measures its own triangles and only those',
      'Triangles appended to a shared index buffer are read back, counted, renumbered and measured exactly as given, and indices that were in the buffer before are never touched. '
      'Flipping an edge shared by two triangles replaces exactly them by the two triangles on the other diagonal with the same orientation, and is refused without any change if they do not share it that way. '
      'Areas and lengths are those of the triangles, and the checks reject wrong counts, unused or foreign vertices, crossing sides, negatively oriented triangles and areas that differ beyond rounding.',
      ['inputs', 'histories'], 'buffers with 0, 3, 4 and 5 older indices, all rotations of the flipped triangles, all pairs of sides, symbolic positions',
      'tests use the checks on whole triangulations that start at the beginning of the buffer; they never flip an edge by hand and never see a wrong triangulation',
      ['src/mesh/triangulation.rs'],
      [('buffer', 'src/mesh/triangulation.rs'), ('checks', 'src/mesh/triangulation.rs')]),
    P('G02', 'Exporting a mesh as triangles keeps every vertex, face and normal where it belongs',
      'A mesh is exported as an index list and a vertex list: every face is triangulated exactly once with the requested algorithm, every index refers to the vertex with the payload of its corner, also if the mesh has unused ids, and the vertex list holds each vertex once. '
      'With flat normals every face has copies of its own corners whose normal is the unit normal of the face. Smooth normals give every vertex of a face the normalised mean of the unit normals of its faces and change nothing else. '
      'Meshes for bevy take these lists over unchanged, with indices that are wide enough.',
      ['inputs'], 'meshes of one to four faces, connected and separate, open and closed, with consecutive and with sparse vertex ids; both index widths',
      'no test reads an exported index list back; sparse ids, several faces and both normal modes together are not reached',
      ['src/mesh/mesh/triangulate.rs', 'src/mesh/mesh/normals.rs', 'src/halfedge/mesh/basics.rs', 'src/extensions/bevy/mesh3d.rs'],
      [('lists', 'src/mesh/mesh/triangulate.rs'), ('compaction', 'src/halfedge/mesh/basics.rs'), ('normals', 'src/mesh/mesh/normals.rs'), ('bevy', 'src/extensions/bevy/mesh3d.rs')]),
    P('G03', 'Triangulating a polygon yields triangles that tile it, chosen as documented',
      'The fan, ear-clipping, small-polygon, minimal-weight and monotone-piece algorithms return exactly n-2 triangles over the corners of the polygon whose sides cancel to its outline, whatever the outcome of the geometric decisions, and each triangle is justified by the decisions that were taken. '
      'A quadrilateral gets its shorter inner diagonal, the minimal-weight algorithm a cheapest triangulation with inner diagonals, and the Delaunay variant flips a diagonal exactly if it can and the circle test demands it. A monotone chain that is split continues at the last vertex of the other side. '
      'A face is flattened corner by corner with its normal turned up, and triangulated with the requested algorithm.',
      ['inputs'], 'all outcomes of all geometric decisions for polygons of 3 to 5 corners (6 for the linear sweep), every interleaving of the two chains of a monotone piece, all algorithms of the dispatcher',
      'tests triangulate a dozen fixed polygons and random stars and look at the result as a whole; degenerate and reflex configurations, ties and flips are hit by chance',
      ['src/tesselate/mod.rs', 'src/tesselate/convex.rs', 'src/tesselate/ear_clipping.rs', 'src/tesselate/fixed_n.rs', 'src/tesselate/min_weight_dynamic.rs',
       'src/tesselate/sweep/monotone/linear.rs', 'src/tesselate/sweep/monotone/dynamic.rs', 'src/tesselate/sweep/monotone/delaunay.rs', 'src/mesh/face/face3d.rs'],
      [('ears', 'src/tesselate/ear_clipping.rs'), ('weight', 'src/tesselate/min_weight_dynamic.rs'), ('monotone', 'src/tesselate/sweep/monotone/linear.rs')]),
    P('G04', 'The sweep cuts a polygon into monotone pieces along cuts that stay inside',
      'For every simple counter-clockwise polygon the sweep meets the corners from top to bottom and hands them to monotone pieces that together make up the polygon exactly: both sides of every cut belong to a piece, and no piece goes up on either side. '
      'Every cut joins a corner to the lowest corner above it of the strip it lies in, so that nothing is in between. '
      'The kind of a corner follows from the heights of its neighbours and its turn, and a kind that these leave open is settled on arrival with the same result. The strip a corner lies in is found by the linear and by the ordered search alike, without failing an assertion.',
      ['inputs', 'histories'], 'every simple polygon of 3 to 6 corners (7 in the thorough tier, 8 without splits and regular corners) up to deformation: all orders of the corners by height and all arrangements of the strips, with the kinds of all corners known or all unknown, each with the linear and the ordered search (the latter also with debug assertions)',
      'tests sweep two dozen fixed outlines and stars around a centre, in which a split below a corner of the other side hardly occurs',
      ['src/tesselate/sweep/sweep.rs', 'src/tesselate/sweep/status.rs', 'src/tesselate/sweep/interval.rs', 'src/tesselate/sweep/point.rs', 'src/tesselate/sweep/vertex_type.rs'],
      [('events', 'src/tesselate/sweep/sweep.rs'), ('status', 'src/tesselate/sweep/status.rs'), ('classification', 'src/tesselate/sweep/vertex_type.rs')]),
    P('E01', 'Every legal editing call succeeds and leaves exactly the described mesh',
      'Adding isolated edges and vertices, hanging a vertex on a boundary corner, joining two components, inserting paths and loops, splitting a boundary by an edge with or without closing a face, filling a boundary, removing a face and subdividing an edge succeed for all arguments that meet the documented preconditions, also with debug assertions enabled. '
      'The mesh they leave has exactly the vertices, directed edges and faces that the call describes, each edge with the right successor, predecessor, twin, face and payload, everything else is as before, and the returned handles are those of the new or named elements.',
      ['inputs'], 'about twenty small meshes (wires, stars, open and filled polygons, several components, vertices with several corners, tails inside and outside faces, closed solids, unused ids), every operation, all legal choices of edges and vertices',
      'tests build a few shapes in one way each; hardly any combination of operation, mesh and position occurs in them, and an assertion that rejects a rare legal call is never reached',
      MUTF, MUT),
    NA('Z01', 'Triangulations stay valid under floating-point rounding',
       'The triangulation algorithms return a tiling for every polygon given in floating point, however close its corners and edges come to each other.',
       ['inputs'], 'all polygons in f32 and f64 coordinates', 'tests use well separated corners',
       ['src/tesselate/mod.rs'], [('algorithms', 'src/tesselate/mod.rs')],
       'whether the rounded predicates of all steps agree with each other depends on runtime magnitudes; exact reals are assumed in G03/G04, and no static bound on the errors is in reach'),
    NA('Z02', 'Constrained Delaunay triangulation is optimal and keeps the outline',
       'The Delaunay algorithm covers the polygon and no other triangulation with the same outline has a larger smallest angle.',
       ['inputs'], 'all simple polygons', 'tests compare areas of some polygons',
       ['src/tesselate/delaunay.rs'], [('delaunay', 'src/tesselate/delaunay.rs')],
       'the triangulation is computed in the external crate spade from runtime coordinates; what this repository decides around it is a lookup of the returned handles'),
    NA('Z03', 'Triangulation and search run within their documented complexity',
       'The sweep takes O(n log n) time, the linear monotone stage O(n), the minimal-weight algorithm O(n^3).',
       ['inputs'], 'all sizes', 'tests do not measure time',
       ['src/tesselate/sweep/sweep.rs', 'src/tesselate/min_weight_dynamic.rs'], [('sweep', 'src/tesselate/sweep/sweep.rs')],
       'amortised cost depends on the shape of the input and on the containers of std; a static cost analysis for that is out of reach'),
]
