"""property id -> rule function, program configurations, evidence texts"""
CORE = lambda tier: [('core', True)] + ([('core', False)] if tier == 'thorough' else [])
FULL = lambda tier: [('full', True)]

AI_BASE = ('Path-partitioned value-flow analysis over the MIR of the current tree: terms are value-numbered, '
           'callees are analysed in place, loops are unrolled up to the stated bound and traversals of whole '
           'face loops / vertex wheels are summarised by a generic element. No execution, no solver.')
AI_ASSUME = ['the mesh satisfies the invariants and the documented preconditions on entry',
             'loops that are not whole-loop traversals are covered up to 2 iterations (3 in the thorough tier)',
             'the std/itertools models of engine/models.py describe those functions',
             'rustc nightly MIR is faithful to the source']

ALG_BASE = ('Value-flow analysis over the MIR of the current tree: each body is turned into one exact term per path and normalised as a '
            'rational function (multivariate polynomials with rational coefficients over the inputs and opaque function applications). No execution, no solver.')
ALG_ASSUME = ['numbers are treated as exact reals: rounding, overflow and NaN are not modelled',
              'the models of the nalgebra/glam/bevy/std numeric primitives (engine/models.py, rules/linmodel.py) describe those functions',
              'rustc nightly MIR is faithful to the source']


HEAP_BASE = ('Shape analysis over the MIR of the current tree: the mesh is an exact half-edge heap that starts empty, element counts are fixed per instance, '
             'payloads, sizes, positions and transformations stay symbolic terms. No execution, no solver.')
HEAP_ASSUME = ['the behaviour does not depend on the number of vertices beyond the analysed instances',
               'sizes are positive; numbers are treated as exact reals',
               'the std/itertools models of engine/models.py describe those functions',
               'rustc nightly MIR is faithful to the source']


REL_BASE = ('Shape analysis over the MIR of the current tree: the given meshes are exact half-edge heaps of fixed connectivity, payloads, comparisons and '
            'conversion functions are opaque symbols and every outcome of theirs is a path. No execution, no solver.')
REL_ASSUME = ['the behaviour on other meshes does not differ in kind from that on the analysed ones',
              'meshes have no parallel edges', 'the std/itertools models of engine/models.py describe those functions',
              'rustc nightly MIR is faithful to the source']


def P_(module, fn, explanation, configs=CORE, level='other', assumptions=None):
    return dict(module=module, fn=fn, configs=configs, level=level, explanation=explanation,
                assumptions=assumptions if assumptions is not None else AI_ASSUME)


PROPS = {
    'T01': P_('topology', 't01', AI_BASE + ' Obligations: for every edge whose next, prev or twin changed on a path, '
              'and every edge those now refer to, next/prev are mutually inverse and twin is an involution.'),
    'T02': P_('topology', 't02', AI_BASE + ' Obligations: for every touched edge the successor starts where the twin '
              'starts; every vertex whose representative edge was written or moved is represented by an edge leaving it.'),
    'T03': P_('topology', 't03', AI_BASE + ' Obligations: every touched edge carries the same face as its successor and '
              'every touched face is represented by an edge carrying it.'),
    'S01': P_('storage', 's01', AI_BASE + ' Every method of the soft-delete container and of its element types is compared with '
              'its contract on every path; every mesh operation fills each slot it takes exactly once.'),
    'Q01': P_('queries', 'q01', AI_BASE + ' Each query is compared on every path with its meaning in terms of next/prev/twin/origin/face links; '
              'cycles are unrolled and closed by congruence.'),
    'I01': P_('queries', 'i01', AI_BASE + ' Every traversal is drawn element by element; each draw must equal the corresponding step along the links, '
              'and the traversal must end exactly when it is back at its start.'),
    'Q02': P_('queries', 'q02', AI_BASE + ' Whole-mesh listings, counts and pairings are compared with the element stores they must cover.'),
    'T07': P_('queries', 't07', AI_BASE + ' The final links of a flipped pair must be the swapped initial ones in every neighbourhood.'),
    'T06': P_('contracts', 't06', AI_BASE + ' On every path the final links, payloads, allocations, deletions and the result are unified with a reference effect '
              'stated over the initial links; every fact of the reference must hold and nothing outside it may change.'),
    'O01': P_('solids', 'o01', HEAP_BASE + ' Faces as cyclic sequences of vertex labels, edges without a face, and the result must equal the reference.', assumptions=HEAP_ASSUME),
    'O02': P_('solids', 'o02', HEAP_BASE + ' Positions are normalised over square roots and sines and cosines of rational multiples of pi and compared exactly.', assumptions=HEAP_ASSUME),
    'T05': P_('relations', 't05', REL_BASE + ' Every element of the converted mesh and its payload term is compared with its original; two programs: core and with bevy.',
              configs=lambda tier: [('core', True), ('full', True)], assumptions=REL_ASSUME),
    'C01': P_('relations', 'c01', REL_BASE + ' The outcome of every path and the element comparisons it depends on are compared with the definition of correspondence.', assumptions=REL_ASSUME),
    'G01': P_('tiling', 'g01', AI_BASE + ' The index buffer holds 0, 3 or 5 older indices and up to three symbolic triangles; results are exact terms compared with their definition.',
              assumptions=ALG_ASSUME),
    'G02': P_('export', 'g02', HEAP_BASE + ' The triangulation of one face is replaced by a stand-in that appends a fan over its corners; the lists, normals and bevy attributes '
              'that come out are compared with the mesh element by element. Two programs: core and with bevy.',
              configs=lambda tier: [('core', True), ('full', True)], assumptions=HEAP_ASSUME),
    'G03': P_('tiling', 'g03', AI_BASE + ' Corners are symbolic points; every outcome of the geometric decisions is a path. The triangles of each path must tile the polygon '
              '(their directed sides cancel to its outline), and the decisions on the path must justify them.',
              assumptions=ALG_ASSUME + ['the number of corners beyond the analysed ones makes no difference in kind', 'sums of finite numbers are finite']),
    'G04': P_('sweep', 'g04', AI_BASE + ' The sweep is followed event by event over polygons that are given by their combinatorial type only (coordinates stay symbolic); monotone pieces are '
              'recorded as the words of corners they receive, whose outlines must cancel to the outline of the polygon. Classification, order, crossings and search are compared with their definitions in all sign patterns.',
              configs=lambda tier: [('core', True), ('core', False)], assumptions=ALG_ASSUME + ['the number of corners beyond the analysed ones makes no difference in kind']),
    'K01': P_('checker', 'k01', AI_BASE + ' Accepting paths, analysed without assuming any invariant, must imply each invariant for a generic element; '
              'rejecting paths, analysed on a valid mesh, must be contradictory unless they exhibit a bare edge or a face with fewer than three edges.'),
    'B01': P_('geometry', 'b01', ALG_BASE + ' Every formula on every path is compared, as an exact rational function of its inputs, with its textbook definition; '
              'polygons are taken with 3 to 5 symbolic points, vectors in every implemented dimension.', configs=FULL, assumptions=ALG_ASSUME),
    'M01': P_('transforms', 'm01', ALG_BASE + ' Each implementation is evaluated on a general symbolic element (all matrix entries free) and the laws are compared as exact polynomials.',
              configs=FULL, assumptions=ALG_ASSUME),
    'M02': P_('transforms', 'm02', AI_BASE + ' On every path, each element drawn from each element store receives exactly one call of the operation with the argument of the mesh operation.'),
    'V01': P_('curves', 'v01', ALG_BASE + ' Points are compared with the Bernstein form; the subdivision is replayed from the conditions of each path with points C(t) kept symbolic; '
              'mesh flattening is compared per drawn edge with what must happen to it.', configs=lambda tier: CORE(tier) + (FULL(tier) if tier == 'thorough' else []), assumptions=ALG_ASSUME),
    'P01': P_('paths', 'p01', AI_BASE + ' The primitive mesh operations on each path form a drawing (vertices with symbolic positions, directed edges with payloads and curves, faces), '
              'which is compared with the drawing prescribed by the same segments; positions are compared as exact polynomials of the input coordinates.', assumptions=ALG_ASSUME),
    'N01': P_('netsci', 'n01', AI_BASE + ' Each matrix is read as zero plus its cell updates; per path, with the edges and vertices met by the loops, the cells must be exactly those prescribed.'),
}
PROPS['E01'] = P_('editing', 'e01', HEAP_BASE + ' The resulting mesh (successor, face and payload of every directed edge, all vertices and faces) must be the reference mesh of the call.',
                  configs=lambda tier: [('core', False)] + ([('core', True)] if tier == 'thorough' else []), assumptions=REL_ASSUME)
