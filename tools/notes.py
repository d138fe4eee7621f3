NOTE['C09'] = ('Proof over the reals for arbitrary smooth fields (uninterpreted functions with derivatives); the finite-difference '
               'callee is replaced by its contract (exact derivative) after its own formula is proved; numdifftools assumed. '
               'Refusal of wrong user-given derivatives is a bounded check.')
NOTE['C10'] = ('Proof over the reals for all points and parameters; derivative callee by its contract (C09). The energy scaling of '
               'the dipole is a bounded check. Not claimed: a solenoidal velocity for Hall MHD #3 (its class does not state one).')
NOTE['C08'] = ('Proof over the reals for arbitrary nodes (degree <= 4) and points; tensor bases for the listed degrees over uninterpreted '
               '1d bases. Gauss/Lobatto exactness (p <= 30), 1d bases of degree 5..14 and degree parsing are bounded checks.')
NOTE['C13'] = ('Proof for all start times, lengths and increments (reals); the pairs (n, factor), instants k and request histories are '
               'enumerated (14 pairs, 51 histories); refused definitions are bounded checks.')
NOTE['C01'] = ('Proof for every degree (symbolic sizes; loops by an arbitrary-iteration rule checked on the AST) of the assembly functions against '
               'the cell complex; numbering callees by their contract (C02). Real meshes (degrees 1-3) are bounded checks of the composition.')
NOTE['C02'] = ('Proof for every degree (symbolic sizes); the numpy subset (arange, reshape, slices) is modelled in lib/pv/boxes.py and cross-checked '
               'with numpy at random degrees on every run. Dof geometry and the spaces on real meshes are bounded checks.')
NOTE['C03'] = ('Proof for every degree on a fixed family of meshes (11 msepy, 15 msehtt; all element types, reversed edges, periodic, '
               'multi-region): numbers are affine on each vertex, edge, face and interior, equal exactly on the same geometric cell and tile '
               '0..N-1. Cells are identified from the element mappings, not from the mesh topology tables. Reversal search: proved for '
               'arbitrary nonzero fluxes of two neighbours of any types and faces; that the chosen test fields give nonzero fluxes is a '
               'bounded check on whole meshes (periodic, tiny and huge ones included; 3 constant fields, degrees 1-3).')
NOTE['C04'] = ('Proof: msehtt chaining by loop invariants for any elements, rows and numbers (2 and 3 unknowns; pairs of arbitrary ghost dofs); '
               'msepy chaining for any sizes. Searching, representative places, assembling, splitting, merging, equality and histories are '
               'bounded checks on random numberings against the rows. One MPI rank.')
NOTE['C15'] = ('Proof: the evaluation kernels of the lazy algebra, block matrices and concatenation, for arbitrary (opaque) operands, elements '
               'and cache states in which equal keys mean equal data (block patterns up to 2x2, vectors up to 3 blocks). Assembling, imposing '
               'dofs, boundary conditions over time steps, preconditioning and solution updates are bounded checks against dense references.')
NOTE['C12'] = ('Proof by induction over expressions: each operator is verified on operands that are roots or an arbitrary compound expression (an opaque '
               'representation at the lowest grammatical level), in 2d and 3d, all degrees and orientations; representations are read back by an '
               'independent parser. Random nested expressions and lookup are bounded checks. Not claimed: wedge products of mixed orientation have one.')
NOTE['C11'] = ('Proof over terms: each derivation is verified on terms whose forms and factors are arbitrary (opaque expressions) or of every operand '
               'shape, in 2d and 3d, for all degrees and orientations, and the listed layouts (up to 5 terms per equation, all rearrangements up to 4). '
               'Text equations and histories of derivations are bounded checks. Convective terms: 2d only; solenoidal, boundary terms dropped.')
NOTE['C14'] = ('Proof over terms whose forms and factors are arbitrary (opaque expressions) or of each listed shape, all degrees and orientations in 2d and '
               '3d, listed layouts, instants and orders of operations. The scheme as a linear system is a bounded check (random meshes, instants, signs) '
               'against mass and incidence matrices. One average per form and term: a second one of other occurrences is refused by the code.')
NOTE['C17'] = ('Proof for all sizes, element types and metrics: term data kernels and operator contractions, as multilinear normal forms over opaque arrays. '
               'All 2509 accepted terms through the whole chain, curved elements, residuals, Newton and Picard steps (one and two) with fixed dofs and essential '
               'conditions are bounded checks on real meshes, against quadrature of the reconstructed forms and exact differences.')
NOTE['C16'] = ('Proof for arrays of any size and entries and any metric: mass matrices, reconstruction (matrices), errors, norms, masses, inner products of every '
               'form and element type equal the stated formula (Formal normal forms; sliced cochains at listed degrees). Reduction, commutation with d, '
               'H1/L^d errors, the objects of dofs, and all of it end to end are bounded checks on 38 pairs of a real mesh and a degree (customized nodes among them) against an independent reference element.')
NOTE['C05'] = ('Proof over reals: points on lines and segments, parallel and crossing lines and segments, equality, boxes and intervals (distances by '
               'contract, triangle inequality as a lemma; length >= 1, off by >= 1e-2). Selection logic: all truth tables (exhaustive, bounded). Real '
               'meshes, curves, polygons, unions and point location are bounded checks.')
NOTE['C18'] = ('Proof: the routines of both libraries for any face geometry, basis functions, field and quadrature rule, listed combinations of faces (two to four '
               'of one element, another element in between) and degrees up to 3; 3d with one to three points per axis. Rule orders, basis functions and normals '
               'themselves are contracts (C06, C08, C16). Whole meshes with random sections against independent integrals: bounded. '
               '3d faces are assumed plane, rectangular, affinely parametrised (what the code accepts).')
NOTE['C20'] = ('Proof: interpolation in time, algebra of forms and cochains, operations on data sets, for all times and values (listed meshes, degrees and insertion orders). '
               'Bounded: the store as a state machine (all operations from all states of at most three of the listed times and some larger ones, random histories), '
               'functions of stored forms at their sample points, residuals, files of forms, meshes and data sets. Trusted: pickle, scipy NearestNDInterpolator / LinearNDInterpolator; '
               'bases, incidence and gathering matrices are other contracts (C01, C03, C06). Times less than 1e-8 apart are one time.')
NOTE['C21'] = ('Proof: the record of computed inputs, one insertion and compression for all integers, records of small shape. '
               'Bounded: histories of ended and restarted processes (exceptions stand for a kill; the clock decides when the cache is due), plain objects and msehtt forms. '
               'Trusted: a renamed file is the old one or the new one, pickle; the monitor is a stand-in. One rank.')
NOTE['C22'] = ('Proof: the triangle of any indicator, of any length, in both refinement modules; where the function is evaluated on triangles and on quads of straight edges, and what it decides there; the map and Jacobian of a triangle in any curvilinear quad. '
               'Bounded: whole refinements against an oracle (every answer of the function on small patches). Degenerate quads are not covered. One rank.')
NOTE['C23'] = ('Proof: generations kept by one more renewal, from any state; configured systems with any number of configurations. Bounded: everything on real meshes, random histories. '
               'Trusted: nearest-sample interpolation (scipy), static implementations (other properties), refinement (C22). Only the default renewal method. One rank.')
NOTE['C19'] = ('Proof: the array-keyed cache for any arrays and strings (caches of up to 3 entries, every hit-rate state); equal metric signatures mean equal '
               'metrics; metric data, mass and reconstruction matrices are the same warm as cold for any metric, reversed faces and entries (listed request '
               'orders). Whole meshes (elements of many sizes, in other orders), quadrature, bases, product terms, curves of domains, freed objects: bounded checks (random orders, warm against cold). '
               'Arrays a cache returned are shared: not protected against the caller changing them.')
