X = "exhaustive explicit-state enumeration"
NOTES = {
"P01": (X + " of shape pairs, real code vs arrangement model",
 "Every pair of the listed complete shape spaces is executed with all 4 operations; the reference set operation is decided at two points per edge of the planar arrangement. Bounded by lattice, vertex count and bulge alphabet; no solver."),
"P02": (X + " of shape pairs, structural monitor on every result",
 "Every result polyline over the complete pair spaces is checked (closed, on the input boundaries, subslices retrace it, result_info equals the relation decided by reference geometry)."),
"P03": (X + " of shape pairs x input representations",
 "Every start vertex, direction, split segment, index kind, order and similarity map of every pair is executed and compared with one reference region."),
"P04": (X + " of polylines x offsets, exact distance monitor",
 "Every returned point sample is measured against the input by brute force; cases where the offset curve is ambiguous below 3x the documented tolerance are counted separately, not judged."),
"P05": (X + " of polylines x offsets, vs brute-force offset curve",
 "The whole true offset curve is constructed from the arrangement of all primitive offsets and compared both ways with the result."),
"P09": (X + " of polylines x query points, real code vs counted turns",
 "Every polyline of the listed families x a grid plus points beside every segment; the reference is the accumulated signed turn; start rotations and inversion are executed too."),
"P10": (X + " of polylines, real code vs exact formulas",
 "Area, length, extents, orientation for every polyline of the families and for every start, inversion, translation and scale of it."),
"P11": (X + " of polylines x query points and target lengths",
 "Brute-force nearest point over all segments and exact travelled length; all targets on a grid of lengths including the ends and beyond."),
"P14": (X + " of segment pairs, real code vs exact meeting points",
 "All ordered pairs of complete segment sets, each also swapped and inverted; pairs decided only by epsilon are judged with wider tolerance or counted as not judged."),
"P15": (X + " of segments x parameters and query points",
 "All segments of lattices and circles x bulge alphabet; every function compared with the exact curve."),
"P16": (X + " of vertex words, real code vs path model and second application",
 "Every word of vertices (with repeats and collinear or cocircular runs) up to the stated length; result compared as a traced path, and re-applied for the fixed point."),
"P17": (X + " of polylines and of all transform sequences up to a depth",
 "Every rotation point of every polyline; every sequence of transforms of the stated depth against plain maps of the model."),
"P18": (X + " of polylines x error distances",
 "Result vertices and maximal deviation measured both ways against the exact path for every polyline and error distance."),
"P23": (X + " of polylines x query boxes",
 "Every box query answered by brute force over exact segment extents; every polyline of the families."),
"P26": (X + " of value tuples, real code vs defining identities",
 "All pairs and triples of finite sets of angles, sweeps, points, roots and numbers."),
"P12": (X + " of polyline pairs, real code vs exact meeting points",
 "The reported events of every pair are compared as a multiset with the meeting points and overlaps of all segment pairs; supplied indexes and swapped order are executed too."),
"P13": (X + " of polylines and of all break points of the visitor",
 "Visited events compared with exact geometry for every polyline (also closed words with repeated positions); every prefix of every visit is executed with a breaking visitor."),
"P19": (X + ' of source polylines x slice positions, real views vs subpath model',
 'Every start and end position (interior, at vertices, within the epsilon of vertices, both names of a vertex) of every source polyline; each view is read back forwards and inverted, nested, and its data mutated for validation.'),
"P20": (X + ' of operations from every state and of operation sequences, vs vector model',
 'Every operation from every state up to a size, every interleaving of front and back reads of the iterators, every index argument; every operation sequence up to a depth on one living object.'),
"P21": (X + ' of C call sequences over handles, vs handle/list model with tracked allocation',
 'Every sequence of calls to a depth (null, empty, out-of-range included), with the status, all readable state, untouched out parameters on failure and the ownership balance (leaks, double frees) checked for each.'),
"P22": (X + ' of inputs x options x operation codes, C interface vs Rust library',
 'Bit-for-bit differential comparison over the complete families, including panics, unknown codes, nulls and distinguishable option values and indexes.'),
'P27': (X + ' of values x serialization formats', 'Every value of the complete families through 8 text and binary formats and back, bit for bit, plus the documented JSON shape; one format is reread without type knowledge so that declared lengths count.'),
'P28': (X + ' of polylines x views, drawn shapes vs exact curve in pixels', 'Every polyline of the families in every listed view (zoomed in, out and panned so that the frame cuts segments); strokes, fills, marks and bounds of the real plot items are compared with the exact segments both ways.'),
'P29': (X + ' of user action sequences, real app without a window vs scene model', 'Every sequence of actions up to the stated depth is executed by input events on the real app; marks, curves (both ways, in pixels), filled regions and the view of the final screen are compared with a model of the scene.'),
'P06': (X + ' of polylines x offsets, exact distance and one-sided curve coverage', 'All open and self-intersecting polylines of the lattices; every result point is measured against the input and every uncollapsed piece of the one-sided offset curve must be covered.'),
'P08': (X + ' of shapes x offsets, vs brute-force offset curve of the region', 'All islands, holes and nested combinations of complete families of small loops at all listed positions; structure, distance, side, crossings, sorting, indexes and the complete true curve are compared both ways.'),
'P07': (X + ' of polylines x offsets x representations, metamorphic comparison', 'Every start vertex, segment split, supplied index, option, direction, square symmetry, translation, scale and rotation of every polyline is offset and compared with the plain result as a point set, both ways, and by signed area.'),
'P30': (X + ' of single precision inputs, real code vs double precision references', 'Complete families of polylines, pairs and offsets with f32 coordinates are executed and judged by the same references as double precision (regions, offset curves, intersects, measures); contacts that single precision cannot resolve are classed, not judged.'),
'P24': (X + ' of polylines and polyline pairs x operations, executed to return with finite values', 'Every vertex word (repeats, near repeats, folds, zero lengths, flat and almost half circle bulges, three scales) and every pair of words; panics (debug assertions and overflow checks enabled), hangs and non-finite values are failures.'),
'P25': (X + ' of operation histories: breadth-first state graph of polylines reached by booleans, offsets and transforms', 'Explicit-state search from every tuple of base shapes: each reached polyline is the input of every further operation (both operand orders); the region is tracked as a set of arrangement faces and compared at two probes per arrangement edge; offsets of reached states and sums of repeated offsets are compared with the exact offset curve.'),
}
NA = {}
