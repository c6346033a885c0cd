#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
S = "cavalier_contours/src/"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe, hook_needed=hook)))

p("P01", "Boolean results enclose exactly the set-theoretic region",
  "For two closed polylines without self-intersections (any mix of line and arc segments, either orientation), `boolean`/`boolean_opt` with Or, And, Not, Xor returns positive and negative polylines such that every point off the input boundaries is covered (positives minus negatives, by winding number) exactly once if it is in the union / intersection / difference / symmetric difference of the two regions and not at all otherwise. This includes inputs that touch, share vertices, edges or arcs, coincide, contain each other or are disjoint. An input that is open or has fewer than 2 vertices yields InvalidInput and no polylines.",
  ["inputs"], "all pairs of simple closed polylines, all four operations, all points of the plane",
  "Each test fixes one pair of shapes; which slice is kept depends on the global arrangement of segments, overlaps and start vertices, so the guarantee is over all arrangements.",
  [S+"polyline/internal/pline_boolean.rs", S+"polyline/internal/pline_intersects.rs", S+"polyline/traits.rs"],
  [("slice, prune by winding, stitch", S+"polyline/internal/pline_boolean.rs"), ("intersects and overlaps", S+"polyline/internal/pline_intersects.rs")],
  ["PlineSource::boolean_opt", "BooleanResult pos_plines/neg_plines", "Polyline::winding_number-independent reference winding"])

p("P02", "Boolean result polylines are well formed and reporting is truthful",
  "Every polyline in a boolean result is closed, has at least two vertices, has no adjacent repeat positions, has every segment lying on the boundary of an input, and is reproduced by walking its reported subslices of the source polylines. `result_info` is InvalidInput, Pline1InsidePline2, Pline2InsidePline1, Disjoint, Overlapping or Intersected exactly when the inputs stand in that relation. Negative polylines are holes: each lies inside some positive polyline of the same result.",
  ["inputs"], "all pairs of closed polylines and operations, every polyline of every result",
  "Tests compare a few results with stored area/extents; structural validity of every stitched loop and every subslice needs all arrangements.",
  [S+"polyline/internal/pline_boolean.rs", S+"polyline/pline_types.rs", S+"polyline/pline_view.rs"],
  [("stitch_slices_into_closed_polylines", S+"polyline/internal/pline_boolean.rs"), ("BooleanResultPline subslices", S+"polyline/pline_types.rs")],
  ["BooleanResult"])

p("P03", "Boolean results do not depend on how the inputs are represented",
  "The region a boolean returns is unchanged when either input has its start vertex rotated, its direction inverted, redundant vertices added on its segments, or when a prebuilt spatial index for the first input is supplied. Or, And and Xor are commutative. Mirroring, rotating by 90 degrees, translating or scaling both inputs transforms the result in the same way, and area identities |A or B| + |A and B| = |A| + |B|, |A not B| = |A| - |A and B|, |A xor B| = |A or B| - |A and B| hold.",
  ["inputs", "configurations"], "all pairs of closed simple polylines, all rotations of the start vertex, both directions, all operations",
  "Metamorphic relations over every start vertex and direction; a single test samples one representation of one shape.",
  [S+"polyline/internal/pline_boolean.rs", S+"polyline/traits.rs", S+"polyline/pline_view.rs"],
  [("closed polyline wrap handling", S+"polyline/internal/pline_boolean.rs")],
  ["PlineSource::boolean_opt"])

p("P04", "Closed parallel offset lies at exactly the offset distance on the right side",
  "For a closed polyline without self-intersections, every point of every polyline returned by `parallel_offset` is at distance |offset| from the input (never nearer, never farther, within tolerance), on the left of the input direction for a positive and on the right for a negative offset. Every returned polyline is closed, has no repeat positions and no self-crossings, and when it lies around or inside the input it keeps the input's winding direction.",
  ["inputs"], "all closed simple polylines of line and arc segments, all offset distances of either sign",
  "Which raw offset slices survive depends on global proximity between all segments; tests pin stored outputs of a few shapes.",
  [S+"polyline/internal/pline_offset.rs"],
  [("raw offset segments and joins", S+"polyline/internal/pline_offset.rs create_raw_offset_polyline"), ("slice validation", S+"polyline/internal/pline_offset.rs point_valid_for_offset"), ("stitching", S+"polyline/internal/pline_offset.rs stitch_slices_together")],
  ["PlineSource::parallel_offset_opt"])

p("P05", "Closed parallel offset is complete: nothing of the offset curve is lost",
  "For a closed polyline without self-intersections the returned polylines are the whole offset curve: every point on the chosen side whose nearest distance to the input is |offset| (and which separates nearer from farther points) lies on a returned polyline. Equivalently the polylines bound exactly the region eroded (inward) or dilated with round joins (outward) by |offset|, and the result is empty exactly when the eroded region is empty.",
  ["inputs"], "all closed simple polylines and offsets; all points of the offset curve",
  "A dropped slice or missed island leaves the remaining result looking valid; only comparison with an independent construction over all shapes shows it.",
  [S+"polyline/internal/pline_offset.rs", S+"polyline/internal/pline_intersects.rs"],
  [("slices_from_raw_offset", S+"polyline/internal/pline_offset.rs"), ("stitch_slices_together", S+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset_opt"])

p("P06", "Open and self-intersecting polyline offsets keep the offset distance",
  "Offsetting an open polyline, or any polyline with handle_self_intersects enabled, returns polylines on which every point is at distance |offset| from the input and none is nearer, without repeat positions. Open inputs give open results, and every stretch of the one-sided curve (offset segments and arcs around outer corners) that is no nearer than |offset| to the input, and not collapsed onto another part of the curve, is present. An input with fewer than 2 vertices gives no result.",
  ["inputs"], "all open polylines and self-intersecting closed polylines, all offsets",
  "The dual raw offset intersection and end-cap trimming choose slices globally; tests pin a few shapes.",
  [S+"polyline/internal/pline_offset.rs"],
  [("slices_from_dual_raw_offsets", S+"polyline/internal/pline_offset.rs")],
  ["PlineSource::parallel_offset_opt"])

p("P07", "Parallel offset does not depend on how the input is represented",
  "For a closed simple polyline the offset curve is the same set of points whichever vertex is the start, whether or not a prebuilt spatial index is supplied, whether or not handle_self_intersects is enabled, and when extra vertices are inserted on segments. Inverting the direction while negating the offset gives the same curve, and translating, mirroring, rotating or scaling the input (with the offset scaled) transforms the result alike.",
  ["inputs", "configurations"], "all closed simple polylines, every start vertex, offsets of either sign",
  "Metamorphic relations across every start vertex and option; tests sample single representations.",
  [S+"polyline/internal/pline_offset.rs", S+"polyline/traits.rs"],
  [("dual and single raw offset paths", S+"polyline/internal/pline_offset.rs parallel_offset")],
  ["PlineSource::parallel_offset_opt"])

p("P08", "Shape offset offsets islands and holes together without overlap",
  "For a shape built from disjoint counter clockwise polylines and clockwise holes, `Shape::parallel_offset` returns exactly the offset curves of the whole multi-polyline region: every point is at distance |offset| from the nearest input polyline, none is nearer to any input polyline, and every point of the combined offset curve is present. Results are sorted into counter clockwise and clockwise lists by their direction and each carries a spatial index that covers it.",
  ["inputs"], "all small shapes of ccw and cw polylines, all offsets",
  "Interaction between several offset loops and holes depends on all pairwise positions; a handful of tests covers a few.",
  [S+"shape_algorithms/mod.rs"],
  [("slice set and stitching", S+"shape_algorithms/mod.rs")],
  ["Shape::from_plines", "Shape::parallel_offset"])

p("P09", "Winding number and containment are exact for every polyline and point",
  "For every polyline and every point not on it, `winding_number` equals the number of signed turns of the closed polyline around the point, including self-intersecting polylines, arcs of either direction, half circles, points level with vertices and points between an arc and its chord. Open polylines give 0. Rotating the start vertex leaves it unchanged and inverting the direction negates it.",
  ["inputs"], "all small polylines and all points off the boundary",
  "Off-by-one crossings occur only at particular alignments of point, vertex and arc; tests use a few points.",
  [S+"polyline/traits.rs"],
  [("line and arc winding contributions", S+"polyline/traits.rs winding_number")],
  ["PlineSource::winding_number"])

p("P10", "Area, path length, extents and orientation agree with the exact geometry",
  "For every polyline `area` is the exact signed area (0 for open polylines), `path_length` the exact length, `extents` the tight bounding box of all line and arc segments (None when there are fewer than 2 vertices), and `orientation` Open, CounterClockwise or Clockwise in agreement with the sign of the area. They are unchanged by rotating the start vertex and transform correctly under inversion, translation and scaling.",
  ["inputs"], "all small polylines with line and arc segments",
  "Arcs in particular quadrants and directions matter; tests cover a few.",
  [S+"polyline/traits.rs", S+"polyline/pline_seg.rs"],
  [("segment sums", S+"polyline/traits.rs"), ("arc extents by axis crossing", S+"polyline/pline_seg.rs")],
  ["PlineSource::area", "PlineSource::path_length", "PlineSource::extents", "PlineSource::orientation"])

p("P11", "Closest point and point at path length are globally correct",
  "`closest_point` returns the point of the polyline nearest to the query among all segments, its true distance and the index of a segment containing it, and None only for an empty polyline. `find_point_at_path_length` returns for every length between 0 and the total the segment and point at exactly that travelled length, and for a longer target the error carries the total length. Both never panic.",
  ["inputs"], "all small polylines, query points and target lengths",
  "The minimum is over all segments and their interiors/ends; the walk over all prefix lengths and boundaries.",
  [S+"polyline/traits.rs", S+"polyline/pline_seg.rs"],
  [("closest_point", S+"polyline/traits.rs"), ("find_point_at_path_length", S+"polyline/traits.rs")],
  ["PlineSource::closest_point", "PlineSource::find_point_at_path_length"])

p("P12", "Intersections between two polylines are sound, complete and reported once",
  "`find_intersects` between two polylines (open or closed) reports every basic crossing or touch point and every overlapping stretch, each with start indexes of segments that contain it, and nothing else; an intersect at a shared vertex is reported once under the segment that starts there. Supplying a spatial index or swapping the polylines does not change the set of points reported.",
  ["inputs"], "all pairs of small polylines with line and arc segments, open and closed",
  "Duplicate suppression at vertices and wrap-around interacts with every arrangement of touching segments.",
  [S+"polyline/internal/pline_intersects.rs", S+"polyline/pline_seg_intersect.rs"],
  [("find_intersects", S+"polyline/internal/pline_intersects.rs")],
  ["PlineSource::find_intersects_opt"])

p("P13", "Self-intersections are sound and complete",
  "`visit_self_intersects` visits every point where two different parts of the polyline cross, touch or overlap (except the shared vertices of consecutive segments), once per pair of segments and with indexes of segments that contain the point, and visits nothing on a simple polyline. Local and Global options partition the All set, and a visitor that breaks is not called again.",
  ["inputs"], "all small polylines, open and closed, all include options, all break positions",
  "Adjacent-segment special cases and wrap-around need every turn configuration.",
  [S+"polyline/internal/pline_intersects.rs"],
  [("visit_local_self_intersects / visit_global_self_intersects", S+"polyline/internal/pline_intersects.rs")],
  ["PlineSource::visit_self_intersects_opt"])

p("P14", "Segment intersection is sound, complete and symmetric for every segment pair",
  "For every pair of line/arc segments `pline_seg_intr` classifies the intersection correctly (none, tangent, one, two, overlapping lines, overlapping arcs), every returned point lies on both segments, no common point is missed, and swapping the segments or inverting a segment's direction gives the same points. The underlying line-line, line-circle and circle-circle solvers are sound and complete likewise, with parametric values that reproduce the points.",
  ["inputs"], "all pairs of small segments including tangent, collinear, concentric, coincident and degenerate cases",
  "Case analysis over tangency, collinearity, direction and containment; tests sample each branch a few times.",
  [S+"polyline/pline_seg_intersect.rs", S+"core/math/line_line_intersect.rs", S+"core/math/line_circle_intersect.rs", S+"core/math/circle_circle_intersect.rs"],
  [("pline_seg_intr", S+"polyline/pline_seg_intersect.rs"), ("math solvers", S+"core/math")],
  ["pline_seg_intr", "line_line_intr", "line_circle_intr", "circle_circle_intr"])

p("P15", "Segment queries and edits agree with the exact curve",
  "For every line or arc segment: splitting at a point on it yields two segments that trace exactly the original curve; midpoint, length, tangent vector, closest point and radius/center are those of the exact curve; `seg_bounding_box` is tight and `seg_fast_approx_bounding_box` contains the segment. Bulge/angle/radius conversions are mutually inverse.",
  ["inputs"], "all segments over a bulge alphabet and orientation grid, all split parameters",
  "Quadrant and direction cases for arcs; tests sample a few.",
  [S+"polyline/pline_seg.rs", S+"core/math/base_math.rs"],
  [("seg_split_at_point and friends", S+"polyline/pline_seg.rs")],
  ["seg_split_at_point", "seg_midpoint", "seg_closest_point", "seg_bounding_box"])

p("P16", "Repeat and redundant vertex removal preserves the path and reaches a fixed point",
  "`remove_repeat_pos` removes exactly the vertices that repeat the previous position (wrapping when closed), keeping the bulge of the last of each run, and never removes a whole polyline. `remove_redundant` returns a polyline tracing the same path, in the same direction with same closedness, with no more vertices than before. Both return None exactly when nothing is to be removed, and applying them again changes nothing.",
  ["inputs"], "all vertex sequences over a small position and bulge alphabet, open and closed",
  "Run positions at the start, end and wrap-around and arcs merging with arcs or lines interact; tests sample a few.",
  [S+"polyline/traits.rs"],
  [("remove_repeat_pos", S+"polyline/traits.rs"), ("remove_redundant", S+"polyline/traits.rs")],
  ["PlineSource::remove_repeat_pos", "PlineSource::remove_redundant"])

p("P17", "Start rotation, inversion, scaling and translation preserve geometry",
  "`rotate_start` traces the same closed path starting from the requested point (None for open or too short polylines or an out of range index); `invert_direction_mut` traces the same path backwards and is an involution; `scale_mut` and `translate_mut` map every point of the path by the same scaling or translation, and any sequence of these operations composes like the plain geometric maps.",
  ["inputs", "histories"], "all small polylines, all start indexes and points on segments, all operation sequences to a depth",
  "Bulge bookkeeping across wrap-around and op composition; tests check single steps.",
  [S+"polyline/traits.rs", S+"polyline/pline.rs"],
  [("rotate_start", S+"polyline/traits.rs"), ("invert_direction_mut", S+"polyline/pline.rs")],
  ["PlineSource::rotate_start", "PlineSourceMut::invert_direction_mut"])

p("P18", "Arc to line approximation respects the error distance",
  "`arcs_to_approx_lines` returns a polyline of only line segments with the same closedness, first and last points, visiting every input vertex in order, with vertices on the original path, such that no point of either path is farther than the error distance from the other. It returns None only when the approximation cannot be computed, and line-only inputs are unchanged.",
  ["inputs"], "all small polylines and error distances",
  "The segment count formula must hold for every radius, sweep and error; tests sample a few.",
  [S+"polyline/traits.rs"],
  [("arcs_to_approx_lines", S+"polyline/traits.rs")],
  ["PlineSource::arcs_to_approx_lines"])

p("P19", "Polyline views trace exactly the subpath they describe",
  "A view created from slice points, a new start, a whole polyline or a single segment (also inverted) yields through the PlineSource interface exactly the vertices of the corresponding subpath of the source polyline: same start and end points, same length, same points, in the same or inverted direction. Creation returns None exactly when the subpath has no length, and detaching and re-attaching view data or validating it against its source is lossless.",
  ["inputs"], "all small polylines, all slice start/end points and index pairs, wrapping and not, inverted and not",
  "Wrap-around, end-on-vertex and inversion bookkeeping combine; tests sample a subset.",
  [S+"polyline/pline_view.rs"],
  [("PlineViewData::from_slice_points/create", S+"polyline/pline_view.rs")],
  ["PlineViewData", "PlineView"])

p("P20", "Polyline containers behave like a vertex sequence under every operation sequence",
  "Under every sequence of container operations (add, insert, set, remove, clear, extend, set closed, add_or_replace, reserve, iterate, index helpers, clone, create_from and serialization of state through iterators) a Polyline behaves exactly like a plain vector of vertices plus a closed flag. Vertex and segment iterators are double-ended where offered, agree with indexed access and report exact lengths; wrapping index helpers agree with modular arithmetic. No operation with valid arguments panics.",
  ["histories"], "all operation sequences to a fixed depth over a small vertex alphabet",
  "State depends on histories of operations; tests run a few fixed histories.",
  [S+"polyline/traits.rs", S+"polyline/pline.rs", S+"polyline/pline_vertex.rs", S+"macros.rs"],
  [("PlineSource/PlineSourceMut/PlineCreation", S+"polyline/traits.rs"), ("Polyline", S+"polyline/pline.rs")],
  ["Polyline", "VertexIter", "SegmentIter", "PlineSegIndexIterator"])

F = "cavalier_contours_ffi/src/lib.rs"
p("P21", "The C interface behaves like a vertex list with defined status codes",
  "Under every sequence of cavc_pline_* and cavc_plinelist_* calls, including null handles, out of range positions and empty lists, each call returns the documented status code, changes nothing when it fails, and otherwise has the effect of the same operation on a plain model. Every object the interface hands out is owned once: freeing what the documentation says the caller owns releases all memory and nothing twice.",
  ["histories"], "all call sequences to a fixed depth over handles, positions and nulls",
  "Ownership and error codes depend on histories; tests run fixed scripts and cannot see leaks.",
  [F], [("status codes and panic catching", F), ("ownership transfer by Box", F)],
  ["cavc_pline_*", "cavc_plinelist_*", "allocator balance"],
  state=[("cavc_pline", "boxed Polyline<f64>", F), ("cavc_plinelist", "list of owned pline pointers", F)])

p("P22", "C interface geometry equals the Rust library",
  "cavc_pline_parallel_offset, cavc_pline_boolean, the eval functions, index creation and clean-up functions give the same result as the corresponding Rust operation with the same options for every input, options struct (or null options), operation code and supplied spatial index; unknown operation codes and null arguments give the documented error and write nothing.",
  ["inputs"], "all small polylines, option combinations and operation codes",
  "Field mapping mistakes show only for particular options; tests mostly use defaults.",
  [F], [("options conversion", F)], ["cavc_pline_parallel_offset", "cavc_pline_boolean"])

p("P23", "Spatial indexes cover every segment and queries miss nothing",
  "`create_aabb_index` and `create_approx_aabb_index` hold one box per segment that contains the whole segment (tight for the exact variant), their bounds contain the polyline, and box queries through them return every segment that meets the box. Polylines with fewer than 2 vertices are handled as documented.",
  ["inputs"], "all small polylines and query boxes",
  "A box slightly too small drops intersections only for particular arcs.",
  [S+"polyline/traits.rs", S+"polyline/pline_seg.rs"],
  [("create_aabb_index", S+"polyline/traits.rs"), ("seg_fast_approx_bounding_box", S+"polyline/pline_seg.rs")],
  ["StaticAABB2DIndex"])

p("P24", "No polyline operation panics or hangs on finite input",
  "For every finite polyline (empty, single vertex, repeated positions, zero-length, collinear, self-overlapping, open or closed) every public query, clean-up, transform and conversion, and after repeat removal every intersect and offset call and every boolean of polylines that are not closed around zero area, returns normally in bounded time with finite coordinates in its results. Coordinates are of ordinary magnitude and bulges are at most 1 in magnitude and exactly zero or not vanishingly small.",
  ["inputs"], "all vertex sequences over a small alphabet including degenerate ones, all operations",
  "Panics and endless loops hide in degenerate corners no one writes tests for.",
  [S+"polyline/traits.rs", S+"polyline/internal/pline_boolean.rs", S+"polyline/internal/pline_offset.rs", S+"polyline/internal/pline_intersects.rs", S+"shape_algorithms/mod.rs"],
  [("loop guards and unwraps", S+"polyline/internal")],
  ["all public PlineSource methods"])

p("P25", "Chained operations keep denoting the right regions",
  "Results of boolean and offset operations are valid inputs of further operations: any short sequence of booleans, offsets and transforms applied to a polyline yields at each step the region obtained by applying the set operations to the original regions, e.g. (A not B) and B is empty, (A not B) or (A and B) has the area of A, and an inward offset of an outward offset of a convex shape by the same distance restores it.",
  ["histories"], "all operation sequences to a fixed depth from every initial shape of an alphabet",
  "Outputs have vertices and shared edges that hand-written inputs lack; states are reached only by histories.",
  [S+"polyline/internal/pline_boolean.rs", S+"polyline/internal/pline_offset.rs"],
  [("output as input", S+"polyline/internal")],
  ["PlineSource::boolean", "PlineSource::parallel_offset"])

p("P26", "Base math helpers satisfy their defining identities",
  "Angle normalisation lands in [0, 2pi) and is congruent to the input, delta_angle is the signed shortest difference, within-sweep and between tests agree with the mathematical arc, quadratic_solutions gives all real roots, line and point helpers (is_left, closest point, midpoint, parametric conversions, Vector2 operations) satisfy their definitions, and fuzzy comparisons are consistent with the epsilon passed.",
  ["inputs"], "all values of a dense grid including quadrant boundaries and signs",
  "Boundaries at multiples of pi/2 and signed sweeps; tests check few points.",
  [S+"core/math/base_math.rs", S+"core/math/vector2.rs", S+"core/traits/fuzzy_eq.rs", S+"core/traits/fuzzy_ord.rs"],
  [("angle helpers", S+"core/math/base_math.rs")],
  ["core::math functions"])

p("P27", "Serialized polylines and vertexes round trip unchanged",
  "With the serde feature, serializing and deserializing a polyline, vertex or vector through a self-describing format returns an equal value for every finite content and closed flag, and the serialized form has the documented shape.",
  ["inputs"], "all small polylines and vertex values",
  "The serde feature is off in the existing test run.",
  [S+"polyline/pline.rs", S+"polyline/pline_vertex.rs", S+"core/math/vector2.rs"],
  [("Serialize/Deserialize impls", S+"core/math/vector2.rs")],
  ["serde_json round trip"])

p("P28", "The demo app's plot items draw exactly the polylines they are given",
  "The plot items of the demo app (PlinePlotItem, PlinesPlotItem, MultiPolylinePlotItem, RawPlineOffsetSegsPlotItem) draw, in every view (any zoom and pan), the visible part of each segment within a pixel of its true line or arc, mark every visible vertex at its position, fill exactly the interior of a closed polyline, and draw collapsed offset segments in their own color. What lies outside the view does not change what is drawn inside it, and the bounds an item reports contain the whole curve and touch it on every side.",
  ["inputs", "configurations"], "all polylines of line and arc segments, all views",
  "No test draws anything; culling, flattening tolerance and bounds depend on where the view cuts each arc and on its zoom.",
  ["cavalier_contours_ui/src/plotting/mod.rs", "cavalier_contours_ui/src/plotting/plines.rs", "cavalier_contours_ui/src/plotting/raw_pline_offset_segs.rs"],
  [("flattening, culling and tessellation of segments", "cavalier_contours_ui/src/plotting")],
  ["PlotItem::shapes", "PlotItem::bounds"])

p("P29", "The demo app shows the results of its current inputs after any user actions",
  "After every sequence of user actions (choosing a scene tab or mode, typing numbers, check boxes, zooming, panning, dragging vertexes) the plot of the demo app shows exactly the current polylines, with a dragged vertex at the place it was dropped, and the offsets, raw offsets or boolean result of these polylines for the current mode, distance, count and options. Nothing else is drawn, no action moves the view except zoom and pan, every scene keeps its own state while another one is shown, \"Zoom to Fit\" brings everything into view, and no action panics.",
  ["histories"], "all sequences of user actions on the three scenes",
  "The app has no tests; which vertex moves, what is recomputed and what is kept depends on the sequence of actions.",
  ["cavalier_contours_ui/src/app.rs", "cavalier_contours_ui/src/scenes/demo_scenes_pane.rs", "cavalier_contours_ui/src/scenes/pline_offset_scene.rs", "cavalier_contours_ui/src/scenes/pline_boolean_scene.rs", "cavalier_contours_ui/src/scenes/multi_pline_offset_scene.rs"],
  [("grab, drag and release of vertexes; recomputation of the scene", "cavalier_contours_ui/src/scenes")],
  ["MainApp::update with egui input events; the shapes egui is asked to draw"])

p("P30", "Single precision polylines give the same results as double precision ones",
  "Every operation on polylines of f32 coordinates in general position (booleans, parallel and shape offsets, intersections, area, length, extents, winding number, closest point, inversion, repeat removal, arc approximation) gives the result the exact geometry has for these coordinates, up to single precision. The constants of the f32 number type are those of f64 rounded.",
  ["inputs"], "all polylines, pairs and offsets with f32 coordinates and no tangency or coincidence closer than single precision resolves",
  "The tests use f64 only; the generic code and the f32 implementations of the number traits are never executed by them.",
  [S+"core/traits/real.rs", S+"core/traits/fuzzy_eq.rs", S+"polyline/traits.rs"],
  [("generic code instantiated with f32; Real and FuzzyEq for f32", S+"core/traits/real.rs")],
  ["Polyline<f32>: boolean, parallel_offset, find_intersects, area, winding_number, closest_point", "Shape<f32>::parallel_offset"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
