#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [dict(name=n, where=w) for n, w in mech]}
    if state: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

TST = "The SCAD tests only check that a conversion exits 0 and writes a non-empty file for about 150 fixed models; "

prop("C01", "Every layer printed is the CSG cross-section of the 3D model",
 "For every valid SCAD model built from 3D primitives, affine transformations, union/group, intersection and difference, the area printed for the layer at height z is the set of points (x,y) for which (x,y,z) is inside the model under SCAD CSG semantics: nothing is missing, nothing is added. "
 "Only points within a few grid units of an object's boundary may differ, because coordinates are rounded to the grid.",
 ["inputs"], "all CSG trees of any depth and order of operands, with any transformations, at every layer height",
 TST + "no test compares a printed layer with what the model means.",
 ["src/hob3l/scad.c", "src/hob3l/csg3.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg2-layer.c", "src/hob3l/csg2-bool.c", "src/hob3lop/op-slice.c", "src/hob3lop/op-sweep.c", "src/hob3lop/op-sweep-reduce.c"],
 [("3D tree from syntax tree", "src/hob3l/csg3.c: csg3_from_scad*"), ("lazy boolean bitmap combination", "src/hob3l/csg2-bool.c: cp_csg2_op_*"), ("slicing of faces", "src/hob3lop/op-slice.c: cq_slice*"), ("plane sweep", "src/hob3lop/op-sweep.c: cq_sweep_intersect")],
 observe=["STL output of hob3l.x"])

prop("C02", "STL layers are closed, consistently oriented slabs at the right heights",
 "In every STL file written, the triangles of each layer form a closed surface in which every directed edge is matched by an oppositely directed one, with flat top and bottom faces facing up and down and vertical side faces facing outwards, so the enclosed volume is the layer area times the layer height. "
 "The bottom of each layer lies at the layer's z and its top one step minus the layer gap above it (for gaps smaller than the step), and every facet's stated normal is the right-hand-rule unit normal of its vertices.",
 ["inputs", "configurations"], "all models and all combinations of step, layer gap, minimum and maximum z, text and binary output",
 TST + "nothing reads the STL back.",
 ["src/hob3l/csg2-2stl.c", "src/hob3lop/op-trianglify.c", "src/hob3l/csg2-tree.c"],
 [("layer to STL", "src/hob3l/csg2-2stl.c: layer_put_stl, poly_put_stl"), ("outline flags on triangle edges", "src/hob3lop/op-trianglify.c")],
 observe=["text and binary STL output"])

prop("C03", "The 2D boolean engine computes any combination of outlines exactly",
 "For any set of integer polygon outlines (overlapping, touching, collinear, coincident, self-crossing, repeated or degenerate) and any boolean function of membership in them, the edges the sweep engine returns enclose exactly the points where the function is true, up to points within about one grid unit of an input edge per pass. "
 "The returned edges never cross, overlap or repeat, and bound a closed even-odd region.",
 ["inputs"], "all multisets of integer edges forming closed outlines for up to the maximal number of simultaneous polygons, all boolean functions of them, all coordinate magnitudes the engine admits",
 "The engine's unit tests run some 100 fixed edge sets with expected results; degenerate configurations are practically infinite.",
 ["src/hob3lop/op-sweep.c", "src/hob3lop/op-sweep-reduce.c", "src/hob3lbase/bool-bitmap.c", "src/hob3lop/gon.c"],
 [("intersection and snap rounding", "src/hob3lop/op-sweep.c: cq_sweep_intersect"), ("membership reduction", "src/hob3lop/op-sweep-reduce.c: cq_sweep_reduce")],
 observe=["cq_sweep_get_v_line2 after cq_sweep_intersect and cq_sweep_reduce"])

prop("C04", "Triangulation tiles exactly the region and marks its outline",
 "For any result of the 2D engine, the triangles produced are non-degenerate, all wound the same (clockwise) way, do not overlap, and together cover exactly the even-odd region of the outline. "
 "The triangle sides flagged as outline are exactly the region's boundary edges, each once, and no triangle vertex is a point that is not a vertex of the outline.",
 ["inputs"], "all regions with any number of components, holes, touching vertices, collinear chains and horizontal or vertical edges",
 "The unit tests triangulate a few dozen fixed polygons and print them; no test checks coverage, overlap or flags.",
 ["src/hob3lop/op-trianglify.c", "src/hob3lop/op-sweep-reduce.c"],
 [("monotone sweep triangulation", "src/hob3lop/op-trianglify.c: cq_sweep_trianglify"), ("outline flag", "include/hob3lop/hedron_tam.h: CQ_TRI_OUTLINE*")],
 observe=["cq_sweep_trianglify result; CSG2-SCAD output with triangles"])

prop("C05", "Path output consists of simple, consistently oriented loops",
 "Every polygon printed as paths consists of loops that visit no vertex twice within a loop, have at least three vertices and non-zero area, do not cross themselves or each other, and describe the same region as the triangles of the same polygon under the even-odd rule. "
 "Outer loops run clockwise and loops around holes counter-clockwise, so the region is always on the same side of every edge; with collinear dropping enabled no vertex lies in the middle of a straight run.",
 ["inputs", "configurations"], "all regions the 2D engine can produce, with and without collinear-vertex dropping",
 "No test looks at the paths at all.",
 ["src/hob3lop/op-poly.c", "src/hob3lop/op-sweep-reduce.c", "src/hob3l/csg2-2scad.c"],
 [("path assembly", "src/hob3lop/op-poly.c: cq_sweep_poly"), ("collinear reduction", "src/hob3lop/op-sweep-reduce.c")],
 observe=["cq_sweep_poly result; paths of the PostScript output"])

prop("C06", "All output formats describe the same layers and polygons",
 "For one model and one set of options, ASCII STL, binary STL, JavaScript, layered SCAD and PostScript output contain the same layers at the same heights with the same regions, each up to that format's own number precision. "
 "Selecting the format by output-file suffix or by dump option gives the same bytes, as does writing to a file or to standard output.",
 ["inputs", "configurations"], "all models, all output formats and ways of selecting them",
 "The tests run each format for its exit code, and never compare two.",
 ["src/hob3l/csg2-2stl.c", "src/hob3l/csg2-2js.c", "src/hob3l/csg2-2scad.c", "src/hob3l/csg2-2ps.c", "src/hob3l/main.c"],
 [("format selection", "src/hob3l/main.c"), ("the writers", "src/hob3l/csg2-2*.c")],
 observe=["all output files"])

prop("C07", "JavaScript output is well-formed WebGL data of the layer surfaces",
 "Every JavaScript file consists of groups and chunks as described in the format documentation: each chunk has as many colour and normal entries as vertices, at most 65535 vertices, delta-coded indices that all refer to existing vertices, and unit normals that fit the triangles' right-hand-rule orientation. "
 "The scaled triangles of all chunks form the same closed slabs as the STL output.",
 ["inputs", "configurations"], "all models, including those needing several chunks, and the options for grouping and colours",
 "The JavaScript test only checks that output exists.",
 ["src/hob3l/csg2-2js.c", "doc/jsformat.md"],
 [("chunking and delta coding", "src/hob3l/csg2-2js.c")],
 observe=["JS output"])

prop("C08", "Dumped syntax, SCAD and CSG3 models mean the same when read back",
 "For every valid model, the text printed by the syntax dump and by the SCAD dump is itself accepted, denotes the same objects, gives the same layers up to rounding, and is reproduced byte for byte when dumped again. "
 "The same layers also result from the CSG3 dump of models without XOR-ed extrusions, where perfectly round spheres, which SCAD cannot express, come back as 100-faceted ones.",
 ["inputs", "configurations"], "all models over all functors the dumps can print",
 "Dumps are only run for the exit code; nothing reads them back.",
 ["src/hob3l/syn-2scad.c", "src/hob3l/scad-2scad.c", "src/hob3l/csg3-2scad.c"],
 [("printers", "src/hob3l/syn-2scad.c, src/hob3l/scad-2scad.c, src/hob3l/csg3-2scad.c")],
 observe=["--dump-syn, --dump-scad, --dump-csg3 and the layers of the model and its dumps"])

prop("C09", "Equivalent spellings of a SCAD model give identical output",
 "Whitespace, comments, block braces versus semicolons, equivalent spellings of numbers, positional versus named arguments, argument order of named arguments, default values written out or left out, and documented alternative parameters (d for 2r, scalar for vector) do not change the result in any way. "
 "Strings, identifiers and numbers are read as documented in the morphology.",
 ["inputs", "programs"], "all valid models and all spellings of them",
 TST + "each model exists in one spelling.",
 ["src/hob3l/syn.c", "src/hob3l/scad.c", "doc/scadformat.md"],
 [("scanner and parser", "src/hob3l/syn.c"), ("argument binding", "src/hob3l/scad.c: get_arg*")],
 observe=["STL/SCAD output of both spellings"])

prop("C10", "Primitives have the documented shape for every parameter combination",
 "cube, sphere, cylinder, polyhedron (and square, circle, polygon when extruded) produce exactly the solid their documentation defines for every documented combination of size, radius, diameter, height, center and $fn, including cones, ellipsoids rendered as true ellipses above the maximal $fn, vertex positions on the positive x axis, and negative sizes of cube and square. "
 "Parameter combinations documented as mutually exclusive or invalid are rejected with an error.",
 ["inputs", "configurations"], "all parameter values and combinations, all slice heights",
 TST + "each primitive is tried with a handful of parameters and no expected shape.",
 ["src/hob3l/csg3.c", "src/hob3l/scad.c", "src/hob3lop/op-slice.c"],
 [("primitive to polyhedron", "src/hob3l/csg3.c: csg3_from_cube, csg3_from_sphere, csg3_from_cylinder, csg3_from_polyhedron"), ("parameter rules", "src/hob3l/scad.c")],
 observe=["layer areas and vertices"])

prop("C11", "Transformations map objects by the documented matrices",
 "translate, rotate (Euler and axis form), scale, mirror and multmatrix multiply the coordinate matrix exactly as documented, nest by composition from the outside in, treat omitted components as documented, handle mirroring (negative determinant) by keeping solids solid, and are exact at angles whose sine and cosine are exact. "
 "Singular or malformed transformations are rejected with an error.",
 ["inputs"], "all nestings of all transformations with all argument forms around any solid, 2D and 3D",
 TST + "no expected coordinates.",
 ["src/hob3l/csg3.c", "src/hob3l/scad.c", "src/hob3lmat/mat.c", "src/hob3lmat/mat_gen_ext.c", "src/hob3lmat/algo.c"],
 [("matrix stack", "src/hob3l/csg3.c: csg3_from_translate and siblings"), ("exact sine/cosine in degrees", "src/hob3lmat/algo.c: cp_sin_deg, cp_cos_deg")],
 observe=["layer regions; --dump-csg3 matrices"])

prop("C12", "linear_extrude and rotate_extrude produce the documented solids",
 "linear_extrude yields the 2D shape swept over the documented z range with twist (clockwise), scale and slices interpolated linearly per slice and concave splitting of twisted sides; rotate_extrude yields the 2D shape swung around the z axis by the documented angle range, direction, start and number of segments. "
 "Overlapping or nested 2D children, holes, shapes touching the axis and scale 0 are handled without loss, and invalid parameters are rejected.",
 ["inputs", "configurations"], "all 2D children, heights (also negative), center, slices, twist, scale, angle, $fn, under any transformation",
 TST + "no expected shapes.",
 ["src/hob3l/csg3.c"],
 [("extrusion to polyhedra", "src/hob3l/csg3.c: csg3_poly_make_rota, csg3_from_linext, csg3_from_rotext")],
 observe=["layer regions"])

prop("C13", "2D subtrees evaluate to the 2D CSG region they denote",
 "Inside an extrusion, any tree of square, circle, polygon (with one or many paths), 2D transformations, union, intersection, difference and projection(cut=true) of a 3D model denotes its 2D CSG region, and exactly this region is extruded. "
 "A projection denotes the model's cross-section at z=0 of its own coordinate system, transformed like any other 2D object.",
 ["inputs"], "all 2D trees and their nesting with projection and extrusion",
 TST + "no expected regions.",
 ["src/hob3l/csg3.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg2-layer.c", "src/hob3l/csg2-bool.c"],
 [("2D evaluation at tree building", "src/hob3l/csg3.c: csg3_from_linext, csg3_from_projection, csg3_from_polygon")],
 observe=["layer regions"])

prop("C14", "hull yields the convex hull of its 2D children",
 "hull() of any 2D children yields exactly the smallest convex region containing the union of their regions, transformed like any other 2D object, for any number, position and degeneracy of the children.",
 ["inputs"], "all 2D children including collinear, duplicate, disjoint, nested and holed ones, at any nesting in 2D trees",
 TST + "three fixed hulls, no expected result.",
 ["src/hob3l/csg2-hull.c", "src/hob3l/csg3.c"],
 [("Graham scan", "src/hob3l/csg2-hull.c"), ("tree handling", "src/hob3l/csg3.c: csg3_from_hull")],
 observe=["layer regions"])

prop("C15", "STL import reproduces the solid in text and binary form",
 "Importing an STL file, text or binary, in any legal formatting, with any triangle order and winding, any normals and any solid name (or none), gives the same layers as the equivalent polyhedron in SCAD. "
 "Damaged or truncated files are rejected with an error, and so are solids with missing triangles when a sliced layer cuts the hole.",
 ["inputs"], "all closed triangle meshes, all encodings and legal formattings, all damages",
 TST + "a few fixed files.",
 ["src/hob3l/stl-parse.c", "src/hob3l/vec3-dict.c", "src/hob3l/scad.c", "src/hob3l/csg3.c"],
 [("text and binary reader", "src/hob3l/stl-parse.c"), ("vertex merging", "src/hob3l/vec3-dict.c")],
 observe=["layer regions, exit code"])

prop("C16", "SVG import reproduces the drawing's even-odd region",
 "Importing an SVG file made of paths, basic shapes, groups, nested svg elements, transformations, viewBox, preserveAspectRatio and sizes gives the union of the even-odd regions the SVG 2 specification assigns to its shapes, with curves approximated by polygons and y upwards: with a viewBox its viewport starts at the origin (or is centred with center) at dpi (default 72) or in the absolute width and height, without one a user unit is 1 mm; layer selects the elements with that id; path data in error are drawn up to the error, with a warning. "
 "Equivalent spellings of a drawing (absolute or relative commands, separators, number formats, shorthand commands, XML quoting, comments, foreign content) give the same region.",
 ["inputs"], "all SVG drawings over the supported elements and attributes",
 TST + "a set of fixed drawings, no expected regions.",
 ["src/hob3l/svg-parse.c", "src/hob3l/xml-parse.c", "src/hob3l/csg3.c"],
 [("XML scanner", "src/hob3l/xml-parse.c"), ("SVG interpretation", "src/hob3l/svg-parse.c")],
 observe=["layer regions"])

prop("C17", "Any input is converted or cleanly rejected, never crashed on",
 "For any byte sequence given as SCAD, STL or SVG input, under any slicing and output options, the tool terminates with a result and exit status 0, or with an error message and a non-zero exit status: no signal, assertion failure, memory error or endless loop. "
 "The message that reports a numeric overflow (coordinates too large for the grid) counts as such an error message, although debug builds end it with abort().",
 ["inputs", "configurations"], "all byte sequences, in particular near-valid ones",
 "The tests feed valid models and a few invalid ones.",
 ["src/hob3l/syn.c", "src/hob3l/scad.c", "src/hob3l/csg3.c", "src/hob3l/stl-parse.c", "src/hob3l/svg-parse.c", "src/hob3l/xml-parse.c", "src/hob3l/main.c"],
 [("error propagation by cp_err_t", "all parsers"), ("assertions", "include/hob3lbase/panic.h")],
 observe=["exit status, stderr, sanitizer reports"])

prop("C18", "Error-policy options decide between error, warning and silence",
 "For every tolerable problem (empty, collapsed, 2D object in 3D context, 3D object in 2D context, unsupported functor, unknown functor, unknown parameter) the matching option decides: with error the run fails with a message, with warn it succeeds with a warning, with ignore it succeeds silently. "
 "In the tolerant modes the result is that of the model without the offending object or parameter (an object that is empty by its own parameters still counts as an empty operand), and each option affects its own problem only.",
 ["inputs", "configurations"], "all problems, anywhere in any model, under all combinations of policies",
 "No test sets these options to other values than needed to get through.",
 ["src/hob3l/csg3.c", "src/hob3l/scad.c", "src/hob3l/opt.switch", "src/hob3l/syn-msg.c"],
 [("policy lookup", "src/hob3l/syn-msg.c"), ("options", "src/hob3l/opt.switch")],
 observe=["exit status, stderr, layers"])

prop("C19", "Layers are exactly those the z options select",
 "The layers sliced are at z_min, z_min+step, ... below z_max, where by default z_min is half a step above the bottom of the model's bounding box and z_max its top, and a model's bottom face belongs to it while its top face does not. "
 "Slicing any subset of the heights on its own gives the same regions as slicing all of them together, and layers outside the model are empty.",
 ["inputs", "configurations"], "all models and all z options (--min, --max, --step, --z), including heights coinciding with faces and vertices",
 TST + "the layer count is never checked.",
 ["src/hob3l/main.c", "src/hob3l/csg2-tree.c", "src/hob3l/csg3.c", "include/hob3l/csg2.h"],
 [("range computation", "src/hob3l/main.c, include/hob3l/csg2.h: cp_range_init"), ("bounding boxes", "src/hob3l/csg3.c: cp_csg3_tree bounding box")],
 observe=["layer z values and regions"])

prop("C20", "Exact integer and rational arithmetic is exact",
 "The integer primitives, the fraction type and the predicates built on them (comparison, addition, multiplication, rounding, orientation, line intersection, point-on-line) return the mathematically exact or correctly rounded result for all operands in their documented ranges.",
 ["inputs"], "all operand values within documented ranges, in particular extremes",
 "The unit tests sample fixed operands.",
 ["include/hob3lop/matq.h", "src/hob3lop/matq.c", "include/hob3lbase/arith.h", "include/hob3lop/gon.h"],
 [("wide multiplication and fractions", "include/hob3lop/matq.h")],
 observe=["function results"])

prop("C21", "The balanced tree dictionary behaves as an ordered map",
 "After any history of insertions (ordered by comparison or placed explicitly), removals, swaps and lookups, the dictionary holds exactly the inserted and not removed elements in comparison order, in both directions, with correct minimum, maximum, predecessor and successor, and lookups find exactly what is there including the nearest-element variants. "
 "The tree always satisfies its balance invariant, so its height stays logarithmic.",
 ["histories", "inputs"], "all operation histories and key distributions",
 "Unit tests run a few fixed histories.",
 ["src/hob3lbase/dict.c", "include/hob3lbase/dict.h"],
 [("rebalancing", "src/hob3lbase/dict.c")],
 observe=["dict API"])

prop("C22", "Base containers and string buffers behave like their abstract models",
 "After any history of operations, vectors, heaps, rings/lists, pools and growing character buffers contain exactly what their abstract counterparts (sequence, priority queue, circular sequence, disjoint blocks, byte string) contain; sorting orders and permutes; UTF-8 coding and decoding are inverse and reject exactly the malformed sequences.",
 ["histories", "inputs"], "all operation histories",
 "Unit tests run a few fixed histories.",
 ["src/hob3lbase/vec.c", "src/hob3lbase/heap.c", "src/hob3lbase/pool.c", "src/hob3lbase/vchar.c", "src/hob3lbase/qsort.c", "src/hob3lbase/utf8.c", "include/hob3lbase/list.h"],
 [("container implementations", "src/hob3lbase")],
 observe=["container APIs"])

prop("C23", "Boolean function tables combine as boolean algebra prescribes",
 "For any sequence of operations on truth tables over up to the maximal number of variables, reading a table at any assignment gives the value of the boolean formula the sequence denotes.",
 ["histories", "inputs"], "all operation sequences and all assignments, over all table sizes",
 "Unit tests check few fixed tables.",
 ["src/hob3lbase/bool-bitmap.c", "include/hob3lbase/bool-bitmap.h"],
 [("bitmap operations", "src/hob3lbase/bool-bitmap.c")],
 observe=["bool-bitmap API"])

prop("C24", "Results do not depend on options or spellings that must not matter",
 "The same input and options always give the same bytes; max-simultaneous, verbosity and options without influence on the geometry do not change the regions; algebraically equal models (operand order of union and intersection, grouping, A-B-C versus A-(B+C), double mirroring, translation by whole grid units, disjoint parts sliced together or alone) give the same regions.",
 ["inputs", "configurations"], "all models and all such pairs",
 TST + "never two runs compared.",
 ["src/hob3l/csg2-bool.c", "src/hob3l/csg2-layer.c", "src/hob3l/csg2-tree.c", "src/hob3l/main.c"],
 [("lazy combination", "src/hob3l/csg2-bool.c"), ("options", "src/hob3l/opt.switch")],
 observe=["outputs of pairs of runs"])

prop("C25", "The matrix and vector library obeys its algebra",
 "Products, inverses, determinants, rotations, mirrors, normalisation and the exact degree-based sine and cosine satisfy their defining equations for all finite operands up to floating point rounding and the documented epsilon for zero tests, also when the result is stored over an operand: a matrix times its inverse is the identity, rotations are orthogonal with determinant one, applying a product equals applying the factors in turn.",
 ["inputs"], "all operands within ordinary magnitudes",
 "The unit tests of the matrix library check fixed operands.",
 ["src/hob3lmat/mat.c", "src/hob3lmat/mat_gen_ext.c", "src/hob3lmat/mat_is_rot.c", "src/hob3lmat/algo.c", "include/hob3lmat/mat_gen_inl.h"],
 [("generated matrix code", "src/hob3lmat/mat_gen_ext.c")],
 observe=["matrix library API"])

prop("C26", "Every 2-manifold polyhedron is sliced exactly and others are rejected",
 "Any polyhedron whose faces form closed oriented 2-manifold surfaces (convex or not, several components, faces of any size, any vertex order start, mirrored or not) is accepted and sliced, at any height including heights through vertices, edges and horizontal faces, into exactly its cross-section. "
 "Out-of-range, negative or fractional indices, duplicate points, faces of less than 3 points, less than 4 faces and malformed points are rejected with an error, and so are polyhedra with a missing or doubled face when a sliced layer cuts it.",
 ["inputs"], "all polyhedra and all slice heights",
 TST + "a few fixed polyhedra.",
 ["src/hob3l/csg3.c", "src/hob3lop/op-slice.c", "src/hob3lop/hedron.c"],
 [("face and point checks", "src/hob3l/csg3.c: csg3_from_polyhedron"), ("bottom-in top-out slicing", "src/hob3lop/op-slice.c")],
 observe=["layer regions, exit status"])

prop("C28", "Automatic grid choice never loses geometry or overflows",
 "For every model size the automatically chosen grid is a power of two not finer than requested (unless the maximum is asked for) for which all coordinates fit the number range promised (float for binary STL, integer otherwise), and the layers agree with those at any other sufficient grid up to the coarser grid's rounding. "
 "Too fine a grid without automatic adjustment is never turned silently into wrong geometry when coordinates still fit.",
 ["inputs", "configurations"], "all model magnitudes and positions, all grid options",
 "No test uses large or tiny models.",
 ["src/hob3l/main.c", "src/hob3lop/op-def.c", "include/hob3lop/op-def.h"],
 [("auto scale", "src/hob3l/main.c: auto_dim_scale"), ("coordinate import and export", "include/hob3lop/op-def.h: cq_import_dim")],
 observe=["stderr info line, layers"])

prop("C29", "include and import resolve paths relative to the including file",
 "Replacing any part of a model by an include of a file with that text, nested to any depth over any directories with relative or absolute paths, does not change the result, and import file names are resolved relative to the file containing the import. "
 "Missing or unreadable files and recursive includes are reported as errors naming the include or import, and any number of files may be included.",
 ["inputs", "programs"], "all ways of splitting a model into files and directories",
 "One fixed include test.",
 ["src/hob3l/syn.c", "src/hob3l/scad.c"],
 [("include stack and path join", "src/hob3l/syn.c")],
 observe=["outputs, exit status, messages"])

prop("C30", "Modifiers and ignored children follow the SCAD rules",
 "'*' and '%' remove a subtree as if it were not written, '!' makes the subtree (without the transformations around it) the whole model, and '#' changes nothing in the geometry. "
 "difference subtracts from its first non-ignored child and intersection skips ignored children exactly as the documented IGNORE definition says, at any nesting depth.",
 ["inputs", "programs"], "all placements of modifiers and empty groups in all trees",
 TST + "few fixed uses of modifiers.",
 ["src/hob3l/scad.c", "src/hob3l/csg3.c", "src/hob3l/syn.c"],
 [("root selection and ignore flags", "src/hob3l/scad.c, src/hob3l/csg3.c: ignore handling")],
 observe=["layer regions"])

prop("C31", "Error messages point at the offending place",
 "When a SCAD input is rejected for a syntax or parameter error, the message on standard error names the right file and line of the offending token and shows that source line with the token marked, no matter how comments, line breaks, tabs or includes precede it, and nothing is written to the output.",
 ["inputs"], "all error kinds at all positions in all layouts of ASCII text (at the end of the file: the last line or the one behind it)",
 "No test looks at messages.",
 ["src/hob3l/syn.c", "src/hob3l/syn-msg.c", "src/hob3l/main.c"],
 [("location tracking", "src/hob3l/syn.c: cp_syn_get_loc"), ("message formatting", "src/hob3l/main.c, src/hob3l/syn-msg.c")],
 observe=["stderr, exit status"])

prop("C33", "color() resolves the documented colour values and rejects others",
 "The colour a color() functor resolves to, as the SCAD dump shows it, follows the documented rules: CSS3 names in any letter case, #rgb and #rrggbb, arrays of 3 or 4 components in 0..1, alpha by argument or fourth component and 1 by default, undef keeping the RGB components; every other value is rejected with an error. "
 "color() never changes the geometry.",
 ["inputs"], "all colour specifications at any nesting",
 "One fixed colour test for exit status.",
 ["src/hob3l/gc.c", "src/hob3l/gc-color.sieve", "src/hob3l/scad.c", "src/hob3l/scad-2scad.c"],
 [("evaluation", "src/hob3l/scad.c: color_from_item"), ("name lookup", "src/hob3l/gc.c: cp_color_by_name")],
 observe=["--dump-scad, exit status"])

prop("C34", "PostScript output draws the layers as the options say",
 "PostScript output has one page per layer that has material (or a single page with --ps-single-page), titled and counted, with a bounding box that contains all triangles drawn, and each page draws exactly the layer's triangles and their corners at 72/25.4 points per mm from the page centre, after the rotations and scalings of the --ps options in the order given and the perspective division by 1 - p*z/1000, in the given colours and line width, without the parts switched off. "
 "--ps-scale-fit draws the visible model's bounding box centred and as large as fits into the margins, --ps-scale-max likewise includes what is subtracted.",
 ["inputs", "configurations"], "all models and all combinations of the PostScript options",
 "The tests run a few PostScript conversions for the exit code.",
 ["src/hob3l/csg2-2ps.c", "src/hob3l/ps.c", "src/hob3l/main.c"],
 [("page drawing", "src/hob3l/csg2-2ps.c"), ("document structure and transformation", "src/hob3l/ps.c")],
 observe=["PostScript output"])

prop("C35", "A run that cannot write its whole output fails",
 "Whenever the output cannot be opened or not all of it can be written, at whatever byte and for whatever output format, to a file or to standard output, the run ends with a non-zero status and a message; a status of 0 means the output is complete. "
 "What a failing run leaves behind is a beginning of the complete output.",
 ["inputs", "schedules"], "all models, output formats and points of failure",
 "No test lets a write fail.",
 ["src/hob3l/main.c", "src/hob3lbase/stream.c", "include/hob3lbase/stream.h"],
 [("stream", "src/hob3lbase/stream.c: cp_vprintf, cp_write"), ("closing the output", "src/hob3l/main.c")],
 observe=["exit status, stderr, output file"])

prop("C36", "Options mean the same in every documented spelling; malformed ones fail",
 "The result of a run (status, output bytes, messages) does not depend on how its command line is written: the number of dashes, '=' or a separate word, the notation of a number (including a/b and a^b), boolean or policy word, the negated or plain name of a switch, a documented synonym or output file suffix, an overridden earlier value, the order of independent options and the place of the input file; giving a documented default explicitly changes nothing. "
 "An unknown option, a missing, malformed or superfluous argument, or a wrong number of input files ends the run with status 1 and a message, before any output file is created; every option of the help text is recognised.",
 ["inputs", "configurations"], "all command lines built from the documented options, on all models and output formats",
 "The tests use a handful of fixed command lines; no test compares two spellings or gives a malformed option.",
 ["src/hob3l/main.c", "src/hob3l/opt.switch", "script/mkswitch"],
 [("option lookup", "src/hob3l/main.c: parse_opt, opt_cmp"), ("argument parsers", "src/hob3l/main.c: get_arg_*"), ("option table", "src/hob3l/opt.switch through script/mkswitch"), ("format by suffix", "src/hob3l/main.c: main")],
 observe=["exit status, stdout, stderr, output file"])

prop("C37", "The web viewer draws what the JavaScript output describes",
 "For every JavaScript file hob3l writes and every scene as the format documentation describes, the page that hob3l-js-copy-aux creates draws exactly the triangles of the groups that are switched on, with the documented positions, normals and colours (scales, shifts, transformation, world position, group motion). "
 "View operations only move the camera: standard views look along the axes, turns and pans are rigid and opposite ones cancel, and a saved view comes back as it was, also after a reload.",
 ["inputs", "histories"], "all scenes of the JavaScript format, over all histories of buttons, inputs, mouse drags, keys, saved views and reloads",
 "The tests never run the viewer page or the script that installs it.",
 ["share/js-hob3l.local.html", "share/gl-matrix/mat4.js", "script/hob3l-js-copy-aux.in", "src/hob3l/csg2-2js.c"],
 [("scene set-up", "share/js-hob3l.local.html: initBuffers, render"), ("camera", "share/js-hob3l.local.html: standard views, turn, move, mouse handlers"),
  ("saved views", "share/js-hob3l.local.html: posMap, savePos, loadPos"), ("page installation", "script/hob3l-js-copy-aux.in"), ("JavaScript writer", "src/hob3l/csg2-2js.c")],
 observe=["buffers, indices and matrices given to WebGL per frame", "cookie and local storage"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"])
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
