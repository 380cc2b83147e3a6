#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

p("C01", "A plane meets a segment exactly when it separates the segment's ends",
  "Cutting a straight segment with a plane yields a point whenever the two ends lie on opposite sides of the plane, and yields none when both lie strictly on the same side or the segment runs parallel to the plane. The point returned lies on the plane and on the segment between its ends, and does not depend on the order in which the ends are given. Which side a point is on, its distance to the plane, and its projection onto the plane all agree with each other.",
  ["inputs"], "every plane (any non-zero normal), every pair of end points",
  "Tests sample seven triangle sections; the statement is over a continuum of planes and points including touching and parallel positions.",
  ["primitives/plane.go", "primitives/vector.go", "primitives/point.go"],
  [("segment/plane crossing parameter", "primitives/plane.go IntersectSegment"), ("side test", "primitives/plane.go PointInFront, PointBelongs"), ("projection onto plane", "primitives/plane.go ProectionPointToPlane")])
p("C02", "A triangle's section is its true cut line, oriented with the outside on one hand",
  "When a plane passes between the corners of a triangle (corners clearly on both sides), the section is a single segment whose two ends lie on the plane and on the triangle's edges; when all corners are strictly on one side there is no section. The direction of the segment always keeps the triangle's outward side on the same hand, whatever corner the triangle's listing starts from.",
  ["inputs"], "every triangle and plane, every rotation of the corner order",
  "Tests compare seven concrete sections; orientation and coverage have to hold for every relative position, or contours come out broken or inside-out.",
  ["primitives/plane.go", "primitives/triangle.go"],
  [("triangle/plane section", "primitives/plane.go IntersectTriangle"), ("height range of a triangle", "primitives/triangle.go MinMaxZ, MinZ, MaxZ")])
p("C03", "Joining segments into contours loses, invents and reverses nothing",
  "Joining a set of directed paths into contours keeps every directed step of every input path exactly once and adds no other step, whatever order the paths come in. Consistently directed segments that form closed loops come out as exactly those closed loops, and two paths left unjoined never have one's end meeting the other's start at an otherwise unused point. The joining that may reverse paths likewise keeps every step, in one direction or the other.",
  ["inputs", "histories"], "every set of paths, every listing order, every coordinate",
  "The four failing/passing Join tests are fixed lists; the guarantee is over all orders and coordinates, where sort ties and shared corners matter.",
  ["primitives/path.go"],
  [("sorted end matching and union", "primitives/path.go JoinPaths3, tryJoin"), ("hash-joining", "primitives/path.go JoinPaths2")])
p("C04", "Merging straight runs of a path leaves its shape and closedness unchanged",
  "Dropping the intermediate points of straight runs keeps the path's shape: every original point still lies on the simplified path, every kept point is an original point, corners are kept, and an open path keeps both its ends. A closed path stays closed even when its first and last runs are merged. Reversing a path twice gives it back, closing a path adds at most the first point, and closedness is unaffected by direction.",
  ["inputs"], "every path whose runs go forward",
  "No test runs the merging at all; it is applied to every contour of every layer.",
  ["primitives/path.go", "primitives/line.go"],
  [("collinear merging", "primitives/path.go MinimizeLines"), ("collinearity test", "primitives/line.go IsCollinear"), ("reverse/close", "primitives/path.go Reverse, Close, IsClosed")])
p("C05", "Layers are evenly spaced, span the model and hold its complete cross-section",
  "Slicing a model along an axis gives layers in increasing height, evenly spaced no further apart than the requested layer height, the first half a step above the bottom and the last half a step below the top. Each layer holds the complete cross-section of the model at its height: every triangle that crosses that height contributes exactly its section and nothing else appears. The result does not depend on the order of the triangles or on the length of the slicing direction.",
  ["inputs", "configurations"], "every mesh, direction and layer height",
  "The five slicing tests compare only the number of layers of five models, never their heights or contents.",
  ["slicers/slice_by_vector.go"],
  [("layer planes and sweep of active triangles", "slicers/slice_by_vector.go SliceByVector"), ("per-layer sectioning", "slicers/slice_by_vector.go slicingWorker")])
p("C06", "Parallel work gives the sequential answer under every schedule",
  "Slicing, copying and loading with any number of processors and under any interleaving of the workers give the same result as doing the work in one thread, with every item handled exactly once. They always finish, without deadlock, and no two workers touch the same data unsynchronised.",
  ["schedules"], "every processor count up to the bound, every interleaving of workers",
  "Tests run one machine's processor count and whichever schedule happens; the guarantee is over all of them.",
  ["primitives/utils.go", "primitives/mesh.go", "primitives/stl.go", "slicers/slice_by_vector.go"],
  [("striped workers", "primitives/utils.go DoInParallelAndWait, DoInParallel"), ("job/result channels", "slicers/slice_by_vector.go SliceByVector, slicingWorker"), ("stripe use", "primitives/mesh.go CopyTriangles, primitives/stl.go loadSTLBinary")])
p("C07", "Cutting a mesh keeps its whole surface and puts each piece on its own side",
  "Cutting a mesh by a plane distributes its surface: apart from the triangles that close the cut, the pieces of the two halves cover every original triangle exactly, with unchanged facing, also when the plane touches a triangle only at a corner or along an edge. Every piece of the front half lies in front of the plane and every piece of the back half behind it, up to the documented rounding.",
  ["inputs"], "every mesh and cutting plane, including planes through corners and along edges",
  "Nothing in the test suite calls the cutter.",
  ["helpers/cut_mesh.go", "primitives/plane.go"],
  [("side classification and split", "helpers/cut_mesh.go CutMesh"), ("three-way split of a triangle", "helpers/cut_mesh.go splitOnThree")])
p("C08", "Both halves of a cut solid are closed solids",
  "Cutting a closed solid by a plane gives two closed solids: on each half the cut is closed by triangles that together cover the section facing away from that half (each of them if the section is convex), the two halves' enclosed volumes add up to the original volume, and neither half leaks. A plane that misses the solid leaves one half equal to it and the other empty.",
  ["inputs"], "closed solids with a convex, concave or hollow section, every cutting height",
  "Nothing in the test suite calls the cutter, and volume conservation is a statement over every plane.",
  ["helpers/cut_mesh.go"],
  [("cap triangulation", "helpers/cut_mesh.go CutMesh"), ("contour joining", "primitives/path.go JoinPaths3AndMinimize")])
p("C09", "Moving a mesh is a rigid motion that undoes itself",
  "Shifting and rotating a mesh keep all distances, the facing of every triangle and the triangle order, leave the rotation centre fixed, and leave the rotated original untouched. Rotating by an angle and then by its negative, or shifting by a vector and then by its negative, restores the mesh; planes rotate together with the meshes they cut.",
  ["inputs"], "every mesh, angle, centre and offset",
  "Two shift tests with one triangle each; rotation is not tested at all.",
  ["primitives/mesh.go", "primitives/rotation_matrix.go", "primitives/vector.go", "primitives/plane.go", "primitives/triangle.go"],
  [("rotation matrices", "primitives/rotation_matrix.go"), ("mesh motion", "primitives/mesh.go Rotate, Shift"), ("plane rotation", "primitives/plane.go Rotate")])
p("C10", "Vector and point geometry obeys Euclid",
  "A cross product is orthogonal to both factors and follows the right-hand rule, a normalised vector has unit length and unchanged direction, the projections on a vector and on the plane across it add up to the vector and are orthogonal, and projecting a point on a line gives its nearest point. The angle between two vectors lies between 0 and 180 degrees, is symmetric, is unaffected by their lengths, and is 180 for opposite vectors and 0 for equal ones. Turning a vector about an axis keeps its length and its component along the axis and turns it by the requested angle.",
  ["inputs"], "all finite vectors within the stated range",
  "Tests hold about thirty hand-picked vectors; rounding makes the angle of opposite vectors go wrong only for rare ones.",
  ["primitives/vector.go", "primitives/point.go", "primitives/line.go", "primitives/utils.go"],
  [("vector algebra", "primitives/vector.go"), ("line projection", "primitives/point.go ProjectOnLine, DistanceToLine"), ("rounding", "primitives/utils.go RoundPlaces, Round, AlmostZero")])
p("C11", "Saving a mesh and loading it back gives the same triangles in the same order",
  "A mesh saved as STL and loaded again has the same number of triangles, in the same order, with the same corner order and with coordinates equal up to single precision, and facing recomputed from the corners. Every well-formed binary or text STL of at least one triangle loads to exactly the triangles its corners spell, whatever its header says, and the two formats agree.",
  ["inputs"], "every mesh, every bit pattern of the coordinates",
  "Tests load a few fixed models for slicing and never save or compare one.",
  ["primitives/stl.go"],
  [("binary and text parsing", "primitives/stl.go LoadSTL, loadSTLBinary, loadSTLAscii"), ("saving", "primitives/stl.go SaveSTL")])
p("C12", "Reported save success means a complete file; damaged files never crash loading",
  "If saving a mesh reports no error then the complete file has been written; whenever any write fails, at any point, an error is reported. Loading a missing, truncated or otherwise damaged STL file returns an error or a mesh, and never crashes or hangs.",
  ["fault_sequences", "inputs"], "every position of a failing write, every truncation point",
  "No test saves a mesh or injects an I/O failure.",
  ["primitives/stl.go"],
  [("buffered writer and final flush", "primitives/stl.go SaveSTL"), ("size check and full read", "primitives/stl.go LoadSTL, loadSTLBinary")])
p("C13", "Line simplification stays within the tolerance and keeps the ends",
  "Simplifying a line of points returns a subsequence of them, in order, that begins with the first point and ends with the last. Every dropped point is within the tolerance of the line through the kept points around it, and the input is left unchanged.",
  ["inputs"], "every list of points, every tolerance",
  "No test calls the simplification.",
  ["helpers/simplify_line.go"],
  [("recursive farthest-point split", "helpers/simplify_line.go SimplifyLine")])
p("C14", "Mesh simplification hands over and returns every triangle faithfully",
  "A mesh that already has at most the requested number of triangles is returned as it is, and a missing mesh is reported as an error. Otherwise the reduction is asked for exactly the requested share of the exact original triangles, and exactly what it produces is returned, corners in order and facing recomputed.",
  ["inputs", "configurations"], "every mesh, every requested size",
  "No test calls the simplification.",
  ["helpers/simplify_mesh.go"],
  [("size rule and conversion both ways", "helpers/simplify_mesh.go SimplifyMesh, toFoglemanMesh, toGoosliMesh")])
p("C15", "Overhang classification flags exactly the triangles facing down steeply enough",
  "Classification gives one answer per triangle, in order: a triangle is flagged exactly when the angle between its facing and the direction opposite to the build direction is less than ninety degrees minus the given angle. The answer does not depend on the triangle's size or on the length of the build direction, and filtering by it keeps exactly the flagged triangles in order.",
  ["inputs", "configurations"], "every triangle, build direction and angle",
  "No test calls the classification; its threshold matters at rare directions (exactly down, rounding).",
  ["helpers/colorize_triangles.go", "primitives/vector.go"],
  [("angle threshold", "helpers/colorize_triangles.go ColorizeTriangles, FilterTrianglesByColor"), ("angle between vectors", "primitives/vector.go Angle")])
p("C16", "Support outlines are the outer border of the overhang, dropped straight down",
  "The outline of a set of triangles consists of exactly those edges that belong to one triangle only, regardless of edge direction, each listed once. Supporting lines are the straight-down images of these edges on the base plane, in the same order and direction.",
  ["inputs"], "every set of triangles with any sharing pattern, every plane",
  "No test calls the support helpers.",
  ["helpers/supports_by_vector.go", "primitives/plane.go"],
  [("edge cancellation", "helpers/supports_by_vector.go MakeUndoubledLinesFromTriangles, DeleteInternalLines"), ("projection", "helpers/supports_by_vector.go MakeSupportLines")])
p("C17", "Infill planes realise the requested density and cover the whole model",
  "For every filling pattern the infill lines are equally spaced and the share of area they cover equals the requested density; the solid filling of top and bottom layers is spaced by exactly one line width. In each pattern direction the lines reach across the whole footprint of the model, so that no place of it is further than one spacing from a line, wherever the model stands.",
  ["inputs", "configurations"], "every pattern, density, line width and model position",
  "The slicing tests use one density, one pattern and never look at the planes.",
  ["slicers/fill_layer.go"],
  [("pattern spacing", "slicers/fill_layer.go CalcFillPlanesLines, CalcFillPlanesSquares, CalcFillPlanesTriangles, CalcFillFullPlane"), ("range covered", "slicers/fill_layer.go calcFillPlanesCommon")])
p("C18", "Infill stays inside the contours and is solid exactly on top and bottom layers",
  "Every infill line of a layer is part of one of its filling planes and runs from contour to contour through the inside, and every piece of a filling plane inside the contours is filled, including when the plane passes through a corner. Exactly the requested numbers of bottom and top layers are filled solidly and all others with the sparse pattern; ordering the lines for printing keeps each exactly once, possibly reversed, and contours are left unchanged.",
  ["inputs", "configurations"], "every set of contours, filling plane, layer count and top/bottom setting",
  "The slicing tests count layers and never look at the infill.",
  ["slicers/fill_layer.go"],
  [("plane/contour pairing", "slicers/fill_layer.go intersectByPlane"), ("top/bottom rule", "slicers/fill_layer.go FillLayers"), ("ordering", "slicers/fill_layer.go sortFillPathes")])
p("C19", "Walls are inset by whole line widths and skirts stand outside",
  "Each inner wall of a convex contour runs parallel to it, one line width further inside than the wall before, closed like the contour; the number of walls is the wall thickness divided by the line width, and the innermost is the one that bounds the infill. Skirt lines run one line width apart outside the first layer's contours, outermost first, followed by the contour itself, and a skirt count of zero changes nothing.",
  ["inputs", "configurations"], "every convex contour larger than the walls, wall thickness, line width and skirt count",
  "Nothing in the test suite calls the wall or skirt code.",
  ["slicers/vip/offset_path.go", "slicers/vip/utils.go", "primitives/line.go"],
  [("offset of a contour", "slicers/vip/offset_path.go MakeOffset"), ("wall and skirt assembly", "slicers/vip/utils.go PrepareLayers, SkirtPathes"), ("corner reconstruction", "primitives/line.go IntersectLine2")])
p("C20", "The printed head follows exactly the planned paths",
  "A machine executing the generated code extrudes along exactly the planned segments: in the order of layers, of outer walls, middle walls, inner walls and infill, and of the points of each path, to within printing resolution, without drift however fine the segments are. Between paths it travels without extruding and with the head lifted.",
  ["inputs", "histories"], "every list of layers and paths, every coordinate",
  "No test looks at the generated code; positions depend on everything emitted before.",
  ["gcode/cmds.go", "gcode/gcode.go", "primitives/point.go"],
  [("path output", "gcode/cmds.go LayersMoving.ToGCode, pathesToGCode"), ("coordinate suppression", "primitives/point.go StringGcode")],
  state=[dict(name="gcode.State.pos", meaning="last position of the head", where="gcode/gcode.go")])
p("C21", "Filament fed equals the volume of the lines printed",
  "Over any run of the generated code, the filament fed for each printed segment equals segment length times layer height times line width divided by the filament's cross-section, independently of resets of the extruder counter, of bed rotations and of retractions in between. Filament never runs backwards except for a retraction of exactly the configured distance, and only when retraction is on.",
  ["inputs", "histories", "configurations"], "every path list, settings and command history",
  "No test looks at the generated code.",
  ["gcode/cmds.go"],
  [("extrusion length", "gcode/cmds.go pathesToGCode"), ("counter reset", "gcode/cmds.go decreaseEOff"), ("retraction", "gcode/cmds.go retractionToGCode")],
  state=[dict(name="gcode.State.eOff", meaning="extruder counter", where="gcode/gcode.go")])
p("C22", "Fan, speed and layer numbers are right for every layer of every run",
  "The fan is off during the first layer if so configured and on for every other layer; the first layer is printed at the first-layer speed, other walls at the wall speed and infill at the print speed, also after retractions and bed rotations. Layers are numbered consecutively from zero over the whole output, and the layer count reported equals the number of layers output.",
  ["histories", "configurations"], "every sequence of layers and bed commands, every setting",
  "The tests check only the layer count of five models.",
  ["gcode/cmds.go", "gcode/gcode.go"],
  [("fan switching", "gcode/cmds.go switchFanGCode"), ("speed selection", "gcode/cmds.go printSpeedToGCode"), ("layer numbering and count", "gcode/cmds.go LayersMoving, gcode/gcode.go LayerCount")],
  state=[dict(name="gcode.State", meaning="fan, feed rate, layer index", where="gcode/gcode.go")])
p("C23", "Bed rotation commands always reach the commanded angles and restore the extruder",
  "After any sequence of bed commands the rotary axis stands at the last commanded angle and the tilt axis at its tilted or level position according to the last tilt command, whatever came before. Each rotation or tilt of this table lifts the head clear first and afterwards gives control back to the print head with its extruder counter as it was; the combined rotation of the other machine commands its two angles and nothing else.",
  ["histories"], "every sequence of rotations, tilts and layers",
  "No test executes a bed command; the emitted moves depend on the whole history.",
  ["gcode/cmds.go"],
  [("axis bookkeeping", "gcode/cmds.go RotateZ, InclineX, InclineXBack, RotateXZ")],
  state=[dict(name="gcode.State.t1,t2", meaning="positions of the rotary and tilt axes", where="gcode/gcode.go")])
p("C24", "Cut plane files round-trip and describe the plane the bed will level",
  "A cut plane written out by the analyser and read back by the slicer has the same position, tilt flag and rotation up to the printed precision, and the normal follows from the tilt flag and rotation alone. Turning the part by the plane's bed position makes the cut plane level and facing up.",
  ["inputs"], "every position, tilt flag and rotation",
  "No test reads or writes a plane.",
  ["slicers/vip/analyze.go", "slicers/vip/slice_by_planes.go", "primitives/vector.go", "primitives/rotation_matrix.go"],
  [("plane text form", "slicers/vip/analyze.go AnalyzedPlane.String, ParsePlane"), ("turning", "primitives/vector.go RotateAbout")])
p("C25", "Each part cut by several planes is printed once, with the bed set for it",
  "Slicing by a list of planes prints, in order, the part below the first plane, the parts between consecutive planes and the part above the last, each exactly once. Before the layers of each part the bed has been brought to exactly the rotation and tilt of the plane below it, and the layers are those of the part turned accordingly about the configured centre; only the very first layer gets a skirt.",
  ["inputs", "configurations", "histories"], "every list of planes up to the bound, every tilt pattern and rotation",
  "The vip tests are commented out.",
  ["slicers/vip/slice_by_planes.go", "slicers/vip/slice_main.go"],
  [("reverse-order cutting and bed state", "slicers/vip/slice_by_planes.go SliceByPlanes, calcBedPlanes")])
p("C26", "The centre of a contour is its true area centroid",
  "The centre computed for a closed planar contour is its area centroid, in whatever plane of space the contour lies, and so is independent of the starting point and direction of the contour and moves with it. It never lies outside the contour's bounding box, even for a contour of almost no area.",
  ["inputs"], "every closed planar contour within the bound, every plane",
  "Four fixed contours are tested; the formula switches between three projections depending on the plane.",
  ["primitives/path.go"],
  [("three-projection centroid", "primitives/path.go FindCentroid")])
p("C27", "Inside, outside and winding of contours are told correctly",
  "A point clearly inside a convex contour is reported inside and a point clearly outside is reported outside, also when it is level with a corner of the contour; a contour strictly within another is reported inside it, and one that is apart or crosses it is not. The winding of a horizontal contour is told correctly and turns over when the contour is reversed, and solid and hole are opposites.",
  ["inputs"], "every convex contour and query point within the bound",
  "Six fixed squares are tested, no point level with a corner among them.",
  ["primitives/point.go", "primitives/path.go", "primitives/line.go"],
  [("crossing number", "primitives/point.go Inside"), ("containment", "primitives/path.go IsInside"), ("winding", "primitives/path.go IsWindingCW")])
p("C28", "Overhang directions are averaged on the circle",
  "The middle of a sorted set of directions that spans less than half a turn is their circular mean truncated to whole degrees: it does not depend on where zero degrees is, and always lies from 0 up to a full turn. An overhang between two layers is reported exactly when some direction leans out by more than the failing angle, with a cutting plane through the lower layer's contour. Round parts are told the same way from one corner of their contour, also when corners stand exactly above each other.",
  ["inputs"], "every set of directions within the bound, every pair of similar layers",
  "Four fixed lists are tested.",
  ["slicers/slice_5axes.go"],
  [("ring average", "slicers/slice_5axes.go MiddleOnTheRing"), ("overhang search", "slicers/slice_5axes.go CalculateFails")])
p("C29", "The output file carries the settings and counts of the job it was made for",
  "The header and footer of the output have every known placeholder replaced by the job's own setting in the documented format, wherever it occurs, and everything else is copied unchanged. The layer count in the header equals the number of layers in the body, and the body stands between header and footer unchanged.",
  ["inputs", "configurations"], "every template and every setting value",
  "No test renders a template.",
  ["slicers/settings.go", "primitives/utils.go", "cmd/goosli/goosli.go"],
  [("placeholder map", "slicers/settings.go ToMap"), ("replacement", "primitives/utils.go PrepareDataFile"), ("assembly", "cmd/goosli/goosli.go CommandsWithTemplates")])
p("C30", "Degenerate models never crash the slicer",
  "Slicing an empty, flat or extremely thin model, or one whose pieces become so after a cut, ends normally with the layers there are, possibly none, in every slicing mode that handles single parts.",
  ["inputs", "configurations"], "every mesh of few triangles including flat, needle-like and empty ones",
  "All tested models are ordinary solids.",
  ["slicers/slice_by_vector.go", "slicers/slice_by_profile.go", "slicers/fill_layer.go", "slicers/vip/utils.go", "helpers/simplify_line.go", "helpers/cut_mesh.go"],
  [("empty layer trimming", "slicers/slice_by_vector.go SliceByVector"), ("empty guards", "helpers/cut_mesh.go CutMesh")])
p("C31", "Automatic bed rotation turns the chosen cut plane level",
  "When a slicing mode chooses a tilted cutting plane for an overhang by itself, the bed rotation it commands and applies to the part brings that plane level and facing up, for overhangs in every direction, and returning undoes it exactly. All that is printed is the part turned as the bed is, with the lines of its filling turned along, and every part is printed at its stage.",
  ["inputs"], "every overhang direction",
  "No test reaches a rotation.",
  ["slicers/slice_5axes.go", "slicers/slice_by_profile.go", "slicers/vip/slice_default.go", "slicers/vip/slice_bridge.go", "slicers/vip/analyze.go"],
  [("choice of plane and angle", "slicers/slice_5axes.go CalculateFails, Slice5Axes"), ("profile angles", "slicers/slice_by_profile.go SliceByProfile"), ("analysis", "slicers/vip/analyze.go Analyze")])
p("C32", "Reported intersections of segments and triangles are real",
  "When two segments are reported to meet, the reported point lies on both; two segments that properly cross are always reported. When two triangles are reported to intersect, the reported segment lies in both, and two triangles that properly cross are always reported with all that they share, also when the crossing runs through a corner.",
  ["inputs"], "every pair of segments and of triangles within the bound",
  "The file with these tests does not compile and is never run.",
  ["primitives/line.go", "primitives/triangle.go"],
  [("segment intersection", "primitives/line.go IntersectLine, IntersectLine2"), ("triangle intersection", "primitives/triangle.go IntersectTriangle, PointBelongs")])

p("C33", "Supports stand straight under the outline of overhangs",
  "With supports on, every layer keeps the model's own section and gets, for each outline edge of an overhang that stands clear of the model, exactly the section of the vertical wall from the base up to the support offset below that edge; halves of walls that would run through the model are left out, and only these. Nothing is added to models without overhangs or with supports off.",
  ["inputs", "configurations"], "every overhang height and slope, offset, failing angle",
  "One fixed box is tested for not failing.",
  ["slicers/slice_by_vector.go", "helpers/supports_by_vector.go", "helpers/colorize_triangles.go", "primitives/triangle.go"],
  [("walls below the outline", "helpers/supports_by_vector.go MakeUndoubledLinesFromTriangles, MakeSupportLines, DeleteInternalLines"), ("which triangles overhang", "helpers/colorize_triangles.go FilterTrianglesByColor"), ("merging with the layers", "slicers/slice_by_vector.go SliceByVector")])
p("C34", "The command line tools do what they are told and report what they cannot",
  "Each tool loads the model named, shifts it as asked, does what the mode and options name with the settings given, and leaves the complete result in the file named. Unknown modes, models that cannot be read and results that cannot be written completely are reported as failures, never as success.",
  ["configurations", "faults"], "every value of the options, write faults at any position",
  "No test runs a tool.",
  ["cmd/goosli/goosli.go", "cmd/goosli_analyzer", "cmd/goosli_colorizer", "cmd/goosli_cutter", "cmd/goosli_simplifier"],
  [("dispatch and settings", "cmd/goosli/goosli.go main, settings"), ("tools", "cmd/goosli_*/*.go main")])
p("C35", "The analysis suggests a cut through the lowest corner of each overhang",
  "Every suggested plane goes through the lowest corner of the lowest overhanging triangle of what the planes before it leave, lowest and overhanging as seen in the current direction of printing; planes are tilted towards the overhang and level by turns. Triangles that lie on the bed are no overhangs. Models without overhangs get no planes, the analysis always ends with at most six, and the model stays as it is.",
  ["inputs", "configurations"], "every placement of the overhangs, every failing angle",
  "The tests of the analysis are commented out.",
  ["slicers/vip/analyze.go", "helpers/colorize_triangles.go", "primitives/triangle.go"],
  [("search for overhangs and planes", "slicers/vip/analyze.go Analyze")])

p("C36", "The automatic mode picks the way of slicing that fits the model",
  "The automatic mode slices by the planes of the planes file if there are any. Otherwise a model whose first layer has exactly two outside contours is sliced as a bridge; a model whose first and last layers are each one outside contour of at least 14 points, all within 0.5 of the same distance from the middle, as a round body; every other model by the default mode. Contours of holes do not count.",
  ["inputs", "configurations"], "every radius and every unevenness of the round models, every distance of the legs, every height of the planes",
  "No test runs the automatic mode.",
  ["slicers/vip/slice_main.go", "slicers/vip/slice_bridge.go", "slicers/vip/utils.go"],
  [("choice of the mode", "slicers/vip/slice_main.go Slice"), ("outside contours", "slicers/vip/slice_bridge.go getAllOutsidePathes")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for e in P:
            assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
            f.write(json.dumps(e) + "\n")
    print(len(P), "properties")
