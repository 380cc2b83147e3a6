BASE = "Holds for every input within the bounds printed in the evidence, floating point read as exact reals; trusted: the engine, z3/cvc5, models of the standard library calls. "
CLAIMS = {
 "C01": BASE + "Any plane, any two points within the bounds.",
 "C02": BASE + "Planes across each coordinate axis (quick), any plane (thorough, partly undecided by the solver), corners clearly off the plane.",
 "C03": BASE + "Up to 4 paths; the coordinates, the coincidences of ends and the order of the paths are symbolic.",
 "C04": BASE + "Paths of up to 5 steps (6 thorough) along two directions of space, and triangles.",
 "C09": BASE + "Rotation by any angle about any centre, any shift; meshes of up to 9 triangles.",
 "C10": BASE + "Angles against coordinate axes for vectors of any direction; turning about coordinate and slanting axes; opposite and equal vectors with rounding errors as symbolic variables.",
 "C13": BASE + "Lines of up to 5 points of any position, 8 along spikes; the distance function is replaced by its specification, which another harness proves.",
 "C15": BASE + "Any facing against build directions along the axes and any angle from 1 to 89 degrees, slanting build directions with fixed angles.",
 "C16": BASE + "Two triangles with corners in common in every way, three triangles standing on edges of one another.",
 "C32": BASE + "Segments in coordinate and slanting planes and passing each other in space; triangle pairs with the point-in-triangle test, the section and the segment meeting replaced by specifications that the other harnesses (and C02) show.",
 "C11": BASE + "Binary files of up to 3 triangles with any header, text files of up to 2; single precision as a bounded rounding; the decimal text of a symbolic number is a placeholder that parses back to it.",
 "C12": BASE + "Write faults at any position of the output; damaged files cut at any position and with changed counts.",
 "C14": BASE + "The external simplification library is replaced by a recording stand-in; meshes of up to 4 triangles.",
 "C20": BASE + "The generated text is executed by a machine model in the harness (absolute moves, absolute extrusion). Up to three layers with up to two paths in each part, paths of up to three points; paths of eight steps of up to 0.003 mm; up to three bed commands. Positions to 0.0016 mm.",
 "C21": BASE + "The generated text is executed by a machine model. Segments along eight directions of any length, widths, heights and diameters free (one at a time where they divide); up to six layers with resets of the counter and two bed commands; to 0.001 mm of filament.",
 "C22": BASE + "The generated text is executed by a machine model. All speeds free; sequences of three commands (thorough four) before the last, each any bed command or up to two layers; twelve layers with resets.",
 "C23": BASE + "The generated text is executed by a machine model. All sequences of four commands (thorough six) with free angles.",
 "C24": BASE + "Every position within 500 mm and rotation of up to two turns, read from text of three or six digits, written and read again; wedges overhanging towards any direction for the first analysed plane, towards twelve directions with the real cut; files of up to three planes.",
 "C25": BASE + "Up to three planes (thorough five) with every tilt pattern, any rotations, centres and numbers of empty parts, with cutting, slicing, filling and skirts replaced by specifications (they have properties of their own); two planes with everything real.",
 "C31": BASE + "Boxes standing in any direction, whose overhangs, turns and returns are followed command by command; the cut and the slices are replaced by whole boxes and their corners, the choice of the plane is checked on square contours.",
 "C29": BASE + "Templates of three pieces (placeholders, parts of placeholders, other text) with all settings symbolic; programs of up to nine layers; all orders of the map of settings for three of them. The parsing of the command line by the kingpin library is outside.",
 "C30": BASE + "degenerate and empty meshes in all four modes: every mesh without triangles, a triangle that is a dot, a needle, a line, flat or steep at lattice places, stacks of legs and plates and round parts of one or two storeys, for every layer height in the stated range: every mode ends, and prints the layers there are",
 "C33": BASE + "Overhangs of one or two triangles, level or slanting; joining of contours and the section of a triangle replaced by specifications that C02 to C04 show; overhangs higher than the support offset.",
 "C34": BASE + "The tools' own main functions run on a simulated file system; the slicing modes, the cutter, the simplifier and the analysis, which other properties decide, replaced by recording stand-ins; natively the real ones run. Parsing of flags by the kingpin library is outside.",
 "C35": BASE + "Up to three small triangles at any heights, in fixed places and orientations; triangles that a suggested plane runs through are left out (C05 decides cutting).",
 "C36": BASE + "Models with one to three bodies between two contours (12 or 20 corners round but for one pair of opposite corners, or square), with holes or not, and up to three listed planes. The modes themselves (C26-C31) and slicing (C15) are replaced by specifications that tell which mode ran; replays run the real modes and compare the kinds of commands.",
 "C26": BASE + "Triangles and quadrangles in any place of coordinate and slanting planes, contours of more corners with fixed shapes.",
 "C27": BASE + "Triangles and convex quadrangles against any point; rectangles and triangles within, apart from and across one another.",
 "C28": BASE + "The circular mean for up to 6 directions (9 thorough) on rings of several sizes; overhang decisions for rectangles, with holes or not, that grow, shrink and shift against one another.",
 "C05": BASE + "Up to 2 triangles (3 thorough) with corners at any heights, up to 4 layers, sections and joining replaced by specifications that C02-C04 decide; a tetrahedron with the real ones.",
 "C06": BASE + "Every interleaving of 1 to 3 workers with a bounded number of preemptions (branch points of the symbolic execution), over symbolic data; data races by happens-before; specifications for sections and joining, except in H_Real.",
 "C07": BASE + "Triangles of any shape within ranges of places, at fixed sets of heights (over, on, under the plane) and with one corner at any height; coverage is decided by the areas and first moments of the pieces; the rounding of section points to eight places is read as exact.",
 "C08": BASE + "Tetrahedra, boxes, L-shaped prisms and square tubes with symbolic proportions; closedness is decided by the flow of the constant and linear fields through the surface; the rounding of section points to eight places is read as exact.",
 "C17": BASE + "All patterns with the densities listed; models with one corner at any place, boxes at any place; spacing in line widths up to 30.",
 "C18": BASE + "Triangles, contours with notches, and contours with holes, cut by planes in up to 7 directions at any place, corners on the plane included; up to 5 layers with any numbers of solid layers; up to 6 lines to order.",
 "C19": BASE + "Rectangles (with a corner cut off), triangles, rhombs and hexagons of any sizes with up to 4 walls (6 thorough), in four planes of space; the meeting point of lines, Normalize and the collinearity test are replaced by specifications (the first is decided by H_Line).",
}
NA = {}
