import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe:a["observe_at"]=observe
    if state:a["state"]=state
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","STL files are loaded completely and exactly, or an error is reported",
"Loading a well-formed STL file, ASCII (with one solid) or binary, yields exactly the triangles of the file in file order, every coordinate converted from millimetres to the nearest whole micrometre, and the reported minimum and maximum are the exact bounding box; the ASCII and the binary form of the same triangles load identically. A file that is missing, truncated or malformed yields an error and never a partial or empty model.",
["inputs","fault_sequences"],"all triangle lists, headers and lexical styles of the two encodings, and all truncations and corruptions of them",
"The reader has no stable test; the only file the sources sample is one binary model, and errors of the STL library are never provoked.",
["reader/reader.go"],[("STL callbacks collect faces","reader/reader.go AppendTriangle, stlTriangleToFace"),("error of the STL library is returned","reader/reader.go Read")],
["model returned by the built-in reader"])
p("C02","Preparing a model keeps its surface",
"The model prepared for slicing has one face for every usable input face, in input order and with the input's vertex order; apart from the common placement offset no vertex moves farther than the configured meld distance, and vertices with equal coordinates (and most of those which are much nearer to each other than that distance) become the same point. A face is dropped only if two of its vertices melded into one point or if an equal face (the same three points) was already there, and if no usable face is left an error is reported.",
["inputs","configurations"],"all triangle soups, including duplicated, degenerate and nearly coincident ones, and all meld distances",
"The optimizer has no stable test at all, and which vertices meld depends on the coordinates of the whole model.",
["optimizer/optimizer.go","optimizer/face.go"],[("melding by bucket and distance","optimizer/optimizer.go Optimize"),("duplicate and degenerate faces are skipped","optimizer/optimizer.go Optimize FacesLoop")],
["faces of the optimized model"])
p("C03","Face adjacency of a prepared model is exact",
"For each of the three edges of a face, taken in vertex order, the prepared model names another face which really contains both points of this edge, and reports 'none' only if no other face contains them. On a closed surface every edge therefore has a neighbour, and the relation is symmetric.",
["inputs"],"all closed, open and non-manifold triangle sets",
"No stable test looks at adjacency; it is a relation between all faces of a model.",
["optimizer/model.go","optimizer/optimizer.go"],[("lookup of the faces at both end points","optimizer/model.go getFaceIdxWithPoints")],["touching face indices of the optimized model"])
p("C04","The model is placed on the build plate at the configured position",
"The prepared model is the input translated as a whole: its bounding box is centred (to a micrometre) on the configured centre in X and Y and its lowest point lies exactly at the configured centre's height, wherever the file's coordinates were. The reported size is the extent of the input's bounding box, and the reported minimum and maximum are the exact bounds of the placed faces.",
["inputs","configurations"],"all models and all configured centre positions, negative ones included",
"No stable test covers placement; tests never slice a model whose coordinates differ from the golden one.",
["optimizer/optimizer.go","optimizer/model.go"],[("offset from bounding box and centre","optimizer/optimizer.go Optimize")],["points, Min, Max and Size of the optimized model"])
p("C05","Every layer is the true cross-section of the placed model at its height",
"Layer n (counted from 0) is the cross-section of the placed model at the initial layer thickness plus n times the layer thickness: away from the boundary by the snapping tolerance, a point belongs to exactly the layer parts if and only if it is inside the solid at this height. There is exactly one layer for every such height up to the top of the model, also where the cross-section is empty, and a body whose cross-section's circumference is below the configured minimal polygon length may be missing, but nothing else.",
["inputs","configurations"],"all closed solids (convex, concave, with cavities, several bodies, vertices and faces exactly on slicing planes) and all layer thicknesses",
"The slicer has no stable test; the correct result is defined by the geometry of every model at every height.",
["slicer/slicer.go","slicer/segment.go","slicer/layer.go"],[("cutting triangles by planes","slicer/segment.go SliceFace"),("layer loop","slicer/slicer.go Slice"),("joining segments to polygons","slicer/layer.go makePolygons")],["layers returned by the slicer"])
p("C06","Layer parts are well-formed and never overlap",
"Every layer part consists of one counter-clockwise outline and clockwise holes which lie inside the outline, the curves do not cross each other or themselves, and two parts of one layer never overlap. Solid inside a hole becomes a part of its own, so that any nesting depth is represented.",
["inputs"],"all sets of closed polygons per layer, nested, overlapping, self-intersecting and of either orientation",
"No stable test partitions a layer; orientation and nesting depend on the arrangement of all polygons.",
["clip/clip.go","data/layer.go"],[("even-odd union into a polygon tree","clip/clip.go GenerateLayerParts"),("tree to parts","clip/clip.go polyTreeToLayerParts")],["layer parts"])
p("C07","The slicing result does not depend on how the mesh is written down",
"Reordering the triangles of a closed mesh, rotating the vertex order inside triangles, moving the whole mesh to other file coordinates, or storing it as ASCII instead of binary STL leaves the sliced layers the same up to the snapping tolerance. Mirroring the mesh in X or Y mirrors the layers.",
["inputs"],"all closed meshes and all such rewritings of them",
"Metamorphic relation between two runs; the tests run each model once.",
["slicer/slicer.go","slicer/layer.go","optimizer/optimizer.go","reader/reader.go"],[("segments chained by adjacency","slicer/layer.go makePolygons")],["layers returned by the slicer"])
p("C08","Union, intersection and difference of areas are the set operations",
"For any two sets of layer parts, a point farther than a rounding error from all boundaries lies in the union, intersection or difference if and only if it lies in either, both, or the first but not the second (inside being outline minus holes). The results are well-formed parts, empty operands act as the empty area, and the operands stay unmodified.",
["inputs"],"all pairs of sets of layer parts, also empty, identical, touching and nested ones",
"No stable test calls these operations; correctness is pointwise over arbitrary polygons.",
["clip/clip.go"],[("clipper with even-odd filling","clip/clip.go runClipper")],["returned layer parts"])
p("C09","Insetting and exsetting move the contour by exactly the asked distance",
"The n-th inset of a part is the set of points at least (initial shift plus n times the step) away from the part's boundary inside it, holes included, and a negative step is the corresponding enlargement, up to the squared corners of enlarged convex edges and a few micrometres. As many results as asked for are returned, empty where nothing is left, and parts that fall apart or grow together are split or merged.",
["inputs","configurations"],"all parts with and without holes, all steps, counts and initial shifts of either sign",
"No stable test insets anything; the result is a geometric statement about every point of every polygon.",
["clip/clip.go"],[("clipper offset per inset","clip/clip.go Inset, InsetLayer")],["returned insets"])
p("C10","Hull and top-level outlines surround everything and nothing else",
"The hull of a set of parts is the convex polygon through the outermost of their outline points which contains all of them. The top-level outlines of a set of disjoint outlines are exactly those which are not inside of another one.",
["inputs"],"all sets of layer parts in any arrangement and nesting",
"No stable test calls either operation; skirt and brim of every model rely on them.",
["clip/clip.go"],[("convex hull library","clip/clip.go Hull"),("polygon tree roots","clip/clip.go TopLevelPolygons")],["returned paths"])
p("C11","Perimeters follow every contour, equally spaced, in the configured number",
"For every part of every layer the configured number of perimeters is generated, the outermost half an extrusion width inside the contour (outline and holes) and each following exactly one extrusion width further inside, wherever the part is wide enough; printed lines of half an extrusion width to each side therefore never leave the part and cover its whole border. A perimeter is missing only where the remaining area is narrower than it.",
["inputs","configurations"],"all layer shapes, extrusion widths and perimeter counts including zero",
"No stable test covers the perimeter modifier.",
["modifier/perimeter.go","clip/clip.go"],[("insets starting at half the width","modifier/perimeter.go Modify")],["perimeter attribute of the layers; wall sections of the G-code"])
p("C12","Infill areas fill the inside of the innermost perimeter without overlapping",
"In every layer the solid bottom, solid top and sparse infill areas do not overlap each other and lie inside the area bounded by the innermost perimeter enlarged or shrunk by the configured overlap. Unless the infill percentage is zero they cover this area completely, in each layer of the model, also above empty layers.",
["inputs","configurations"],"all models and all combinations of overlap, infill percentage and numbers of top and bottom layers",
"No stable test covers the infill modifiers; the areas depend on all neighbouring layers.",
["modifier/infill.go","modifier/internal_infill.go","modifier/perimeter.go"],[("bottom/top detection","modifier/infill.go Modify"),("remaining area","modifier/internal_infill.go Modify")],["bottom, top and infill attributes"])
p("C13","Exposed surfaces are closed by the configured number of solid layers",
"Wherever the inside of a layer (within its innermost perimeter and the infill overlap) has no material directly somewhere in the configured number of layers below it, or is within this number of layers from the bottom, it is filled solid, and likewise upwards with the number of top layers. Areas with material in all these layers, farther than the configured internal overlap from exposed ones, are not filled solid; places of the same part within this overlap from an exposed place are filled solid too.",
["inputs","configurations"],"all models with steps, overhangs, cavities and gaps, and all numbers of top and bottom layers including zero",
"No stable test covers it; it relates each layer to several neighbours.",
["modifier/infill.go","modifier/internal_infill.go"],[("difference with the layers below and above","modifier/infill.go Modify, modifier/internal_infill.go partDifference")],["bottom and top attributes; solid fill lines of the G-code"])
p("C14","Line patterns fill exactly the given area with the given spacing and direction",
"A linear pattern fills a part with parallel lines at the configured angle (turned by 90 degrees on every second layer if rectilinear) which lie inside the part, end at its border and are exactly one line distance apart, so that no place of the part inside the pattern's bounding box is farther than that from a line. With zig-zag each line is shortened by half a line width at both ends, and connections are only added between lines and never cross the border; the lines of a sparse infill are spaced so that the configured percentage of the area is covered.",
["inputs","configurations"],"all parts with holes, angles, spacings, bounding boxes, layer numbers and both modes",
"No stable test draws a pattern; line placement is defined for every shape and angle.",
["clip/linear.go","goslice.go"],[("clipped vertical lines in a rotated frame","clip/linear.go getInfill, Fill"),("order and connections","clip/linear.go sortInfill"),("spacing from percentage","goslice.go NewGoSlice")],["paths returned by the pattern; infill lines of the G-code"])
p("C15","Support grows under every steep overhang and stays clear of the model",
"If support is enabled, every place of a layer that reaches farther over the layer below than the threshold angle allows (layer thickness times its tangent) is supported, starting the configured number of gap layers below it and continuing downwards until the build plate or the model; support keeps the configured gap to the model of its layer, never overlaps the brim, and its topmost configured number of layers are interface. Overhangs below the threshold angle and models without overhangs get no support, and nothing is generated if support is disabled.",
["inputs","configurations"],"all models with overhangs, threshold angles, gaps, interface counts and pattern spacings",
"No stable test covers the support modifiers; support of a layer depends on all layers above it.",
["modifier/support.go","goslice.go"],[("overhang detection","modifier/support.go supportDetectorModifier.Modify"),("growing down","modifier/support.go supportGeneratorModifier.Modify")],["support, supportInterface and fullSupport attributes; support sections of the G-code"])
p("C16","The brim surrounds every first-layer island with the configured lines",
"With a brim of n lines, every island of the first layer which is not inside another one is surrounded by n closed loops on the first layer only, the k-th k extrusion widths outside the outermost perimeter, so that they attach to the model and to each other without gap or overlap, also if the outermost perimeter consists of several pieces. Nothing is printed inside holes of the model, and with a count of zero there is no brim.",
["inputs","configurations"],"all first-layer shapes (islands far enough apart), extrusion widths and brim counts",
"No stable test covers the brim.",
["modifier/brim.go","gcode/renderer/brim.go"],[("exsetting the top-level outer perimeters","modifier/brim.go Modify")],["brim and outerBrim attributes; skirt/brim section of the G-code"])
p("C17","The skirt encloses everything on the first layer at the configured distance",
"With a skirt of n lines, exactly n closed loops are printed on the first layer only, around the convex hull of everything printed there (model, brim and support), the innermost at the configured distance plus one extrusion width from the hull of the perimeters, brim and support areas, each further one an extrusion width outside. The skirt never touches anything else, and with a count of zero there is none.",
["inputs","configurations"],"all first-layer arrangements, with and without brim and support, all distances and counts",
"No stable test covers the skirt.",
["gcode/renderer/skirt.go","clip/clip.go"],[("exset hull","gcode/renderer/skirt.go Render")],["skirt section of the G-code"])
p("C18","G-code of a sequence of builder calls performs exactly these moves",
"Interpreting the generated text as a printer does (absolute coordinates, absolute extrusion, speeds and positions in force until changed) gives exactly the requested sequence of positions, extrusions and speeds, positions rounded to a hundredth and extrusion to a ten-thousandth millimetre without accumulating error; moves without any effect are left out. Comments and commands appear verbatim, in order, one per line, and drawing a path visits its simplified points in order, closes it if asked for and does not modify it.",
["histories","inputs"],"all sequences of builder calls with all arguments",
"The builder tests run a dozen fixed sequences of small coordinates; the modal state depends on the whole history.",
["gcode/builder.go"],[("modal position, speed and extrusion","gcode/builder.go AddMoveSpeed, AddMove, AddPolygon")],["builder output"],
[{"name":"currentPosition, currentSpeed, extrusionAmount","meaning":"what the printer has been told so far","where":"gcode/builder.go Builder"}])
p("C19","Printed material equals line length times line cross-section",
"In the complete G-code every printed move extrudes its length times layer thickness times extrusion width divided by the filament's cross-section, scaled by the extrusion multiplier; the first layer uses the initial layer thickness and all others the normal one. Travel moves extrude nothing, and apart from balanced retractions the extrusion axis only ever advances.",
["inputs","configurations"],"all models, filament diameters, extrusion widths, layer thicknesses and multipliers",
"The builder tests check three fixed values of one line; no stable test generates complete G-code.",
["gcode/builder.go","gcode/renderer/layer.go"],[("extrusion per millimetre","gcode/builder.go SetExtrusion"),("switch after the first layer","gcode/renderer/layer.go PreLayer.Render")],["E words of the G-code"])
p("C20","Travel across a perimeter is retracted, travel inside a part is not",
"If retraction is configured, a travel move between model features retracts the configured length at the configured speed before and restores exactly the same length after it if and only if it leaves the solid area of the layer, lifting by the configured hop in between and returning to the layer height; the head never moves in X or Y during retraction itself. No retraction happens if length or speed is zero, while printing, or before the first position is known, and retractions never nest.",
["inputs","histories","configurations"],"all layers, all sequences of paths drawn on them, and all retraction settings",
"The builder tests draw on no layer at all, so crossing is never evaluated.",
["gcode/builder.go","clip/clip.go"],[("crossing test","clip/clip.go IsCrossingPerimeter"),("retraction around the travel","gcode/builder.go AddPolygon")],["G-code moves of each travel"])
p("C21","Layers are printed bottom-up at their height and with the configured speeds",
"The G-code contains every layer once, announced in ascending order, and prints all material of a layer exactly at the initial layer thickness plus its number times the layer thickness. The first layer uses the initial speed; all others use the outer perimeter speed for outer walls and the layer speed for everything else; travel uses the move speed, and within a part the inner walls come before the outer one.",
["inputs","configurations"],"all models and all speed and thickness settings",
"No stable test generates complete G-code for a model; speeds depend on the rendering history across layers.",
["gcode/generator.go","gcode/renderer/layer.go","gcode/renderer/perimeter.go","gcode/renderer/infill.go","goslice.go"],[("layer loop","gcode/generator.go Generate"),("speed switches","gcode/renderer/layer.go, gcode/renderer/perimeter.go")],["G-code"])
p("C22","Temperatures, fan and custom G-code appear exactly as configured",
"The user's start code comes first and the end code last, each exactly once, in order and character by character apart from the temperature placeholders, which become the initial temperatures. In safe mode heating (and at the end switching off) of hot end and, if there is one, bed is added exactly if the user's code does not do it itself; the normal temperatures are set once, before the first layer after the initial ones is printed, never touching the bed if there is none, and each fan entry is applied at its layer, zero meaning off.",
["inputs","configurations"],"all start and end codes, temperatures, fan tables, layer counts and printer flags",
"The stable tests only check the option parser for a few lines; nothing renders start or end code.",
["gcode/renderer/layer.go","data/option.go","gcode/builder.go"],[("pre and post layer","gcode/renderer/layer.go"),("detection of heating commands","data/option.go DoesInstructionContainCodes")],["G-code lines outside of moves"])
p("C23","The printed lines reproduce the model, nothing outside and nothing missing",
"In the final G-code every wall and fill line of a layer stays inside the model's cross-section at that height (up to half an extrusion width, rounding and smoothing), and every part of the cross-section's contour wide enough for a line is followed by an outer wall. Solid areas are covered without gaps, all material of different kinds stays apart except for the configured overlap, and skirt, brim and support lie outside the model.",
["inputs","configurations"],"all models and option combinations, through the whole pipeline",
"End-to-end statement over the complete program; the stable tests never run the pipeline.",
["goslice.go","slicer/slicer.go","modifier/perimeter.go","modifier/infill.go","clip/clip.go","gcode/builder.go","gcode/renderer/perimeter.go","gcode/renderer/infill.go"],[("pipeline wiring","goslice.go NewGoSlice, Process")],["G-code against the input mesh"])
p("C24","Every command line option sets its setting; invalid values are rejected",
"Each flag sets exactly the setting it documents to the given value and leaves all others at their defaults, in any combination and order, and writing an option value out and reading it back gives the same value. A malformed value or one outside of the range of its type is rejected with an error and a non-zero exit without slicing, a missing input path or failing run ends with a non-zero exit status, and the result is written next to the input or to the requested file.",
["inputs","configurations"],"all flag combinations, values and malformed values",
"The stable tests only cover the fan option; the flag table is otherwise untested.",
["data/option.go","cmd/goslice/main.go","goslice.go"],[("flag table","data/option.go ParseFlags"),("value parsers","data/option.go Set methods"),("exit codes","cmd/goslice/main.go")],["options seen by the pipeline; exit status, stderr and files of the command"])
p("C25","Slicing is deterministic and runs do not influence each other",
"Slicing the same model with the same options gives byte-identical G-code every time, in a new instance, in the same instance again, after other models, and with several instances running concurrently. Neither the options nor the model passed in are modified, and changing the caller's options after creating an instance does not matter for it.",
["histories","schedules","inputs"],"all models, options, and sequences and interleavings of runs",
"Needs several runs compared with each other, and concurrent ones; the stable tests never run the pipeline.",
["goslice.go","gcode/generator.go","gcode/builder.go","optimizer/optimizer.go"],[("options copied per instance","goslice.go NewGoSlice"),("fresh builder per run","gcode/generator.go init")],["G-code of repeated runs"])
p("C26","Every model and setting is processed without crash or endless run",
"For every triangle mesh, however degenerate, open, self-intersecting, tiny or floating, and every sensible combination of settings, slicing ends in reasonable time with either G-code or an error, never with a panic. For closed models which reach the first layer it always succeeds with G-code.",
["inputs","configurations"],"all triangle sets and combinations of settings in their sensible ranges, and arbitrary bytes as STL file",
"Crashes hide in input combinations which the handful of sampled inputs does not contain.",
["goslice.go","optimizer/optimizer.go","slicer/slicer.go","slicer/layer.go","clip/clip.go","clip/linear.go","modifier/perimeter.go","modifier/infill.go","modifier/support.go","modifier/brim.go","gcode/builder.go"],[("error returns of all steps","goslice.go Process")],["return of Process"])
p("C27","Errors of any step stop the run; output is complete or an error is returned",
"If any step of a run fails, the run ends with that error, no later step is executed and nothing is written; otherwise all steps run once, in order, each working on the result of the one before. The complete G-code is written, replacing any former content, to the requested file, or to the input path with '.gcode' appended if none is given, and a file that cannot be written is reported as error.",
["fault_sequences","histories"],"all positions and kinds of failing steps, all custom step sequences, all output destinations",
"The stable tests contain no failing step and write no file.",
["goslice.go","writer/writer.go","gcode/generator.go"],[("early return per step","goslice.go Process"),("file creation and errors","writer/writer.go Write")],["calls seen by instrumented handlers; written files"])
p("C28","Simplifying a path removes only points that do not matter",
"Both path simplifications keep a subsequence of the original points in their order; line smoothing keeps both end points and removes only points closer to the remaining line than its tolerance, and polygon simplification removes only points which are within a few micrometres of the simplified contour. The input stays unmodified, and this holds for coordinates of the size of any printer.",
["inputs"],"all paths, at all scales from micrometres to a metre, and all tolerances",
"The unit tests simplify a few short paths of small coordinates.",
["data/2d.go","data/layer.go"],[("Douglas-Peucker","data/2d.go DouglasPeucker"),("Cura's simplify","data/layer.go Simplify")],["returned paths"])
p("C29","Unit conversions and vector arithmetic are exact",
"Converting between millimetres and micrometres round-trips and rounds to nearest, and vector operations (sum, difference, scaling, division, size, comparison with a length, rotation, bounds) agree with exact arithmetic for all coordinates of the size of any printer, rotation and size up to one micrometre. No operation modifies its operands.",
["inputs"],"all coordinate values within a few metres, all angles and lengths",
"The unit tests check a few fixed vectors.",
["data/micrometer.go","data/data.go","data/2d.go","data/layer.go"],[("integer vectors","data/micrometer.go"),("unit conversion","data/data.go")],["returned values"])
p("C30","The prepared model is self-consistent and its debug export reproduces it",
"Both views of a face of the prepared model (as face and as optimized face) show the same three points, and its lowest and highest Z are exactly the extremes of these points; a complete run changes neither the loaded nor the prepared model, and preparing a model again gives the same result. The debug STL export writes exactly the prepared faces, in order and up to the float resolution of the format, replaces a former file, and reports an error if the file cannot be written.",
["inputs","fault_sequences"],"all triangle soups and closed meshes, former files and unwritable targets",
"No stable test prepares a model or calls the export.",
["optimizer/model.go","optimizer/face.go","optimizer/optimizer.go"],[("export","optimizer/model.go SaveDebugSTL"),("height range of a face","optimizer/face.go MinZ, MaxZ")],["faces of the loaded and of the prepared model; the exported file"])
p("C31","Steps keep each other's results and report attributes of a wrong type",
"Each modifier only sets the layer attributes it is responsible for: the number of layers, their parts and bounds and all other attributes, also custom ones, stay as they were, and generating the G-code changes nothing at all. The attribute accessors return nothing for a missing attribute, its value if it has the expected type, and otherwise an error; a modifier or renderer which needs an attribute that has a wrong type in any layer it uses fails instead of ignoring it.",
["inputs","configurations","fault_sequences"],"all stacks of layers with any custom attributes, all options, and any attribute of any layer replaced by something else",
"No stable test runs a modifier or a renderer.",
["modifier","gcode/renderer"],[("attributes are copied to the extended layer","modifier newExtendedLayer"),("type assertions","modifier Perimeters, OverlapPerimeters, PartsAttribute, FullSupport, Brim, BrimOuterDimension")],["layers between the steps; returned errors"])
p("C32","Gaps in contours are closed within the configured distances only",
"Where the faces of a model leave gaps in the contour of a layer, a loose end is connected with the nearest loose start which is not farther away than the join distance. What is still open afterwards is closed with a straight line if its own ends are at most the finish distance apart, and left out otherwise; neither distance affects other contours of the layer.",
["inputs","configurations"],"all open models with gaps of any width around the two distances, at any place and in any face order, all join and finish distances",
"No stable test slices anything; which ends belong together depends on all open pieces of a layer and on the order of the faces.",
["slicer/layer.go"],[("open pieces are connected with the best candidate","slicer/layer.go makePolygons RerunConnectPolygons"),("almost finished polygons are closed, open ones removed","slicer/layer.go makePolygons")],["layer parts of the sliced layers"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.!?](?:\s|$)',x["statement"]))
    if n>3: print(x["id"],n)
