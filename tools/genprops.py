#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=qtext),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],
                   observe_at=list(observe),hook_needed=None)))

p("C01","Path data is interpreted exactly as the SVG path grammar defines",
 "For every well-formed path data string (commands M L H V C S Q T Z in absolute and relative form; elliptical arcs are C02), the parsed path has exactly the subpaths, segment kinds, control points, end points and closed flags the SVG grammar assigns: repeated argument groups, implicit lineto after moveto, smooth-curve reflection only after a curve of the same family, and after a closepath drawing continues from the subpath's start point in a new subpath. The result depends only on that string, never on elements parsed before it. Coordinates are exact to 1/64 unit.",
 ["inputs","histories"],"all command sequences of bounded length, with every grouping of arguments, after every kind of preceding path",
 "the tests only check that some icon files parse without error; no test looks at a single coordinate of a parsed path",
 ["parse_path.go","path.go","svg_elements.go"],
 [("command interpreter with current point, start point, last control point and last command","parse_path.go:addSeg"),("relative to absolute conversion","parse_path.go:pointsToAbs, valsToAbs"),("reset between paths","parse_path.go:init")],
 [("current point / subpath start / control point / last key","cursor carried from command to command","parse_path.go:pathCursor")],["Svg.SvgPaths[i].Path"])

p("C02","Elliptical arc commands draw the arc SVG defines",
 "For every arc command, absolute or relative, single or repeated, at any place in a path, the emitted curve starts at the current point, ends at the stated end point and follows the one ellipse arc selected by the large-arc and sweep flags, with radii scaled up uniformly when they are too small to reach. An arc with a zero radius is a straight line to the end point, an arc whose end point equals the current point draws nothing, the sign of a radius is ignored, and the next command continues from the arc's end point.",
 ["inputs"],"all combinations of radii, rotation, flags, end point, form and neighbouring commands over a grid that contains every degenerate class",
 "no test inspects arc geometry; flag and degenerate-radius combinations never occur in the icon files together",
 ["parse_path.go","shapes.go"],
 [("centre parameterisation","shapes.go:findEllipseCenter"),("cubic approximation","shapes.go:Path.addArc"),("argument groups","parse_path.go:addSeg, addArcFromA")],
 [("current point","start of the arc","parse_path.go:pathCursor.placeX/placeY")],["Svg.SvgPaths[i].Path"])

p("C03","Number lists are split and valued per the SVG number grammar",
 "Every coordinate list that matches the SVG number grammar - signs and decimal points that start a new number without a separator, commas or white space (including tabs and newlines) between numbers, exponents with e or E and an optional sign - is read as exactly the numbers the grammar says, in order, in path data, in polyline and polygon point lists and in viewBox.",
 ["inputs"],"all grammar-conforming strings up to a length bound over an alphabet with every lexical class",
 "TestReadFloat samples five strings of one helper; separators, signs and exponents are never tested",
 ["parse_path.go","units.go","svg_elements.go"],
 [("tokeniser","parse_path.go:getPoints, readFloat, compilePath")],[],["Svg.SvgPaths[i].Path","Svg.ViewBox"])

p("C04","Basic shapes become the outlines SVG defines",
 "rect (plain or rounded, with the missing corner radius taken from the other one, an explicit zero meaning square corners, and radii limited to half the side), circle, ellipse, line, polyline and polygon with non-negative sizes each yield one path whose outline is the shape SVG defines for its attributes, closed exactly for rect, circle, ellipse and polygon; rounded outlines are met within a small fraction of a unit. A rect with zero width or height, a circle or ellipse with a zero radius, and a polyline or polygon without points yield no path. The outline depends only on the element's own attributes, in any attribute order, never on earlier elements.",
 ["inputs","histories"],"all attribute presence/value/order combinations of the grid, after every kind of preceding element",
 "the tests never look at the geometry of a shape nor at a shape following another element",
 ["svg_elements.go","shapes.go","matrix.go","parse_path.go"],
 [("shape functions","svg_elements.go:rectF, circleF, lineF, polylineF, polygonF"),("rounded corners","shapes.go:addRoundRect, addArc, roundGap"),("ellipse","parse_path.go:ellipseAt")],
 [("number buffer","scratch list shared by all elements of one parse","parse_path.go:pathCursor.points")],["Svg.SvgPaths"])

p("C05","Lengths resolve to pixels by unit, percentages by the right viewBox side",
 "Every length attribute of a shape, use element, stroke width, dash or gradient vector accepts a plain number or one with the unit px, cm, mm, pt, in, pc or Q, with optional white space, and means that number of CSS pixels (96 per inch). A percentage resolves against the root viewBox: its width for x-like lengths, its height for y-like lengths, and its normalised diagonal for circle radii, stroke widths and dashes; when there is no viewBox, root width and height stand in for it.",
 ["inputs","configurations"],"every length attribute x every unit x value x viewBox configuration",
 "TestUnits checks a dozen strings of one helper; which viewBox side an attribute uses is never checked",
 ["units.go","svg_elements.go","parse.go"],
 [("unit table and percentage reference","units.go:findUnit, parseUnit, resolveUnit"),("per-attribute reference","svg_elements.go:*F"),("viewBox fallback","svg_elements.go:svgF")],
 [("ViewBox","reference of percentages","svg.go:Svg.ViewBox")],["Svg.SvgPaths","Svg.ViewBox"])

p("C06","A shape's style is the fold of its ancestors' styles, and nothing else",
 "For every document tree, the style of each shape (fill, fill rule, stroke, width, caps, joins, miter limit, gap mode, dashes, dash offset, opacities) is obtained by starting from the default style and applying, from the root down, the style attributes of exactly its ancestors and itself: the nearest setting wins, opacity settings (numbers or percentages, limited to 0..1) multiply, and a style declaration wins over a presentation attribute of the same element. Elements that are not ancestors - preceding or following siblings, closed groups, definitions, unknown elements, titles - never influence it.",
 ["inputs","histories"],"all ordered trees up to a node bound with every assignment of settings to nodes, per style property and in pairs",
 "no test reads a style field; leaks need particular nestings",
 ["parse.go","svg.go","types.go"],
 [("style stack push/pop","parse.go:pushStyle, svg.go:Parse"),("attribute semantics","parse.go:readStyleAttr"),("defaults","types.go:DefaultStyle")],
 [("styleStack","one style per open element","parse.go:svgCursor.styleStack")],["Svg.SvgPaths[i].Style"])

p("C07","Colours are read exactly; malformed colours are errors, never guesses",
 "Every SVG colour name in any letter case, every #rgb and #rrggbb value and every rgb(r,g,b) with integers or integer percentages (out-of-range components limited to the valid range) denotes exactly that opaque colour as fill, stroke or gradient stop; 'none' switches fill or stroke off. Any other text - empty, wrong digit count, non-hex digits, wrong component count, unknown name - makes parsing return an error and never panics.",
 ["inputs"],"all names, all 3-digit and (thorough) all 6-digit hex colours, all component values per channel, all short malformed strings over the colour alphabet",
 "no test parses a colour on purpose",
 ["patterns.go","parse.go","svg_elements.go"],
 [("colour parser","patterns.go:parseSVGColor, parseColorValue, parseSVGColorNum")],[],["Svg.SvgPaths[i].Style.FillerColor/LinerColor","Gradient.Stops"])

p("C08","Transforms compose as SVG defines, across lists and nesting",
 "For every transform list and nesting of transformed elements, the transform of each shape is the product of its ancestors' transforms from the root inwards and then its own, and each list is the product of its functions from left to right, for translate, scale, rotate (with or without centre), skewX, skewY and matrix with their optional arguments. Siblings' transforms never contribute. Function names and separators may be written in any form SVG allows.",
 ["inputs","histories"],"all transform lists up to a length bound distributed over nesting levels up to a depth bound",
 "no test reads a transform; order mistakes are invisible for single functions",
 ["parse.go","matrix.go"],
 [("transform list","parse.go:parseTransform, readTransformAttr"),("matrix product and elementary matrices","matrix.go:Mult, Translate, Scale, Rotate, SkewX, SkewY")],
 [("Transform of the style stack top","accumulated transform","parse.go:svgCursor.styleStack")],["Svg.SvgPaths[i].Style.Transform"])

p("C09","use instantiates exactly the referenced definition, in place",
 "For every definitions section and every use of an identified element in it, the use yields the shapes of that element's subtree - no more, no fewer, in order - with each shape's own style and transform applied on top of the use element's style, transform and (x, y) translation, so that the result equals writing the subtree inline inside a translated group. Using a definition any number of times, nested inside other definitions or through other uses, changes neither the definition nor the style or position of anything else; a use that refers to itself, directly or through others, or to an unknown id is an error and terminates.",
 ["inputs","histories"],"all definition trees up to a node bound with every id placement, and all short sequences and nestings of uses",
 "one icon file uses three definitions and nothing is checked about the result",
 ["svg_elements.go","parse.go","svg.go"],
 [("definition capture","parse.go:readStartElement, svg.go:Parse"),("replay","svg_elements.go:useF")],
 [("defs / currentDef","captured definitions","svg.go:Svg.defs, parse.go:svgCursor.currentDef"),("curX, curY","offset of the active use","parse_path.go:pathCursor")],["Svg.SvgPaths"])

p("C10","Gradients carry their declared geometry, stops and defaults to each user",
 "A fill or stroke that refers to a previously defined linear or radial gradient carries that gradient: its vector or circles with SVG's defaults for missing values (focus defaults to the centre), percentages resolved by its units, its spread method, units and gradient transform, and its stops in order with offset, colour and opacity (the latter limited to 0..1) from attributes or style. A stop without colour takes the colour that was current for that fill or stroke, separately per reference. A gradient's content never depends on the place of its definition (inside or outside definitions or transformed groups), on other gradients, or on how often it is used. Applying a gradient to a path's extent gives its gradient transform, preceded for objectBoundingBox units by the map of the unit square onto the path's bounding rectangle, and leaves the path and the gradient's vector, stops, units, spread method and transform unchanged.",
 ["inputs","histories"],"all gradient attribute combinations up to a deviation bound, all stop lists up to length 3, all short define/refer histories",
 "no test reads a gradient",
 ["svg_elements.go","patterns.go","units.go","styles.go"],
 [("gradient elements","svg_elements.go:linearGradientF, radialGradientF, stopF"),("reference","patterns.go:readGradURL, localizeGradIfStopClrNil"),("stop style","styles.go:appendStyleAttrs")],
 [("grads","gradients by id","svg.go:Svg.grads"),("grad / inGrad","gradient under construction","parse.go:svgCursor")],["Svg.SvgPaths[i].Style.FillerColor"])

p("C11","Masks collect exactly their content and stay attached to their users",
 "Every mask element, at top level or inside definitions, is recorded under its id with its position, size and exactly the shapes inside it; those shapes do not appear among the document's painted paths, and everything outside a mask does. Each path lists the ids of the mask references on itself and its ancestors from the outermost to the innermost, whatever its siblings reference. Mask content is not affected by transforms or masks of the elements surrounding the mask element.",
 ["inputs","histories"],"all trees up to a node bound with every assignment of mask references, and all placements of mask elements",
 "TestMask only counts the masks of one file",
 ["parse.go","svg.go","svg_elements.go","mask.go"],
 [("mask element","svg_elements.go:maskF, svg.go:Parse"),("mask reference","parse.go:readStyleAttr, parseSelector"),("routing of shapes","parse.go:readStartElement")],
 [("inMask / mask","mask under construction","parse.go:svgCursor"),("Masks","references per style","svg.go:PathStyle.Masks")],["Svg.SvgMasks","Svg.SvgPaths[i].Style.Masks"])

p("C12","Document order, titles, descriptions and root dimensions are preserved",
 "Parsing a well-formed document yields one path per drawn shape in document order, the text of each title and desc element outside definitions in order and complete (entities, CDATA, text split by comments or child elements of other kinds), the root element's viewBox numbers and its width and height strings verbatim. Comments, processing instructions, white space, unknown attributes, namespaced or foreign metadata and nested svg elements change none of these. An input without any element, with unbalanced or truncated tags, or with invalid markup or entities is reported as an error.",
 ["inputs"],"all sequences of document items up to a length bound, in every nesting of the grid",
 "tests only look at the error result",
 ["svg.go","svg_elements.go","parse.go"],
 [("token loop","svg.go:Parse"),("title/desc/svg elements","svg_elements.go:titleF, descF, svgF")],
 [("inTitleText / inDescText","text capture flags","parse.go:svgCursor")],["Svg.Titles","Svg.Descriptions","Svg.ViewBox","Svg.Width","Svg.Height"])

p("C13","Error modes differ only in how unsupported content is reported",
 "Unsupported elements, unknown path commands and unsupported keyword values of fill-rule and stroke properties are skipped in ignore mode and in warn mode, leaving the rest of the document exactly as if they were absent (inside definitions they are reported where they are used); warn mode logs at least one message per such occurrence and the other modes log nothing. In strict mode the same content makes parsing fail with an error. Documents without such content give identical results and no log output in all three modes, and malformed lengths, numbers, colours, transform functions and argument counts are errors in every mode (in number lists, characters that belong to no number act as separators).",
 ["inputs","configurations"],"all documents of a bounded grammar with every placement of up to two unsupported items, in all three modes",
 "all icon tests run in warn mode and never look at the log or compare modes",
 ["parse.go","parse_path.go","svg_elements.go","svg.go"],
 [("mode dispatch","parse.go:handleError, readStartElement; parse_path.go:addSeg; svg_elements.go:useF")],
 [("errorMode","mode of this parse","parse_path.go:pathCursor.errorMode")],["return values of Parse","log output"])

p("C14","No input makes parsing or rendering panic, overflow or hang",
 "For every input text, in every error mode, parsing returns a result or an error in bounded time; it never panics, exhausts the stack or loops forever, whatever the attribute values, element nesting or references (including circular ones). Whatever document parsing accepted can be drawn by every renderer without panic, stack exhaustion or endless loop, and an error is never silently turned into a nil document.",
 ["inputs"],"all short strings over hostile alphabets in every value position, all short element nestings over all element names, all reference graphs over three ids",
 "tests only feed good files and one garbage word",
 ["parse.go","patterns.go","parse_path.go","svg_elements.go","svg.go","renderer/gg/draw.go","renderer/draw2d/draw.go","renderer/rasterx/draw.go"],
 [("bounds guards in value parsers","patterns.go, units.go, parse.go"),("style stack balance","svg.go:Parse, svg_elements.go:useF"),("reference resolution","svg_elements.go:useF; renderer/gg/draw.go:getMask")],
 [("styleStack depth","must equal number of open elements + 1","parse.go:svgCursor.styleStack")],["Parse","Draw"])

p("C15","Results do not depend on how input is delivered; input errors surface",
 "The outcome of parsing depends only on the bytes: any split into reads, including single bytes, empty reads, end of input delivered with or after the last bytes, and reading through a file, gives the same result. If the reader fails at any point with an error, that error is returned, and an input cut off anywhere inside the root element is reported as an error. Reading through a file name releases the file in every outcome and reports a missing file as an error.",
 ["fault_sequences","inputs"],"every split point and every failure point of each document, alone and in pairs",
 "tests read whole files only and never inject a fault",
 ["svg.go"],
 [("token loop and error return","svg.go:Parse"),("file handling","svg.go:ParseFile")],[],["return values of Parse and ParseFile","open file descriptors"])

p("C16","Parses and draws are independent of each other, in sequence and in parallel",
 "The result of a parse or draw is a function of its own arguments: any sequence of parses and draws in one process, and any interleaving of concurrent parses and of concurrent draws (also of the same parsed document), gives each call the result it has alone. The package's default style, identity matrix and other shared values are never modified, and parsed documents never share mutable state: changing one leaves all others unchanged.",
 ["schedules","histories"],"all operation sequences up to a length bound and all interleavings of two and three concurrent calls at input-read and backend-call granularity",
 "tests run sequentially and never compare two results",
 ["svg.go","parse.go","types.go","svg_elements.go","patterns.go","renderer/options.go"],
 [("per-call cursor","svg.go:Parse"),("value copies of styles and gradients","parse.go:pushStyle, patterns.go:localizeGradIfStopClrNil")],
 [("DefaultStyle, Identity, drawFuncs","package-level shared values","types.go, matrix.go, svg_elements.go")],["Parse","Draw"])

p("C17","Matrix operations form the affine algebra their names promise",
 "For all matrices and points, multiplying matrices composes their transforms (the product applied to a point equals the left applied to the right's result), the identity is neutral, the inverse of a non-singular matrix undoes it, and Translate, Scale, Rotate, SkewX and SkewY equal multiplication from the right by the elementary matrix. Vector transforms ignore translation, the fixed-point and path-operation transforms agree with the floating-point transform to 1/64 unit, and the line-width scale is the mean length of the transformed unit axes.",
 ["inputs"],"all matrices over a small entry grid, all pairs (and triples in the thorough tier) and a point grid",
 "no test touches the matrix type",
 ["matrix.go"],
 [("product, inverse, elementary matrices, point maps","matrix.go")],[],["Matrix2D methods"])

p("C18","A path's text form is path data that parses back to the same path",
 "For every path, whether built by hand or parsed, the text form returned by its string method is well-formed absolute path data naming the same operations in the same order with coordinates equal within 1/64 unit, and parsing it gives the path back (where each subpath begins with a move, as in every parsed path). Building operations append exactly the operation they name, clearing empties the path, and printing never changes it.",
 ["inputs"],"all operation sequences up to a length bound over a coordinate grid with negative, fractional and large values",
 "no test prints a path",
 ["path.go","parse_path.go"],
 [("operation formatting","path.go:String, ToSVGPath"),("builders","path.go:Start, Line, QuadBezier, CubeBezier, Stop, Clear")],[],["Path.String","Path.ToSVGPath"])

p("C19","The draw2d renderer paints exactly the parsed paths",
 "Drawing a parsed document on a draw2d context issues, for each path in document order, one fill when it has a fill paint and one stroke on top when it has a stroke paint, on exactly the path's operations (all subpaths, open ones left open) mapped by its transform and the target mapping. Each is painted with its own colour and opacity, fill rule, line cap, join, width and dashes scaled by the mapping; a gradient is painted as its first stop's colour with the path's opacity; paths without paint issue nothing, and nothing of one path leaks into another. Caps and joins draw2d does not have are not claimed.",
 ["inputs","histories"],"all documents with up to three paths over a grid of path shapes, paints, style values, transforms and targets",
 "no test renders anything",
 ["renderer/draw2d/draw.go","renderer/options.go"],
 [("per path drawing","renderer/draw2d/draw.go:drawTransformed, drawTo"),("style mapping","renderer/draw2d/draw.go:toLineCap, toLineJoin, toColor")],
 [("graphic context state","current path, colours, stroke settings","draw2d.GraphicContext")],["calls on draw2d.GraphicContext"])

p("C20","The rasterx renderer paints exactly the parsed paths",
 "Drawing a parsed document on a rasterx dasher scans, for each path in document order, one fill when it has a fill paint and one stroke on top when it has a stroke paint, on exactly the path's operations mapped by its transform and the target mapping. The fill uses the path's fill rule, the stroke always the non-zero rule with the path's own width, miter limit, caps, gap, join and dashes scaled by the mapping, and each scan uses the path's own colour with opacity, or its gradient: objectBoundingBox gradients span the scanned outline's extent on the device, user-space gradients are mapped with the path. Nothing of one path leaks into another.",
 ["inputs","histories"],"all documents with up to three paths over a grid of path shapes, paints, style values, transforms and targets",
 "no test renders anything",
 ["renderer/rasterx/draw.go","renderer/options.go","patterns.go"],
 [("per path drawing","renderer/rasterx/draw.go:drawTransformed"),("style mapping","renderer/rasterx/draw.go:toLineCap, toLineGap, toLineJoin, toRasterxGradient")],
 [("scanner state","accumulated outline, winding, colour","rasterx.Scanner")],["calls on rasterx.Scanner"])

p("C21","The gg renderer paints exactly the parsed paths, inside their masks",
 "Drawing a parsed document on a gg context produces the image obtained by painting, for each path in document order, its fill with the fill paint and then its stroke with the stroke paint on exactly its operations mapped by its transform and the target mapping, with its own fill rule, caps, joins, width, dashes and opacities. A path under a known mask is painted only through that mask's painted content, drawn in the path's user space; paths without a mask are painted unmasked even after masked ones. Of several masks only the innermost applies; a stroke gradient is painted as its first stop's colour; mitred joins are drawn bevelled. Paths without paint leave no trace.",
 ["inputs","histories"],"all documents with up to three paths over a grid of path shapes, paints, style values, masks, transforms and targets",
 "no test renders anything",
 ["renderer/gg/draw.go","renderer/options.go"],
 [("per path drawing","renderer/gg/draw.go:drawTransformed, drawTo"),("masking","renderer/gg/draw.go:getMask"),("style mapping","renderer/gg/draw.go:toLineCap, toLineJoin, toColor, toGradient")],
 [("gg context state","current path, mask, patterns","gg.Context")],["pixels of gg.Context"])

p("C22","Target maps the viewBox onto the requested rectangle; opacity scales paint",
 "With a target rectangle, every renderer maps the document's viewBox onto exactly that rectangle: the viewBox's upper left corner to the rectangle's, and its width and height to the rectangle's width and height, after all of a path's own transforms. Without a target the document is drawn at its own coordinates. The opacity option multiplies the opacity of every fill and stroke; the last given option of each kind wins and options do not affect later draws.",
 ["inputs","configurations"],"all combinations of viewBox, target rectangle, opacity, option order and path transform of a grid, in all renderers",
 "no test renders anything",
 ["renderer/options.go","renderer/draw2d/draw.go","renderer/rasterx/draw.go","renderer/gg/draw.go"],
 [("option evaluation","renderer/options.go:Options, targetOption.apply, Opacity.apply"),("use in renderers","renderer/*/draw.go:drawTransformed")],[],["renderer.Options","backend calls"])

p("C23","Drawing never modifies the document and is repeatable",
 "Drawing a parsed document with any renderer and options leaves the document unchanged in every observable part, so that drawing it again, with another renderer, or concurrently gives the same output as drawing a freshly parsed copy. Drawing a document equals drawing its paths one after another as separate documents on the same context, and what was drawn on the context before does not influence how later paths are drawn.",
 ["histories","inputs"],"all sequences of up to three draws over all documents of a grid, renderers and options",
 "no test renders anything",
 ["renderer/draw2d/draw.go","renderer/rasterx/draw.go","renderer/gg/draw.go","renderer/options.go","patterns.go"],
 [("copies of gradients before adaptation","renderer/rasterx/draw.go, patterns.go:ApplyPathExtent"),("state set for every path","renderer/*/draw.go:drawTransformed")],
 [("Svg value","shared by draws","svg.go:Svg")],["Svg fields before/after","backend calls"])

p("C24","Values mean what their exported fields say, however they were made",
 "A document is described completely by its exported fields: a copy of them, or a document assembled by hand from equal paths, styles, masks and viewBox (also with paths built by the building methods), is drawn by every renderer exactly like the parsed document, and after changing a field of a document, whether or not it was drawn before, it is drawn like a document parsed with that value. The colour of a pattern is the plain colour itself, that of a gradient its first stop that has a colour, and black otherwise; a plain colour keeps the four components it was made of. Every cap, join and gap mode has the name of its constant, and no other value has one of these names.",
 ["inputs","histories"],"all documents of a grid copied and edited in several ways between draws, all mode values, colours and stop lists up to a length",
 "no test renders anything or builds a document by hand",
 ["types.go","patterns.go","path.go","svg.go","renderer/draw2d/draw.go","renderer/rasterx/draw.go","renderer/gg/draw.go"],
 [("document fields","svg.go:Svg, SvgMask; types.go:PathStyle"),("pattern colours","patterns.go:GetColor, NewPlainColor"),("mode names","types.go:String"),("use of fields","renderer/*/draw.go:drawTransformed")],
 [("Svg value","edited between draws","svg.go:Svg")],["backend pictures","GetColor","String"])

here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
