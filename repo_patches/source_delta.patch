From 9c29b8d0eac2fb68a8c099243bad0344229fd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:21 +0000
Subject: [PATCH 01/56] fix: start a new subpath when drawing continues after a
 closepath

---
 parse_path.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parse_path.go b/parse_path.go
index d87d75f..8588284 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"math"
+	"strings"
 	"unicode"
 
 	"golang.org/x/image/math/fixed"
@@ -193,6 +194,13 @@ func (c *pathCursor) addSeg(segString string) error {
 	l := len(c.points)
 	k := segString[0]
 	rel := false
+	if n := len(c.path); n > 0 && strings.IndexByte("lLvVhHqQtTcCsSaA", k) >= 0 {
+		if _, closed := c.path[n-1].(OpClose); closed {
+			// Drawing after a closepath begins a new subpath at the same start point
+			c.path.Start(fixed.Point26_6{X: fixed.Int26_6((c.pathStartX + c.curX) * 64), Y: fixed.Int26_6((c.pathStartY + c.curY) * 64)})
+			c.inPath = true
+		}
+	}
 	switch k {
 	case 'z':
 		fallthrough
-- 
2.43.0


From c3f84e456ca8d83191dc870d5690af41882cac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:08 +0000
Subject: [PATCH 02/56] fix: read each arc argument group and handle degenerate
 arcs

---
 parse_path.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/parse_path.go b/parse_path.go
index 8588284..00609d0 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -406,7 +406,18 @@ func (c *pathCursor) ellipseAt(cx, cy, rx, ry float64) {
 
 // addArcFromA adds a path of an arc element to the svgCursor path to the pathCursor
 func (c *pathCursor) addArcFromA(points []float64) {
+	points[0], points[1] = math.Abs(points[0]), math.Abs(points[1])
+	if points[5] == c.placeX && points[6] == c.placeY {
+		// No arc between identical points
+		return
+	}
+	if points[0] == 0 || points[1] == 0 {
+		// A zero radius gives a straight line
+		c.path.Line(toFixedP(points[5]+c.curX, points[6]+c.curY))
+		c.placeX, c.placeY = points[5], points[6]
+		return
+	}
 	cx, cy := findEllipseCenter(&points[0], &points[1], points[2]*math.Pi/180, c.placeX,
 		c.placeY, points[5], points[6], points[4] == 0, points[3] == 0)
-	c.placeX, c.placeY = c.path.addArc(c.points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
+	c.placeX, c.placeY = c.path.addArc(points, cx+c.curX, cy+c.curY, c.placeX+c.curX, c.placeY+c.curY)
 }
-- 
2.43.0


From 8ee5401c028a88d77b885d76bb633faf0cf17e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:40 +0000
Subject: [PATCH 03/56] fix: accept arc flags without separators

---
 parse_path.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index 00609d0..ac2f0eb 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"log"
 	"math"
+	"regexp"
 	"strings"
 	"unicode"
 
@@ -166,6 +167,30 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	return nil
 }
 
+var numberRegexp = regexp.MustCompile(`^[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?`)
+
+// separateArcFlags puts a space after each arc argument. The fourth and fifth argument
+// of a group are flags of a single digit, which need no separator after them.
+func separateArcFlags(args string) string {
+	var out strings.Builder
+	for n := 0; len(args) > 0; {
+		size := len(numberRegexp.FindString(args))
+		if size == 0 {
+			out.WriteByte(args[0])
+			args = args[1:]
+			continue
+		}
+		if n%7 == 3 || n%7 == 4 {
+			size = 1
+		}
+		out.WriteString(args[:size])
+		out.WriteByte(' ')
+		args = args[size:]
+		n++
+	}
+	return out.String()
+}
+
 func (c *pathCursor) reflectControlQuad() {
 	switch c.lastKey {
 	case 'q', 'Q', 'T', 't':
@@ -188,11 +213,15 @@ func (c *pathCursor) reflectControlCube() {
 // in the svgCursor's Path
 func (c *pathCursor) addSeg(segString string) error {
 	// Parse the string describing the numeric points in SVG format
-	if err := c.getPoints(segString[1:]); err != nil {
+	k := segString[0]
+	args := segString[1:]
+	if k == 'a' || k == 'A' {
+		args = separateArcFlags(args)
+	}
+	if err := c.getPoints(args); err != nil {
 		return err
 	}
 	l := len(c.points)
-	k := segString[0]
 	rel := false
 	if n := len(c.path); n > 0 && strings.IndexByte("lLvVhHqQtTcCsSaA", k) >= 0 {
 		if _, closed := c.path[n-1].(OpClose); closed {
-- 
2.43.0


From c4421dc74b028719700a1a334e182608bb535d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:03 +0000
Subject: [PATCH 04/56] fix: read exponents with E, plus sign and following dot

---
 parse_path.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parse_path.go b/parse_path.go
index ac2f0eb..63ed7fa 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -59,7 +59,7 @@ func (c *pathCursor) compilePath(svgPath string) error {
 	c.init()
 	lastIndex := -1
 	for i, v := range svgPath {
-		if unicode.IsLetter(v) && v != 'e' {
+		if unicode.IsLetter(v) && v != 'e' && v != 'E' {
 			if lastIndex != -1 {
 				if err := c.addSeg(svgPath[lastIndex:i]); err != nil {
 					return err
@@ -115,6 +115,10 @@ func (c *pathCursor) readFloat(numStr string) error {
 	last := 0
 	isFirst := true
 	for i, n := range numStr {
+		if n == 'e' || n == 'E' {
+			// An exponent has no fraction: a dot after it starts the next number
+			isFirst = false
+		}
 		if n == '.' {
 			if isFirst {
 				isFirst = false
@@ -143,7 +147,7 @@ func (c *pathCursor) getPoints(dataPoints string) error {
 	c.points = c.points[0:0]
 	lr := ' '
 	for i, r := range dataPoints {
-		if !unicode.IsNumber(r) && r != '.' && !(r == '-' && lr == 'e') && r != 'e' {
+		if !unicode.IsNumber(r) && r != '.' && !((r == '-' || r == '+') && (lr == 'e' || lr == 'E')) && r != 'e' && r != 'E' {
 			if lastIndex != -1 {
 				if err := c.readFloat(dataPoints[lastIndex:i]); err != nil {
 					return err
-- 
2.43.0


From b6431346e1b5c00f5a867375b848cd15746bfeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:10 +0000
Subject: [PATCH 05/56] fix: draw exactly the points of a polyline or polygon

---
 svg_elements.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 93ba5f9..b01e127 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -206,6 +206,7 @@ func lineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polylineF(c *svgCursor, attrs []xml.Attr) error {
 	var err error
+	c.points = c.points[:0]
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "points":
@@ -218,7 +219,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Start(fixed.Point26_6{
 			X: fixed.Int26_6((c.points[0] + c.curX) * 64),
 			Y: fixed.Int26_6((c.points[1] + c.curY) * 64),
@@ -235,7 +236,7 @@ func polylineF(c *svgCursor, attrs []xml.Attr) error {
 
 func polygonF(c *svgCursor, attrs []xml.Attr) error {
 	err := polylineF(c, attrs)
-	if len(c.points) > 4 {
+	if len(c.points) >= 4 {
 		c.path.Stop(true)
 	}
 	return err
-- 
2.43.0


From 68d2b2a8be053431e18ee58286d2e4060e78420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:47 +0000
Subject: [PATCH 06/56] fix: make matrix product, Translate and Scale compose

---
 matrix.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/matrix.go b/matrix.go
index 755d110..bc0ccd2 100644
--- a/matrix.go
+++ b/matrix.go
@@ -73,8 +73,8 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 		B: a.B*b.A + a.D*b.B,
 		C: a.A*b.C + a.C*b.D,
 		D: a.B*b.C + a.D*b.D,
-		E: a.A*b.E + a.C*b.F + a.E*b.A,
-		F: a.B*b.E + a.D*b.F + a.F*b.D,
+		E: a.A*b.E + a.C*b.F + a.E,
+		F: a.B*b.E + a.D*b.F + a.F,
 	}
 }
 
@@ -108,11 +108,11 @@ func (a Matrix2D) TransformVector(x1, y1 float64) (x2, y2 float64) {
 func (a Matrix2D) Scale(x, y float64) Matrix2D {
 	return Matrix2D{
 		A: a.A * x,
-		B: a.B * y,
-		C: a.C * x,
+		B: a.B * x,
+		C: a.C * y,
 		D: a.D * y,
-		E: a.E * x,
-		F: a.F * y,
+		E: a.E,
+		F: a.F,
 	}
 }
 
@@ -147,8 +147,8 @@ func (a Matrix2D) Translate(x, y float64) Matrix2D {
 		B: a.B,
 		C: a.C,
 		D: a.D,
-		E: a.E + x,
-		F: a.F + y,
+		E: a.A*x + a.C*y + a.E,
+		F: a.B*x + a.D*y + a.F,
 	}
 }
 
-- 
2.43.0


From 0a148809485b3de856fa27d178ad2a87aa0b31f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:47 +0000
Subject: [PATCH 07/56] fix: compute LineWidthScale from the transformed axes

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index bc0ccd2..c1b84c7 100644
--- a/matrix.go
+++ b/matrix.go
@@ -215,9 +215,9 @@ func (t Matrix2D) CubicTo(m OpCubicTo) (fixed.Point26_6, fixed.Point26_6, fixed.
 	return t.TFixed(fixed.Point26_6(m[0])), t.TFixed(fixed.Point26_6(m[1])), t.TFixed(fixed.Point26_6(m[2]))
 }
 
-// LineWidthScale returns the mean of the horizontal and vertical scaling members.
+// LineWidthScale returns the mean of the lengths of the transformed unit axes.
 // It may be used when scaling line widths with a rasterizer that does not support
 // scaling a line's horizontal and vertical aspects independently.
 func (t Matrix2D) LineWidthScale() float64 {
-	return (t.A + t.D) / 2
+	return (math.Hypot(t.A, t.B) + math.Hypot(t.C, t.D)) / 2
 }
-- 
2.43.0


From 3e39fef9408ca806c68f54aad8e4f20feb78a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:29 +0000
Subject: [PATCH 08/56] fix: default the focal radius of radial gradients to 0%

---
 svg_elements.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svg_elements.go b/svg_elements.go
index b01e127..f30cad2 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -336,7 +336,7 @@ func radialGradientF(c *svgCursor, attrs []xml.Attr) error {
 	c.grad = &Gradient{Bounds: c.svg.ViewBox, Matrix: Identity}
 	var setFx, setFy bool
 	var err error
-	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "50%"} // default values
+	directionStrings := [6]string{"50%", "50%", "50%", "50%", "50%", "0%"} // default values
 	for _, attr := range attrs {
 		switch attr.Name.Local {
 		case "id":
-- 
2.43.0


From 5489f68a7a2a97de42beb9882451ebdddf54c5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:47 +0000
Subject: [PATCH 09/56] fix: resolve percentage stroke widths against the
 viewBox diagonal

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a45309f..652e5a2 100644
--- a/parse.go
+++ b/parse.go
@@ -247,7 +247,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Join.MiterLimit = fToFixed(mLimit)
 	case "stroke-width":
-		width, err := c.parseUnit(v, widthPercentage)
+		width, err := c.parseUnit(v, diagPercentage)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From ebe0cbf4bfa048477a78d2a3be74c6d100a686e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:48 +0000
Subject: [PATCH 10/56] fix: keep the root dimensions when svg elements are
 nested

---
 parse.go        | 1 +
 svg_elements.go | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/parse.go b/parse.go
index 652e5a2..5c14c2d 100644
--- a/parse.go
+++ b/parse.go
@@ -19,6 +19,7 @@ type (
 		styleStack                                      []PathStyle
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
+		inRoot                                          bool
 		currentDef                                      []definition
 		mask                                            *SvgMask
 	}
diff --git a/svg_elements.go b/svg_elements.go
index f30cad2..f81690e 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -36,6 +36,11 @@ var drawFuncs = map[string]svgFunc{
 }
 
 func svgF(c *svgCursor, attrs []xml.Attr) error {
+	if c.inRoot {
+		// Only the outermost svg element describes the document
+		return nil
+	}
+	c.inRoot = true
 	c.svg.ViewBox.X = 0
 	c.svg.ViewBox.Y = 0
 	c.svg.ViewBox.W = 0
-- 
2.43.0


From a0eff32d0aa79c6e100cb666bd5e4124769f442d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:51 +0000
Subject: [PATCH 11/56] fix: let stroke-dasharray none reset inherited dashes

---
 parse.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/parse.go b/parse.go
index 5c14c2d..9960cab 100644
--- a/parse.go
+++ b/parse.go
@@ -7,6 +7,7 @@ import (
 	"log"
 	"math"
 	"strings"
+	"unicode"
 
 	"golang.org/x/image/math/fixed"
 )
@@ -260,19 +261,21 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.DashOffset = dashOffset
 	case "stroke-dasharray":
-		if v != "none" {
-			dashes := splitOnCommaOrSpace(v)
-			dList := make([]float64, len(dashes))
-			for i, dstr := range dashes {
-				d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
-				if err != nil {
-					return err
-				}
-				dList[i] = d
-			}
-			curStyle.Dash.Dash = dList
+		if v == "none" {
+			// switch off dashes inherited from the ancestors
+			curStyle.Dash.Dash = nil
 			break
 		}
+		dashes := splitOnCommaOrSpace(v)
+		dList := make([]float64, len(dashes))
+		for i, dstr := range dashes {
+			d, err := c.parseUnit(strings.TrimSpace(dstr), diagPercentage)
+			if err != nil {
+				return err
+			}
+			dList[i] = d
+		}
+		curStyle.Dash.Dash = dList
 	case "opacity", "stroke-opacity", "fill-opacity":
 		op, err := parseBasicFloat(v)
 		if err != nil {
@@ -331,11 +334,11 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	return nil
 }
 
-// splitOnCommaOrSpace returns a list of strings after splitting the input on comma and space delimiters
+// splitOnCommaOrSpace returns a list of strings after splitting the input on comma and white space delimiters
 func splitOnCommaOrSpace(s string) []string {
 	return strings.FieldsFunc(s,
 		func(r rune) bool {
-			return r == ',' || r == ' '
+			return r == ',' || unicode.IsSpace(r)
 		})
 }
 
-- 
2.43.0


From 7aac72b485183363b5baa5fe135e41b9b15c8828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:52 +0000
Subject: [PATCH 12/56] fix: limit opacity values to the range 0 to 1

---
 parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse.go b/parse.go
index 9960cab..ce30e67 100644
--- a/parse.go
+++ b/parse.go
@@ -281,6 +281,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
+		op = math.Max(0, math.Min(1, op))
 		if k != "stroke-opacity" {
 			curStyle.FillOpacity *= op
 		}
-- 
2.43.0


From 5b5b2f1dcee51d6b407255fbef81eaae35856f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:53 +0000
Subject: [PATCH 13/56] fix: let style declarations override presentation
 attributes

---
 parse.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/parse.go b/parse.go
index ce30e67..f88559e 100644
--- a/parse.go
+++ b/parse.go
@@ -308,27 +308,37 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // for fill. Note that this parses both the contents of a style attribute plus
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
-	var pairs []string
+	var pairs [][2]string
+	index := make(map[string]int, len(attrs))
+	set := func(k, v string) {
+		k, v = strings.ToLower(strings.TrimSpace(k)), strings.TrimSpace(v)
+		if i, ok := index[k]; ok {
+			pairs[i][1] = v
+			return
+		}
+		index[k] = len(pairs)
+		pairs = append(pairs, [2]string{k, v})
+	}
+	style := ""
 	for _, attr := range attrs {
 		switch strings.ToLower(attr.Name.Local) {
 		case "style":
-			pairs = append(pairs, strings.Split(attr.Value, ";")...)
+			style = attr.Value
 		default:
-			pairs = append(pairs, attr.Name.Local+":"+attr.Value)
+			set(attr.Name.Local, attr.Value)
+		}
+	}
+	// Style declarations override the presentation attributes, wherever the style attribute is placed
+	for _, decl := range strings.Split(style, ";") {
+		if k, v, ok := strings.Cut(decl, ":"); ok {
+			set(k, v)
 		}
 	}
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
 	for _, pair := range pairs {
-		kv := strings.Split(pair, ":")
-		if len(kv) >= 2 {
-			k := strings.ToLower(kv[0])
-			k = strings.TrimSpace(k)
-			v := strings.TrimSpace(kv[1])
-			err := c.readStyleAttr(&curStyle, k, v)
-			if err != nil {
-				return err
-			}
+		if err := c.readStyleAttr(&curStyle, pair[0], pair[1]); err != nil {
+			return err
 		}
 	}
 	c.styleStack = append(c.styleStack, curStyle) // Push style onto stack
-- 
2.43.0


From 41f3ce4949cb125bebca927671b6c9db437eacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:54 +0000
Subject: [PATCH 14/56] fix: keep the mask lists of siblings apart

---
 parse.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index f88559e..241805d 100644
--- a/parse.go
+++ b/parse.go
@@ -299,7 +299,12 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		if err != nil {
 			return err
 		}
-		curStyle.Masks = append(curStyle.Masks, id)
+		if id == "" {
+			break // no mask
+		}
+		// The inherited list is shared with the siblings, so do not append in place
+		masks := curStyle.Masks
+		curStyle.Masks = append(masks[:len(masks):len(masks)], id)
 	}
 	return nil
 }
-- 
2.43.0


From 9a3a69f3c63c0b97aab04e6c0852431990a377ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:44 +0000
Subject: [PATCH 15/56] fix: reject malformed colours and limit rgb components

---
 patterns.go | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/patterns.go b/patterns.go
index fe7f40f..01c5d5f 100644
--- a/patterns.go
+++ b/patterns.go
@@ -90,7 +90,7 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 		}
 		return toOptColor(NewPlainColor(cvals[0], cvals[1], cvals[2], 0xFF)), nil
 	}
-	if colorStr[0] == '#' {
+	if strings.HasPrefix(colorStr, "#") {
 		r, g, b, err := parseSVGColorNum(colorStr)
 		if err != nil {
 			return optionnalColor{}, err
@@ -101,25 +101,34 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 }
 
 func parseColorValue(v string) (uint8, error) {
-	if v[len(v)-1] == '%' {
-		n, err := strconv.Atoi(strings.TrimSpace(v[:len(v)-1]))
-		if err != nil {
-			return 0, err
-		}
-		return uint8(n * 0xFF / 100), nil
+	v = strings.TrimSpace(v)
+	max := 0xFF
+	if strings.HasSuffix(v, "%") {
+		v = strings.TrimSpace(strings.TrimSuffix(v, "%"))
+		max = 100
+	}
+	n, err := strconv.Atoi(v)
+	if err != nil {
+		return 0, err
 	}
-	n, err := strconv.Atoi(strings.TrimSpace(v))
-	if n > 255 {
-		n = 255
+	if n < 0 {
+		n = 0
 	}
-	return uint8(n), err
+	if n > max {
+		n = max
+	}
+	return uint8(n * 0xFF / max), nil
 }
 
 // parseSVGColorNum reads the SFG color string e.g. #FBD9BD
 func parseSVGColorNum(colorStr string) (r, g, b uint8, err error) {
 	colorStr = strings.TrimPrefix(colorStr, "#")
 	var t uint64
-	if len(colorStr) != 6 {
+	if len(colorStr) != 3 && len(colorStr) != 6 {
+		err = errParamMismatch
+		return
+	}
+	if len(colorStr) == 3 {
 		// SVG specs say duplicate characters in case of 3 digit hex number
 		colorStr = string([]byte{
 			colorStr[0], colorStr[0],
-- 
2.43.0


From 8eaa75120d7729c1e5abe1a94676985f0632d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:08 +0000
Subject: [PATCH 16/56] fix: require the closing parenthesis of rgb colours

---
 patterns.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/patterns.go b/patterns.go
index 01c5d5f..380f8a8 100644
--- a/patterns.go
+++ b/patterns.go
@@ -75,9 +75,9 @@ func parseSVGColor(colorStr string) (optionnalColor, error) {
 	}
 	cStr := strings.TrimPrefix(colorStr, "rgb(")
 	if cStr != colorStr {
-		cStr := strings.TrimSuffix(cStr, ")")
+		cStr, closed := strings.CutSuffix(cStr, ")")
 		vals := strings.Split(cStr, ",")
-		if len(vals) != 3 {
+		if !closed || len(vals) != 3 {
 			return toOptColor(PlainColor{}), errParamMismatch
 		}
 		var cvals [3]uint8
-- 
2.43.0


From 7e3f101a19cb7d143bbe33ccb17b85459d188e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:09 +0000
Subject: [PATCH 17/56] fix: multiply the functions of a transform list from
 left to right

---
 parse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 241805d..bea1420 100644
--- a/parse.go
+++ b/parse.go
@@ -111,8 +111,9 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
 	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
-	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left.
-	for i := len(ts) - 1; i >= 0; i-- {
+	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
+	// which means that their matrices are multiplied from left to right.
+	for i := range ts {
 		t := strings.TrimSpace(ts[i])
 		if len(t) == 0 {
 			continue
-- 
2.43.0


From 2dc884060270d950138d94f77943261e86d49284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:09 +0000
Subject: [PATCH 18/56] fix: default the second translate argument to zero

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index bea1420..822a970 100644
--- a/parse.go
+++ b/parse.go
@@ -62,7 +62,7 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 		}
 	case "translate":
 		if ln == 1 {
-			m1 = m1.Translate(c.points[0], c.points[0])
+			m1 = m1.Translate(c.points[0], 0)
 		} else if ln == 2 {
 			m1 = m1.Translate(c.points[0], c.points[1])
 		} else {
-- 
2.43.0


From 05d5585f403e9f2573264460b001e82f09516659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:10 +0000
Subject: [PATCH 19/56] fix: allow commas between transform functions

---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 822a970..dc3ebd9 100644
--- a/parse.go
+++ b/parse.go
@@ -115,6 +115,9 @@ func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
 	// which means that their matrices are multiplied from left to right.
 	for i := range ts {
 		t := strings.TrimSpace(ts[i])
+		if i > 0 {
+			t = strings.TrimLeft(t, ", \t\r\n")
+		}
 		if len(t) == 0 {
 			continue
 		}
-- 
2.43.0


From a69d21e3e0558e13cd47debcb707d675a1cd9dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 20/56] fix: read gradientTransform independently of the
 surrounding transforms

---
 parse.go    | 6 +++---
 patterns.go | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index dc3ebd9..4e47009 100644
--- a/parse.go
+++ b/parse.go
@@ -107,9 +107,9 @@ func (c *svgCursor) readTransformAttr(m1 Matrix2D, k string) (Matrix2D, error) {
 	return m1, nil
 }
 
-func (c *svgCursor) parseTransform(v string) (Matrix2D, error) {
+// parseTransform multiplies m1 by the functions of the transform list v
+func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 	ts := strings.Split(v, ")")
-	m1 := c.styleStack[len(c.styleStack)-1].Transform
 	// From the docs at https://devdoc.net/web/developer.mozilla.org/en-US/docs/Web/SVG/Attribute/transform.html:
 	// The items in the transform list are separated by whitespace and/or commas, and are applied from right to left,
 	// which means that their matrices are multiplied from left to right.
@@ -293,7 +293,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 			curStyle.LineOpacity *= op
 		}
 	case "transform":
-		m, err := c.parseTransform(v)
+		m, err := c.parseTransform(curStyle.Transform, v)
 		if err != nil {
 			return err
 		}
diff --git a/patterns.go b/patterns.go
index 380f8a8..a2fa09a 100644
--- a/patterns.go
+++ b/patterns.go
@@ -283,7 +283,7 @@ func (c *svgCursor) readGradURL(v string, defaultColor Pattern) (grad Gradient,
 func (c *svgCursor) readGradAttr(attr xml.Attr) (err error) {
 	switch attr.Name.Local {
 	case "gradientTransform":
-		c.grad.Matrix, err = c.parseTransform(attr.Value)
+		c.grad.Matrix, err = c.parseTransform(Identity, attr.Value)
 	case "gradientUnits":
 		switch strings.TrimSpace(attr.Value) {
 		case "userSpaceOnUse":
-- 
2.43.0


From 91e9cec651848918ef3552f53af88952cf20168b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:19 +0000
Subject: [PATCH 21/56] fix: map bounding box gradients to the origin of the
 path extent

---
 patterns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterns.go b/patterns.go
index a2fa09a..3a579d8 100644
--- a/patterns.go
+++ b/patterns.go
@@ -201,7 +201,7 @@ func (g *Gradient) ApplyPathExtent(extent fixed.Rectangle26_6) Matrix2D {
 
 		// units in Direction are fraction, so
 		// we apply bounds
-		return Identity.Scale(g.Bounds.W, g.Bounds.H).Mult(g.Matrix)
+		return Identity.Translate(g.Bounds.X, g.Bounds.Y).Scale(g.Bounds.W, g.Bounds.H).Mult(g.Matrix)
 	}
 	// units in Direction are already scaled to the view box
 	// just return the gradient matrix
-- 
2.43.0


From 94243a0a2bdd5255adeb3490d32ad9102535c9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:54 +0000
Subject: [PATCH 22/56] fix: map the viewBox onto the target after the path
 transforms

---
 renderer/draw2d/draw.go  | 2 +-
 renderer/gg/draw.go      | 2 +-
 renderer/options.go      | 3 ++-
 renderer/rasterx/draw.go | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 4c51a27..f44d74f 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -73,7 +73,7 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		var fr draw2d.FillRule
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c586d20..0b58a09 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, svgp.Style.Transform.Mult(opt.Target), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
 			return err
 		}
 	}
diff --git a/renderer/options.go b/renderer/options.go
index cc9b06f..8097ce4 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -30,7 +30,7 @@ type targetOption struct {
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
 	scaleW := o.W / s.ViewBox.W
 	scaleH := o.H / s.ViewBox.H
-	r.Target = svg.Identity.Translate(o.X-s.ViewBox.X, o.Y-s.ViewBox.Y).Scale(scaleW, scaleH)
+	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
 // Target specifies the rectangle to draw within.
@@ -42,6 +42,7 @@ func Target(x, y, w, h float64) RenderOption {
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
 		Opacity: 1,
+		Target:  svg.Identity,
 	}
 	for _, o := range opts {
 		o.apply(s, r)
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index b49b9cb..97293ca 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -129,7 +129,7 @@ func toRasterxGradient(grad svg.Gradient) rasterx.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderOptions) {
-	m := svgp.Style.Transform.Mult(opt.Target)
+	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
 		filler := &gc.Filler
-- 
2.43.0


From 1bc1e42f19860918458be40eaae47b1d5c5c52ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:55 +0000
Subject: [PATCH 23/56] fix: do not divide by an empty viewBox

---
 renderer/options.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/renderer/options.go b/renderer/options.go
index 8097ce4..1e1f711 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -28,8 +28,13 @@ type targetOption struct {
 }
 
 func (o targetOption) apply(s *svg.Svg, r *RenderOptions) {
-	scaleW := o.W / s.ViewBox.W
-	scaleH := o.H / s.ViewBox.H
+	scaleW, scaleH := 1.0, 1.0
+	if s.ViewBox.W != 0 {
+		scaleW = o.W / s.ViewBox.W
+	}
+	if s.ViewBox.H != 0 {
+		scaleH = o.H / s.ViewBox.H
+	}
 	r.Target = svg.Identity.Translate(o.X, o.Y).Scale(scaleW, scaleH).Translate(-s.ViewBox.X, -s.ViewBox.Y)
 }
 
-- 
2.43.0


From 8211c99e2d46503ecac7c6d5d27fb65cc74f7394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:56 +0000
Subject: [PATCH 24/56] fix: print cubic operations with a single command
 letter

---
 path.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/path.go b/path.go
index 1c72359..1c3d8c8 100644
--- a/path.go
+++ b/path.go
@@ -47,7 +47,7 @@ func (op OpQuadTo) String() string {
 }
 
 func (op OpCubicTo) String() string {
-	return "C" + fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
 		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
 }
 
-- 
2.43.0


From 7666063b14fe7bbf6eb377e374e920d51b5bd9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:56 +0000
Subject: [PATCH 25/56] fix: reject NaN and Inf as lengths

---
 units.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/units.go b/units.go
index a3d1cbd..2ebb5ec 100644
--- a/units.go
+++ b/units.go
@@ -43,7 +43,11 @@ func findUnit(s string) (u unite, value string) {
 func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
 	out, err := strconv.ParseFloat(value, 64)
-	return out * toPx[unite], unite == Perc, err
+	out *= toPx[unite]
+	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0)) {
+		err = errParamMismatch // not a number in SVG
+	}
+	return out, unite == Perc, err
 }
 
 type percentageReference uint8
-- 
2.43.0


From 7ce7bb3cea0cad969108921a079d9e4407cb42f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 26/56] fix: leave the path state alone when ignoring a command

---
 parse_path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse_path.go b/parse_path.go
index 63ed7fa..9b6188a 100644
--- a/parse_path.go
+++ b/parse_path.go
@@ -417,6 +417,7 @@ func (c *pathCursor) addSeg(segString string) error {
 		if c.errorMode == WarnErrorMode {
 			log.Println("Ignoring svg command " + string(k))
 		}
+		return nil
 	}
 	// So we know how to extend some segment types
 	c.lastKey = k
-- 
2.43.0


From add3ef00f7a31ab1d6a1a4b48409505527e6f543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 27/56] fix: draw all subpaths of a path with draw2d

---
 renderer/draw2d/draw.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f44d74f..f718fc3 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -20,8 +20,6 @@ func Draw(gc draw2d.GraphicContext, s *svg.Svg, opts ...renderer.RenderOption) {
 func drawTo(gc draw2d.GraphicContext, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.Close()
-		gc.BeginPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
 	case svg.OpLineTo:
@@ -73,6 +71,9 @@ func toGradient(g svg.Gradient, opacity float64) color.Color {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.RenderOptions) {
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		return
+	}
 	m := opt.Target.Mult(svgp.Style.Transform)
 
 	if svgp.Style.FillerColor != nil {
@@ -101,6 +102,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
 	}
 
+	gc.BeginPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 36bb7cd28d3e98e6f6590a9cc7559ef236dfca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 28/56] fix: scale dashes and skip patterns that can not be
 drawn

---
 renderer/draw2d/draw.go |  2 +-
 renderer/gg/draw.go     |  5 +++--
 renderer/options.go     | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index f718fc3..597c742 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -99,7 +99,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetLineDash(svgp.Style.Dash.Dash, svgp.Style.Dash.DashOffset)
+		gc.SetLineDash(renderer.Dashes(svgp.Style.Dash, m.LineWidthScale()))
 	}
 
 	gc.BeginPath()
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0b58a09..fe3ff87 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -130,8 +130,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
-		gc.SetDash(svgp.Style.Dash.Dash...)
-		gc.SetDashOffset(svgp.Style.Dash.DashOffset)
+		dashes, dashOffset := renderer.Dashes(svgp.Style.Dash, m.LineWidthScale())
+		gc.SetDash(dashes...)
+		gc.SetDashOffset(dashOffset)
 	}
 
 	for _, op := range svgp.Path {
diff --git a/renderer/options.go b/renderer/options.go
index 1e1f711..3232e6f 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -43,6 +43,30 @@ func Target(x, y, w, h float64) RenderOption {
 	return targetOption{X: x, Y: y, W: w, H: h}
 }
 
+// Dashes returns the dash pattern and offset of the style multiplied by scale,
+// or none if the pattern can not be drawn. Patterns of odd length are repeated
+// to get an even number of values.
+func Dashes(dash svg.DashOptions, scale float64) ([]float64, float64) {
+	sum := 0.0
+	for _, d := range dash.Dash {
+		if d < 0 {
+			return nil, 0
+		}
+		sum += d
+	}
+	if sum*scale <= 0 {
+		return nil, 0
+	}
+	dashes := make([]float64, 0, 2*len(dash.Dash))
+	for _, d := range dash.Dash {
+		dashes = append(dashes, d*scale)
+	}
+	if len(dashes)%2 != 0 {
+		dashes = append(dashes, dashes...)
+	}
+	return dashes, dash.DashOffset * scale
+}
+
 // Options apply the options.
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
-- 
2.43.0


From a1b0b1aaa789032c1616afa16adbdb9279ee2456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 29/56] fix: stroke with dashes and the non-zero rule with
 rasterx

---
 renderer/rasterx/draw.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 97293ca..9e1118e 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,7 +16,7 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Stroker, op svg.Operation, m svg.Matrix2D) {
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		gc.Stop(false)
@@ -152,15 +152,18 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		filler.Draw()
 	}
 	if svgp.Style.LinerColor != nil {
-		stroker := &gc.Stroker
+		stroker := gc
 		stroker.Clear()
+		stroker.SetWinding(true)
+		dashes, dashOffset := renderer.Dashes(svgp.Style.Dash, m.LineWidthScale())
 		stroker.SetStroke(
 			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
 			svgp.Style.Join.MiterLimit,
 			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
 			toLineGap(svgp.Style.Join.LineGap),
-			toLineJoin(svgp.Style.Join.LineJoin))
+			toLineJoin(svgp.Style.Join.LineJoin),
+			dashes, dashOffset)
 
 		for _, op := range svgp.Path {
 			drawToStroker(stroker, op, m)
-- 
2.43.0


From 3a6c2f78dcb322d59a86257ae16122553e431999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:31 +0000
Subject: [PATCH 30/56] fix: evaluate user space gradients in user space with
 rasterx

---
 renderer/rasterx/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 9e1118e..7f44a0b 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -147,7 +147,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(filler.GetPathExtent())
 			g := toRasterxGradient(color)
-			filler.SetColor(g.GetColorFunction(svgp.Style.FillOpacity * opt.Opacity))
+			filler.SetColor(g.GetColorFunctionUS(svgp.Style.FillOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		filler.Draw()
 	}
@@ -176,7 +176,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		case svg.Gradient:
 			_ = color.ApplyPathExtent(stroker.GetPathExtent())
 			g := toRasterxGradient(color)
-			stroker.SetColor(g.GetColorFunction(svgp.Style.LineOpacity * opt.Opacity))
+			stroker.SetColor(g.GetColorFunctionUS(svgp.Style.LineOpacity*opt.Opacity, rasterx.Matrix2D(m)))
 		}
 		stroker.Draw()
 	}
-- 
2.43.0


From 1a4040045963cd0488ccd2d708b29f0a3591e910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:50 +0000
Subject: [PATCH 31/56] fix: leave open subpaths open with gg

---
 renderer/gg/draw.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index fe3ff87..6797df2 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -25,7 +25,6 @@ func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 func drawTo(gc *gg.Context, op svg.Operation, m svg.Matrix2D) {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
-		gc.ClosePath()
 		gc.NewSubPath()
 		t := m.MoveTo(op)
 		gc.MoveTo(float64(t.X)/64, float64(t.Y)/64)
-- 
2.43.0


From f27d80631913c0cd8a5a079921bed371e8e0b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:50 +0000
Subject: [PATCH 32/56] fix: keep the fill paint of stroked paths with gg

---
 renderer/gg/draw.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 6797df2..85b9856 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -124,9 +124,9 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetLineJoin(toLineJoin(svgp.Style.Join.LineJoin))
 		switch c := svgp.Style.LinerColor.(type) {
 		case svg.PlainColor:
-			gc.SetColor(toColor(c, svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(c, svgp.Style.LineOpacity*opacity)))
 		case svg.Gradient:
-			gc.SetColor(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity))
+			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
 		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
 		dashes, dashOffset := renderer.Dashes(svgp.Style.Dash, m.LineWidthScale())
-- 
2.43.0


From c5a14518288412ad7395c952eb2bd26a25bb4c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:51 +0000
Subject: [PATCH 33/56] fix: do not add unpainted paths to the gg context

---
 renderer/gg/draw.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 85b9856..1c538cb 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -89,6 +89,10 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 
 // drawTransformed draws the compiled SvgPath into the driver while applying transform t.
 func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
+		return nil
+	}
+
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
 		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
@@ -134,6 +138,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		gc.SetDashOffset(dashOffset)
 	}
 
+	gc.ClearPath()
 	for _, op := range svgp.Path {
 		drawTo(gc, op, m)
 	}
-- 
2.43.0


From 3b9dd3a2bfc17c207e918475d4a667ef4d197dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:51 +0000
Subject: [PATCH 34/56] fix: do not follow circular masks with gg

---
 renderer/gg/draw.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 1c538cb..0161789 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -14,7 +14,7 @@ import (
 func Draw(gc *gg.Context, s *svg.Svg, opts ...renderer.RenderOption) error {
 	opt := renderer.Options(s, opts...)
 	for _, svgp := range s.SvgPaths {
-		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity); err != nil {
+		if err := drawTransformed(gc, s, svgp, opt.Target.Mult(svgp.Style.Transform), opt.Opacity, nil); err != nil {
 			return err
 		}
 	}
@@ -87,15 +87,16 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 	return grad
 }
 
-// drawTransformed draws the compiled SvgPath into the driver while applying transform t.
-func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64) error {
+// drawTransformed draws the compiled SvgPath into the driver while applying transform m.
+// The masks being drawn are listed in active.
+func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2D, opacity float64, active []string) error {
 	if svgp.Style.FillerColor == nil && svgp.Style.LinerColor == nil {
 		return nil
 	}
 
 	var mask *image.Alpha
 	if len(svgp.Style.Masks) > 0 {
-		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m)
+		m, err := getMask(s, svgp.Style.Masks, gc.Image().Bounds(), m, active)
 		if err != nil {
 			return err
 		}
@@ -158,13 +159,21 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 	return nil
 }
 
-func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D) (*image.Alpha, error) {
-	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
-	mask, ok := s.SvgMasks[masks[len(masks)-1]]
+func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix2D, active []string) (*image.Alpha, error) {
+	id := masks[len(masks)-1]
+	mask, ok := s.SvgMasks[id]
 	if !ok {
 		// Mask was not found skip it.
 		return nil, nil
 	}
+	for _, a := range active {
+		if a == id {
+			// Mask refers to itself skip it.
+			return nil, nil
+		}
+	}
+	active = append(active[:len(active):len(active)], id)
+	gc := gg.NewContext(rectangle.Dx(), rectangle.Dy())
 
 	// TODO: How mask position/size should be applied?
 	// w := mask.W
@@ -183,7 +192,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1); err != nil {
+		if err := drawTransformed(gc, s, op, m, 1, active); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 0c413781ef1f326d9b376676f3642f1c70b426c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 35/56] fix: apply the transforms of mask content with gg

---
 renderer/gg/draw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index 0161789..c41b6bd 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -192,7 +192,7 @@ func getMask(s *svg.Svg, masks []string, rectangle image.Rectangle, m svg.Matrix
 	// }
 
 	for _, op := range mask.SvgPaths {
-		if err := drawTransformed(gc, s, op, m, 1, active); err != nil {
+		if err := drawTransformed(gc, s, op, m.Mult(op.Style.Transform), 1, active); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From c5a2dc4813c1fcfbc765d43c253d8866ef88d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:17 +0000
Subject: [PATCH 36/56] fix: draw each used definition like its inline content

---
 parse.go        | 34 ++++++++++++++++++++++++++++------
 svg.go          | 13 +++----------
 svg_elements.go | 40 ++++++++++++++++++++++++++++------------
 3 files changed, 59 insertions(+), 28 deletions(-)

diff --git a/parse.go b/parse.go
index 4e47009..103cd7f 100644
--- a/parse.go
+++ b/parse.go
@@ -21,7 +21,9 @@ type (
 		grad                                            *Gradient
 		inTitleText, inDescText, inGrad, inDefs, inMask bool
 		inRoot                                          bool
-		currentDef                                      []definition
+		currentDef                                      []definition // elements of the definitions, each followed by its content and an end marker
+		defStarts                                       []int        // places of the open elements in currentDef, -1 for those not in there
+		uses                                            []string     // definitions being drawn
 		mask                                            *SvgMask
 	}
 
@@ -32,6 +34,9 @@ type (
 	}
 )
 
+// endDefinition is the tag that marks the end of an element in a definition list
+const endDefinition = "/"
+
 func fToFixed(f float64) fixed.Int26_6 {
 	return fixed.Int26_6(f * 64)
 }
@@ -374,10 +379,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 				ID = attr.Value
 			}
 		}
-		if ID != "" && len(c.currentDef) > 0 {
-			c.svg.defs[c.currentDef[0].ID] = c.currentDef
-			c.currentDef = make([]definition, 0)
-		}
+		c.defStarts = append(c.defStarts, len(c.currentDef))
 		c.currentDef = append(c.currentDef, definition{
 			ID:    ID,
 			Tag:   se.Name.Local,
@@ -385,6 +387,7 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		})
 		return nil
 	}
+	c.defStarts = append(c.defStarts, -1)
 	df, ok := drawFuncs[se.Name.Local]
 	if !ok {
 		errStr := "Cannot process svg element " + se.Name.Local
@@ -396,7 +399,27 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		return nil
 	}
 	err = df(c, se.Attr)
+	c.flushPath()
+	return
+}
 
+// endDef closes the current element. If it is part of the definitions it is completed there,
+// and stored for use if it has an ID.
+func (c *svgCursor) endDef() (inDefs bool) {
+	start := c.defStarts[len(c.defStarts)-1]
+	c.defStarts = c.defStarts[:len(c.defStarts)-1]
+	if start < 0 {
+		return false
+	}
+	c.currentDef = append(c.currentDef, definition{Tag: endDefinition})
+	if ID := c.currentDef[start].ID; ID != "" {
+		c.svg.defs[ID] = c.currentDef[start:len(c.currentDef):len(c.currentDef)]
+	}
+	return true
+}
+
+// flushPath stores the path of the current element
+func (c *svgCursor) flushPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
@@ -409,5 +432,4 @@ func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 		}
 		c.path = c.path[:0]
 	}
-	return
 }
diff --git a/svg.go b/svg.go
index 81bd73d..5abb1ec 100644
--- a/svg.go
+++ b/svg.go
@@ -97,13 +97,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		case xml.EndElement:
 			// pop style
 			svgCursor.styleStack = svgCursor.styleStack[:len(svgCursor.styleStack)-1]
+			if svgCursor.endDef() {
+				break
+			}
 			switch se.Name.Local {
-			case "g":
-				if svgCursor.inDefs {
-					svgCursor.currentDef = append(svgCursor.currentDef, definition{
-						Tag: "endg",
-					})
-				}
 			case "mask":
 				if svgCursor.mask != nil {
 					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
@@ -115,10 +112,6 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			case "desc":
 				svgCursor.inDescText = false
 			case "defs":
-				if len(svgCursor.currentDef) > 0 {
-					svgCursor.svg.defs[svgCursor.currentDef[0].ID] = svgCursor.currentDef
-					svgCursor.currentDef = make([]definition, 0)
-				}
 				svgCursor.inDefs = false
 			case "radialGradient", "linearGradient":
 				svgCursor.inGrad = false
diff --git a/svg_elements.go b/svg_elements.go
index f81690e..052e1c8 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -464,10 +464,6 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 			return err
 		}
 	}
-	c.curX, c.curY = x, y
-	defer func() {
-		c.curX, c.curY = 0, 0
-	}()
 	if href == "" {
 		return errors.New("only use tags with href is supported")
 	}
@@ -478,27 +474,47 @@ func useF(c *svgCursor, attrs []xml.Attr) error {
 	if !ok {
 		return errors.New("href ID in use statement was not found in saved defs")
 	}
+	for _, id := range c.uses {
+		if id == href[1:] {
+			return errors.New("use statement refers to itself")
+		}
+	}
+	c.uses = append(c.uses, href[1:])
+	defer func() {
+		c.uses = c.uses[:len(c.uses)-1]
+	}()
+	use := &c.styleStack[len(c.styleStack)-1]
+	use.Transform = use.Transform.Translate(x, y)
+
+	hidden := 0 // number of open elements inside and including one that is not drawn
 	for _, def := range defs {
-		if def.Tag == "endg" {
+		if def.Tag == endDefinition {
+			if hidden > 0 {
+				hidden--
+				continue
+			}
 			// pop style
 			c.styleStack = c.styleStack[:len(c.styleStack)-1]
 			continue
 		}
+		if hidden > 0 || def.Tag == "title" || def.Tag == "desc" || def.Tag == "defs" {
+			hidden++
+			continue
+		}
 		if err = c.pushStyle(def.Attrs); err != nil {
 			return err
 		}
 		df, ok := drawFuncs[def.Tag]
 		if !ok {
-			errStr := "Cannot process svg element " + def.Tag
-			return c.handleError(errStr)
+			if err = c.handleError("Cannot process svg element %s", def.Tag); err != nil {
+				return err
+			}
+			continue
 		}
-		if err := df(c, def.Attrs); err != nil {
+		if err = df(c, def.Attrs); err != nil {
 			return err
 		}
-		if def.Tag != "g" {
-			// pop style
-			c.styleStack = c.styleStack[:len(c.styleStack)-1]
-		}
+		c.flushPath()
 	}
 	return nil
 }
-- 
2.43.0


From 98eb0b307886c3bfa3c4180de425f7bb8d0b90c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:40 +0000
Subject: [PATCH 37/56] fix: record masks wherever they are defined, without
 surrounding transforms

---
 parse.go        | 33 ++++++++++++++++++++-------------
 svg.go          |  9 +++++----
 svg_elements.go | 27 +++++++++++++++++----------
 3 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/parse.go b/parse.go
index 103cd7f..cede199 100644
--- a/parse.go
+++ b/parse.go
@@ -16,15 +16,21 @@ type (
 	// svgCursor is used while parsing SVG files
 	svgCursor struct {
 		pathCursor
-		svg                                             *Svg
-		styleStack                                      []PathStyle
-		grad                                            *Gradient
-		inTitleText, inDescText, inGrad, inDefs, inMask bool
-		inRoot                                          bool
-		currentDef                                      []definition // elements of the definitions, each followed by its content and an end marker
-		defStarts                                       []int        // places of the open elements in currentDef, -1 for those not in there
-		uses                                            []string     // definitions being drawn
-		mask                                            *SvgMask
+		svg                                     *Svg
+		styleStack                              []PathStyle
+		grad                                    *Gradient
+		inTitleText, inDescText, inGrad, inDefs bool
+		inRoot                                  bool
+		currentDef                              []definition // elements of the definitions, each followed by its content and an end marker
+		defStarts                               []int        // places of the open elements in currentDef, -1 for those not in there
+		uses                                    []string     // definitions being drawn
+		masks                                   []openMask   // masks being read
+	}
+
+	// openMask is a mask whose content is being read
+	openMask struct {
+		mask   *SvgMask
+		inDefs bool // the mask element is part of the definitions
 	}
 
 	// definition is used to store what's given in a def tag
@@ -369,7 +375,7 @@ func splitOnCommaOrSpace(s string) []string {
 
 func (c *svgCursor) readStartElement(se xml.StartElement) (err error) {
 	var skipDef bool
-	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || c.inGrad {
+	if se.Name.Local == "radialGradient" || se.Name.Local == "linearGradient" || se.Name.Local == "mask" || c.inGrad {
 		skipDef = true
 	}
 	if c.inDefs && !skipDef {
@@ -423,10 +429,11 @@ func (c *svgCursor) flushPath() {
 	if len(c.path) > 0 {
 		// The svgCursor parsed a path from the xml element
 		pathCopy := append(Path{}, c.path...)
-		if c.inMask && c.mask != nil {
-			c.mask.SvgPaths = append(c.mask.SvgPaths,
+		if n := len(c.masks); n > 0 {
+			mask := c.masks[n-1].mask
+			mask.SvgPaths = append(mask.SvgPaths,
 				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})
-		} else if !c.inMask {
+		} else {
 			c.svg.SvgPaths = append(c.svg.SvgPaths,
 				SvgPath{Path: pathCopy, Style: c.styleStack[len(c.styleStack)-1]})
 		}
diff --git a/svg.go b/svg.go
index 5abb1ec..343d3d8 100644
--- a/svg.go
+++ b/svg.go
@@ -102,11 +102,12 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			}
 			switch se.Name.Local {
 			case "mask":
-				if svgCursor.mask != nil {
-					svgCursor.svg.SvgMasks[svgCursor.mask.ID] = svgCursor.mask
-					svgCursor.mask = nil
+				if n := len(svgCursor.masks); n > 0 {
+					open := svgCursor.masks[n-1]
+					svgCursor.svg.SvgMasks[open.mask.ID] = open.mask
+					svgCursor.inDefs = open.inDefs
+					svgCursor.masks = svgCursor.masks[:n-1]
 				}
-				svgCursor.inMask = false
 			case "title":
 				svgCursor.inTitleText = false
 			case "desc":
diff --git a/svg_elements.go b/svg_elements.go
index 052e1c8..684a8bf 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -139,16 +139,23 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 		}
 	}
 
-	c.inMask = true
-	c.mask = &SvgMask{
-		ID:        id,
-		X:         x,
-		Y:         y,
-		W:         w,
-		H:         h,
-		SvgPaths:  make([]SvgPath, 0),
-		Transform: Identity,
-	}
+	c.masks = append(c.masks, openMask{
+		mask: &SvgMask{
+			ID:        id,
+			X:         x,
+			Y:         y,
+			W:         w,
+			H:         h,
+			SvgPaths:  make([]SvgPath, 0),
+			Transform: Identity,
+		},
+		inDefs: c.inDefs,
+	})
+	// The content is drawn at once, in the user space of the elements that use the mask
+	c.inDefs = false
+	style := &c.styleStack[len(c.styleStack)-1]
+	style.Transform = Identity
+	style.Masks = nil
 	return nil
 }
 
-- 
2.43.0


From f34e1bef42f49295dd981eb0581e096ff5501dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:41 +0000
Subject: [PATCH 38/56] fix: ignore elements and attributes of other name
 spaces

---
 svg.go | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/svg.go b/svg.go
index 343d3d8..d1093b8 100644
--- a/svg.go
+++ b/svg.go
@@ -69,6 +69,7 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 	decoder := xml.NewDecoder(stream)
 	decoder.CharsetReader = charset.NewReaderLabel
 	seenTag := false
+	rootSpace := ""
 	for {
 		t, err := decoder.Token()
 		if err != nil {
@@ -83,7 +84,12 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 		// Inspect the type of the XML token
 		switch se := t.(type) {
 		case xml.StartElement:
+			if !seenTag {
+				rootSpace = se.Name.Space
+			}
 			seenTag = true
+			se.Name.Local = localName(se.Name, rootSpace)
+			se.Attr = svgAttrs(se.Attr)
 			// Reads all recognized style attributes from the start element
 			// and places it on top of the styleStack
 			err = svgCursor.pushStyle(se.Attr)
@@ -100,7 +106,7 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 			if svgCursor.endDef() {
 				break
 			}
-			switch se.Name.Local {
+			switch localName(se.Name, rootSpace) {
 			case "mask":
 				if n := len(svgCursor.masks); n > 0 {
 					open := svgCursor.masks[n-1]
@@ -129,6 +135,30 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 	return svg, nil
 }
 
+// svgSpace is the name space of SVG elements
+const svgSpace = "http://www.w3.org/2000/svg"
+
+// localName returns the name of an SVG element without its name space. Elements of
+// other name spaces keep it, so that they are not taken for SVG elements.
+func localName(name xml.Name, rootSpace string) string {
+	switch name.Space {
+	case "", rootSpace, svgSpace:
+		return name.Local
+	}
+	return name.Space + ":" + name.Local
+}
+
+// svgAttrs returns the attributes without those of other name spaces, except for references.
+func svgAttrs(attrs []xml.Attr) []xml.Attr {
+	out := make([]xml.Attr, 0, len(attrs))
+	for _, attr := range attrs {
+		if attr.Name.Space == "" || attr.Name.Local == "href" {
+			out = append(out, attr)
+		}
+	}
+	return out
+}
+
 // ParseFile reads the SVG from the named file
 // This only supports a sub-set of SVG, but
 // is enough to draw many svgs. errMode determines if the svg ignores, errors out, or logs a warning
-- 
2.43.0


From 286b0ec9cef24fdc678f116b2bea5b099d46cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:19 +0000
Subject: [PATCH 39/56] fix: only take url( as start of a reference in colours

---
 patterns.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/patterns.go b/patterns.go
index 3a579d8..0549746 100644
--- a/patterns.go
+++ b/patterns.go
@@ -57,7 +57,7 @@ func (o optionnalColor) asPattern() Pattern {
 // including all SVG1.1 names, obtained from the colornames package
 func parseSVGColor(colorStr string) (optionnalColor, error) {
 	v := strings.ToLower(colorStr)
-	if strings.HasPrefix(v, "url") { // We are not handling urls
+	if strings.HasPrefix(v, "url(") { // We are not handling urls
 		// and gradients and stuff at this point
 		return toOptColor(NewPlainColor(0, 0, 0, 255)), nil
 	}
-- 
2.43.0


From 558640fa24f1f79af8779d1cb023b66f92bb3134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:02 +0000
Subject: [PATCH 40/56] fix: keep definitions inside a mask apart

---
 parse.go        | 3 ++-
 svg.go          | 2 +-
 svg_elements.go | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index cede199..9ebb324 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,8 @@ type (
 	// openMask is a mask whose content is being read
 	openMask struct {
 		mask   *SvgMask
-		inDefs bool // the mask element is part of the definitions
+		inDefs bool         // the mask element is part of the definitions
+		defs   []definition // the definitions up to the mask element
 	}
 
 	// definition is used to store what's given in a def tag
diff --git a/svg.go b/svg.go
index d1093b8..bdb2b42 100644
--- a/svg.go
+++ b/svg.go
@@ -111,7 +111,7 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				if n := len(svgCursor.masks); n > 0 {
 					open := svgCursor.masks[n-1]
 					svgCursor.svg.SvgMasks[open.mask.ID] = open.mask
-					svgCursor.inDefs = open.inDefs
+					svgCursor.inDefs, svgCursor.currentDef = open.inDefs, open.defs
 					svgCursor.masks = svgCursor.masks[:n-1]
 				}
 			case "title":
diff --git a/svg_elements.go b/svg_elements.go
index 684a8bf..0f6cd74 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -150,9 +150,10 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 			Transform: Identity,
 		},
 		inDefs: c.inDefs,
+		defs:   c.currentDef,
 	})
 	// The content is drawn at once, in the user space of the elements that use the mask
-	c.inDefs = false
+	c.inDefs, c.currentDef = false, nil
 	style := &c.styleStack[len(c.styleStack)-1]
 	style.Transform = Identity
 	style.Masks = nil
-- 
2.43.0


From 04820b4ced32c734d89016627a42d9f3c420e92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:30 +0000
Subject: [PATCH 41/56] fix: keep the value an unsupported style declaration
 would override

---
 parse.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index 9ebb324..b670b9e 100644
--- a/parse.go
+++ b/parse.go
@@ -330,14 +330,10 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 // direct fill and opacity attributes.
 func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	var pairs [][2]string
-	index := make(map[string]int, len(attrs))
+	last := make(map[string]int, len(attrs))
 	set := func(k, v string) {
 		k, v = strings.ToLower(strings.TrimSpace(k)), strings.TrimSpace(v)
-		if i, ok := index[k]; ok {
-			pairs[i][1] = v
-			return
-		}
-		index[k] = len(pairs)
+		last[k] = len(pairs)
 		pairs = append(pairs, [2]string{k, v})
 	}
 	style := ""
@@ -357,8 +353,18 @@ func (c *svgCursor) pushStyle(attrs []xml.Attr) error {
 	}
 	// Make a copy of the top style
 	curStyle := c.styleStack[len(c.styleStack)-1]
-	for _, pair := range pairs {
-		if err := c.readStyleAttr(&curStyle, pair[0], pair[1]); err != nil {
+	for i, pair := range pairs {
+		style := &curStyle
+		switch pair[0] {
+		case "fill-rule", "stroke-linegap", "stroke-leadlinecap", "stroke-linecap", "stroke-linejoin":
+			// An unsupported value leaves the one it would override in place
+		default:
+			if i != last[pair[0]] {
+				overridden := curStyle
+				style = &overridden
+			}
+		}
+		if err := c.readStyleAttr(style, pair[0], pair[1]); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 07d501e1f424dc07005aa313d23f3679f8e09532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:17 +0000
Subject: [PATCH 42/56] fix: limit transformed coordinates to what the
 rasterizers can draw

---
 matrix.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/matrix.go b/matrix.go
index c1b84c7..248d7a8 100644
--- a/matrix.go
+++ b/matrix.go
@@ -81,10 +81,25 @@ func (a Matrix2D) Mult(b Matrix2D) Matrix2D {
 // Identity is the identity matrix
 var Identity = Matrix2D{1, 0, 0, 1, 0, 0}
 
-// TFixed transforms a fixed.Point26_6 by the matrix
+// maxFixed limits transformed coordinates, as those close to the range of fixed.Int26_6
+// overflow in the rasterizers
+const maxFixed = 1 << 25
+
+func limitFixed(v float64) fixed.Int26_6 {
+	switch {
+	case v >= maxFixed:
+		return maxFixed
+	case v > -maxFixed:
+		return fixed.Int26_6(v)
+	}
+	return -maxFixed
+}
+
+// TFixed transforms a fixed.Point26_6 by the matrix. The result is limited to coordinates
+// that can be drawn.
 func (a Matrix2D) TFixed(x fixed.Point26_6) (y fixed.Point26_6) {
-	y.X = fixed.Int26_6((float64(x.X)*a.A + float64(x.Y)*a.C) + a.E*64)
-	y.Y = fixed.Int26_6((float64(x.X)*a.B + float64(x.Y)*a.D) + a.F*64)
+	y.X = limitFixed((float64(x.X)*a.A + float64(x.Y)*a.C) + a.E*64)
+	y.Y = limitFixed((float64(x.X)*a.B + float64(x.Y)*a.D) + a.F*64)
 	return
 }
 
-- 
2.43.0


From d7984a376af0f3b194dbc7379bcd1629461852d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 43/56] fix: skip dash patterns that are too fine or too long
 to be drawn

---
 renderer/options.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/renderer/options.go b/renderer/options.go
index 3232e6f..1797404 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -1,6 +1,8 @@
 package renderer
 
 import (
+	"math"
+
 	"github.com/lafriks/go-svg"
 )
 
@@ -43,6 +45,11 @@ func Target(x, y, w, h float64) RenderOption {
 	return targetOption{X: x, Y: y, W: w, H: h}
 }
 
+const (
+	minDash = 1.0 / 16 // length of the shortest dash patterns that are drawn
+	maxDash = 1 << 20  // length of the longest dash patterns that are drawn
+)
+
 // Dashes returns the dash pattern and offset of the style multiplied by scale,
 // or none if the pattern can not be drawn. Patterns of odd length are repeated
 // to get an even number of values.
@@ -54,7 +61,7 @@ func Dashes(dash svg.DashOptions, scale float64) ([]float64, float64) {
 		}
 		sum += d
 	}
-	if sum*scale <= 0 {
+	if !(sum*scale >= minDash && sum*scale <= maxDash) {
 		return nil, 0
 	}
 	dashes := make([]float64, 0, 2*len(dash.Dash))
@@ -64,7 +71,11 @@ func Dashes(dash svg.DashOptions, scale float64) ([]float64, float64) {
 	if len(dashes)%2 != 0 {
 		dashes = append(dashes, dashes...)
 	}
-	return dashes, dash.DashOffset * scale
+	offset := math.Mod(dash.DashOffset, 2*sum) * scale
+	if math.IsNaN(offset) {
+		offset = 0
+	}
+	return dashes, offset
 }
 
 // Options apply the options.
-- 
2.43.0


From 71990e98dde726b3632ce8193721f454f1c024a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 44/56] fix: limit line widths to what can be drawn

---
 renderer/draw2d/draw.go  |  2 +-
 renderer/gg/draw.go      |  2 +-
 renderer/options.go      | 18 ++++++++++++++++--
 renderer/rasterx/draw.go |  2 +-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/renderer/draw2d/draw.go b/renderer/draw2d/draw.go
index 597c742..a25fa0b 100644
--- a/renderer/draw2d/draw.go
+++ b/renderer/draw2d/draw.go
@@ -98,7 +98,7 @@ func drawTransformed(gc draw2d.GraphicContext, svgp svg.SvgPath, opt *renderer.R
 		case svg.Gradient:
 			gc.SetStrokeColor(toGradient(c, svgp.Style.LineOpacity*opt.Opacity))
 		}
-		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
+		gc.SetLineWidth(renderer.LineWidth(svgp.Style, m.LineWidthScale()))
 		gc.SetLineDash(renderer.Dashes(svgp.Style.Dash, m.LineWidthScale()))
 	}
 
diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index c41b6bd..a2bc8ab 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -133,7 +133,7 @@ func drawTransformed(gc *gg.Context, s *svg.Svg, svgp svg.SvgPath, m svg.Matrix2
 		case svg.Gradient:
 			gc.SetStrokeStyle(gg.NewSolidPattern(toColor(svg.GetColor(c), svgp.Style.LineOpacity*opacity)))
 		}
-		gc.SetLineWidth(svgp.Style.LineWidth * m.LineWidthScale())
+		gc.SetLineWidth(renderer.LineWidth(svgp.Style, m.LineWidthScale()))
 		dashes, dashOffset := renderer.Dashes(svgp.Style.Dash, m.LineWidthScale())
 		gc.SetDash(dashes...)
 		gc.SetDashOffset(dashOffset)
diff --git a/renderer/options.go b/renderer/options.go
index 1797404..3b13f4c 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -46,8 +46,9 @@ func Target(x, y, w, h float64) RenderOption {
 }
 
 const (
-	minDash = 1.0 / 16 // length of the shortest dash patterns that are drawn
-	maxDash = 1 << 20  // length of the longest dash patterns that are drawn
+	minDash  = 1.0 / 16 // length of the shortest dash patterns that are drawn
+	maxDash  = 1 << 20  // length of the longest dash patterns that are drawn
+	maxWidth = 1 << 16  // width of the widest lines
 )
 
 // Dashes returns the dash pattern and offset of the style multiplied by scale,
@@ -78,6 +79,19 @@ func Dashes(dash svg.DashOptions, scale float64) ([]float64, float64) {
 	return dashes, offset
 }
 
+// LineWidth returns the line width of the style multiplied by scale, limited to
+// widths that can be drawn.
+func LineWidth(style svg.PathStyle, scale float64) float64 {
+	width := style.LineWidth * scale
+	switch {
+	case width >= maxWidth:
+		return maxWidth
+	case width > 0:
+		return width
+	}
+	return 0
+}
+
 // Options apply the options.
 func Options(s *svg.Svg, opts ...RenderOption) *RenderOptions {
 	r := &RenderOptions{
diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index 7f44a0b..eb275d3 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -157,7 +157,7 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 		stroker.SetWinding(true)
 		dashes, dashOffset := renderer.Dashes(svgp.Style.Dash, m.LineWidthScale())
 		stroker.SetStroke(
-			fixed.Int26_6(svgp.Style.LineWidth*64*m.LineWidthScale()),
+			fixed.Int26_6(renderer.LineWidth(svgp.Style, m.LineWidthScale())*64),
 			svgp.Style.Join.MiterLimit,
 			toLineCap(svgp.Style.Join.LeadLineCap, toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap)),
 			toLineCap(svgp.Style.Join.TrailLineCap, rasterx.ButtCap),
-- 
2.43.0


From 915f55fff7e9fce956d469ca84c2951fd2a21828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:37 +0000
Subject: [PATCH 45/56] fix: start radial gradients at the focal circle with gg

---
 renderer/gg/draw.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/renderer/gg/draw.go b/renderer/gg/draw.go
index a2bc8ab..5ab2448 100644
--- a/renderer/gg/draw.go
+++ b/renderer/gg/draw.go
@@ -79,7 +79,7 @@ func toGradient(g svg.Gradient, opacity float64) gg.Gradient {
 		grad = gg.NewLinearGradient(dir[0], dir[1], dir[2], dir[3])
 	case svg.Radial:
 		// cx, cy, fx, fy, r, fr
-		grad = gg.NewRadialGradient(dir[0], dir[1], dir[4], dir[2], dir[3], dir[5])
+		grad = gg.NewRadialGradient(dir[2], dir[3], dir[5], dir[0], dir[1], dir[4])
 	}
 	for _, stop := range g.Stops {
 		grad.AddColorStop(stop.Offset, toColor(stop.StopColor, stop.Opacity*opacity))
-- 
2.43.0


From 00fc0c9196dc8f7da39df4e6c634ef5f0a957ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:01 +0000
Subject: [PATCH 46/56] fix: avoid zero dashes and negative dash offsets

---
 renderer/options.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/renderer/options.go b/renderer/options.go
index 3b13f4c..e9bf122 100644
--- a/renderer/options.go
+++ b/renderer/options.go
@@ -46,9 +46,10 @@ func Target(x, y, w, h float64) RenderOption {
 }
 
 const (
-	minDash  = 1.0 / 16 // length of the shortest dash patterns that are drawn
-	maxDash  = 1 << 20  // length of the longest dash patterns that are drawn
-	maxWidth = 1 << 16  // width of the widest lines
+	minDash  = 1.0 / 16   // length of the shortest dash patterns that are drawn
+	zeroDash = 1.0 / 1024 // length that stands for zero
+	maxDash  = 1 << 20    // length of the longest dash patterns that are drawn
+	maxWidth = 1 << 16    // width of the widest lines
 )
 
 // Dashes returns the dash pattern and offset of the style multiplied by scale,
@@ -67,16 +68,18 @@ func Dashes(dash svg.DashOptions, scale float64) ([]float64, float64) {
 	}
 	dashes := make([]float64, 0, 2*len(dash.Dash))
 	for _, d := range dash.Dash {
-		dashes = append(dashes, d*scale)
+		// Zero lengths can stop the progress along a path
+		dashes = append(dashes, math.Max(d*scale, zeroDash))
 	}
 	if len(dashes)%2 != 0 {
 		dashes = append(dashes, dashes...)
 	}
-	offset := math.Mod(dash.DashOffset, 2*sum) * scale
-	if math.IsNaN(offset) {
-		offset = 0
+	// The pattern repeats, so any offset has an equal one inside of the pattern
+	offset := math.Mod(dash.DashOffset, 2*sum)
+	if offset < 0 {
+		offset += 2 * sum
 	}
-	return dashes, offset
+	return dashes, offset * scale
 }
 
 // LineWidth returns the line width of the style multiplied by scale, limited to
-- 
2.43.0


From 1057af755033bca07f86b4bf2bc5a35f8282d0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:02 +0000
Subject: [PATCH 47/56] fix: stroke curves without direction as lines with
 rasterx

---
 renderer/rasterx/draw.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/renderer/rasterx/draw.go b/renderer/rasterx/draw.go
index eb275d3..ea9d874 100644
--- a/renderer/rasterx/draw.go
+++ b/renderer/rasterx/draw.go
@@ -16,20 +16,33 @@ func Draw(gc *rasterx.Dasher, s *svg.Svg, opts ...renderer.RenderOption) {
 	}
 }
 
-func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D) {
+// drawToStroker draws the operation starting at the given point and returns its end point.
+func drawToStroker(gc *rasterx.Dasher, op svg.Operation, m svg.Matrix2D, at fixed.Point26_6) fixed.Point26_6 {
 	switch op := op.(type) {
 	case svg.OpMoveTo:
 		gc.Stop(false)
-		gc.Start(m.MoveTo(op))
+		at = m.MoveTo(op)
+		gc.Start(at)
 	case svg.OpLineTo:
-		gc.Line(m.LineTo(op))
+		at = m.LineTo(op)
+		gc.Line(at)
 	case svg.OpQuadTo:
-		gc.QuadBezier(m.QuadTo(op))
+		b, c := m.QuadTo(op)
+		if b == at || b == c {
+			// The stroker can not handle curves without a direction at their ends
+			gc.Line(c)
+		} else {
+			gc.QuadBezier(b, c)
+		}
+		at = c
 	case svg.OpCubicTo:
-		gc.CubeBezier(m.CubicTo(op))
+		b, c, d := m.CubicTo(op)
+		gc.CubeBezier(b, c, d)
+		at = d
 	case svg.OpClose:
 		gc.Stop(true)
 	}
+	return at
 }
 
 func drawToFiller(gc *rasterx.Filler, op svg.Operation, m svg.Matrix2D) {
@@ -165,8 +178,9 @@ func drawTransformed(gc *rasterx.Dasher, svgp svg.SvgPath, opt *renderer.RenderO
 			toLineJoin(svgp.Style.Join.LineJoin),
 			dashes, dashOffset)
 
+		var at fixed.Point26_6
 		for _, op := range svgp.Path {
-			drawToStroker(stroker, op, m)
+			at = drawToStroker(stroker, op, m, at)
 		}
 		stroker.Stop(false)
 
-- 
2.43.0


From c8b917d2ab66a753f973a9d1d78caae0b787e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:34 +0000
Subject: [PATCH 48/56] fix: print coordinates with full precision

---
 path.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/path.go b/path.go
index 1c3d8c8..b915b46 100644
--- a/path.go
+++ b/path.go
@@ -34,21 +34,21 @@ type OpCubicTo [3]fixed.Point26_6
 type OpClose struct{}
 
 func (op OpMoveTo) String() string {
-	return fmt.Sprintf("M%4.3f,%4.3f", float32(op.X)/64, float32(op.Y)/64)
+	return fmt.Sprintf("M%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)
 }
 
 func (op OpLineTo) String() string {
-	return fmt.Sprintf("L%4.3f,%4.3f", float32(op.X)/64, float32(op.Y)/64)
+	return fmt.Sprintf("L%4.3f,%4.3f", float64(op.X)/64, float64(op.Y)/64)
 }
 
 func (op OpQuadTo) String() string {
-	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
-		float32(op[1].X)/64, float32(op[1].Y)/64)
+	return fmt.Sprintf("Q%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
+		float64(op[1].X)/64, float64(op[1].Y)/64)
 }
 
 func (op OpCubicTo) String() string {
-	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float32(op[0].X)/64, float32(op[0].Y)/64,
-		float32(op[1].X)/64, float32(op[1].Y)/64, float32(op[2].X)/64, float32(op[2].Y)/64)
+	return fmt.Sprintf("C%4.3f,%4.3f,%4.3f,%4.3f,%4.3f,%4.3f", float64(op[0].X)/64, float64(op[0].Y)/64,
+		float64(op[1].X)/64, float64(op[1].Y)/64, float64(op[2].X)/64, float64(op[2].Y)/64)
 }
 
 func (op OpClose) String() string {
-- 
2.43.0


From a1db694191338cfc9eb2e7b262e678955d1be3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:35 +0000
Subject: [PATCH 49/56] fix: return the error of a failing reader

---
 svg.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/svg.go b/svg.go
index bdb2b42..8c6f6ba 100644
--- a/svg.go
+++ b/svg.go
@@ -66,7 +66,8 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 	}
 	svgCursor := &svgCursor{styleStack: []PathStyle{DefaultStyle}, svg: svg}
 	svgCursor.errorMode = errMode
-	decoder := xml.NewDecoder(stream)
+	source := &errReader{Reader: stream}
+	decoder := xml.NewDecoder(source)
 	decoder.CharsetReader = charset.NewReaderLabel
 	seenTag := false
 	rootSpace := ""
@@ -79,6 +80,10 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 				}
 				break
 			}
+			if source.err != nil {
+				// What was read before the failure may look like a syntax error
+				err = source.err
+			}
 			return svg, err
 		}
 		// Inspect the type of the XML token
@@ -135,6 +140,20 @@ func Parse(stream io.Reader, errMode ErrorMode) (*Svg, error) {
 	return svg, nil
 }
 
+// errReader keeps the error its reader failed with
+type errReader struct {
+	io.Reader
+	err error
+}
+
+func (r *errReader) Read(p []byte) (int, error) {
+	n, err := r.Reader.Read(p)
+	if err != nil && err != io.EOF {
+		r.err = err
+	}
+	return n, err
+}
+
 // svgSpace is the name space of SVG elements
 const svgSpace = "http://www.w3.org/2000/svg"
 
-- 
2.43.0


From a0e8acb1181ac80a987f5b38e184a78b00d9f533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:16 +0000
Subject: [PATCH 50/56] fix: compute rounded rectangle corners without losing
 precision when rx and ry differ

---
 shapes.go | 112 +++++++++---------------------------------------------
 1 file changed, 18 insertions(+), 94 deletions(-)

diff --git a/shapes.go b/shapes.go
index f8a600c..0fc33d8 100644
--- a/shapes.go
+++ b/shapes.go
@@ -10,12 +10,6 @@ import (
 // high level shapes to their path equivalent
 
 const (
-	cubicsPerHalfCircle = 8 // Number of cubic beziers to approx half a circle
-
-	// fixed point t paramaterization shift factor;
-	// (2^this)/64 is the max length of t for fixed.Int26_6
-	tStrokeShift = 14
-
 	// maxDx is the maximum radians a cubic splice is allowed to span
 	// in ellipse parametric when approximating an off-axis ellipse.
 	maxDx float64 = math.Pi / 8
@@ -42,83 +36,14 @@ func (p *Path) addRect(minX, minY, maxX, maxY, rot float64) {
 	q.path.Stop(true)
 }
 
-// length is the distance from the origin of the point
-func length(v fixed.Point26_6) fixed.Int26_6 {
-	vx, vy := float64(v.X), float64(v.Y)
-	return fixed.Int26_6(math.Sqrt(vx*vx + vy*vy))
-}
-
-// addArc strokes a circular arc by approximation with bezier curves
-func addArc(p *matrixAdder, a, s1, s2 fixed.Point26_6, clockwise bool, trimStart,
-	trimEnd fixed.Int26_6, firstPoint func(p fixed.Point26_6),
-) (ps1, ds1, ps2, ds2 fixed.Point26_6) {
-	// Approximate the circular arc using a set of cubic bezier curves by the method of
-	// L. Maisonobe, "Drawing an elliptical arc using polylines, quadratic
-	// or cubic Bezier curves", 2003
-	// https://www.spaceroots.org/documents/elllipse/elliptical-arc.pdf
-	// The method was simplified for circles.
-	theta1 := math.Atan2(float64(s1.Y-a.Y), float64(s1.X-a.X))
-	theta2 := math.Atan2(float64(s2.Y-a.Y), float64(s2.X-a.X))
-	if !clockwise {
-		for theta1 < theta2 {
-			theta1 += math.Pi * 2
-		}
-	} else {
-		for theta2 < theta1 {
-			theta2 += math.Pi * 2
-		}
-	}
-	deltaTheta := theta2 - theta1
-	if trimStart > 0 {
-		ds := (deltaTheta * float64(trimStart)) / float64(1<<tStrokeShift)
-		deltaTheta -= ds
-		theta1 += ds
-	}
-	if trimEnd > 0 {
-		ds := (deltaTheta * float64(trimEnd)) / float64(1<<tStrokeShift)
-		deltaTheta -= ds
-	}
-
-	segs := int(math.Abs(deltaTheta)/(math.Pi/cubicsPerHalfCircle)) + 1
-	dTheta := deltaTheta / float64(segs)
-	tde := math.Tan(dTheta / 2)
-	alpha := fixed.Int26_6(math.Sin(dTheta) * (math.Sqrt(4+3*tde*tde) - 1) * (64.0 / 3.0)) // Math is fun!
-	r := float64(length(s1.Sub(a)))                                                        // Note r is *64
-	ldp := fixed.Point26_6{X: -fixed.Int26_6(r * math.Sin(theta1)), Y: fixed.Int26_6(r * math.Cos(theta1))}
-	ds1 = ldp
-	ps1 = fixed.Point26_6{X: a.X + ldp.Y, Y: a.Y - ldp.X}
-	firstPoint(ps1)
-	s1 = ps1
-	for i := 1; i <= segs; i++ {
-		eta := theta1 + dTheta*float64(i)
-		ds2 = fixed.Point26_6{X: -fixed.Int26_6(r * math.Sin(eta)), Y: fixed.Int26_6(r * math.Cos(eta))}
-		ps2 = fixed.Point26_6{X: a.X + ds2.Y, Y: a.Y - ds2.X} // Using deriviative to calc new pt, because circle
-		p1 := s1.Add(ldp.Mul(alpha))
-		p2 := ps2.Sub(ds2.Mul(alpha))
-		p.CubeBezier(p1, p2, ps2)
-		s1, ldp = ps2, ds2
-	}
-	return
-}
-
-// roundGap bridges miter-limit gaps with a circular arc
-func roundGap(p *matrixAdder, a, tNorm, lNorm fixed.Point26_6) {
-	addArc(p, a, a.Add(tNorm), a.Add(lNorm), true, 0, 0, p.Line)
-	p.Line(a.Add(lNorm)) // just to be sure line joins cleanly,
-	// last pt in stoke arc may not be precisely s2
-}
-
 // addRoundRect adds a rectangle of the indicated size, rotated
 // around the center by rot degrees with rounded corners of radius
-// rx in the x axis and ry in the y axis. gf specifes the shape of the
-// filleting function.
+// rx in the x axis and ry in the y axis.
 func (p *Path) addRoundRect(minX, minY, maxX, maxY, rx, ry, rot float64) {
 	if rx <= 0 || ry <= 0 {
 		p.addRect(minX, minY, maxX, maxY, rot)
 		return
 	}
-	rot *= math.Pi / 180
-
 	w := maxX - minX
 	if w < rx*2 {
 		rx = w / 2
@@ -127,24 +52,23 @@ func (p *Path) addRoundRect(minX, minY, maxX, maxY, rx, ry, rot float64) {
 	if h < ry*2 {
 		ry = h / 2
 	}
-	stretch := rx / ry
-	midY := minY + h/2
-	m := Identity.Translate(minX+w/2, midY).Rotate(rot).Scale(1, 1/stretch).Translate(-minX-w/2, -minY-h/2)
-	maxY = midY + h/2*stretch
-	minY = midY - h/2*stretch
-
-	q := &matrixAdder{M: m, path: p}
-
-	q.Start(toFixedP(minX+rx, minY))
-	q.Line(toFixedP(maxX-rx, minY))
-	roundGap(q, toFixedP(maxX-rx, minY+rx), toFixedP(0, -rx), toFixedP(rx, 0))
-	q.Line(toFixedP(maxX, maxY-rx))
-	roundGap(q, toFixedP(maxX-rx, maxY-rx), toFixedP(rx, 0), toFixedP(0, rx))
-	q.Line(toFixedP(minX+rx, maxY))
-	roundGap(q, toFixedP(minX+rx, maxY-rx), toFixedP(0, rx), toFixedP(-rx, 0))
-	q.Line(toFixedP(minX, minY+rx))
-	roundGap(q, toFixedP(minX+rx, minY+rx), toFixedP(-rx, 0), toFixedP(0, -rx))
-	q.path.Stop(true)
+	cx, cy := (minX+maxX)/2, (minY+maxY)/2
+	m := Identity.Translate(cx, cy).Rotate(rot*math.Pi/180).Translate(-cx, -cy)
+
+	p.Start(toFixedP(m.Transform(minX+rx, minY)))
+	// sideAndCorner adds a line to (ax, ay) and the corner around (cx, cy) up to (bx, by)
+	sideAndCorner := func(ax, ay, cx, cy, bx, by float64) {
+		ax, ay = m.Transform(ax, ay)
+		cx, cy = m.Transform(cx, cy)
+		bx, by = m.Transform(bx, by)
+		p.Line(toFixedP(ax, ay))
+		p.addArc([]float64{rx, ry, rot, 0, 1, bx, by}, cx, cy, ax, ay)
+	}
+	sideAndCorner(maxX-rx, minY, maxX-rx, minY+ry, maxX, minY+ry)
+	sideAndCorner(maxX, maxY-ry, maxX-rx, maxY-ry, maxX-rx, maxY)
+	sideAndCorner(minX+rx, maxY, minX+rx, maxY-ry, minX, maxY-ry)
+	sideAndCorner(minX, minY+ry, minX+rx, minY+ry, minX+rx, minY)
+	p.Stop(true)
 }
 
 // addArc adds an arc to the adder p
-- 
2.43.0


From 4da9633602c2f20c8f4a0bb61996cfe6fc569efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:53 +0000
Subject: [PATCH 51/56] fix: reject hexadecimal numbers

---
 units.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/units.go b/units.go
index 2ebb5ec..f69fa33 100644
--- a/units.go
+++ b/units.go
@@ -44,7 +44,7 @@ func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
 	out, err := strconv.ParseFloat(value, 64)
 	out *= toPx[unite]
-	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0)) {
+	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0) || strings.ContainsAny(value, "xX")) {
 		err = errParamMismatch // not a number in SVG
 	}
 	return out, unite == Perc, err
-- 
2.43.0


From 9fb2014a688205e3a4c74343f36903783533ea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:54 +0000
Subject: [PATCH 52/56] fix: read opacities in percent and limit stop opacities
 to 0..1

---
 parse.go        | 2 +-
 svg_elements.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index b670b9e..d80427f 100644
--- a/parse.go
+++ b/parse.go
@@ -293,7 +293,7 @@ func (c *svgCursor) readStyleAttr(curStyle *PathStyle, k, v string) error {
 		}
 		curStyle.Dash.Dash = dList
 	case "opacity", "stroke-opacity", "fill-opacity":
-		op, err := parseBasicFloat(v)
+		op, err := readFraction(v)
 		if err != nil {
 			return err
 		}
diff --git a/svg_elements.go b/svg_elements.go
index 0f6cd74..0f4a19d 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -3,6 +3,7 @@ package svg
 import (
 	"encoding/xml"
 	"errors"
+	"math"
 	"strings"
 
 	"golang.org/x/image/math/fixed"
@@ -442,7 +443,8 @@ func stopF(c *svgCursor, attrs []xml.Attr) error {
 				optColor, err = parseSVGColor(attr.Value)
 				stop.StopColor = optColor.asColor()
 			case "stop-opacity":
-				stop.Opacity, err = parseBasicFloat(attr.Value)
+				stop.Opacity, err = readFraction(attr.Value)
+				stop.Opacity = math.Max(0, math.Min(1, stop.Opacity))
 			}
 			if err != nil {
 				return err
-- 
2.43.0


From 20129d11753e6e45b77ff768ab3ac27818ed2496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:28 +0000
Subject: [PATCH 53/56] fix: reject numbers with underscores

---
 units.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/units.go b/units.go
index f69fa33..5e7d7d6 100644
--- a/units.go
+++ b/units.go
@@ -44,7 +44,7 @@ func parseUnit(s string) (float64, bool, error) {
 	unite, value := findUnit(s)
 	out, err := strconv.ParseFloat(value, 64)
 	out *= toPx[unite]
-	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0) || strings.ContainsAny(value, "xX")) {
+	if err == nil && (math.IsNaN(out) || math.IsInf(out, 0) || strings.ContainsAny(value, "xX_")) {
 		err = errParamMismatch // not a number in SVG
 	}
 	return out, unite == Perc, err
-- 
2.43.0


From 170eb9ca9c3e2ec4cea5ed609f20367cb1b2f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:23 +0000
Subject: [PATCH 54/56] fix: reject transform lists with unbalanced parentheses

---
 parse.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index d80427f..32e3d70 100644
--- a/parse.go
+++ b/parse.go
@@ -130,11 +130,11 @@ func (c *svgCursor) parseTransform(m1 Matrix2D, v string) (Matrix2D, error) {
 		if i > 0 {
 			t = strings.TrimLeft(t, ", \t\r\n")
 		}
-		if len(t) == 0 {
-			continue
+		if len(t) == 0 && i == len(ts)-1 {
+			break // nothing behind the last function
 		}
 		d := strings.Split(t, "(")
-		if len(d) != 2 || len(d[1]) < 1 {
+		if len(d) != 2 || len(d[1]) < 1 || i == len(ts)-1 {
 			return m1, errParamMismatch // badly formed transformation
 		}
 		err := c.getPoints(d[1])
-- 
2.43.0


From f361c74ed3f19a99e4a0905856fa3839deb58ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:44 +0000
Subject: [PATCH 55/56] fix: an explicit zero corner radius is not a missing
 one

---
 svg_elements.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index 0f4a19d..d54e0b7 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -81,6 +81,7 @@ func svgF(c *svgCursor, attrs []xml.Attr) error {
 func gF(*svgCursor, []xml.Attr) error { return nil } // g does nothing but push the style
 func rectF(c *svgCursor, attrs []xml.Attr) error {
 	var x, y, w, h, rx, ry float64
+	var hasRx, hasRy bool
 	var err error
 	for _, attr := range attrs {
 		switch attr.Name.Local {
@@ -93,8 +94,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		case "height":
 			h, err = c.parseUnit(attr.Value, heightPercentage)
 		case "rx":
+			hasRx = true
 			rx, err = c.parseUnit(attr.Value, widthPercentage)
 		case "ry":
+			hasRy = true
 			ry, err = c.parseUnit(attr.Value, heightPercentage)
 		}
 		if err != nil {
@@ -105,10 +108,10 @@ func rectF(c *svgCursor, attrs []xml.Attr) error {
 		return nil
 	}
 	// If only one of rx or ry is specified, the other should be same
-	if rx != 0 && ry == 0 {
+	if !hasRy {
 		ry = rx
 	}
-	if ry != 0 && rx == 0 {
+	if !hasRx {
 		rx = ry
 	}
 	c.path.addRoundRect(x+c.curX, y+c.curY, w+x+c.curX, h+y+c.curY, rx, ry, 0)
-- 
2.43.0


From bcabbf183f51a632c3fdb2bfdbb5f34737ffa344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:03 +0000
Subject: [PATCH 56/56] fix: circle and ellipse read only their own radii

---
 svg_elements.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/svg_elements.go b/svg_elements.go
index d54e0b7..a6fbe02 100644
--- a/svg_elements.go
+++ b/svg_elements.go
@@ -24,7 +24,7 @@ var drawFuncs = map[string]svgFunc{
 	"stop":           stopF,
 	"rect":           rectF,
 	"circle":         circleF,
-	"ellipse":        circleF, // circleF handles ellipse also
+	"ellipse":        ellipseF,
 	"polyline":       polylineF,
 	"polygon":        polygonF,
 	"path":           pathF,
@@ -165,6 +165,15 @@ func maskF(c *svgCursor, attrs []xml.Attr) error {
 }
 
 func circleF(c *svgCursor, attrs []xml.Attr) error {
+	return c.readEllipse(attrs, true)
+}
+
+func ellipseF(c *svgCursor, attrs []xml.Attr) error {
+	return c.readEllipse(attrs, false)
+}
+
+// readEllipse reads an ellipse, or a circle, which has only one radius
+func (c *svgCursor) readEllipse(attrs []xml.Attr, circle bool) error {
 	var cx, cy, rx, ry float64
 	var err error
 	for _, attr := range attrs {
@@ -174,12 +183,18 @@ func circleF(c *svgCursor, attrs []xml.Attr) error {
 		case "cy":
 			cy, err = c.parseUnit(attr.Value, heightPercentage)
 		case "r":
-			rx, err = c.parseUnit(attr.Value, diagPercentage)
-			ry = rx
+			if circle {
+				rx, err = c.parseUnit(attr.Value, diagPercentage)
+				ry = rx
+			}
 		case "rx":
-			rx, err = c.parseUnit(attr.Value, widthPercentage)
+			if !circle {
+				rx, err = c.parseUnit(attr.Value, widthPercentage)
+			}
 		case "ry":
-			ry, err = c.parseUnit(attr.Value, heightPercentage)
+			if !circle {
+				ry, err = c.parseUnit(attr.Value, heightPercentage)
+			}
 		}
 		if err != nil {
 			return err
-- 
2.43.0

