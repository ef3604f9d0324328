From bec0d2d9aad3e961235cb404ab752e29d61a7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 01/37] fix: report errors of reading the STL file instead of
 slicing a partial model

---
 reader/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reader/reader.go b/reader/reader.go
index bd2ef49..f8c959e 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -116,7 +116,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if _, err := os.Stat(filename); errors.Is(err, os.ErrNotExist) {
 		return model, os.ErrNotExist
 	}
-	stl.CopyFile(filename, model)
+	if err := stl.CopyFile(filename, model); err != nil {
+		return nil, err
+	}
 	return model, nil
 }
 
-- 
2.43.0


From 2e95a1b596fa482edced17a458d14b02aa369acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:48 +0000
Subject: [PATCH 02/37] fix: return an error for models without usable faces
 instead of panicking

---
 goslice.go             | 4 ++++
 optimizer/optimizer.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/goslice.go b/goslice.go
index e58c8f1..a7364b5 100644
--- a/goslice.go
+++ b/goslice.go
@@ -1,6 +1,7 @@
 package goslice
 
 import (
+	"errors"
 	"time"
 
 	"github.com/aligator/goslice/clip"
@@ -131,6 +132,9 @@ func (s *GoSlice) Process() error {
 	if err != nil {
 		return err
 	}
+	if models.FaceCount() == 0 {
+		return errors.New("the model does not contain any faces")
+	}
 	s.Options.Logger.Printf("Model loaded.\nFace count: %v\nSize: min: %v max %v\n", models.FaceCount(), models.Min(), models.Max())
 
 	// 2. Optimize model
diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index a8ae8ef..ae8ecb1 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -22,6 +22,8 @@
 package optimizer
 
 import (
+	"errors"
+
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
 )
@@ -122,6 +124,10 @@ FacesLoop:
 		om.faces = append(om.faces, optimizedFace)
 	}
 
+	if len(om.faces) == 0 {
+		return nil, errors.New("the model does not contain any usable faces")
+	}
+
 	// count open faces
 	openFaces := 0
 	for i, face := range om.faces {
-- 
2.43.0


From 9567568ed67f20fab4dc1c308684a9c482b69823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 03/37] fix: create layers which do not touch any face instead
 of panicking

---
 slicer/slicer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e3cd091..e686758 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -34,6 +34,10 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
 	layers := make([]*layer, layerCount)
+	for i := range layers {
+		// create all layers up front, as there may be layers which do not touch any face
+		layers[i] = newLayer(i, s.options)
+	}
 
 	for i := 0; i < m.FaceCount(); i++ {
 		points := m.Face(i).Points()
@@ -64,10 +68,6 @@ func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
 				continue
 			}
 
-			if layers[layerNr] == nil {
-				layers[layerNr] = newLayer(layerNr, s.options)
-			}
-
 			layer := layers[layerNr]
 
 			var seg *segment
-- 
2.43.0


From 74955678ea46c7548970c58ea6da2ec89b0b52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 04/37] fix: count the layers from the build plate up to the
 top of the placed model

---
 slicer/slicer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/slicer/slicer.go b/slicer/slicer.go
index e686758..212cb41 100644
--- a/slicer/slicer.go
+++ b/slicer/slicer.go
@@ -15,6 +15,7 @@
 package slicer
 
 import (
+	"errors"
 	"fmt"
 	"github.com/aligator/goslice/clip"
 	"github.com/aligator/goslice/data"
@@ -31,7 +32,12 @@ func NewSlicer(options *data.Options) handler.ModelSlicer {
 }
 
 func (s slicer) Slice(m data.OptimizedModel) ([]data.PartitionedLayer, error) {
-	layerCount := (m.Size().Z()-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
+	// The layers are counted from the build plate up to the top of the placed model.
+	maxZ := m.Max().Z()
+	if maxZ < s.options.Print.InitialLayerThickness {
+		return nil, errors.New("the model does not reach the first layer")
+	}
+	layerCount := (maxZ-s.options.Print.InitialLayerThickness)/s.options.Print.LayerThickness + 1
 
 	layers := make([]*layer, layerCount)
 	for i := range layers {
-- 
2.43.0


From ea8e5cb4c01a6722279f74918a15bea39ae700ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 05/37] fix: handle empty layers when clipping instead of
 failing

---
 clip/clip.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 1b119fb..9c37b89 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -301,7 +301,7 @@ func (c clipperClipper) Union(parts []data.LayerPart, toMerge []data.LayerPart)
 }
 
 func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.LayerPart, toClip []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
-	if parts == nil && toClip == nil {
+	if len(parts) == 0 && len(toClip) == 0 {
 		return nil, true
 	}
 
@@ -333,7 +333,10 @@ func (c clipperClipper) IsCrossingPerimeter(parts []data.LayerPart, line data.Pa
 		cl.AddPath(clipperPath(part.Outline()), clipper.PtClip, true)
 	}
 
-	cl.AddPath(clipperPath(line), clipper.PtSubject, false)
+	if !cl.AddPath(clipperPath(line), clipper.PtSubject, false) {
+		// A line without any length cannot cross anything.
+		return false, true
+	}
 
 	// calculate the difference of the parts and the line, then look if the (inverted) result contains any left path which would be a line not inside of the parts.
 	// If any part is left, the line crossed a perimeter.
-- 
2.43.0


From b824f318f83939e11ece4153bbcbc0982bdd5638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 06/37] fix: do not panic when insetting a part without a
 polygon

---
 clip/clip.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index 9c37b89..4676cd2 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -280,6 +280,10 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 
 		co.MiterLimit = 2
 		allNewInsets := co.Execute2(currentOffset)
+		if allNewInsets == nil {
+			// Clipper does not return a tree if there is no polygon at all.
+			allNewInsets = clipper.NewPolyTree()
+		}
 		insets = append(insets, polyTreeToLayerParts(allNewInsets))
 
 		currentOffset += float64(-int(offset))
-- 
2.43.0


From 66d76f33667f2e8b4b6a52a9f8c688faaee55042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 07/37] fix: handle an inset count of zero instead of panicking

---
 modifier/infill.go    |  2 +-
 modifier/perimeter.go | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index dbf51be..6b29e75 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -61,7 +61,7 @@ func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 		// It also takes into account the configured number of top/bottom layers.
 		for partNr, part := range perimeters {
 			// for the last (most inner) inset of each part
-			for _, insetPart := range part[len(part)-1] {
+			for _, insetPart := range innerPerimeters(layers[layerNr].LayerParts()[partNr], part, m.options.Printer.ExtrusionWidth) {
 				var bottomInfillParts, topInfillParts []data.LayerPart
 				// 1. Calculate the area which needs full infill for top and bottom layerS
 
diff --git a/modifier/perimeter.go b/modifier/perimeter.go
index ac13042..0cfe781 100644
--- a/modifier/perimeter.go
+++ b/modifier/perimeter.go
@@ -77,7 +77,7 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 			}
 
 			// Use only the most inner perimeter.
-			for _, insetPart := range part[len(part)-1] {
+			for _, insetPart := range innerPerimeters(layers[layerNr].LayerParts()[partNr], part, m.options.Printer.ExtrusionWidth) {
 
 				maxOverlapBorder, err := calculateOverlapPerimeter(insetPart, m.options.Print.InfillOverlapPercent, m.options.Printer.ExtrusionWidth)
 				if err != nil {
@@ -96,6 +96,16 @@ func (m perimeterModifier) Modify(layers []data.PartitionedLayer) error {
 	return nil
 }
 
+// innerPerimeters returns the most inner perimeters of a layer part, which are the ones surrounding the infill.
+// If there are no perimeters at all (inset count 0), the position where the outer perimeter would be is used.
+func innerPerimeters(layerPart data.LayerPart, perimeters [][]data.LayerPart, extrusionWidth data.Micrometer) []data.LayerPart {
+	if len(perimeters) > 0 {
+		return perimeters[len(perimeters)-1]
+	}
+
+	return clip.NewClipper().Inset(layerPart, extrusionWidth, 1, -extrusionWidth/2)[0]
+}
+
 // calculateOverlapPerimeter helper function for calculating the overlap-perimeter out of a layer part.
 func calculateOverlapPerimeter(part data.LayerPart, overlapPercent int, extrusionWidth data.Micrometer) ([]data.LayerPart, error) {
 	perimeterOverlap := data.Micrometer(float32(extrusionWidth) * (100.0 - float32(overlapPercent)) / 100.0)
-- 
2.43.0


From 016e3abe95873212556f948d284dbdecbb1e7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/37] fix: continue to fill the layers above an empty layer

---
 modifier/infill.go          | 11 +++++++++--
 modifier/internal_infill.go |  6 +++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/modifier/infill.go b/modifier/infill.go
index 6b29e75..7230401 100644
--- a/modifier/infill.go
+++ b/modifier/infill.go
@@ -43,14 +43,21 @@ func TopInfill(layer data.PartitionedLayer) ([]data.LayerPart, error) {
 func (m infillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// nothing to fill in this layer
+			continue
+		}
 
 		perimeters, err := Perimeters(layers[layerNr])
-		if err != nil || perimeters == nil {
+		if err != nil {
 			return err
 		}
+		if perimeters == nil {
+			continue
+		}
 
 		var bottomInfill []data.LayerPart
 		var topInfill []data.LayerPart
diff --git a/modifier/internal_infill.go b/modifier/internal_infill.go
index bf9ccbe..c871d9f 100644
--- a/modifier/internal_infill.go
+++ b/modifier/internal_infill.go
@@ -27,9 +27,13 @@ func NewInternalInfillModifier(options *data.Options) handler.LayerModifier {
 func (m internalInfillModifier) Modify(layers []data.PartitionedLayer) error {
 	for layerNr := range layers {
 		overlappingPerimeters, err := OverlapPerimeters(layers[layerNr])
-		if err != nil || overlappingPerimeters == nil {
+		if err != nil {
 			return err
 		}
+		if overlappingPerimeters == nil {
+			// nothing to fill in this layer
+			continue
+		}
 
 		bottomInfill, err := BottomInfill(layers[layerNr])
 		if err != nil {
-- 
2.43.0


From 97719ad5a5bf0e24e034d4764d71174178360466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 09/37] fix: reject STL files with invalid coordinates

---
 reader/reader.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/reader/reader.go b/reader/reader.go
index f8c959e..e4fec7f 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -2,6 +2,7 @@ package reader
 
 import (
 	"errors"
+	"math"
 	"os"
 
 	"github.com/aligator/goslice/data"
@@ -18,8 +19,15 @@ func (f face) Points() [3]data.MicroVec3 {
 	return f.vectors
 }
 
+// maxCoordinate is the biggest coordinate in mm which is accepted.
+// It is far bigger than any printer, but still small enough to not overflow any calculation.
+const maxCoordinate = 100000
+
 type Model struct {
 	faces []data.Face
+
+	// invalid is set if any coordinate cannot be represented.
+	invalid bool
 }
 
 func (m *Model) SetName(name string) {
@@ -43,6 +51,15 @@ func (m *Model) SetTriangleCount(n uint32) {
 }
 
 func (m *Model) AppendTriangle(t stl.Triangle) {
+	for _, vertex := range t.Vertices {
+		for _, coordinate := range vertex {
+			// Note: the negated condition is also true for NaN.
+			if !(math.Abs(float64(coordinate)) <= maxCoordinate) {
+				m.invalid = true
+			}
+		}
+	}
+
 	m.faces = append(m.faces, stlTriangleToFace(t))
 }
 
@@ -119,6 +136,9 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if err := stl.CopyFile(filename, model); err != nil {
 		return nil, err
 	}
+	if model.invalid {
+		return nil, errors.New("the model contains invalid or too big coordinates")
+	}
 	return model, nil
 }
 
-- 
2.43.0


From aa5f6027996d095cf3102ae3118d4a9424a1a78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:34 +0000
Subject: [PATCH 10/37] fix: allow a meld distance of zero instead of dividing
 by it

---
 optimizer/optimizer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/optimizer/optimizer.go b/optimizer/optimizer.go
index ae8ecb1..3aa3a15 100644
--- a/optimizer/optimizer.go
+++ b/optimizer/optimizer.go
@@ -62,6 +62,10 @@ FacesLoop:
 			// create hash for the pos
 			// points which are within the meldDistance fall into the same category of the indices map
 			meldDistanceHash := pointHash(o.options.Slicing.MeldDistance)
+			if meldDistanceHash == 0 {
+				// without any meld distance only the same points fall into the same category
+				meldDistanceHash = 1
+			}
 			hash := ((pointHash(currentPoint.X()) + meldDistanceHash/2) / meldDistanceHash) ^
 				(((pointHash(currentPoint.Y()) + meldDistanceHash/2) / meldDistanceHash) << 10) ^
 				(((pointHash(currentPoint.Z()) + meldDistanceHash/2) / meldDistanceHash) << 20)
-- 
2.43.0


From 6fdaf91c388a8288b20154b00f775d37c26eb826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 11/37] fix: do not overflow when simplifying and smoothing big
 models

---
 data/2d.go    |  5 +++--
 data/layer.go | 11 ++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/data/2d.go b/data/2d.go
index 52994bc..7965750 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -24,7 +24,8 @@ func PerpendicularDistance2(a, b, point MicroPoint) Micrometer {
 	}
 
 	dotProduct := DotProduct(vecAB, vecAP)
-	axSize2 := dotProduct * dotProduct / vecAB.Size2()
+	// the square of the dot product does not fit into an integer for big models
+	axSize2 := Micrometer(float64(dotProduct) * float64(dotProduct) / float64(vecAB.Size2()))
 	return Max(0, vecAP.Size2()-axSize2)
 }
 
@@ -56,7 +57,7 @@ func seekMostDistantPoint(p1 MicroPoint, p2 MicroPoint, points Path) (idx int, m
 		// TODO: check usage of 'Shortest Distance' from a point to a line segment
 		//       suggested here https://karthaus.nl/rdp/ I think slic3r uses that
 		d := PerpendicularDistance2(p1, p2, points[i])
-		if d > maxDist*maxDist {
+		if float64(d) > float64(maxDist)*float64(maxDist) {
 			maxDist = d
 			idx = i
 		}
diff --git a/data/layer.go b/data/layer.go
index 9d6f8e4..fc9fa91 100644
--- a/data/layer.go
+++ b/data/layer.go
@@ -2,7 +2,11 @@
 
 package data
 
-import go_convex_hull_2d "github.com/furstenheim/go-convex-hull-2d"
+import (
+	"math"
+
+	go_convex_hull_2d "github.com/furstenheim/go-convex-hull-2d"
+)
 
 // Path is a simple list of points.
 // It can be used to represent polygons (if they are closed) or just lines.
@@ -118,12 +122,13 @@ func (p Path) Simplify(smallestLineSegmentSquared, allowedErrorDistanceSquared M
 		// h = L / b           [divide by b]
 		// h^2 = (L / b)^2     [square it]
 		// h^2 = L^2 / b^2     [factor the divisor]
-		height2 := areaRemovedSoFar * areaRemovedSoFar / baseLength2
+		// (calculated as float, as the square does not fit into an integer for big models)
+		height2 := math.Floor(float64(areaRemovedSoFar) * float64(areaRemovedSoFar) / float64(baseLength2))
 		if (height2 <= 25 && //Almost exactly collinear (barring rounding errors).
 			PerpendicularDistance2(current, previous, next) <= 25) ||
 			(length2 < smallestLineSegmentSquared &&
 				nextLength2 < smallestLineSegmentSquared && // segments are small
-				height2 <= allowedErrorDistanceSquared) { // removing the vertex doesn't introduce too much error.
+				height2 <= float64(allowedErrorDistanceSquared)) { // removing the vertex doesn't introduce too much error.
 
 			continue // remove the vertex
 		}
-- 
2.43.0


From 64d72b94c513f600aed26f4b7a77340e1631cdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 12/37] fix: do not modify the given path when smoothing it

---
 data/2d.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data/2d.go b/data/2d.go
index 7965750..548e808 100644
--- a/data/2d.go
+++ b/data/2d.go
@@ -44,7 +44,8 @@ func douglasPeucker(points Path, ep Micrometer, depth int) Path {
 		// TODO: check if implementation without recursion would be possible and if it is more performant
 		left := douglasPeucker(points[:idx+1], ep, depth+1)
 		right := douglasPeucker(points[idx:], ep, depth+1)
-		return append(left[:len(left)-1], right...)
+		// limit the capacity, as left may still share its memory with the given points
+		return append(left[:len(left)-1:len(left)-1], right...)
 	}
 
 	// If the most distant point fails to pass the threshold test, then just return the two points
-- 
2.43.0


From 0eaea35da8aadd59ad93e1ce7f86239a0be91778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 13/37] fix: continue contours with the nearest segment, not
 with any near one

---
 slicer/layer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slicer/layer.go b/slicer/layer.go
index c712849..87f1999 100644
--- a/slicer/layer.go
+++ b/slicer/layer.go
@@ -59,6 +59,7 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 			polygon = append(polygon, p0)
 
 			nextIndex := -1
+			nextDistance2 := data.Micrometer(0)
 			// get the whole face for the index
 			face := om.OptimizedFace(l.segments[currentSegmentIndex].faceIndex)
 
@@ -84,7 +85,11 @@ func (l *layer) makePolygons(om data.OptimizedModel, joinPolygonSnapDistance, fi
 						if l.segments[touchingSegmentIndex].addedToPolygon {
 							continue
 						}
-						nextIndex = touchingSegmentIndex
+						// more than one segment may start near to this point, continue with the nearest one
+						if nextIndex == -1 || diff.Size2() < nextDistance2 {
+							nextIndex = touchingSegmentIndex
+							nextDistance2 = diff.Size2()
+						}
 					}
 				}
 			}
-- 
2.43.0


From 9747e9a7e3fcc3ffa8448b7ab2213a4c00fb0b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:28 +0000
Subject: [PATCH 14/37] fix: treat layers without any area as empty instead of
 failing

---
 clip/clip.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 4676cd2..0dff97a 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -212,7 +212,10 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
-	cl.AddPaths(polyList, clipper.PtSubject, true)
+	if !cl.AddPaths(polyList, clipper.PtSubject, true) {
+		// None of the polygons has any area.
+		return data.NewPartitionedLayer([]data.LayerPart{}), true
+	}
 	resultPolys, ok := cl.Execute2(clipper.CtUnion, clipper.PftEvenOdd, clipper.PftEvenOdd)
 	if !ok {
 		return nil, false
-- 
2.43.0


From 2a90a2d99827f962ce72d66477deb2be1d25c22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:07 +0000
Subject: [PATCH 15/37] fix: return no top level polygons instead of failing if
 there is no outline

---
 clip/clip.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index 0dff97a..c2e43b0 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -313,14 +313,20 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 	}
 
 	cl := clipper.NewClipper(clipper.IoNone)
+	anyAdded := false
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
-		cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true)
+		anyAdded = cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) || anyAdded
+		anyAdded = cl.AddPaths(clipperPaths(part.Holes()), clipper.PtSubject, true) || anyAdded
 	}
 
 	for _, intersect := range toClip {
-		cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true)
-		cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true)
+		anyAdded = cl.AddPath(clipperPath(intersect.Outline()), clipper.PtClip, true) || anyAdded
+		anyAdded = cl.AddPaths(clipperPaths(intersect.Holes()), clipper.PtClip, true) || anyAdded
+	}
+
+	if !anyAdded {
+		// None of the parts has any area.
+		return nil, true
 	}
 
 	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
@@ -374,8 +380,14 @@ func (c clipperClipper) Hull(parts []data.LayerPart) (hull data.Path, ok bool) {
 func (c clipperClipper) TopLevelPolygons(parts []data.LayerPart) (topLevel data.Paths, ok bool) {
 	cl := clipper.NewClipper(clipper.IoNone)
 
+	anyAdded := false
 	for _, part := range parts {
-		cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true)
+		anyAdded = cl.AddPath(clipperPath(part.Outline()), clipper.PtSubject, true) || anyAdded
+	}
+
+	if !anyAdded {
+		// There is no outline with any area.
+		return nil, true
 	}
 
 	// this is just a dummy-call to Execute2 as I found no other way to get a tree from clipper...
-- 
2.43.0


From 51ddddccb3352bcb69e64e67d063e0140a8ee7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 16/37] fix: do not cut out the places where parts of one
 operand overlap each other when clipping

---
 clip/clip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index c2e43b0..a3fb80e 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -329,7 +329,8 @@ func (c clipperClipper) runClipper(clipType clipper.ClipType, parts []data.Layer
 		return nil, true
 	}
 
-	tree, ok := cl.Execute2(clipType, clipper.PftEvenOdd, clipper.PftEvenOdd)
+	// Use the non zero rule so that parts of the same list are also allowed to overlap each other.
+	tree, ok := cl.Execute2(clipType, clipper.PftNonZero, clipper.PftNonZero)
 
 	if !ok {
 		return nil, ok
-- 
2.43.0


From 615b4c785b4937a71b9fc3eec7f53567d8dd64c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:22 +0000
Subject: [PATCH 17/37] fix: assign holes which touch their outline to the
 right layer part

---
 clip/clip.go | 99 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 83 insertions(+), 16 deletions(-)

diff --git a/clip/clip.go b/clip/clip.go
index a3fb80e..9a4a88d 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -3,6 +3,8 @@
 package clip
 
 import (
+	"math"
+
 	"github.com/aligator/goslice/data"
 
 	clipper "github.com/aligator/go.clipper"
@@ -226,39 +228,104 @@ func (c clipperClipper) GenerateLayerParts(l data.Layer) (data.PartitionedLayer,
 
 // polyTreeToLayerParts creates layer parts out of a poly tree (which is the result of clipper's Execute2).
 func polyTreeToLayerParts(tree *clipper.PolyTree) []data.LayerPart {
-	var layerParts []data.LayerPart
+	// polygon is an outline with its holes.
+	type polygon struct {
+		outline clipper.Path
+		holes   clipper.Paths
+	}
 
-	var polysForNextRound []*clipper.PolyNode
+	var polygons []polygon
 
-	for _, c := range tree.Childs() {
-		polysForNextRound = append(polysForNextRound, c)
-	}
-	for {
-		if polysForNextRound == nil {
-			break
-		}
+	// If a hole touches its outline, clipper sometimes loses the relation between them and
+	// handles the hole as outline or as hole of another outline.
+	var lostHoles clipper.Paths
+
+	polysForNextRound := append([]*clipper.PolyNode(nil), tree.Childs()...)
+	for len(polysForNextRound) > 0 {
 		thisRound := polysForNextRound
 		polysForNextRound = nil
 
 		for _, p := range thisRound {
-			var holes data.Paths
+			if clipper.Area(p.Contour()) < 0 {
+				lostHoles = append(lostHoles, p.Contour())
+				polysForNextRound = append(polysForNextRound, p.Childs()...)
+				continue
+			}
+
+			poly := polygon{outline: p.Contour()}
 
 			for _, child := range p.Childs() {
-				// TODO: simplify, yes / no ??
-				holes = append(holes, microPath(child.Contour(), false))
-				for _, c := range child.Childs() {
-					polysForNextRound = append(polysForNextRound, c)
+				if clipper.Area(child.Contour()) > 0 {
+					// It is not a hole.
+					polysForNextRound = append(polysForNextRound, child)
+					continue
 				}
+
+				polysForNextRound = append(polysForNextRound, child.Childs()...)
+				if !isInside(child.Contour(), p.Contour()) {
+					lostHoles = append(lostHoles, child.Contour())
+					continue
+				}
+
+				poly.holes = append(poly.holes, child.Contour())
 			}
 
-			// TODO: simplify, yes / no ??
-			layerParts = append(layerParts, data.NewBasicLayerPart(microPath(p.Contour(), false), holes))
+			polygons = append(polygons, poly)
 		}
 	}
 
+	for _, hole := range lostHoles {
+		// The hole belongs to the smallest outline around it.
+		owner := -1
+		for i, poly := range polygons {
+			if isInside(hole, poly.outline) && (owner == -1 || clipper.Area(poly.outline) < clipper.Area(polygons[owner].outline)) {
+				owner = i
+			}
+		}
+		if owner != -1 {
+			polygons[owner].holes = append(polygons[owner].holes, hole)
+		}
+	}
+
+	var layerParts []data.LayerPart
+	for _, poly := range polygons {
+		// TODO: simplify, yes / no ??
+		var holes data.Paths
+		for _, hole := range poly.holes {
+			holes = append(holes, microPath(hole, false))
+		}
+		layerParts = append(layerParts, data.NewBasicLayerPart(microPath(poly.outline, false), holes))
+	}
+
 	return layerParts
 }
 
+// isInside returns true if the inner polygon lies inside of the outer one.
+// They are allowed to touch each other.
+func isInside(inner clipper.Path, outer clipper.Path) bool {
+	inside, outside := 0, 0
+	for _, point := range inner {
+		switch clipper.PointInPolygon(point, outer) {
+		case 1:
+			inside++
+		case 0:
+			outside++
+		}
+	}
+
+	if inside == len(inner) || outside == len(inner) {
+		return inside > 0
+	}
+
+	// Some points are on the border of the other polygon. As they are rounded, they may be at any side of it.
+	cl := clipper.NewClipper(clipper.IoNone)
+	cl.AddPath(inner, clipper.PtSubject, true)
+	cl.AddPath(outer, clipper.PtClip, true)
+	common, ok := cl.Execute1(clipper.CtIntersection, clipper.PftNonZero, clipper.PftNonZero)
+
+	return ok && math.Abs(clipper.AreaCombined(common)) > math.Abs(clipper.Area(inner))/2
+}
+
 func (c clipperClipper) InsetLayer(layer []data.LayerPart, offset data.Micrometer, insetCount int, initialOffset data.Micrometer) OffsetResult {
 	var result OffsetResult
 	for _, part := range layer {
-- 
2.43.0


From e31037f92057200267c45a94e4d85cf43bde9f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:23 +0000
Subject: [PATCH 18/37] fix: remove the spikes which offsetting creates at
 acute corners

---
 clip/clip.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/clip/clip.go b/clip/clip.go
index 9a4a88d..0bfcdf7 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -129,6 +129,10 @@ type Clipper interface {
 	TopLevelPolygons(parts []data.LayerPart) (topLevel data.Paths, ok bool)
 }
 
+// spikeDistance is the distance in micrometers up to which points are treated as lying on the same line.
+// It is a bit more than the diagonal between two adjacent coordinates.
+const spikeDistance = 1.415
+
 // clipperClipper implements Clipper using the external clipper library.
 type clipperClipper struct{}
 
@@ -354,7 +358,7 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 			// Clipper does not return a tree if there is no polygon at all.
 			allNewInsets = clipper.NewPolyTree()
 		}
-		insets = append(insets, polyTreeToLayerParts(allNewInsets))
+		insets = append(insets, removeSpikes(polyTreeToLayerParts(allNewInsets)))
 
 		currentOffset += float64(-int(offset))
 	}
@@ -362,6 +366,30 @@ func (c clipperClipper) Inset(part data.LayerPart, offset data.Micrometer, inset
 	return insets
 }
 
+// removeSpikes removes the tiny spikes which clipper sometimes creates at acute corners while offsetting.
+// Polygons which are nothing else than such a spike are removed completely.
+func removeSpikes(parts []data.LayerPart) []data.LayerPart {
+	cl := clipper.NewClipper(clipper.IoNone)
+
+	var result []data.LayerPart
+	for _, part := range parts {
+		outline := microPath(cl.CleanPolygon(clipperPath(part.Outline()), spikeDistance), false)
+		if len(outline) < 3 {
+			continue
+		}
+
+		var holes data.Paths
+		for _, hole := range part.Holes() {
+			if cleaned := microPath(cl.CleanPolygon(clipperPath(hole), spikeDistance), false); len(cleaned) >= 3 {
+				holes = append(holes, cleaned)
+			}
+		}
+		result = append(result, data.NewBasicLayerPart(outline, holes))
+	}
+
+	return result
+}
+
 func (c clipperClipper) Difference(parts []data.LayerPart, toRemove []data.LayerPart) (clippedParts []data.LayerPart, ok bool) {
 	return c.runClipper(clipper.CtDifference, parts, toRemove)
 }
-- 
2.43.0


From 9725051255d04d4e72123db9976042833a8b0414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 19/37] fix: offset the layer by the whole distance when
 detecting overhangs

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 89045b4..3a270c5 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -89,7 +89,7 @@ func (m supportDetectorModifier) Modify(layers []data.PartitionedLayer) error {
 
 		// offset layer by d
 		cl := clip.NewClipper()
-		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, -data.Micrometer(-math.Round(distance))/2).ToOneDimension()
+		offsetLayer := cl.InsetLayer(layers[layerNr].LayerParts(), data.Micrometer(-math.Round(distance)), 1, data.Micrometer(math.Round(distance))).ToOneDimension()
 
 		// subtract result from the next layer
 		support, ok := cl.Difference(layers[layerNr+1].LayerParts(), offsetLayer)
-- 
2.43.0


From 7d98d558328c1323556952300cac73d8fcd3809a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 20/37] fix: keep the whole support gap between the support and
 the model

---
 modifier/support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modifier/support.go b/modifier/support.go
index 3a270c5..fe9930d 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -169,7 +169,7 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 		}
 
 		// make the layer a bit bigger to create a gap between the support and the model
-		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()/2).ToOneDimension()
+		biggerLayer := cl.InsetLayer(layers[layerNr-1].LayerParts(), -m.options.Print.Support.Gap.ToMicrometer(), 1, m.options.Print.Support.Gap.ToMicrometer()).ToOneDimension()
 
 		// subtract the model from the result
 		actualSupport, ok := cl.Difference(result, biggerLayer)
-- 
2.43.0


From ed638b7765726b4634260e05d01ad7e7c7592d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 21/37] fix: also subtract the model from the support of the
 second top layer

---
 modifier/support.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index fe9930d..a7eded5 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -134,8 +134,8 @@ func NewSupportGeneratorModifier(options *data.Options) handler.LayerModifier {
 func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 	var lastSupport []data.LayerPart = nil
 
-	// for each layer starting at the 2nd top layer (the top layer won't need support)
-	for layerNr := len(layers) - 2; layerNr >= 0; layerNr-- {
+	// for each layer starting at the top layer (it won't need support itself, but the support of the layer below is calculated)
+	for layerNr := len(layers) - 1; layerNr >= 0; layerNr-- {
 		if !m.options.Print.Support.Enabled || layerNr == 0 {
 			return nil
 		}
-- 
2.43.0


From b348fafc50013c1a09dc265f4718fd1c39b12a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:39 +0000
Subject: [PATCH 22/37] fix: do not generate any support interface if it has no
 layers

---
 modifier/support.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/modifier/support.go b/modifier/support.go
index a7eded5..b669b28 100644
--- a/modifier/support.go
+++ b/modifier/support.go
@@ -191,14 +191,16 @@ func (m supportGeneratorModifier) Modify(layers []data.PartitionedLayer) error {
 
 			c := clip.NewClipper()
 
-			supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
-			if err != nil {
-				return err
-			}
-
-			interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
-			if !ok {
-				return errors.New("error while calculating interface parts")
+			if m.options.Print.Support.InterfaceLayers > 0 {
+				supportAboveInterface, err := PartsAttribute(layers[layerNrAboveInterface], "fullSupport")
+				if err != nil {
+					return err
+				}
+
+				interfaceParts, ok = c.Difference(actualSupport, supportAboveInterface)
+				if !ok {
+					return errors.New("error while calculating interface parts")
+				}
 			}
 
 			actualWithoutInterfaceParts, ok = c.Difference(actualSupport, interfaceParts)
-- 
2.43.0


From ba0feb52bcfa5d756054b2b307ee29340e5b394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:32 +0000
Subject: [PATCH 23/37] fix: generate the brim around all pieces of the outer
 perimeters

---
 modifier/brim.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index c775d1c..b31aae7 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -90,11 +90,9 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	var allOuterPerimeters []data.LayerPart
 
 	for _, part := range perimeters {
-		for _, wall := range part {
-			if len(wall) > 0 {
-				// wall[0] is the outer perimeter
-				allOuterPerimeters = append(allOuterPerimeters, wall[0])
-			}
+		if len(part) > 0 {
+			// part[0] is the outer perimeter, which may consist of several pieces
+			allOuterPerimeters = append(allOuterPerimeters, part[0]...)
 		}
 	}
 
-- 
2.43.0


From d6372bb003856fc4634bd9e8048350039d76ec64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 24/37] fix: merge the brims of islands which are close to each
 other

---
 modifier/brim.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/modifier/brim.go b/modifier/brim.go
index b31aae7..143537d 100644
--- a/modifier/brim.go
+++ b/modifier/brim.go
@@ -111,7 +111,23 @@ func (m brimModifier) Modify(layers []data.PartitionedLayer) error {
 	}
 
 	// Generate the brim.
-	brim := cl.InsetLayer(allOuterPerimeters, -m.options.Printer.ExtrusionWidth, m.options.Print.BrimSkirt.BrimCount, m.options.Printer.ExtrusionWidth)
+	brims := cl.InsetLayer(allOuterPerimeters, -m.options.Printer.ExtrusionWidth, m.options.Print.BrimSkirt.BrimCount, m.options.Printer.ExtrusionWidth)
+
+	// The brims of islands which are close to each other would overlap, so merge each line of all of them.
+	var mergedBrim [][]data.LayerPart
+	for brimNr := 0; brimNr < m.options.Print.BrimSkirt.BrimCount; brimNr++ {
+		var line []data.LayerPart
+		for _, part := range brims {
+			line = append(line, part[brimNr]...)
+		}
+
+		line, ok := cl.Union(line, nil)
+		if !ok {
+			return fmt.Errorf("could not merge the brims")
+		}
+		mergedBrim = append(mergedBrim, line)
+	}
+	brim := clip.OffsetResult{mergedBrim}
 
 	// Now we need to generate the outer bounds of the brim (e.g. outer brim line + half line width)
 	// That is needed for the support, to remove the support at the places where the brim is.
-- 
2.43.0


From 86437b0592434db39a18c5500d08be6adff8b51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 25/37] fix: sum up the extrusion with double precision

---
 gcode/builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 2b829fd..139bd1a 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -15,7 +15,7 @@ import (
 type Builder struct {
 	buf *bytes.Buffer
 
-	extrusionAmount                                             data.Millimeter
+	extrusionAmount                                             float64 // in mm, summed up with double precision to not accumulate rounding errors
 	extrusionPerMM                                              data.Millimeter
 	currentPosition                                             data.MicroVec3
 	notFirstMoveX                                               bool
@@ -121,7 +121,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 		g.currentSpeed = speed
 	}
 
-	g.extrusionAmount += extrusion
+	g.extrusionAmount += float64(extrusion)
 	if extrusion != 0 {
 		g.buf.WriteString(fmt.Sprintf(" E%0.4f", g.extrusionAmount))
 	}
-- 
2.43.0


From 554537d3f0ed8650ae60051f078dc556a83b1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 26/37] fix: write commands and comments without arguments as
 they are

---
 gcode/builder.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 139bd1a..5109c8b 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -79,15 +79,17 @@ func (g *Builder) SetRetractionZHop(zHopOnRetract data.Millimeter) {
 }
 
 func (g *Builder) AddCommand(command string, args ...interface{}) {
-	command = command + "\n"
-	command = fmt.Sprintf(command, args...)
-	g.buf.WriteString(command)
+	if len(args) > 0 {
+		command = fmt.Sprintf(command, args...)
+	}
+	g.buf.WriteString(command + "\n")
 }
 
 func (g *Builder) AddComment(comment string, args ...interface{}) {
-	comment = ";" + comment + "\n"
-	comment = fmt.Sprintf(comment, args...)
-	g.buf.WriteString(comment)
+	if len(args) > 0 {
+		comment = fmt.Sprintf(comment, args...)
+	}
+	g.buf.WriteString(";" + comment + "\n")
 }
 
 func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed int) {
-- 
2.43.0


From a7c8d92376c588ea7208d4cdedbbb540352f46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 27/37] fix: do not retract before the first move

---
 gcode/builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index 5109c8b..e6ad366 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -165,8 +165,11 @@ func (g *Builder) AddPolygon(currentLayer data.PartitionedLayer, polygon data.Pa
 				polygon[0],
 			}
 
+			// There is nothing to retract before the first move, as the current position is not known yet.
+			isPositionKnown := g.notFirstMoveX && g.notFirstMoveY && g.notFirstMoveZ
+
 			isCrossing := false
-			if currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
+			if isPositionKnown && currentLayer != nil && g.retractionSpeed != 0 && g.retractionAmount != 0 {
 				c := clip.NewClipper()
 				var ok bool
 				isCrossing, ok = c.IsCrossingPerimeter(currentLayer.LayerParts(), move)
-- 
2.43.0


From f6f6519b5c299606ef943d6ba8bf79c82b54dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:11 +0000
Subject: [PATCH 28/37] fix: use the outer perimeter speed only for the outer
 perimeters

---
 gcode/renderer/perimeter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcode/renderer/perimeter.go b/gcode/renderer/perimeter.go
index 297308a..a0e2621 100644
--- a/gcode/renderer/perimeter.go
+++ b/gcode/renderer/perimeter.go
@@ -22,6 +22,9 @@ func (p Perimeter) Render(b *gcode.Builder, layerNr int, maxLayer int, layer dat
 		return nil
 	}
 
+	// Everything but the outer perimeters is printed with the normal layer speed, also what follows.
+	defer b.SetExtrudeSpeed(options.Print.LayerSpeed)
+
 	for _, part := range perimeters {
 		for insetNr := range part {
 			// print the outer perimeter as last perimeter
-- 
2.43.0


From c67e11370e76995933b7d67dc33fbb83ec8dc8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:12 +0000
Subject: [PATCH 29/37] fix: do not set the bed temperature if there is no
 heated bed

---
 gcode/renderer/layer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcode/renderer/layer.go b/gcode/renderer/layer.go
index 4c424ef..90e643c 100644
--- a/gcode/renderer/layer.go
+++ b/gcode/renderer/layer.go
@@ -89,7 +89,9 @@ func (PreLayer) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.P
 		// set the normal temperature
 		// this is done without waiting
 		b.AddComment("SET_TEMP")
-		b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		if options.Printer.HasHeatedBed {
+			b.AddCommand("M140 S%d", options.Filament.BedTemperature)
+		}
 		b.AddCommand("M104 S%d", options.Filament.HotEndTemperature)
 	}
 
-- 
2.43.0


From 98bc5bb3377288ab923d76bfc56bfcc266d45805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:35 +0000
Subject: [PATCH 30/37] fix: only recognize whole temperature codes which are
 not commented out

---
 data/option.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/option.go b/data/option.go
index bbce068..26ecbd8 100644
--- a/data/option.go
+++ b/data/option.go
@@ -155,7 +155,9 @@ func (gch GCodeHunk) DoesInstructionContainCodes(targetCodes []string) bool {
 	for _, instruction := range gch.GCodeLines {
 		code := strings.Split(strings.TrimSpace(instruction), " ")[0]
 		for _, targetCode := range targetCodes {
-			if strings.Contains(code, targetCode) {
+			// Only match the whole code, but its first parameter may follow without a space.
+			rest := strings.TrimPrefix(code, targetCode)
+			if len(rest) < len(code) && (rest == "" || rest[0] < '0' || rest[0] > '9') {
 				contained = true
 				break
 			}
-- 
2.43.0


From 704d40b396779a80979eb850d33d9e387f7aab4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:52 +0000
Subject: [PATCH 31/37] fix: do not cut off the fraction of the configured
 speeds

---
 gcode/builder.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/gcode/builder.go b/gcode/builder.go
index e6ad366..ef2cca5 100644
--- a/gcode/builder.go
+++ b/gcode/builder.go
@@ -21,9 +21,9 @@ type Builder struct {
 	notFirstMoveX                                               bool
 	notFirstMoveY                                               bool
 	notFirstMoveZ                                               bool
-	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride int
+	moveSpeed, extrudeSpeed, currentSpeed, extrudeSpeedOverride data.Millimeter
 
-	retractionSpeed  int
+	retractionSpeed  data.Millimeter
 	retractionAmount data.Millimeter
 	zHopOnRetract    data.Millimeter
 
@@ -51,15 +51,15 @@ func (g *Builder) SetExtrusion(layerThickness, lineWidth data.Micrometer) {
 }
 
 func (g *Builder) SetMoveSpeed(moveSpeed data.Millimeter) {
-	g.moveSpeed = int(moveSpeed)
+	g.moveSpeed = moveSpeed
 }
 
 func (g *Builder) SetExtrudeSpeed(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeed = int(extrudeSpeed)
+	g.extrudeSpeed = extrudeSpeed
 }
 
 func (g *Builder) SetExtrudeSpeedOverride(extrudeSpeed data.Millimeter) {
-	g.extrudeSpeedOverride = int(extrudeSpeed)
+	g.extrudeSpeedOverride = extrudeSpeed
 }
 
 func (g *Builder) DisableExtrudeSpeedOverride() {
@@ -67,7 +67,7 @@ func (g *Builder) DisableExtrudeSpeedOverride() {
 }
 
 func (g *Builder) SetRetractionSpeed(retractionSpeed data.Millimeter) {
-	g.retractionSpeed = int(retractionSpeed)
+	g.retractionSpeed = retractionSpeed
 }
 
 func (g *Builder) SetRetractionAmount(retractionAmount data.Millimeter) {
@@ -92,7 +92,7 @@ func (g *Builder) AddComment(comment string, args ...interface{}) {
 	g.buf.WriteString(";" + comment + "\n")
 }
 
-func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed int) {
+func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, speed data.Millimeter) {
 	notFirstMove := g.notFirstMoveX || g.notFirstMoveY || g.notFirstMoveZ
 	// Ignore moves which are of zero length.
 	if notFirstMove && g.currentPosition.X() == p.X() && g.currentPosition.Y() == p.Y() && g.currentPosition.Z() == p.Z() && extrusion == 0 {
@@ -119,7 +119,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 	}
 
 	if g.currentSpeed != speed {
-		g.buf.WriteString(fmt.Sprintf(" F%v", speed*60))
+		g.buf.WriteString(fmt.Sprintf(" F%d", int(math.Round(float64(speed)*60))))
 		g.currentSpeed = speed
 	}
 
@@ -134,7 +134,7 @@ func (g *Builder) AddMoveSpeed(p data.MicroVec3, extrusion data.Millimeter, spee
 
 func (g *Builder) AddMove(p data.MicroVec3, extrusion data.Millimeter) {
 
-	var speed int
+	var speed data.Millimeter
 	if extrusion != 0 {
 		if g.extrudeSpeedOverride <= 0 {
 			speed = g.extrudeSpeed
-- 
2.43.0


From fa55dac3881bb926a7528d36f299ab7f2e9379a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:49 +0000
Subject: [PATCH 32/37] fix: base the skirt on the brim, which may reach
 farther than its width

---
 gcode/renderer/skirt.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gcode/renderer/skirt.go b/gcode/renderer/skirt.go
index 0d3f988..2bfa27f 100644
--- a/gcode/renderer/skirt.go
+++ b/gcode/renderer/skirt.go
@@ -41,14 +41,24 @@ func (Skirt) Render(b *gcode.Builder, layerNr int, maxLayer int, layer data.Part
 			return nil
 		}
 
-		// Skirt distance + (1/2 extrusion with of the model side + 1/2 extrusion width of the most inner brim line) + the brim width
+		// At acute corners the brim reaches farther than its width, so include the brim itself.
+		brim, err := modifier.Brim(layer)
+		if err != nil {
+			return err
+		}
+
+		// Skirt distance + (1/2 extrusion with of the model (or brim) side + 1/2 extrusion width of the most inner skirt line)
 		// is the distance between the perimeter (or brim) and skirt.
-		distance := options.Print.BrimSkirt.SkirtDistance.ToMicrometer() + (options.Printer.ExtrusionWidth * data.Micrometer(options.Print.BrimSkirt.BrimCount)) + options.Printer.ExtrusionWidth
+		distance := options.Print.BrimSkirt.SkirtDistance.ToMicrometer() + options.Printer.ExtrusionWidth
 
 		// Draw the skirt.
 		c := clip.NewClipper()
 		// Generate the hull around everything.
-		hull, ok := c.Hull(append(support, perimeters.ToOneDimension()...))
+		var printed []data.LayerPart
+		printed = append(printed, support...)
+		printed = append(printed, perimeters.ToOneDimension()...)
+		printed = append(printed, brim.ToOneDimension()...)
+		hull, ok := c.Hull(printed)
 		if !ok {
 			return errors.New("could not generate hull around all perimeters to create the skirt")
 		}
-- 
2.43.0


From 9e9380d2e9f2d6179aa96194cb0707e100be0c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:25 +0000
Subject: [PATCH 33/37] fix: accept a single instruction as start and end
 G-code

---
 data/option.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/data/option.go b/data/option.go
index 26ecbd8..e5f0aa8 100644
--- a/data/option.go
+++ b/data/option.go
@@ -179,12 +179,9 @@ func (gch GCodeHunk) String() string {
 	return strings.Join(gch.GCodeLines, "\n")
 }
 
-// Set is used by pflag to set the value based on the command line input
+// Set is used by pflag to set the value based on the command line input.
+// The instructions have to be separated by \n.
 func (gch *GCodeHunk) Set(s string) error {
-	const errorMsg = "the instructions should be separated by \\n"
-	if !strings.Contains(s, "\n") {
-		return errors.New(errorMsg)
-	}
 	parts := strings.Split(s, "\n")
 	var result []string
 	for _, row := range parts {
-- 
2.43.0


From 8f8263cba20e00db6ae4244270ed29dc9988d6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:26 +0000
Subject: [PATCH 34/37] fix: reject lengths which are no finite number

---
 data/option.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/data/option.go b/data/option.go
index e5f0aa8..49d5e13 100644
--- a/data/option.go
+++ b/data/option.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 	"log"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -21,8 +22,11 @@ func (m Micrometer) String() string {
 
 func (m *Micrometer) Set(s string) error {
 	v, err := strconv.ParseInt(s, 0, 64)
+	if err != nil {
+		return err
+	}
 	*m = Micrometer(v)
-	return err
+	return nil
 }
 
 func (m Micrometer) Type() string {
@@ -35,8 +39,14 @@ func (m Millimeter) String() string {
 
 func (m *Millimeter) Set(s string) error {
 	v, err := strconv.ParseFloat(s, 32)
+	if err == nil && (math.IsNaN(v) || math.IsInf(v, 0)) {
+		err = errors.New("the value has to be a finite number")
+	}
+	if err != nil {
+		return err
+	}
 	*m = Millimeter(v)
-	return err
+	return nil
 }
 
 func (m Millimeter) Type() string {
-- 
2.43.0


From 69d43cbe44128fa9f483de986ddb75753db965b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:31 +0000
Subject: [PATCH 35/37] fix: do not share mutable options with the caller

---
 data/option.go | 21 +++++++++++++++++++++
 goslice.go     |  3 +++
 2 files changed, 24 insertions(+)

diff --git a/data/option.go b/data/option.go
index 49d5e13..0f6d379 100644
--- a/data/option.go
+++ b/data/option.go
@@ -391,6 +391,27 @@ type Options struct {
 	GoSlice  GoSliceOptions
 }
 
+// Copy returns a copy which does not share any setting with the original options.
+// Only the Logger is still the same.
+func (o Options) Copy() Options {
+	if o.Filament.FanSpeed.LayerToSpeedLUT != nil {
+		lut := make(map[int]int, len(o.Filament.FanSpeed.LayerToSpeedLUT))
+		for layer, speed := range o.Filament.FanSpeed.LayerToSpeedLUT {
+			lut[layer] = speed
+		}
+		o.Filament.FanSpeed.LayerToSpeedLUT = lut
+	}
+
+	if o.Printer.Center != nil {
+		o.Printer.Center = o.Printer.Center.Copy()
+	}
+
+	o.Printer.StartGCode.GCodeLines = append([]string(nil), o.Printer.StartGCode.GCodeLines...)
+	o.Printer.EndGCode.GCodeLines = append([]string(nil), o.Printer.EndGCode.GCodeLines...)
+
+	return o
+}
+
 func (o Options) SetHasHeatedBed(val bool) Options {
 	o.Printer.HasHeatedBed = val
 	return o
diff --git a/goslice.go b/goslice.go
index a7364b5..861b082 100644
--- a/goslice.go
+++ b/goslice.go
@@ -29,7 +29,10 @@ type GoSlice struct {
 }
 
 // NewGoSlice provides a GoSlice with all built in implementations.
+// The options are copied, so later changes of the caller do not influence it.
 func NewGoSlice(options data.Options) *GoSlice {
+	options = options.Copy()
+
 	s := &GoSlice{
 		Options: options.GoSlice,
 	}
-- 
2.43.0


From 0f228cc8459f561d41f50bf5901e07bed941a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:21 +0000
Subject: [PATCH 36/37] fix: report invalid facets and further solids of ASCII
 files instead of skipping them

---
 reader/reader.go | 44 ++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/reader/reader.go b/reader/reader.go
index e4fec7f..2cc0ef5 100644
--- a/reader/reader.go
+++ b/reader/reader.go
@@ -1,9 +1,11 @@
 package reader
 
 import (
+	"bufio"
 	"errors"
 	"math"
 	"os"
+	"strings"
 
 	"github.com/aligator/goslice/data"
 	"github.com/aligator/goslice/handler"
@@ -23,11 +25,17 @@ func (f face) Points() [3]data.MicroVec3 {
 // It is far bigger than any printer, but still small enough to not overflow any calculation.
 const maxCoordinate = 100000
 
+// wordsPerFacet is the number of words and numbers a facet consists of in an ASCII STL file.
+const wordsPerFacet = 21
+
 type Model struct {
 	faces []data.Face
 
 	// invalid is set if any coordinate cannot be represented.
 	invalid bool
+
+	// isASCII is set if the model was read from an ASCII file.
+	isASCII bool
 }
 
 func (m *Model) SetName(name string) {
@@ -41,8 +49,7 @@ func (m *Model) SetBinaryHeader(header []byte) {
 }
 
 func (m *Model) SetASCII(isASCII bool) {
-	// not used yet
-	return
+	m.isASCII = isASCII
 }
 
 func (m *Model) SetTriangleCount(n uint32) {
@@ -139,9 +146,42 @@ func (r reader) Read(filename string) (data.Model, error) {
 	if model.invalid {
 		return nil, errors.New("the model contains invalid or too big coordinates")
 	}
+	if model.isASCII {
+		// The stl package silently skips everything it does not expect between two facets and after the first solid.
+		words, err := countFacetWords(filename)
+		if err != nil {
+			return nil, err
+		}
+		if words != model.FaceCount()*wordsPerFacet {
+			return nil, errors.New("the model contains invalid facets or more than one solid")
+		}
+	}
 	return model, nil
 }
 
+// countFacetWords returns the number of words which are part of the facets of an ASCII STL file.
+func countFacetWords(filename string) (int, error) {
+	file, err := os.Open(filename)
+	if err != nil {
+		return 0, err
+	}
+	defer file.Close()
+
+	count := 0
+	scanner := bufio.NewScanner(file)
+	for scanner.Scan() {
+		for _, word := range strings.Fields(scanner.Text()) {
+			if word == "solid" || word == "endsolid" {
+				// the rest of the line is the name of the solid
+				break
+			}
+			count++
+		}
+	}
+
+	return count, scanner.Err()
+}
+
 // stlTriangleToFace converts a triangle from the stl package
 // into a face.
 func stlTriangleToFace(t stl.Triangle) face {
-- 
2.43.0


From 6988c46a190fadb53e7a1057a5ed811fca02de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:32 +0000
Subject: [PATCH 37/37] fix: also remove the remnants of spikes which are a bit
 wider

---
 clip/clip.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/clip/clip.go b/clip/clip.go
index 0bfcdf7..6ac91f9 100644
--- a/clip/clip.go
+++ b/clip/clip.go
@@ -133,6 +133,9 @@ type Clipper interface {
 // It is a bit more than the diagonal between two adjacent coordinates.
 const spikeDistance = 1.415
 
+// remnantDistance is the width in micrometers up to which a polygon is treated as nothing else than a spike.
+const remnantDistance = 3
+
 // clipperClipper implements Clipper using the external clipper library.
 type clipperClipper struct{}
 
@@ -373,6 +376,10 @@ func removeSpikes(parts []data.LayerPart) []data.LayerPart {
 
 	var result []data.LayerPart
 	for _, part := range parts {
+		if len(cl.CleanPolygon(clipperPath(part.Outline()), remnantDistance)) < 3 {
+			continue
+		}
+
 		outline := microPath(cl.CleanPolygon(clipperPath(part.Outline()), spikeDistance), false)
 		if len(outline) < 3 {
 			continue
-- 
2.43.0

