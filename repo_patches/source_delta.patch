From d82790bcfeee2264aad8f2ccd68b76f2d1edb56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 01/13] fix: copy the point counts in Delaunay.Set

---
 triangulation/incrdelaunay/delaunay.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulation/incrdelaunay/delaunay.go b/triangulation/incrdelaunay/delaunay.go
index e40f55f..5d5051b 100644
--- a/triangulation/incrdelaunay/delaunay.go
+++ b/triangulation/incrdelaunay/delaunay.go
@@ -301,6 +301,9 @@ func (d *Delaunay) Set(other *Delaunay) {
 
 	d.grid.Set(&other.grid)
 	d.pointMap.Set(&other.pointMap)
+
+	d.numPoints = other.numPoints
+	d.uniquePoints = other.uniquePoints
 }
 
 // HasPoint returns whether the triangulation contains point p.
-- 
2.43.0


From 65c6b7afe7bdcd6190cf47b9c0de426d94184a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 02/13] fix: allocate the circumcircle grid column by column,
 as it is indexed

---
 triangulation/incrdelaunay/grid.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 82eeab9..9992d2d 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -20,9 +20,9 @@ func NewCircumcircleGrid(cols, rows, w, h int) CircumcircleGrid {
 	c.colPixels = float64(w) / float64(cols)
 	c.rowPixels = float64(h) / float64(rows)
 
-	c.triangles = make([][][]uint16, c.rows)
+	c.triangles = make([][][]uint16, c.cols)
 	for i := range c.triangles {
-		c.triangles[i] = make([][]uint16, c.cols)
+		c.triangles[i] = make([][]uint16, c.rows)
 	}
 	return c
 }
-- 
2.43.0


From 4a127f3537bf7d09189c4b2806f7b56371144bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 03/13] fix: copy the image dimensions when a triangulation or
 Voronoi diagram is set to another

---
 triangulation/incrdelaunay/grid.go    | 2 ++
 triangulation/incrdelaunay/voronoi.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/triangulation/incrdelaunay/grid.go b/triangulation/incrdelaunay/grid.go
index 9992d2d..308ac15 100644
--- a/triangulation/incrdelaunay/grid.go
+++ b/triangulation/incrdelaunay/grid.go
@@ -266,4 +266,6 @@ func (c *CircumcircleGrid) Set(other *CircumcircleGrid) {
 			copy(c.triangles[x][y], other.triangles[x][y])
 		}
 	}
+
+	c.rowPixels, c.colPixels = other.rowPixels, other.colPixels
 }
diff --git a/triangulation/incrdelaunay/voronoi.go b/triangulation/incrdelaunay/voronoi.go
index 913dac7..5abda14 100644
--- a/triangulation/incrdelaunay/voronoi.go
+++ b/triangulation/incrdelaunay/voronoi.go
@@ -298,6 +298,8 @@ func (v *IVoronoi) addPointToUpdate(point Point) {
 func (v *IVoronoi) Set(other *IVoronoi) {
 	v.delaunay.Set(other.delaunay)
 	v.polygonMap.Set(&other.polygonMap)
+
+	v.w, v.h = other.w, other.h
 }
 
 // Should not be modified
-- 
2.43.0


From 6d691c8de25efd543c0192142f48d71f6130c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 04/13] fix: convert images whose bounds do not start at the
 origin

---
 image/rgbdata.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/image/rgbdata.go b/image/rgbdata.go
index f422e87..ba44f6b 100644
--- a/image/rgbdata.go
+++ b/image/rgbdata.go
@@ -37,12 +37,13 @@ func NewData(w, h int) RGBData {
 
 // ToData converts an image.Image to a RGBData.
 func ToData(image image.Image) RGBData {
-	data := NewData(image.Bounds().Max.X, image.Bounds().Max.Y)
+	bounds := image.Bounds()
+	data := NewData(bounds.Dx(), bounds.Dy())
 
 	for y := range data.pixels {
 		for x := range data.pixels[y] {
 			col := &data.pixels[y][x]
-			r, g, b, _ := image.At(x, y).RGBA()
+			r, g, b, _ := image.At(bounds.Min.X+x, bounds.Min.Y+y).RGBA()
 
 			col.R = convertColor(r)
 			col.G = convertColor(g)
-- 
2.43.0


From d4ed3bab525548be1bc2f30940f9abd4c321e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 05/13] fix: keep block colour sums from overflowing for blocks
 larger than 16 pixels

---
 fitness/pixels.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index 8a6360d..bdbefcd 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -61,7 +61,7 @@ type pixelDataN struct {
 
 // pixel stores RGB values of a pixel as well as the sum of their squares in a N*N block.
 type pixelN struct {
-	r, g, b uint16
+	r, g, b uint32
 	sq      uint32
 }
 
@@ -89,9 +89,9 @@ func fromImageN(image image.Data, n int) pixelDataN {
 			for i := 0; i < n; i++ {
 				for j := 0; j < n; j++ {
 					rgb := image.RGBAt(x+i, y+j)
-					col.r += uint16(rgb.R * 255)
-					col.g += uint16(rgb.G * 255)
-					col.b += uint16(rgb.B * 255)
+					col.r += uint32(rgb.R * 255)
+					col.g += uint32(rgb.G * 255)
+					col.b += uint32(rgb.B * 255)
 					col.sq += uint32(rgb.R*255*rgb.R*255 + rgb.G*255*rgb.G*255 + rgb.B*255*rgb.B*255)
 				}
 			}
-- 
2.43.0


From 537de331ff3305517a9f9e3881310e494908a6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 06/13] fix: accept images smaller than the block size

---
 fitness/pixels.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fitness/pixels.go b/fitness/pixels.go
index bdbefcd..afd80da 100644
--- a/fitness/pixels.go
+++ b/fitness/pixels.go
@@ -68,6 +68,10 @@ type pixelN struct {
 // newPixelDataN creates a new pixelDataN given a width and height.
 func newPixelDataN(w, h, n int) pixelDataN {
 	data := pixelDataN{}
+	if w < n || h < n {
+		// No block fits in the image
+		return data
+	}
 	data.pixels = make([][]pixelN, h-n+1)
 
 	for i := range data.pixels {
-- 
2.43.0


From 51f54ea9e498a0d19462b6abf97a00440f8ed822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 07/13] fix: average of no colours is black instead of NaN

---
 color/color.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/color/color.go b/color/color.go
index 037d850..8c217b6 100644
--- a/color/color.go
+++ b/color/color.go
@@ -29,6 +29,9 @@ func (argb *AverageRGB) Add(rgb RGB) {
 
 // Average returns the average of all added colors.
 func (argb AverageRGB) Average() RGB {
+	if argb.count == 0 {
+		return RGB{}
+	}
 	c := float64(argb.count)
 	return NewRGB(argb.rgb.R/c, argb.rgb.G/c, argb.rgb.B/c)
 }
-- 
2.43.0


From 97d203171efc0adfb9288c0a17be6130b1def3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 08/13] fix: start with a one-entry cache, which any cache size
 can take over

---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index a82df75..5bb4ea4 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -181,7 +181,7 @@ func PolygonsImageFunctions(target image.Data, blockSize, n int) []CacheFunction
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 648c7e8..3dd2a41 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -187,7 +187,7 @@ func TrianglesImageFunctions(target image.Data, blockSize, n int) []CacheFunctio
 			targetN:       pixelsN,
 			blockSize:     blockSize,
 			maxDifference: maxDiff,
-			TriangleCache: make([]CacheData, 2),
+			TriangleCache: make([]CacheData, 1),
 		}
 		functions[i] = &function
 	}
@@ -204,6 +204,6 @@ func NewTrianglesImageFunction(target image.Data, blockSize int) CacheFunction {
 		targetN:       fromImageN(target, blockSize),
 		blockSize:     blockSize,
 		maxDifference: float64(maxPixelDifference * w * h),
-		TriangleCache: make([]CacheData, 2),
+		TriangleCache: make([]CacheData, 1),
 	}
 }
-- 
2.43.0


From dcf816b68ace0e3fbe07f8bf0977d4cbb9ce788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 09/13] fix: let the spaced generator generate no points

---
 generator/spaced.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/generator/spaced.go b/generator/spaced.go
index 8d857e6..d652143 100644
--- a/generator/spaced.go
+++ b/generator/spaced.go
@@ -16,6 +16,9 @@ type spacedGenerator struct {
 
 func (s spacedGenerator) Generate(n int) normgeom.NormPointGroup {
 	points := randomPoints(n)
+	if len(points) == 0 {
+		return points
+	}
 
 	/*points = append(points, normgeom.NormPoint{0, 0})
 	points = append(points, normgeom.NormPoint{0, 1})
-- 
2.43.0


From 66621ed6b8799bc12a6a2924f48006b0c59f2687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 10/13] fix: square the colour sums of large shapes without
 integer overflow

---
 fitness/polygons.go  | 2 +-
 fitness/triangles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fitness/polygons.go b/fitness/polygons.go
index 5bb4ea4..98e3983 100644
--- a/fitness/polygons.go
+++ b/fitness/polygons.go
@@ -131,7 +131,7 @@ func (g *polygonsImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				diff = float64(sSq) - (float64(sR0)*float64(sR0)+float64(sG0)*float64(sG0)+float64(sB0)*float64(sB0))/float64(n)
 			}
 			difference += diff
 			polyData.fitness = diff
diff --git a/fitness/triangles.go b/fitness/triangles.go
index 3dd2a41..4fce862 100644
--- a/fitness/triangles.go
+++ b/fitness/triangles.go
@@ -135,7 +135,7 @@ func (t *trianglesImageFunction) Calculate(data PointsData) float64 {
 			})
 			var diff float64
 			if n != 0 {
-				diff = float64(sSq) - float64(sR0*sR0+sG0*sG0+sB0*sB0)/float64(n)
+				diff = float64(sSq) - (float64(sR0)*float64(sR0)+float64(sG0)*float64(sG0)+float64(sB0)*float64(sB0))/float64(n)
 			}
 			difference += diff
 			triData.fitness = diff
-- 
2.43.0


From 61565d557e6269fcb9676983ea2be5461bed1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 11/13] fix: write the whole trace file and report I/O errors

---
 utils/trace.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/utils/trace.go b/utils/trace.go
index 4631437..c6df361 100644
--- a/utils/trace.go
+++ b/utils/trace.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"bufio"
 	"github.com/RH12503/Triangula/algorithm"
+	"log"
 	"os"
 	"runtime/trace"
 )
@@ -10,16 +11,26 @@ import (
 // GenerateTrace generates a trace of an algorithm, and is
 // used for debugging and evaluating performance.
 func GenerateTrace(outputFile string, algo algorithm.Algorithm) {
-	dataFile, _ := os.Create(outputFile + ".trace")
+	dataFile, err := os.Create(outputFile + ".trace")
+	if err != nil {
+		log.Fatal(err)
+	}
 	writer := bufio.NewWriter(dataFile)
 	for i := 0; i < 2000; i++ {
 		algo.Step()
 	}
 
-	trace.Start(writer)
+	if err := trace.Start(writer); err != nil {
+		log.Fatal(err)
+	}
 	for i := 0; i < 1000; i++ {
 		algo.Step()
 	}
 	trace.Stop()
-	dataFile.Close()
+	if err := writer.Flush(); err != nil {
+		log.Fatal(err)
+	}
+	if err := dataFile.Close(); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0


From d976ea0684bbcd9e35fdd1150795159065ac5b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 12/13] fix: report errors writing the statistics file

---
 utils/output.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utils/output.go b/utils/output.go
index 3e43363..28bbacf 100644
--- a/utils/output.go
+++ b/utils/output.go
@@ -13,7 +13,10 @@ import (
 
 // GenerateAlgorithmOutput runs an algorithm.Algorithm and writes the best point group to a file.
 func GenerateAlgorithmOutput(outputFile string, algo algorithm.Algorithm, reps int) {
-	dataFile, _ := os.Create(outputFile + "-stats")
+	dataFile, err := os.Create(outputFile + "-stats")
+	if err != nil {
+		log.Fatal(err)
+	}
 	writer := bufio.NewWriter(dataFile)
 
 	for {
@@ -33,8 +36,9 @@ func GenerateAlgorithmOutput(outputFile string, algo algorithm.Algorithm, reps i
 		if err != nil {
 			log.Fatal(err)
 		}
+		// A failed write is kept by the writer and reported when flushing
 		writer.WriteString(fmt.Sprintf("%v, %v\n", stats.Generation, stats.BestFitness))
-		writer.Flush()
+		err = writer.Flush()
 		if err != nil {
 			log.Fatal(err)
 		}
-- 
2.43.0


From 5872782f2189dcfb5224a39c2ad849381d79fb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:59 +0000
Subject: [PATCH 13/13] fix: report profiling errors and close the profile

---
 utils/profile.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/profile.go b/utils/profile.go
index c662602..aaf1659 100644
--- a/utils/profile.go
+++ b/utils/profile.go
@@ -16,12 +16,17 @@ func GenerateProfile(outputFile string, algo algorithm.Algorithm, seconds int) {
 	}
 
 	t := time.Now()
-	pprof.StartCPUProfile(f)
+	if err := pprof.StartCPUProfile(f); err != nil {
+		log.Fatal(err)
+	}
 	for time.Since(t).Seconds() < float64(seconds) {
 		for i := 0; i < 5; i++ {
 			algo.Step()
 		}
 	}
 
-	defer pprof.StopCPUProfile()
+	pprof.StopCPUProfile()
+	if err := f.Close(); err != nil {
+		log.Fatal(err)
+	}
 }
-- 
2.43.0

