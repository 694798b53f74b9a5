From bd8b7f1ec0ca90924e9d49e31165524f9bfc9eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 01/27] fix: return the conforming Delaunay mesh by value
 instead of a reference to a local

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From 0a685796d56527b00d9fb1e1136269640e7eb3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 02/27] fix: Point::isValid is true for points with
 coordinates, so centroids are computed

---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From 9f7fd8b89ed40e93828bb104ed7f542c230c4425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 03/27] fix: discretize circles with exactly the configured
 number of points

---
 delynoi/src/models/polygon/Circle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..f324032 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,14 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int grade = config->getDiscretizationGrade();
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < grade; ++i) {
+        double angle = 360.0*i/grade;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From 9c2c69cf6d02b08f3b01cf8d9d4d5a420fa1ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 04/27] fix: only cut ears at convex vertices of the polygon

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..ec36eb1 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -18,7 +18,7 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(t.signedArea(points)>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
@@ -39,6 +39,7 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
 
 std::vector<Triangle> EarTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
     std::vector<Triangle> triangles;
+    p.fixCCW(points);
     std::vector<int> pointList = p.getPoints();
 
     while(pointList.size()>=3){
-- 
2.43.0


From 7ec563bf93566e0655bfebb3dac7531d44be4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:01 +0000
Subject: [PATCH 05/27] fix: UniqueList::pop_front keeps the stored indices in
 step with the list

---
 lib/utilities/include/utilities/UniqueList.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..e98d443 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -70,6 +70,10 @@ void UniqueList<T>::pop_front() {
 
     this->list.erase(this->list.begin());
     this->map.erase(elem);
+
+    for (auto& entry: this->map){
+        entry.second--;
+    }
 }
 
 template <class T>
-- 
2.43.0


From e415e7218ae705e532a8fd6fab6cedf3fb8ce484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 06/27] fix: do not truncate scaled coordinates to int before
 clipping

---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..233da01 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -43,14 +43,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From 5cd001239bd7fc1c5916c38eae30424ed346b68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 07/27] fix: generate valid points when only one is requested
 on an axis

---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From f39f227944a4ffbdf9d456653a3b37bd61a10c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 08/27] fix: Angle maps negative angles to the range between 0
 and 180

---
 delynoi/include/delynoi/models/basic/Angle.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delynoi/include/delynoi/models/basic/Angle.h b/delynoi/include/delynoi/models/basic/Angle.h
index 4ce110f..a06fa0f 100644
--- a/delynoi/include/delynoi/models/basic/Angle.h
+++ b/delynoi/include/delynoi/models/basic/Angle.h
@@ -18,6 +18,11 @@ struct Angle{
      */
     Angle(double a){
         a = a - 360.0*int(a/360);
+
+        if(a<0){
+            a = a + 360;
+        }
+
         if(a>=0 && a<180) {
             angle = a;
         }else{
-- 
2.43.0


From 1a6aa49a5b1e0996bd273560fafcdaf3606893d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:27 +0000
Subject: [PATCH 09/27] fix: define random_integer_noise with its declared
 signature

---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 0ac58b5ad24d3a6661e91ff42978689f4afbf360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 10/27] fix: define collinear for segments with its declared
 signature

---
 delynoi/src/utilities/geometryFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/utilities/geometryFunctions.cpp b/delynoi/src/utilities/geometryFunctions.cpp
index 8693474..817ca6f 100644
--- a/delynoi/src/utilities/geometryFunctions.cpp
+++ b/delynoi/src/utilities/geometryFunctions.cpp
@@ -17,7 +17,7 @@ namespace geometry_functions{
         return std::abs(area2(p1,p2,p3))<config->getTolerance();
     }
 
-    bool collinear(PointSegment seg1, PointSegment seg2){
+    bool collinear(PointSegment& seg1, PointSegment& seg2){
         return collinear(seg1.getFirst(), seg1.getSecond(), seg2.getFirst()) &&
                 collinear(seg1.getFirst(), seg1.getSecond(), seg2.getSecond());
     }
-- 
2.43.0


From 2133d446254c3b7a0528c676daa8686b89aee51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 11/27] fix: copying a Region keeps its seed points

---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 233da01..bdb87ff 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints.assign(other.seedPoints.begin(), other.seedPoints.end());
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From 505f38686fb28119cd7275edb67bf1b76f30a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 12/27] fix: isConvex looks past an initial collinear corner

---
 delynoi/src/models/polygon/Polygon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..523302a 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -203,6 +203,10 @@ bool Polygon::isConvex(std::vector<Point>& p) {
         if(determinant*newResult<0){
             return false;
         }
+
+        if(determinant==0){
+            determinant = newResult;
+        }
     }
 
     return true;
-- 
2.43.0


From 25b276bc5ad925b229c0cc34bd09c57b61a7f1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 13/27] fix: write point coordinates with the configured number
 of decimals

---
 delynoi/src/models/basic/Point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 0bea35e..a26c4a9 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -26,7 +26,9 @@ double Point::getY() const{
 }
 
 std::string Point::getString() const{
-    return utilities::toString<double>(this->getX()) + " " + utilities::toString<double>(this->getY());
+    int precision = DelynoiConfig::instance()->getPrecision();
+    return utilities::toStringWithPrecision(this->getX(), precision) + " " +
+           utilities::toStringWithPrecision(this->getY(), precision);
 }
 
 double Point::squareNorm() {
-- 
2.43.0


From 53c5ff8073f1fe4296dda08d52928e34f6c583e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 14/27] fix: write indices as integers, whatever their size

---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 523302a..4980ce2 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -248,10 +248,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From 26aef67cb3762cf8386c9275044b62f6944d4d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:23 +0000
Subject: [PATCH 15/27] fix: bounding boxes given by either pair of opposite
 corners are equal

---
 delynoi/src/models/polygon/BoundingBox.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/BoundingBox.cpp b/delynoi/src/models/polygon/BoundingBox.cpp
index 9a56a60..19a4efa 100644
--- a/delynoi/src/models/polygon/BoundingBox.cpp
+++ b/delynoi/src/models/polygon/BoundingBox.cpp
@@ -38,8 +38,12 @@ double BoundingBox::yMax() {
 }
 
 bool BoundingBox::operator==(const BoundingBox &other) const {
-    return getFirst()==other.getFirst() && getSecond()==other.getSecond() ||
-           getSecond()==other.getFirst() && getFirst()==other.getSecond();
+    Point thisMin (std::min(p1.getX(), p2.getX()), std::min(p1.getY(), p2.getY()));
+    Point thisMax (std::max(p1.getX(), p2.getX()), std::max(p1.getY(), p2.getY()));
+    Point otherMin (std::min(other.p1.getX(), other.p2.getX()), std::min(other.p1.getY(), other.p2.getY()));
+    Point otherMax (std::max(other.p1.getX(), other.p2.getX()), std::max(other.p1.getY(), other.p2.getY()));
+
+    return thisMin==otherMin && thisMax==otherMax;
 }
 
 void BoundingBox::getSegments(std::vector<PointSegment> &segments) {
-- 
2.43.0


From 332aa602e35f7d81df8fbccc6557c25679bdbd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:27 +0000
Subject: [PATCH 16/27] fix: the box of a region is tight for coordinates
 beyond the range of long long

---
 delynoi/src/models/Region.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index bdb87ff..e3d8da1 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/Region.h>
+#include <limits>
 
 Region::Region(std::vector<Point>& points) : Polygon(points){
     this->p = points;
@@ -115,10 +116,10 @@ void Region::addSeedsFromFile(std::string fileName) {
 }
 
 BoundingBox Region::getBox() {
-    double xMin = LLONG_MAX;
-    double xMax = LLONG_MIN;
-    double yMin = LLONG_MAX;
-    double yMax = LLONG_MIN;
+    double xMin = std::numeric_limits<double>::max();
+    double xMax = std::numeric_limits<double>::lowest();
+    double yMin = std::numeric_limits<double>::max();
+    double yMax = std::numeric_limits<double>::lowest();
 
     for(auto& v: p){
         xMin = v.getX()<xMin? v.getX(): xMin;
-- 
2.43.0


From baf322270c69f5758961e8afe603d28cf41da975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 17/27] fix: Angle normalises angles of any magnitude

---
 delynoi/include/delynoi/models/basic/Angle.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/basic/Angle.h b/delynoi/include/delynoi/models/basic/Angle.h
index a06fa0f..7c41591 100644
--- a/delynoi/include/delynoi/models/basic/Angle.h
+++ b/delynoi/include/delynoi/models/basic/Angle.h
@@ -17,7 +17,7 @@ struct Angle{
      * Constructor. Takes an angle value and obtains the equivalent between 0 and 180.
      */
     Angle(double a){
-        a = a - 360.0*int(a/360);
+        a = std::fmod(a, 360.0);
 
         if(a<0){
             a = a + 360;
-- 
2.43.0


From 0450441f15d998f8f4ec4b71805b2b41e11d8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:17 +0000
Subject: [PATCH 18/27] fix: holes whose centroid lies outside them: use a
 point inside the hole to place it

---
 delynoi/include/delynoi/models/hole/Hole.h    | 59 ++++++++++++++++++-
 delynoi/src/models/Region.cpp                 |  2 +-
 .../src/voronoi/TriangleDelaunayGenerator.cpp |  7 ++-
 3 files changed, 61 insertions(+), 7 deletions(-)

diff --git a/delynoi/include/delynoi/models/hole/Hole.h b/delynoi/include/delynoi/models/hole/Hole.h
index 357ae2e..472bc8b 100644
--- a/delynoi/include/delynoi/models/hole/Hole.h
+++ b/delynoi/include/delynoi/models/hole/Hole.h
@@ -4,6 +4,8 @@
 #include <delynoi/models/basic/Point.h>
 #include <delynoi/models/basic/Segment.h>
 #include <vector>
+#include <algorithm>
+#include <limits>
 #include <delynoi/models/basic/IndexSegment.h>
 
 /*
@@ -96,17 +98,68 @@ public:
             return true;
         }
 
-        IndexSegment container(-1,-1);
+        return inEdges(point);
+    };
+
+    /* Checks if a point is in the boundary of the hole
+     * @param point point to check
+     * @return if the point is in the boundary of the hole or not
+     */
+    bool inEdges(Point point){
         std::vector<IndexSegment> segments;
         this->getSegments(segments, 0);
 
         for(int i=0; i<segments.size(); i++){
             if(segments[i].contains(HolePoints,point)){
-                container = segments[i];
+                return true;
+            }
+        }
+
+        return false;
+    };
+
+    /*
+     * @return a point inside the hole: its center or, if that is not inside (possible if the hole is not convex), the
+     * middle of the first stretch inside the hole of a horizontal line just over its lowest points
+     */
+    Point getInnerPoint(){
+        Point c = this->getCenter();
+
+        if(HolePoints.size()<3 || (containsPoint(c) && !inEdges(c))){
+            return c;
+        }
+
+        double low = HolePoints[0].getY();
+        for(Point p: HolePoints){
+            low = std::min(low, p.getY());
+        }
+
+        double next = std::numeric_limits<double>::max();
+        for(Point p: HolePoints){
+            if(p.getY()>low){
+                next = std::min(next, p.getY());
+            }
+        }
+
+        double y = low + (next-low)/2;
+        std::vector<double> crossings;
+
+        for(int i=0; i<HolePoints.size(); i++){
+            Point pI = HolePoints[i];
+            Point pJ = HolePoints[(i+1)%HolePoints.size()];
+
+            if((pI.getY()<y) != (pJ.getY()<y)){
+                crossings.push_back(pI.getX() + (y-pI.getY())/(pJ.getY()-pI.getY())*(pJ.getX()-pI.getX()));
             }
         }
 
-        return container.getFirst()!= -1 && container.getSecond()!= -1;
+        if(crossings.size()<2){
+            return c;
+        }
+
+        std::sort(crossings.begin(), crossings.end());
+
+        return Point((crossings[0]+crossings[1])/2, y);
     };
 };
 
diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index e3d8da1..57de57e 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -73,7 +73,7 @@ void Region::addHole(Hole h) {
     }else{
         //Two cases, hole is completely inside or completely outside, just ignore holes outside
 
-        if(Polygon::containsPoint(this->p, h.getCenter())){
+        if(Polygon::containsPoint(this->p, h.getInnerPoint())){
             this->holes.push_back(h);
         }else{
             throw std::invalid_argument("Hole lies completely outside of domain region");
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..5f7644f 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -61,8 +61,9 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     in.numberofholes = (int) holes.size();
     in.holelist = (REAL*)malloc(in.numberofholes*2*sizeof(REAL));
     for(int i=0;i<holes.size();i++){
-        in.holelist[2*i] = holes[i].getCenter().getX();
-        in.holelist[2*i+1] = holes[i].getCenter().getY();
+        Point inner = holes[i].getInnerPoint();
+        in.holelist[2*i] = inner.getX();
+        in.holelist[2*i+1] = inner.getY();
     }
 
     in.numberofregions = 0;
@@ -176,7 +177,7 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
     file << holes.size() << std::endl;
 
     for (int j = 0; j < holes.size(); ++j) {
-        file << j << " " << holes[j].getCenter().getString() << std::endl;
+        file << j << " " << holes[j].getInnerPoint().getString() << std::endl;
     }
 
     file.close();
-- 
2.43.0


From 30fa636a8e5b085fa34804df2455a875e7cb5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 19/27] fix: nearly collinear segments were reported as
 intersecting when their determinant was rounding noise

---
 delynoi/src/models/basic/Segment.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 8f479a7..691d289 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -53,9 +53,15 @@ bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
+    //Parallel segments do not intersect: when the determinant is just rounding noise, s and t would be meaningless
+    double determinant = -s2_x * s1_y + s1_x * s2_y;
+    if (std::abs(determinant) <= 1e-10*std::abs(s1_x * s2_y)){
+        return false;
+    }
+
     double s, t;
-    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
-    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
+    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / determinant;
+    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / determinant;
 
     if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){
         double i_x = p1.getX() + (t * s1_x);
-- 
2.43.0


From d5177be5b4e1aa779efe9ac3d5b47e3ebc372e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 20/27] fix: constantAlternating lost the first value of a row,
 so the third row started displaced

---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..fc9697a 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From 26ad1f35ca96bcd83e0b277eb750f74b0db9973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 21/27] fix: the Delaunay triangulation of a polygon returned
 indices of another point list

---
 .../DelaunayTriangulationGenerator.cpp        | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..d881e41 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -1,10 +1,25 @@
 #include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
 
 std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
+    //The list can contain points that are not corners of the polygon: only the corners are triangulated, and the
+    //triangles given in terms of the original list
+    std::vector<int> corners = p.getPoints();
+    std::vector<Point> cornerPoints = p.getPoints(points);
     Region r (p, points);
 
-    TriangleDelaunayGenerator generator(points,r);
+    TriangleDelaunayGenerator generator(cornerPoints,r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    std::vector<Triangle> triangles;
+    for (Triangle& t: triangulation.getPolygons()) {
+        std::vector<int> trianglePoints;
+
+        for (int i: t.getPoints()) {
+            trianglePoints.push_back(corners[utilities::indexOf(cornerPoints, triangulation.getPoint(i))]);
+        }
+
+        triangles.push_back(Triangle(trianglePoints, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0


From ce4ef6d25daa4d74182965cf6d2a3d55d0feac11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 22/27] fix: a boundary point that was already a circumcentre
 was not marked as boundary

---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 89c199e..84f9db0 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -113,6 +113,8 @@ int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge
         middlePoint.setBoundary();
 
         int circumcenterIndex = del.circumcenters.push_back(middlePoint);
+        //The point can be in the list already, as a point that was not on the boundary
+        del.circumcenters[circumcenterIndex].setBoundary();
 
         return circumcenterIndex;
     }
-- 
2.43.0


From 5d59751f0dd54120924a51f4c9dff97c58493854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 23/27] fix: an outline with a repeated corner was taken for
 self-intersecting

---
 delynoi/src/models/polygon/Polygon.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 4980ce2..5a1ee62 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -293,8 +293,16 @@ bool Polygon::operator<(const Polygon &other) const {
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-    std::vector<IndexSegment> segments;
-    this->getSegments(segments);
+    std::vector<IndexSegment> segments, sides;
+    this->getSegments(sides);
+
+    //Sides between two equal points have no length, the ones before and after them are adjacent
+    for (int i = 0; i < sides.size(); ++i) {
+        if(!(points[sides[i].getFirst()] == points[sides[i].getSecond()])){
+            segments.push_back(sides[i]);
+        }
+    }
+
     int n = segments.size();
     Point intersection;
 
-- 
2.43.0


From 5761d3858bb9fcb2afd323d770c2da6cf24cd646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 24/27] fix: a polygon, hole or region built from
 self-intersecting points was accepted

---
 delynoi/src/models/polygon/Polygon.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5a1ee62..590176a 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -33,12 +33,12 @@ void Polygon::mutate(std::vector<Point> &p) {
 }
 
 Polygon::Polygon(std::vector<Point> &p) {
+    delynoi_utilities::TrivialIndexVector(this->points,p.size());
+
     if(isSelfIntersecting(p)){
-        std::invalid_argument("Self intersecting polygons are not supported");
+        throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
-    delynoi_utilities::TrivialIndexVector(this->points,p.size());
-
     std::vector<Point> this_points;
     for(int i=0;i<points.size();i++){
         this_points.push_back(p[points[i]]);
-- 
2.43.0


From ef585d41dde35ef058adfd9a449c5a8d9335bec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:12 +0000
Subject: [PATCH 25/27] fix: a rejected replacement changed the polygon or
 region

---
 delynoi/src/models/Region.cpp          | 3 ++-
 delynoi/src/models/polygon/Polygon.cpp | 9 +++------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 57de57e..b99a541 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -6,8 +6,9 @@ Region::Region(std::vector<Point>& points) : Polygon(points){
 }
 
 void Region::mutate(std::vector<Point> &points) {
-    this->p = points;
+    //Rejects invalid points, before anything of this region changes
     Polygon::mutate(points);
+    this->p = points;
 }
 
 Region::Region() : Polygon(){}
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 590176a..45a9be2 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -19,12 +19,9 @@ Polygon::Polygon(std::vector<int>& points, std::vector<Point>& p) {
 }
 
 void Polygon::mutate(std::vector<Point> &p) {
-    this->points.clear();
-    delynoi_utilities::TrivialIndexVector(this->points,p.size());
-
-    if(isSelfIntersecting(p)){
-        throw std::invalid_argument("Self intersecting polygons are not supported");
-    }
+    //The constructor rejects invalid points, before anything of this polygon changes
+    Polygon other(p);
+    this->points = other.points;
 
     this->diameter = -1;
     this->area = -1;
-- 
2.43.0


From 8cb5b529ac58dbc972cef8b1a05bad99f1c34814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 26/27] fix: a mesh file that lists a point twice was read with
 wrong polygons

---
 delynoi/include/delynoi/models/Mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..372b6e6 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -169,12 +169,13 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<int> index;
     for (int i = 0; i < numberMeshPoints; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        index.push_back(this->points.push_back(newPoint));
     }
 
     std::getline(infile, line);
@@ -186,7 +187,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            polygonPoints.push_back(index[std::atoi(splittedLine[j].c_str()) - startIndex]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
-- 
2.43.0


From 635e29e1f3084029fc7df5584d20d038f0ac55a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 27/27] fix: a mesh read from a file had an empty point map

---
 delynoi/include/delynoi/models/Mesh.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 372b6e6..27b2fa8 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -198,6 +198,10 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         for (IndexSegment s: segments){
             this->edges->insert(s, i);
         }
+
+        for (int point: polygonPoints) {
+            this->pointMap->insert(this->points[point], i);
+        }
     }
 }
 
-- 
2.43.0

