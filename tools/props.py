#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json,os
S='delynoi/src/'; I='delynoi/include/delynoi/'; U='lib/utilities/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs)))
TEST='The existing tests only run a few fixed domains to completion and never look at the resulting mesh.'
p('C01','Voronoi cells tile the region',
  'For a simple counter-clockwise region and any set of seed points in it, every polygon of the mesh returned by TriangleVoronoiGenerator is a counter-clockwise polygon of positive area whose corners are distinct mesh points, every cell side is either shared with exactly one other cell that traverses it in the opposite direction or lies on the boundary of the region, and the cell areas add up to the area of the region. This holds for convex and non-convex regions, for seeds in the interior, on the boundary, on region corners, coincident or cocircular.',
  ['inputs'],'every seed position (including on the boundary, coincident and cocircular seeds) and region shape',TEST,
  [S+'voronoi/DelaunayToVoronoi.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp',S+'voronoi/TriangleVoronoiGenerator.cpp',I+'voronoi/lib/triangle.c'],
  [('cell construction by walking around each Delaunay vertex','DelaunayToVoronoi::DelaunayToVoronoi'),('orientation repair','Polygon::fixCCW')],['TriangleVoronoiGenerator::getMesh','Mesh::getPolygons','Mesh::getPoints'])
p('C02','Voronoi cells belong to their nearest generator',
  'The Voronoi mesh has exactly one cell per vertex of the Delaunay mesh that TriangleVoronoiGenerator::getTriangulation returns, and each cell contains its own vertex and no other vertex in its interior. For a convex region without holes, no corner of a cell is nearer to another Delaunay vertex than to the cell\'s own vertex, and every seed point and region corner is a vertex of the Delaunay mesh.',
  ['inputs'],'every seed position in convex regions (one-cell-per-vertex also in non-convex regions)',TEST,
  [S+'voronoi/DelaunayToVoronoi.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp',S+'models/polygon/Triangle.cpp'],
  [('circumcentres as cell corners','Triangle::calculateCircumcenter'),('boundary cells closed with edge midpoints and the vertex','DelaunayToVoronoi::getCircumcenter')],['TriangleVoronoiGenerator::getMesh','TriangleVoronoiGenerator::getTriangulation'])
p('C03','Delaunay triangulations are valid and keep what was given',
  'The triangles of getConstrainedDelaunayTriangulation and getConformingDelaunayTriangulation are counter-clockwise, do not overlap and cover the region, and every seed, every region corner, the region boundary and (for the constrained call that takes them) every restricted segment of a set that does not cross appear in the triangulation. In the conforming triangulation of a region no mesh point lies strictly inside the circumcircle of a triangle, and in the constrained one every edge that is not given is locally Delaunay and no vertices are added.',
  ['inputs'],'every seed position and every placement of a restricted segment between seeds',TEST,
  [S+'voronoi/TriangleDelaunayGenerator.cpp',I+'voronoi/lib/triangle.c',I+'voronoi/TriangleDelaunayGenerator.h'],
  [('call to Triangle with segments','TriangleDelaunayGenerator::callTriangle'),('mesh assembly','TriangleDelaunayGenerator::initializeMesh')],['TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation','TriangleDelaunayGenerator::getConformingDelaunayTriangulation'])
p('C04','Edge map of a generated mesh lists the adjacent polygons',
  'For Voronoi and Delaunay meshes produced by the generators, the segment map contains exactly the edges of the mesh polygons, keyed without direction. Each edge maps to the one or two polygons that have it as a side: two distinct indices for an interior edge, one index and -1 for a boundary edge.',
  ['inputs'],'every seed position, with and without holes',TEST,
  [S+'voronoi/DelaunayToVoronoi.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp',S+'models/neighbourhood/SegmentMap.cpp',S+'models/polygon/Polygon.cpp'],
  [('edge insertion during the cell walk','DelaunayToVoronoi::DelaunayToVoronoi'),('edge neighbours from triangles','TriangleDelaunayGenerator::callTriangle')],['Mesh::getSegments','Mesh::getNeighbours'])
p('C05','Point map of a generated mesh lists the polygons at each point',
  'For Voronoi and Delaunay meshes produced by the generators, looking a mesh point up in the point map yields, taken as a set, exactly the indices of the polygons that have this point as a corner. No entry exists for a point that is not a mesh point.',
  ['inputs'],'every seed position, with and without holes',TEST,
  [S+'voronoi/DelaunayToVoronoi.cpp',I+'voronoi/TriangleDelaunayGenerator.h',S+'models/neighbourhood/PointMap.cpp'],
  [('point insertion during the cell walk','DelaunayToVoronoi::DelaunayToVoronoi'),('point insertion from triangles','TriangleDelaunayGenerator::initializeMesh')],['Mesh::getPointMap'])
p('C06','Contained holes are left out of the meshes',
  'When holes (polygonal or circular) that lie strictly inside the region and contain their centre are added, the Voronoi and Delaunay meshes cover the region minus the holes: all polygons have positive area, the areas add up to the region area minus the hole areas, and no polygon centroid or mesh point lies strictly inside a hole. This holds for several holes and for any position and size of a hole.',
  ['inputs'],'every position and size of a contained hole, several holes, seeds around them','SwissCheeseTestMain runs one fixed set of circular holes and does not look at the mesh.',
  [S+'models/Region.cpp',S+'models/hole/PolygonalHole.cpp',S+'models/hole/CircularHole.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp'],
  [('hole bookkeeping','Region::addHole'),('hole points and centres passed to Triangle','TriangleDelaunayGenerator::callTriangle'),('hole centre','PolygonalHole::PolygonalHole')],['Region::getHoles','TriangleVoronoiGenerator::getMesh','TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation'])
p('C07','Adding a hole cuts the region or records the hole',
  'Adding a hole that overlaps the boundary of the region (along more than single points) and leaves it connected replaces the region by its set difference with the hole, up to the clipping resolution and for coordinates of any magnitude; a point is in the new region exactly when it was in the old one and not inside the hole. Adding a hole strictly inside leaves the outline unchanged and lists the hole, a hole that does not meet the region leaves the region as a point set unchanged, and disjoint holes added one after the other compose. A hole inside the region is recorded whatever its shape, convex or not.',
  ['inputs','histories'],'every position and size of a hole relative to the region, coordinates up to the clipping range, sequences of holes','Tests add a few fixed holes and never compare the resulting region.',
  [S+'models/Region.cpp',S+'models/hole/clipper/lib/clipper.cpp',S+'models/polygon/Polygon.cpp'],
  [('clipping by Clipper difference','Region::addHole'),('region replacement','Region::mutate')],['Region::getRegionPoints','Region::getHoles','Region::containsPoint'])
p('C08','Seed points are kept exactly when they are in the meshable region',
  'After seeds are added to a region (as a list, from a file or from a generator), the stored seeds are exactly those given that lie in the region (its boundary included) and not in (or on the boundary of) any of its holes, in the order given. A list replaces the stored seeds while a generator or a file appends to them, and clearing removes all.',
  ['inputs','histories'],'every seed position, region shape, hole position and sequence of additions',TEST,
  [S+'models/Region.cpp',S+'models/polygon/Polygon.cpp',I+'models/hole/Hole.h'],
  [('seed filter','Region::clean')],['Region::getSeedPoints'])
p('C09','Point-in-polygon answers match the geometry',
  'For a simple polygon of either orientation, containsPoint is true exactly for points in the closed polygon and inEdges exactly for points on its boundary; containerEdge returns a side that contains the point, or (-1,-1) if none does. Regions, polygons and holes give the same answers for the same outline.',
  ['inputs'],'every query point on a lattice coarser than the comparison tolerance, every polygon shape within bounds',TEST,
  [S+'models/polygon/Polygon.cpp',S+'models/Region.cpp',I+'models/hole/Hole.h',S+'models/basic/Segment.cpp'],
  [('ray crossing','Polygon::containsPoint'),('edge test','Segment::contains')],['Polygon::containsPoint','Polygon::inEdges','Region::containsPoint','Hole::containsPoint'])
p('C10','Polygon measures match their definitions',
  'Area and signed area equal the shoelace value, orientation is clockwise exactly when it is negative, the centroid is the area centroid, the average is the mean of the corners, the diameter is the largest distance between corners and the maximum edge is the longest side. None of these changes when the corner list is rotated, and reversing it only changes the sign of the area; values read before do not go stale after orientation is fixed or the region is replaced.',
  ['inputs','histories'],'every corner position, rotation and reversal, order of calls',TEST,
  [S+'models/polygon/Polygon.cpp',S+'utilities/geometryFunctions.cpp',S+'utilities/convexHull.cpp',S+'utilities/delynoi_utilities.cpp'],
  [('shoelace','geometry_functions::area'),('centroid','Polygon::calculateCentroid'),('rotating calipers diameter','Polygon::calculateDiameter')],['Polygon::getArea','Polygon::signedArea','Polygon::getCentroid','Polygon::getDiameter','Polygon::getMaxDistance','Polygon::getAverage','Polygon::isClockwise'])
p('C11','Polygon structure queries match their definitions',
  'isConvex is true exactly when no two corners turn in opposite directions, isSelfIntersecting exactly when two non-adjacent, non-parallel sides meet, containsEdge exactly for consecutive corners in either direction, isVertex exactly for corners, and getSegments lists the sides in order. Fixing the orientation makes the polygon counter-clockwise and keeps its corners and sides, and two polygons with the same set of corners are equal.',
  ['inputs'],'every corner position and every index pair',TEST,
  [S+'models/polygon/Polygon.cpp',S+'models/basic/Segment.cpp'],
  [('turn test','Polygon::isConvex'),('pairwise side intersection','Polygon::isSelfIntersecting')],['Polygon::isConvex','Polygon::isSelfIntersecting','Polygon::containsEdge','Polygon::isVertex','Polygon::fixCCW','Polygon::getSegments'])
p('C12','Segment predicates match the geometry',
  'For two segments that are not parallel, intersection is reported exactly when they share a point and the returned point lies on both; a segment contains a point exactly when the point is on it. Length, middle point, counter-clockwise test and reordering around a centre, vertex test and offsetting of index segments agree with their definitions whatever the direction of the segment.',
  ['inputs'],'every pair of segments and every point on a lattice coarser than the tolerance',TEST,
  [S+'models/basic/Segment.cpp',S+'models/basic/IndexSegment.cpp',S+'models/basic/PointSegment.cpp',S+'utilities/geometryFunctions.cpp'],
  [('parametric intersection','Segment::intersects'),('containment','Segment::contains')],['IndexSegment::intersection','PointSegment::contains','IndexSegment::contains','IndexSegment::isCCW','PointSegment::length'])
p('C13','Point comparison is consistent with the tolerance',
  'Two points are equal exactly when both coordinates differ by less than the configured tolerance; equality is symmetric, and the order places a point before another exactly when its x is smaller, or the x are within tolerance and its y is smaller, by at least the tolerance. For any two points exactly one of less, equal and greater holds, and the order is transitive for points whose coordinates are either within tolerance or clearly apart.',
  ['inputs','configurations'],'all finite double coordinates and tolerances','Tests never compare points.',
  [S+'models/basic/Point.cpp',S+'config/DelynoiConfig.cpp'],[('tolerance comparison','Point::operator==, Point::operator<')],['Point::operator==','Point::operator<'])
p('C14','Undirected edge keys compare and hash alike in both directions',
  'An index segment, edge record, neighbour pair or edge key equals its reverse and no key with a different pair of indices, and equal keys have equal hashes, however the key was obtained (built, copied, assigned, offset or reoriented). The order of index segments is a strict total order on ordered pairs, and polygons with the same corners have equal hashes.',
  ['inputs'],'all 32-bit index values','Tests only use small indices and never compare keys.',
  [S+'models/basic/IndexSegment.cpp',I+'voronoi/structures/mapdata.h',S+'models/neighbourhood/EdgeData.cpp',S+'models/neighbourhood/NeighboursBySegment.cpp',U+'src/utilities.cpp',S+'models/polygon/Polygon.cpp'],
  [('symmetric hash','utilities::hash32'),('symmetric equality','IndexSegment::operator==')],['IndexSegment::operator==','SegmentHasher','KeyHasher','Key::operator=='])
p('C15','UniqueList behaves as an insertion-ordered set',
  'Pushing an element returns the position of the equal element already in the list, or appends it and returns the last position; afterwards size, element access, contains, indexOf and list equality agree with an insertion-ordered set. Removing the first element, deleting an element and clearing keep this agreement, through any sequence of operations and for numbers and tolerance-compared points alike.',
  ['histories','inputs'],'every sequence of operations up to the bound, every element value','Tests only push distinct points.',
  [U+'include/utilities/UniqueList.h'],[('ordered map from element to position','UniqueList::push_back')],['UniqueList'])
p('C16','Polygon triangulators return a tiling of the polygon',
  'For a simple polygon of n corners without collinear consecutive corners, in either orientation, the ear triangulation returns n-2 positively oriented triangles on the polygon\'s corners, the Delaunay one triangles on its corners, and for a convex polygon the center one n triangles around the average point. In each case the triangles do not overlap, cover the polygon exactly and contain all its sides; a triangle is left as it is, and the center triangulation rejects non-convex polygons.',
  ['inputs'],'every corner position of polygons up to the bound, starting corner and orientation','No test triangulates a polygon.',
  [S+'triangulation/EarTriangulationGenerator.cpp',S+'triangulation/CenterTriangulationGenerator.cpp',S+'triangulation/DelaunayTriangulationGenerator.cpp'],
  [('ear cutting','EarTriangulationGenerator::getEar'),('fan around the average','CenterTriangulationGenerator::triangulate')],['EarTriangulationGenerator::triangulate','CenterTriangulationGenerator::triangulate','DelaunayTriangulationGenerator::triangulate'])
p('C17','Point generators evaluate their rules on a regular grid',
  'A generator asked for nX by nY points in a box appends exactly nX*nY points, row by row: the regular grid spanning the box, mapped through both rules, or, for a single rule, displaced in y by the rule of x or in x by the rule of y. The provided rules return what their parameters say: constant, scaled, sine and cosine with amplitude, frequency and phase, alternating displacement point by point or row by row, uniform random values within the given limits, and noise that adds or subtracts a random value within the given limits.',
  ['inputs','configurations'],'every box, grid size and rule parameter, every random draw','CustomGeneratorTestMain runs one generator and does not look at the points.',
  [S+'models/generator/PointGenerator.cpp',S+'models/generator/functions/FunctorClasses.cpp',S+'models/generator/functions/functions.cpp',S+'models/generator/noise/RandomDoubleNoise.cpp',S+'models/generator/noise/RandomIntegerNoise.cpp'],
  [('grid walk','PointGenerator::generate'),('rule application','PointGenerator::result')],['PointGenerator::generate','functions::*','noise::*'])
p('C18','Circles and arcs are discretized on the curve',
  'A circle is discretized into exactly as many points as the configured grade, counter-clockwise from angle 0 at equal angular steps, and an arc into grade+1 points from its initial to its final angle; every point is at the radius from the centre. A circular hole uses these points as its outline, its centre as its centre and consecutive points as its sides, for every grade, radius and centre.',
  ['inputs','configurations'],'every centre, radius, discretization grade and arc limits','Tests only use the default grade.',
  [S+'models/polygon/Circle.cpp',S+'utilities/delynoi_utilities.cpp',S+'models/hole/CircularHole.cpp'],
  [('circle points','Circle::discretizeCircle'),('arc points','delynoi_utilities::generateArcPoints')],['Circle::discretizeCircle','CircularHole::getPoints','delynoi_utilities::generateArcPoints'])
p('C19','Mesh and region files carry the data they are written from',
  'A printed mesh lists its points in order with the configured number of decimals, then every edge once, then every polygon as its number of corners and their indices; a printed region lists region, hole and seed points and the segments joining them. Reading a mesh file (points and polygons, indices counted from the given start) yields exactly these points (points that coincide within the tolerance are one) and polygons, with the edge and point maps of those polygons.',
  ['inputs','configurations'],'every coordinate value, configured precision, start index and index size','Tests write files and never read or compare them.',
  [I+'models/Mesh.h',S+'models/Region.cpp',S+'models/basic/Point.cpp',S+'models/polygon/Polygon.cpp',U+'src/utilities.cpp'],
  [('writer','Mesh::printInStream'),('reader','Mesh::createFromStream')],['Mesh::printInFile','Mesh::createFromFile','Region::printInFile'])
p('C20','Convex hull and rotating calipers are correct for any point set',
  'The upper and lower chains of the convex hull start at the leftmost and end at the rightmost of the given points, turn strictly and have no given point outside them. The antipodal pairs returned by rotating calipers are hull corners and include a farthest pair of the given points.',
  ['inputs'],'every set of at least two points up to the bound, with duplicates and collinear points','No test calls these functions.',
  [S+'utilities/convexHull.cpp'],[('monotone chain','convex::convexHull'),('calipers','convex::rotatingCalipers')],['convex::convexHull','convex::rotatingCalipers'])
p('C21','Configuration values take effect where they are documented',
  'Each configuration setter changes exactly its own value, the configuration is shared by the whole program, and the defaults are those of a fresh program until set. The tolerance decides point equality and segment containment, the grade the number of circle and arc points, the scale the resolution of clipping and the precision the decimals written.',
  ['configurations','histories'],'every sequence of setter calls and value','Tests never change the configuration.',
  [S+'config/DelynoiConfig.cpp',S+'models/basic/Point.cpp',S+'models/Region.cpp'],[('singleton','DelynoiConfig::instance')],['DelynoiConfig'])
p('C22','Clipping wrapper returns the set difference at the given scale',
  'ClipperWrapper::polyIntersection returns the outlines of the parent polygon minus the child polygon, in coordinates multiplied by the given scale, for coordinates of any magnitude within the clipping range. It returns nothing when the child covers the parent and the parent outline when they do not overlap.',
  ['inputs','configurations'],'every position of parent and child and every scale','No test calls the wrapper.',
  [S+'models/hole/clipper/ClipperWrapper.cpp',S+'models/hole/clipper/lib/clipper.cpp'],[('scaling','ClipperWrapper::scalePoint'),('difference','ClipperLib::Clipper::Execute')],['ClipperWrapper::polyIntersection'])
p('C23','Seeds, region and holes given to a generator are not altered',
  'Generating a Voronoi mesh or a triangulation does not change the region, its holes or the seed list it was given, and generating again from the same input, or from a copy of the region, gives the same mesh. Copies of regions, polygons, lists and meshes hold the same data as the original and do not change when a region or polygon copy is modified.',
  ['inputs','histories'],'every input within bounds and every order of generation and copying',TEST,
  [S+'voronoi/TriangleDelaunayGenerator.cpp',S+'models/Region.cpp',S+'models/polygon/Polygon.cpp',I+'models/Mesh.h'],[('copies','Region::Region(const Region&)')],['TriangleVoronoiGenerator','TriangleDelaunayGenerator','Region'])
p('C24','Segment and point maps record neighbours through any history',
  'In a segment map, the first polygon inserted for an edge is its first neighbour and the latest one after it its second (or -1 if there is none), whichever direction the edge is given in; inserting a neighbour pair replaces the entry, and size, membership and lookup agree. In a point map, the neighbours of a point are those inserted for it, in order, and points within tolerance share an entry.',
  ['histories','inputs'],'every sequence of insertions up to the bound','Tests never query the maps.',
  [S+'models/neighbourhood/SegmentMap.cpp',S+'models/neighbourhood/PointMap.cpp',S+'models/neighbourhood/NeighboursBySegment.cpp',S+'models/neighbourhood/NeighboursByPoint.cpp'],
  [('hash map on undirected edges','SegmentMap::insert'),('ordered map on points','PointMap::insert')],['SegmentMap','PointMap'])
p('C25','Bounding boxes are the extent of their points',
  'The box of a region is the smallest axis-aligned box containing its corners. For a box given by any two opposite corners, minimum, maximum, width, height, containment, equality and the four sides agree with the box as a set, whichever corners were given.',
  ['inputs'],'every pair of corners and every query point','Tests never query boxes.',
  [S+'models/polygon/BoundingBox.cpp',S+'models/Region.cpp'],[('extent','Region::getBox'),('min and max','BoundingBox::xMin')],['BoundingBox','Region::getBox'])
p('C26','Angles are normalised and compared modulo a half turn',
  'An Angle built from any number of degrees lies between 0 and 180 and differs from it by a multiple of 180; Angles closer than the tolerance are not ordered and others are ordered by value. Conversion between degrees and radians is linear and inverse to each other on (0, 360].',
  ['inputs'],'all angle values within several turns, both signs','No test uses angles.',
  [I+'models/basic/Angle.h',U+'src/utilities.cpp',S+'models/basic/Segment.cpp'],[('normalisation','Angle::Angle'),('conversion','utilities::radian, utilities::degrees')],['Angle','utilities::radian','utilities::degrees','PointSegment::cartesianAngle'])
p('C27','Boundary points of generated meshes are flagged',
  'A point used by a cell or triangle of a generated mesh reports isInBoundary exactly when it lies on the outline of the region or of one of its holes. This holds whatever the point comes from: a corner, a seed on the boundary, a circumcentre, a middle point or a vertex added by a conforming triangulation.',
  ['inputs'],'every seed position including the boundary itself, any holes','Tests never look at the flag.',
  [S+'voronoi/DelaunayToVoronoi.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp',S+'models/basic/Point.cpp'],[('cells at the boundary','DelaunayToVoronoi::computeCell'),('markers of Triangle','TriangleDelaunayGenerator::callTriangle')],['TriangleVoronoiGenerator','TriangleDelaunayGenerator','Point::isInBoundary'])
p('C28','Invalid input is rejected and leaves everything as it was',
  'Building a polygon, polygonal hole or region from points, or replacing the points of one, throws invalid_argument exactly when two non-adjacent, non-parallel sides meet; a triangle must have three different corners, the centre triangulation a convex polygon, a point generator one function per coordinate, and a file must exist. After a rejection, also of a hole, the polygon, region, mesh, points and indices are as they were before.',
  ['inputs','histories'],'every position of the corners, of the hole and every index list within bounds',TEST,
  [S+'models/polygon/Polygon.cpp',S+'models/Region.cpp',S+'models/hole/PolygonalHole.cpp',S+'utilities/delynoi_utilities.cpp',S+'models/generator/PointGenerator.cpp',U+'src/utilities.cpp'],[('self-intersection','Polygon::isSelfIntersecting'),('replacement','Polygon::mutate, Region::mutate')],['Polygon','PolygonalHole','Region::mutate','Region::addHole','CenterTriangulationGenerator','delynoi_utilities::checkTriangleIntegrity','PointGenerator','utilities::openFile'])
p('C29','Triangles know their circumcentre and the way around a vertex',
  'The circumcentre of a triangle is at the same distance from its three corners and stands in the given list at the index the triangle reports, once in a list without repetitions. From any side a triangle gives the third corner and the next side around an end, so that walking around an inner vertex visits each of its triangles once and from a boundary side the walk ends at the other boundary side; sides and their keys are equal whatever their direction.',
  ['inputs','histories'],'every triangle, corner order, fan of triangles and starting side within bounds','Tests never use these classes directly.',
  [S+'models/polygon/Triangle.cpp',S+'models/neighbourhood/EdgeData.cpp',I+'voronoi/structures/mapdata.h',I+'voronoi/structures/PointData.h'],[('circumcentre','Triangle::calculateCircumcenter'),('walk','Triangle::nextEdge')],['Triangle','EdgeData','PointData','Key'])
p('C30','Vector, area and list helpers compute what they are named for',
  'Difference, products, norms, orientation and areas of points agree with their exact values, three points are collinear exactly when twice the area of their triangle is below the tolerance, and normalising keeps direction and gives length one. Pairs are equal, ordered, added and multiplied coordinate by coordinate; the position of an element is its first one or -1; index lists are extended by 0..n-1; a line is split into exactly its non-empty words.',
  ['inputs'],'every value within bounds','Only single values are tested.',
  [S+'utilities/delynoi_utilities.cpp',S+'utilities/geometryFunctions.cpp',U+'src/utilities.cpp',U+'include/utilities/Pair.h',S+'models/basic/Point.cpp'],[('geometry','geometry_functions'),('lists','utilities::indexOf')],['geometry_functions','delynoi_utilities','utilities','Pair','Point'])
p('C31','No operation reads or writes memory that is not its own',
  'Whatever valid input an operation of the library gets, it accesses lists, arrays and objects within their bounds and during their lifetime only, and it releases each of them at most once. This includes rejected inputs and any order of the operations.',
  ['inputs','histories'],'every input and history within the bounds of the other properties','Tests run without checks on memory, and for a few inputs.',
  [S+'voronoi/DelaunayToVoronoi.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp',I+'models/Mesh.h',S+'models/Region.cpp',S+'models/polygon/Polygon.cpp',S+'models/hole/clipper/lib/clipper.cpp',U+'include/utilities/UniqueList.h'],[('index arithmetic on lists','DelaunayToVoronoi::computeCell'),('pointers into arrays of Triangle','TriangleDelaunayGenerator::callTriangle')],['all public operations'])
p('C32','Printed maps and the input file for Triangle list exactly their contents',
  'A printed segment map has one line for every edge, once, with its two ends and its two neighbouring polygons; a printed point map one line for every point, once, with its coordinates and all polygons it is listed with. The input file for Triangle has the given points in order, numbered from 0, every side of the region and of its holes in terms of the given indices, and for each hole a point inside it.',
  ['inputs','configurations'],'every coordinate, index and configured precision within bounds','Nothing reads these files back.',
  [S+'models/neighbourhood/SegmentMap.cpp',S+'models/neighbourhood/PointMap.cpp',S+'voronoi/TriangleDelaunayGenerator.cpp',S+'models/neighbourhood/NeighboursBySegment.cpp',I+'models/hole/Hole.h'],[('listings','SegmentMap::printInFile, PointMap::printInFile'),('input file','TriangleDelaunayGenerator::writeTriangleInputFile')],['SegmentMap::printInFile','PointMap::printInFile','TriangleDelaunayGenerator::writeTriangleInputFile','Hole::getInnerPoint'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(here+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
if __name__=='__main__':
    import re
    for x in P:
        n=len(re.findall(r'\.(?:\s|$)',x['statement'])); 
        if n>3: print(x['id'],n)
    print(len(P))
