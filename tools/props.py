TRUST = (' Trusted: the Go type checker and SSA builder (golang.org/x/tools), and the analyser in /verif/sa, which is not itself verified;'
         ' real arithmetic stands for floating point unless said otherwise.')
AI = 'abstract interpretation of the SSA form (linear-constraint domain, loop fixpoints, trace partitioning)'

ALGO_FILES = ['algorithm/simple.go', 'algorithm/modifiedgenetic.go', 'algorithm/evaluator/parallel.go', 'algorithm/evaluator/evaluators.go']
STEP = 'One whole generation is interpreted from an arbitrary valid state, with an arbitrary (skolem) member and point; sort, the worker pool and the mutation method are modelled by their contracts. '
PROPS = [
 dict(id='C01', title='The best members survive every generation unmutated',
  statement='In every generation of both algorithms, the members that ranked below the cutoff reach the next ranking with exactly the points they had, never mutated and never overwritten, and every other member that is evaluated was built from the points of one of them (or, for combined mutations, from the ranked members) and mutated. The best group found so far is therefore never lost.',
  over=['inputs', 'histories', 'schedules'], all='every population size, cutoff, point count, fitness outcome, random draw and number of generations',
  why='No test runs a generation of either algorithm; a lost or shared survivor shows only for particular cutoffs and population sizes, as a fitness that silently fails to improve.',
  files=ALGO_FILES, mech=[('breeding of a generation', 'algorithm/simple.go: newGeneration'), ('breeding and combination', 'algorithm/modifiedgenetic.go: newGeneration, combineMutations')],
  tech=AI, note=STEP + 'Assumes 0 < cutoff and population size >= 2*cutoff.' + TRUST),
 dict(id='C02', title='Ranking keeps points, fitness and evaluator aligned, and Best is the top rank',
  statement='Ranking orders all members by descending fitness, and whatever it moves, the points, the fitness and the evaluator state of a member move together. After every generation the best group is a separate copy of the points of the top-ranked member, the reported best fitness is the fitness of that member, and the generation count has grown by exactly one.',
  over=['inputs', 'histories'], all='every population, every fitness outcome and every order in which the sort compares and swaps',
  why='Tests do not run the algorithms; a misaligned swap leaves plausible images and fitness values that merely belong to different groups.',
  files=ALGO_FILES, mech=[('sort interface', 'algorithm/simple.go: Len, Less, Swap'), ('sort interface', 'algorithm/modifiedgenetic.go: Len, Less, Swap'), ('best copy', 'algorithm/simple.go: Step'), ('evaluator exchange', 'algorithm/evaluator/parallel.go: Swap')],
  tech=AI, note=STEP + 'Len, Less and Swap are decided for arbitrary indices.' + TRUST),
 dict(id='C03', title='Every generation awaits each evaluation exactly once and files it in its slot',
  statement='In every generation each member that must be evaluated is submitted exactly once, its task evaluates the points and mutations of that member and sends exactly one result carrying that member\'s index, exactly as many results are received as were submitted, and each is stored in the slot of its index. Nothing a task reads is changed while it may run, so no schedule can lose, duplicate, misfile or deadlock on a result.',
  over=['schedules', 'inputs'], all='every population size, cutoff and interleaving of the worker pool',
  why='Concurrency of a worker pool: tests never run a generation, and a lost or misfiled result needs a particular size or interleaving.',
  files=ALGO_FILES, mech=[('submit and collect', 'algorithm/simple.go: calculateFitnesses'), ('submit and collect', 'algorithm/modifiedgenetic.go: calculateFitnesses')],
  tech=AI + ' with a typestate on results and a capture lint', note=STEP + TRUST),
 dict(id='C11', title='Evaluators are told the true base and mutations of every member',
  statement='When a mutated member is evaluated, the evaluator has been told the survivor its points were copied from, and the mutation list given to the evaluation starts empty every generation and holds exactly what the mutation method reported for that member, in order; a member made by combining mutations is its base with exactly the listed mutations applied. Evaluators hand the base of a member on to the function of that member.',
  over=['inputs', 'histories'], all='every population, every reported mutation sequence and every generation',
  why='Only a wrong incremental result reveals a wrong base or a stale mutation, generations later; no test runs a generation.',
  files=ALGO_FILES, mech=[('base and mutation bookkeeping', 'algorithm/simple.go: newGeneration'), ('base, mutation and beneficial bookkeeping', 'algorithm/modifiedgenetic.go: newGeneration, getBeneficialMutations, combineMutations'), ('base hand-over', 'algorithm/evaluator/parallel.go: SetBase')],
  tech=AI, note=STEP + TRUST),
 dict(id='C05', title='A mutation method reports exactly the points it changes',
  statement='When a mutation method is run on a point group of any size, every point whose coordinates change is reported through the callback exactly once, with its index, the value it had before and the value it has afterwards. A point that is not reported keeps its value, and nothing but the group is written.',
  over=['inputs', 'histories'], all='every mutation method, every point group and every sequence of random draws',
  why='The tests do not run the mutation methods at all, and a sample could not cover every group size and random sequence; an unreported or misreported change only shows as a slowly drifting triangulation.',
  files=['mutation/gaussian.go', 'mutation/random.go'],
  mech=[('mutate and report loop', 'mutation/gaussian.go: Mutate'), ('mutate and report loop', 'mutation/random.go: Mutate')],
  tech=AI, note='Decides, for an arbitrary (skolem) point index and all loop iterations and branch outcomes, what is stored and what is passed to the callback.' + TRUST),
 dict(id='C06', title='Points always stay inside the unit square',
  statement='Both coordinates of every point produced by a point generator, and of every point left or reported by a mutation method whose input points were inside, lie between 0 and 1 inclusive. Clamping a point that is already inside leaves it unchanged.',
  over=['inputs', 'histories'], all='every generator and mutation method, every group size and every sequence of random draws',
  why='No test looks at coordinates after many mutations; an escape needs a particular random draw close to a border.',
  files=['normgeom/normpoint.go', 'mutation/gaussian.go', 'mutation/random.go', 'generator/random.go', 'generator/spaced.go'],
  mech=[('clamp', 'normgeom/normpoint.go: Constrain'), ('callers of the clamp', 'mutation/*.go, generator/spaced.go')],
  tech=AI, note='Interval and linear facts about an arbitrary point are carried through every path; the random sources are arbitrary (uniform sources within their documented range).' + TRUST),
 dict(id='C07', title='Generators return exactly the requested number of points',
  statement='Asked for n points, for any n from zero up, every point generator returns a group of exactly n points and does not panic.',
  over=['inputs'], all='every generator, every n >= 0 and every sequence of random draws',
  why='The tests ask each generator for one fixed number of points.',
  files=['generator/random.go', 'generator/spaced.go'],
  mech=[('append loop', 'generator/random.go: randomPoints'), ('relaxation loop', 'generator/spaced.go: Generate')],
  tech=AI, note='Length of the result as a linear term over n; every index, random bound and panic on the way is an obligation.' + TRUST),
 dict(id='C09', title='Copied triangulations and point groups are complete and independent',
  statement='After setting one point group, triangulation, Voronoi structure, circumcircle grid, point table or polygon table to another (or copying a point group), everything the two hold is equal: lengths, elements of all nested tables, counters, dimensions and free lists. The two share no array that either may later write, so changing one never changes the other, and the source is not written by the copy.',
  over=['inputs', 'histories'], all='every size of source and destination, larger or smaller, and every content',
  why='Evaluators copy the triangulation of a base for every member; a forgotten field or shared bucket shows only after particular sequences of growth, removal and reuse.',
  files=['normgeom/normpoint.go', 'triangulation/incrdelaunay/delaunay.go', 'triangulation/incrdelaunay/voronoi.go', 'triangulation/incrdelaunay/grid.go', 'triangulation/incrdelaunay/pointmap.go', 'triangulation/incrdelaunay/polygonmap.go'],
  mech=[('group copy', 'normgeom/normpoint.go: Set, Copy'), ('triangulation copy', 'triangulation/incrdelaunay/delaunay.go: Set'), ('Voronoi copy', 'triangulation/incrdelaunay/voronoi.go: Set'), ('table copies', 'triangulation/incrdelaunay/grid.go, pointmap.go, polygonmap.go: Set')],
  tech=AI + ' with an ownership (origin) analysis of filed polygons', note='Each operation is interpreted on an arbitrary destination and source, with an arbitrary (skolem) element of every table. Tables whose size is fixed at construction are assumed to have equal sizes; scratch fields that hold nothing between operations are exempt.' + TRUST),
 dict(id='C10', title='The triangle list, the grid and the free list stay in step',
  statement='Adding a triangle to the circumcircle grid and removing it touch exactly the same cells, none outside the grid; the removal takes out exactly the one entry of that index and leaves the entries of other triangles, and every point of the image that lies in the bounding box of the circumcircle is looked up in a cell that lists the triangle, for every kind of search. A triangle is stored in the list and filed in the grid under the same index, which comes off the free list or extends the list; freeing a triangle marks it and puts its index on the free list. A search calls back for exactly those triangles of the cell of the point that meet its condition, once each, and the removing searches take exactly those out of the grid.',
  over=['inputs', 'histories'], all='every grid size, triangle, circumcircle and point of the image, and every content of the cells',
  why='A stale or missing grid entry corrupts a triangulation only many insertions and removals later, and only for circles and points near cell borders.',
  files=['triangulation/incrdelaunay/grid.go', 'triangulation/incrdelaunay/delaunay.go'],
  mech=[('cell range of a triangle', 'triangulation/incrdelaunay/grid.go: AddTriangle, RemoveTriangle'), ('cell of a point', 'triangulation/incrdelaunay/grid.go: HasPoint, RemoveCircumcirclesThatContain, IterCircumcirclesThatContain, RemoveThatHasVertex, IterThatHasVertex'), ('list and free list', 'triangulation/incrdelaunay/delaunay.go: addTriangle, markFreeTriangle')],
  tech=AI, note='The grid, the triangle, the point and one cell are arbitrary; rounding is exact (floor, ceil and truncation of real numbers).' + TRUST),
 dict(id='C20', title='The triangulation counts duplicate points exactly',
  statement='Inserting a point into a triangulation raises its count and the total by one; removing a point lowers its count and the total by one, and it is taken out of the triangulation only when its last copy is removed. The number of distinct points is the number of points with a positive count, and no other point changes its count. Lookups in the point table find exactly the entry of the point asked for, and while copies of a point remain the triangles and the Voronoi polygons are left alone.',
  over=['inputs', 'histories'], all='every table content, bucket and point',
  why='Two copies of one point arise only when independent random moves collide; a wrong count then removes a vertex that is still in use, or keeps one that is not.',
  files=['triangulation/incrdelaunay/delaunay.go', 'triangulation/incrdelaunay/pointmap.go', 'triangulation/incrdelaunay/polygonmap.go', 'triangulation/incrdelaunay/voronoi.go'],
  mech=[('count table', 'triangulation/incrdelaunay/pointmap.go: AddPoint, RemovePoint, NumOfPoints'), ('insertion and removal', 'triangulation/incrdelaunay/delaunay.go: Insert, Remove, IsInserted')],
  tech=AI, note='The tables are interpreted with an arbitrary bucket and an arbitrary (skolem) entry.' + TRUST),
 dict(id='C16', title='Geometric predicates compute exactly the quantities they are named for',
  statement='For all coordinates: the orientation of three points is the sign of their cross product; a point is in the circumcircle of a triangle exactly when the circumcircle determinant says so, and a circumcircle is equidistant from the three vertices; the distance, squared distance, difference and normalisation of points are the usual formulas; triangle and edge constructors keep their vertices (edges in canonical order) and vertex and edge equality compare all of them; the score of an ear is its power relative to the circumcircle; segment intersection, point-outside-image and epsilon equality decide what they are named for; the super triangle contains the whole image; and the comparators that sort neighbours around a point order them by their angle.',
  over=['inputs'], all='all coordinates, in real arithmetic',
  why='Tests sample a handful of coordinates; a wrong sign or a swapped coordinate in one term decides wrongly only for triangles of particular shapes, and the triangulation then degrades silently.',
  files=['triangulation/incrdelaunay/geom.go', 'triangulation/incrdelaunay/util.go', 'triangulation/incrdelaunay/voronoi.go', 'triangulation/incrdelaunay/delaunay.go', 'geom/point.go', 'normgeom/normpoint.go', 'normgeom/normtriangle.go'],
  mech=[('predicates', 'triangulation/incrdelaunay/geom.go: orientation, inCircle, Triangle, Edge, Circumcircle'), ('angular order', 'triangulation/incrdelaunay/delaunay.go: Remove; triangulation/incrdelaunay/voronoi.go')],
  tech=AI + ' with polynomial normalisation of the results', note='Each function is interpreted once on free coordinates and its result is compared with the formula as a polynomial (identities and entailments, on every branch).' + TRUST),
 dict(id='C22', title='An evaluation applies exactly the reported changes to its base',
  statement='The first evaluation of a fitness function triangulates exactly the given points: a structure of the image size is made once and every point is inserted once, at its position scaled to the image and rounded. An evaluation that was given a base copies the base once, then takes the old position of every reported mutation out once and puts its new position in once, and then forgets the base; an evaluation without a base leaves its structure alone. All changes come before the shapes are visited, and the base given is the structure of the function passed to SetBase.',
  over=['inputs', 'histories'], all='every image size, point group, mutation list and base',
  why='Tests evaluate a few fixed groups once; a dropped or doubled change gives a plausible fitness of slightly different points, and the error is inherited by every later generation.',
  files=['fitness/triangles.go', 'fitness/polygons.go', 'fitness/util.go'],
  mech=[('building and updating the structure', 'fitness/triangles.go: Calculate, SetBase'), ('building and updating the structure', 'fitness/polygons.go: Calculate, SetBase'), ('placing a point', 'fitness/util.go: createPoint, fastRound')],
  tech=AI, note='The point or mutation is arbitrary (skolem); the structure itself is a stand-in that records the calls. Narrowing conversions are taken as exact (image sides below 32768).' + TRUST),
 dict(id='C08', title='Cached results belong to the shape they are used for',
  statement='While an evaluation visits its shapes, a cached result is used only when its record was compared equal with a record of this shape\'s (integer) coordinates, and then that record is filed for the next generation. Otherwise a new record is filed that holds these coordinates in memory of its own, the value just computed for this shape and the cache index that was looked up. Exactly one record is filed per shape, the list of records starts empty and replaces the function\'s cache at the end, and records already in the cache are never changed. Two records compare equal only when all their coordinates (and the number of them) agree. The parallel evaluator files every result of the member it updates under the result\'s own index and hands the member that same cache, once.',
  over=['inputs', 'histories'], all='every shape, cache content and hash',
  why='A stale or shared record gives a wrong fitness only when two shapes collide in the cache, which depends on hashes of coordinates that random mutation produces generations later.',
  files=['fitness/cache.go', 'fitness/triangles.go', 'fitness/polygons.go', 'algorithm/evaluator/parallel.go'],
  mech=[('lookup and filing', 'fitness/triangles.go: Calculate; fitness/polygons.go: Calculate'), ('record equality', 'fitness/cache.go: Equals'), ('shared cache', 'algorithm/evaluator/parallel.go: Update')],
  tech=AI, note='The shape, the cache entry found and the coordinate compared are arbitrary; a cached record is an unknown that is or is not equal. Narrowing conversions are taken as exact (image sides below 32768).' + TRUST),
 dict(id='C19', title='The fitness is the total colour variance of the shapes',
  statement='The fitness is 1 - T/M, where M = 3*255^2*w*h. For polygons T is the sum over the shapes of their variance; for triangles it is that sum plus 3*255^2 for every pixel of image area that the triangles do not cover (image area minus the sum of their areas). The variance of a shape that is not in the cache is S - (R^2+G^2+B^2)/N (0 when N is 0), where every pixel of every row that the rasteriser reports for this very shape enters R, G, B, S (sum of squares) and N once, and every block enters with the entries of the block table and size^2 pixels; the value of a cached shape is the cached one. The sums start at zero for every shape. Polygon vertices that are rasterised are vertices of the shape rounded to the nearest pixel. The pixel table holds for every place the colour channels of the image there, times 255, and their squared sum; each fitness function made for an image has that table, a block table of its block size, and M. Sums of pixels do not wrap around in narrow integers: none is kept in fewer than 32 bits, and no two of them are multiplied as integers.',
  over=['inputs'], all='every image, shape, row, block, pixel and total',
  why='Tests compare a few fitness values of one small image; a channel mixed up or a pixel counted twice in a rarely taken branch still gives a plausible number.',
  files=['fitness/triangles.go', 'fitness/polygons.go', 'fitness/pixels.go', 'fitness/util.go'],
  mech=[('sums, variance, fitness', 'fitness/triangles.go: Calculate; fitness/polygons.go: Calculate'), ('pixel table', 'fitness/pixels.go: fromImage, newPixelData'), ('functions for an image', 'fitness/triangles.go: NewTrianglesImageFunction, TrianglesImageFunctions; fitness/polygons.go: PolygonsImageFunctions')],
  tech=AI + ' with polynomial normalisation', note='Rows, blocks, pixels and totals are arbitrary; sums are compared as polynomials over the reals. What the rasteriser reports and what the block table holds are taken as given.' + TRUST),
 dict(id='C04', title='Evaluations that run side by side do not touch each other\'s memory',
  statement='What an evaluation of a fitness function writes is memory of its own function: never the image tables, the table of cached results or a result filed in it, the structure of its base, the points and mutations it is given, or a package-level variable. Functions made together do not share the structures they write. While members are evaluated in tasks, a task writes only variables of its own, and the generation writes nothing that a task reads or an evaluation was given until the results are received. The evaluator that shares results files them in a table that was not handed to any function for the generation being evaluated: preparing it exchanges two tables that were made apart.',
  over=['schedules', 'inputs', 'histories'], all='every interleaving of evaluations, every population and image',
  why='A shared buffer or a table that is filled while it is read gives wrong results only under particular interleavings, and the fitness is still a plausible number; no test runs evaluations side by side and compares.',
  files=['fitness/triangles.go', 'fitness/polygons.go', 'algorithm/simple.go', 'algorithm/modifiedgenetic.go', 'algorithm/evaluator/parallel.go'],
  mech=[('what an evaluation writes', 'fitness/triangles.go: Calculate; fitness/polygons.go: Calculate'), ('separate functions', 'fitness/triangles.go: TrianglesImageFunctions; fitness/polygons.go: PolygonsImageFunctions'), ('tasks', 'algorithm/simple.go: calculateFitnesses; algorithm/modifiedgenetic.go: calculateFitnesses'), ('two tables', 'algorithm/evaluator/parallel.go: Prepare, Update')],
  tech='interprocedural effect and escape analysis (context-sensitive points-to over the SSA form), with abstract interpretation of the evaluator', note='Memory is named by the access path it is reached through or the instruction that allocates it; calls are followed per call string, interface calls to every implementor, closures through their bindings. That a base is not itself being changed while it is copied rests on C11 and C22 (survivors are given no base and change nothing).' + TRUST),
 dict(id='C21', title='Inputs are left as they were and nothing is kept between calls',
  statement='No exported function or method writes memory reachable from an argument other than its receiver, except the points a mutation method is given and an algorithm that is run; a method of a value (one that is not there to set, add, swap or remove) does not write what its receiver refers to either; and none writes a package-level variable, except the state of the random number generator. So the same points, images, triangles and structures can be used again, rendered twice, or read from several goroutines.',
  over=['inputs', 'histories', 'schedules'], all='every exported function and argument',
  why='Tests pass fresh values and look at the result; that an argument was rounded, sorted or truncated in place shows only when it is used again.',
  files=['triangulation/triangulator.go', 'polygonation/polygonate.go', 'render', 'fitness', 'generator', 'geom', 'normgeom', 'image', 'rasterize', 'utils', 'triangulation/incrdelaunay'],
  mech=[('arguments', 'triangulation/triangulator.go: Triangulate; polygonation/polygonate.go: Polygonate; render: TrianglesOnImage, PolygonsOnImage'), ('evaluation', 'fitness/triangles.go: Calculate; fitness/polygons.go: Calculate'), ('reading a structure', 'triangulation/incrdelaunay: IterTriangles, HasPoint, Voronoi')],
  tech='interprocedural effect analysis (context-sensitive points-to over the SSA form)', note='Code outside the module is taken to write only what it is documented to fill (sort, Decode, Read).' + TRUST),
 dict(id='C15', title='Rendering describes every shape in order with its own average colour',
  statement='TrianglesOnImage and PolygonsOnImage return one entry per shape, in the order of the shapes. The outline of an entry is its shape with each coordinate divided by the size of the image along that axis. Its colour is the average of the image colours of exactly the pixels rasterised for that shape (a polygon: of the fan of triangles of its first vertex and every pair of consecutive later ones), each counted once; when there is no such pixel, of the pixels at its corners, clamped to the last row and column, each corner once. No colour of another shape is mixed in. AverageRGB adds channel by channel and counts each colour once; its average is the quotient per channel, and black when nothing was added.',
  over=['inputs'], all='every list of shapes and every image',
  why='A colour sum that leaks from one shape to the next, a fan that skips a triangle, or a clamp on the wrong axis changes only some shapes, and a picture of averages still looks plausible; the test renders one triangle on an empty image.',
  files=['render/triangles.go', 'render/polygons.go', 'color/color.go', 'geom/polygon.go', 'geom/triangle.go'],
  mech=[('entries', 'render/triangles.go: TrianglesOnImage; render/polygons.go: PolygonsOnImage'), ('averages', 'color/color.go: Add, Average, Count'), ('outlines', 'geom/polygon.go: ToNorm; geom/triangle.go: ToNorm')],
  tech=AI, note='Which pixels belong to a triangle is C07; here a rasterised shape is a set of pixels of any size that visits an arbitrary pixel once. Shapes have non-negative coordinates.' + TRUST),
 dict(id='C23', title='Triangulations and cell diagrams are made of exactly the given points',
  statement='Triangulate hands the triangulation library one point for every given point, in order, each coordinate multiplied by the size of the image along its own axis and rounded, and does so once. It returns one triangle for every three consecutive indexes the library returns, in order, whose three points are the points at those indexes, in order. Polygonate inserts every given point, scaled and rounded in the same way, exactly once into a new triangulation of the size of the image, before it visits the cells of that triangulation in that image once. It returns one polygon for every cell it is handed, in order, whose points are the vertices of the cell with each coordinate rounded, in order, leaving out a vertex exactly if it equals the one added before it.',
  over=['inputs'], all='every list of points, every image size, whatever triples and cells are returned',
  why='A dropped point, a triangle lost at the end of the list, a scale taken from the wrong axis or a vertex that is skipped too eagerly leaves a picture that looks right; the tests triangulate a few points.',
  files=['triangulation/triangulator.go', 'polygonation/polygonate.go', 'geom/triangle.go'],
  mech=[('triangles', 'triangulation/triangulator.go: Triangulate'), ('polygons', 'polygonation/polygonate.go: Polygonate'), ('points of a triangle', 'geom/triangle.go: NewTriangle')],
  tech=AI, note='The library and the cells of Voronoi are taken as arbitrary lists; that the triangulation is Delaunay is not decided.' + TRUST),
 dict(id='C12', title='Image data holds exactly the colours of the picture it was made from',
  statement='ToData makes image data of the width and height of the bounds of the picture, wherever the bounds start. The pixel at (x, y) of the data is the colour of the picture at the upper left corner of the bounds moved by (x, y): red, green and blue, each the high byte of the channel the picture reports divided by 255, and every pixel is set. NewData makes the number of rows asked for, each an area of its own of the width asked for, and the data knows that size. RGBAt returns the pixel of column x and row y, Size the width and height, and reading changes nothing.',
  over=['inputs'], all='every picture, every bounds, every pixel',
  why='Everything the program computes rests on this copy; a channel or a row that is off, a border that is left out or bounds that do not start at the origin show only in some pictures, and the tests read the size of an empty one.',
  files=['image/rgbdata.go', 'image/data.go'],
  mech=[('conversion', 'image/rgbdata.go: ToData, convertColor'), ('empty data', 'image/rgbdata.go: NewData'), ('reading', 'image/rgbdata.go: RGBAt, Size')],
  tech=AI, note='The picture is taken to report the same colour for a place whenever it is asked.' + TRUST),
 dict(id='C13', title='The rasteriser covers every row of a shape once, from edge to edge',
  statement='For every triangle, in whatever order its vertices are given, DDATriangleLines reports exactly one line for each row from the row of its top vertex up to, but not including, the row of its bottom vertex, and none for any other row. The line starts at the left edge of the triangle in that row and ends at the right edge, each rounded to a whole pixel by cutting off the fraction. DDATriangle reports each pixel (x, y) of such a line, from its start up to but not including its end, once, and no others. DDAPolygon and DDAPolygonBlocks rasterise each triangle of the fan of a polygon once (the first vertex with each pair of vertices that follow one another) and hand on to the functions they were given.',
  over=['inputs'], all='every triangle of each order of heights, every row, every pixel of a line, every triangle of a polygon',
  why='A row that is missing or doubled, an edge taken from the wrong vertex or a triangle of the fan that is skipped spoils only shapes of one kind (a flat top, a long edge on one side, five vertices), and the tests draw few of them.',
  files=['rasterize/lines.go', 'rasterize/pixels.go', 'rasterize/polygon.go', 'geom/polygon.go'],
  mech=[('rows', 'rasterize/lines.go: DDATriangleLines, normalTriangleLines, flatTriangleLines, fillTriangleLines'), ('pixels', 'rasterize/pixels.go: DDATriangle'), ('polygons', 'rasterize/polygon.go: DDAPolygon, DDAPolygonBlocks; geom/polygon.go: Triangulate')],
  tech=AI, note='Arithmetic is taken as ideal, so the rounding of the floating-point slopes is not part of it. How DDATriangleBlocks splits rows into lines and blocks is not decided.' + TRUST),
 dict(id='C18', title='Output files are complete and no failure to write is passed over',
  statement='GenerateAlgorithmOutput, GenerateTrace and GenerateProfile never pass over a failure to create, encode, write, flush, close or start recording a file: each ends the program (or is returned), whichever operation fails, and nothing else ends it. In each of its rounds GenerateAlgorithmOutput writes to the file of the given name the best points of the algorithm as JSON, asked for after the last step of the round, and adds to the file with the suffix -stats one line with the generation and the best fitness of then, which is flushed before the next round. When GenerateTrace or GenerateProfile returns, the recording was started and stopped, all of it was written to the file with the suffix .trace or .prof, buffers flushed before the file was closed, and every file that was opened is closed.',
  over=['fault_sequences', 'histories'], all='every operation on a file failing, at every round and of any number of rounds',
  why='A full disk, a directory that is gone or a buffer that is not flushed shows only when it happens; the result of hours of work is lost without a word, and no test writes files.',
  files=['utils/output.go', 'utils/trace.go', 'utils/profile.go'],
  mech=[('best points and statistics', 'utils/output.go: GenerateAlgorithmOutput'), ('trace', 'utils/trace.go: GenerateTrace'), ('profile', 'utils/profile.go: GenerateProfile')],
  tech=AI, note='One operation fails on a path; a buffered writer is taken to keep the error of a write until it is flushed, as its documentation says. What the standard library does with the data is trusted.' + TRUST),
]
NA = [
 dict(id='N01', title='Every triangulation that is read is a Delaunay triangulation',
  statement='After any sequence of insertions and removals no point lies strictly inside the circumcircle of a triangle of the structure, and the triangles tile the convex hull of the points.',
  over=['inputs', 'histories'], all='every sequence of insertions and removals, duplicates and collinear points included',
  why='Depends on the whole history of the structure and on degenerate point positions.',
  files=['triangulation/incrdelaunay/delaunay.go', 'triangulation/incrdelaunay/grid.go'], mech=[('insertion and removal', 'triangulation/incrdelaunay/delaunay.go: insert, Remove')],
  reason='The empty-circle and tiling properties quantify over all triangles and points of a structure built by an unbounded history; a static argument would have to prove the correctness of Bowyer-Watson insertion and ear-based removal, with their treatment of ties, as a heap invariant over geometric predicates. What can be decided locally is claimed instead: the predicates (C16), the bookkeeping of triangles, grid and free list (C10) and the counts (C20).'),
 dict(id='N02', title='The rasteriser covers every pixel of a shape exactly once',
  statement='The rows and blocks reported for a triangle or polygon cover exactly the pixels whose centres it contains, each once, and adjacent shapes neither overlap nor leave gaps.',
  over=['inputs'], all='every triangle and polygon inside the image', why='Off-by-one pixels appear only at particular slopes and fractional coordinates.',
  files=['rasterize/lines.go', 'rasterize/blocks.go', 'rasterize/polygon.go'], mech=[('scan conversion', 'rasterize: DDATriangleBlocks, DDAPolygonBlocks')],
  reason='The edges come out of floating-point slopes that are rounded at every step, and blocks are split off at rounded positions; which pixel a row starts at is a runtime quantity that no sound abstraction in reach bounds tightly enough. That each row is covered once from edge to edge in ideal arithmetic is claimed as C13.'),
 dict(id='N03', title='The fitness lies between zero and one and grows as the picture improves',
  statement='The fitness of every point group is a number between 0 and 1.', over=['inputs'], all='every image and point group', why='Depends on the colours and the covered area.',
  files=['fitness/triangles.go', 'fitness/polygons.go'], mech=[('fitness', 'fitness: Calculate')],
  reason='Needs that the shapes are disjoint and that the rasteriser counts each pixel at most once (N01, N02); the range of the quotient cannot be bounded without them.'),
 dict(id='N04', title='Voronoi polygons tile the image',
  statement='The polygons of the Voronoi structure cover the image without overlaps, each containing its point.', over=['inputs', 'histories'], all='every set of points', why='Degenerate neighbours and clipping at the border occur only for special point sets.',
  files=['triangulation/incrdelaunay/voronoi.go'], mech=[('polygons', 'triangulation/incrdelaunay/voronoi.go: IterPolygons')],
  reason='A global geometric property of all polygons of a history-dependent structure; beyond local static reasoning (the comparators and the clipping predicates are covered by C16).'),
 dict(id='N05', title='Mutations are distributed as configured',
  statement='The number of mutated points and the size of a mutation follow the configured rate and normal distribution.', over=['inputs', 'schedules'], all='every seed', why='A statistical statement about random streams.',
  files=['mutation/gaussian.go', 'random/random.go'], mech=[('sampling', 'mutation/gaussian.go; random/random.go')],
  reason='A distribution is a property of measure over random streams, not of the program text; a static check could only restate the code.'),
 dict(id='N06', title='The algorithm improves and converges at useful speed',
  statement='Running the algorithm yields better triangulations over time, at a speed that grows with the number of cores.', over=['schedules', 'histories'], all='every image and configuration', why='Needs long runs.',
  files=['algorithm/simple.go', 'algorithm/modifiedgenetic.go'], mech=[('generation', 'algorithm: Step')],
  reason='Performance and convergence are measured, not decided from source. That the best member is never lost is claimed (C01, C02).'),
 dict(id='N07', title='A run with a fixed seed is reproducible',
  statement='Two runs with the same seeds and configuration give the same points and fitness.', over=['schedules'], all='every schedule', why='Depends on which goroutine finishes first.',
  files=['algorithm/modifiedgenetic.go', 'random/random.go'], mech=[('source of randomness', 'random/random.go')],
  reason='Not a guarantee of this code: seeds are drawn from the clock, generators are shared through package state, and the order of equal fitness values after sorting is unspecified. Stating it would be false, not merely undecided.'),
]
