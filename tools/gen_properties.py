#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
IMG="src/image.rs"; SW="src/swatch.rs"; KD="src/math/neighbors/kdtree/mod.rs"; LIN="src/math/neighbors/linear.rs"
DB="src/math/clustering/dbscan/algorithm.rs"; KM="src/math/clustering/kmeans/algorithm.rs"; INI="src/math/clustering/kmeans/init.rs"
HI="src/math/clustering/hierarchical/algorithm.rs"; UF="src/math/clustering/hierarchical/union_find.rs"
MST="src/math/graph/spanning_tree.rs"; EDGE="src/math/graph/edge.rs"; MET="src/math/distance/metric.rs"; PT="src/math/point.rs"
CD="src/math/clustering/hdbscan/core_distance.rs"
RGBA="src/color/rgba.rs"; XYZ="src/color/xyz.rs"; LAB="src/color/lab.rs"; WP="src/color/white_point.rs"; NUM="src/math/number.rs"
H="cfg auto_palette_verif (src/verif.rs)"
P=[]
def p(id,title,st,over,qt,why,files,state,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))

p("P01","One swatch per density cluster of the image, and none for noise",
"Extracting a palette from a well-formed image returns exactly one swatch for every density cluster of its pixels, where a pixel is described by L*/100, a*/255, b*/255, x/width, y/height, and a cluster is a maximal set of pixels linked through pixels that have at least 25 pixels (themselves included) within Euclidean distance 0.025. Two regions of the same colour that are apart in the image are two swatches, regions joined through a dense chain of close pixels are one, and pixels in sparse surroundings produce no swatch.",
["inputs","configurations"],"every image (any width, height and pixel content) and both float precisions, as long as no pixel distance coincides with the 0.025 boundary within rounding",
"One integration test runs one PNG and asserts nothing about the result, so it only notices panics.",
[IMG,DB,KD,LAB,XYZ],[("pixels","pixel features in colour+position space","src/image.rs extract"),("labels","cluster label of each pixel","src/math/clustering/dbscan/algorithm.rs fit")],
[("pixel feature construction and normalisation",IMG),("DBSCAN with min_points 25, epsilon 0.025",IMG),("cluster expansion",DB)],["ImageData::extract return value"])
p("P02","A swatch's percentage is the share of its own cluster",
"The percentage of every swatch is the number of pixels of the very cluster that its colour and position describe, divided by the number of pixels of the image. Percentages are therefore greater than 0, never exceed 1, and the percentages of a palette add up to the share of the pixels that belong to any cluster.",
["inputs","schedules"],"every well-formed image, both precisions, and every process (hash seeds differ between runs)",
"No test compares a percentage with a pixel count; attribution of counts to clusters could vary from run to run with hash iteration order.",
[IMG,DB],[("membership","pixels of each cluster",DB),("centroids","mean feature of each cluster",DB)],
[("centroid and member count are looked up by the same cluster id",IMG),("counts per cluster",DB)],["Swatch.percentage"])
p("P03","A swatch's colour is the mean L*a*b* colour of its own pixels",
"The colour of every swatch is the sRGB colour of the average CIE L*a*b* value of the pixels of its cluster, each channel rounded to the nearest integer and limited to 0..255. In particular a cluster of one single colour yields exactly that colour.",
["inputs"],"every well-formed image and both precisions, up to floating point rounding at the boundary between two channel values",
"No test looks at the colour of a swatch; unit tests pin the conversion of five pure colours only.",
[IMG,DB,LAB,XYZ,RGBA],[("centroid[0..3]","mean normalised L*, a*, b*",DB)],[("normalise / denormalise of colour components",IMG),("sRGB <-> XYZ <-> L*a*b*","src/color")],["Swatch.color"])
p("P04","A swatch's position is the mean position of its own pixels",
"The position of every swatch is the average x and average y coordinate of the pixels of its cluster, rounded down to whole pixels, where pixel number i of the row-major RGBA buffer is at x = i mod width, y = i div width. The position always lies inside the image.",
["inputs"],"every well-formed image of any aspect ratio and both precisions, up to floating point rounding when the average is (almost) a whole number",
"No test looks at the position of a swatch; the only image tested is not even checked for orientation.",
[IMG,DB],[("centroid[3..5]","mean normalised x and y",DB)],[("pixel index to coordinate",IMG),("scale back by width / height",IMG)],["Swatch.position"])
p("P05","Palettes are ordered by percentage, and swatches compare by percentage",
"A palette is returned in ascending order of percentage. Comparing two swatches (compare, less-than, max, min, sort) gives exactly the ordering of their percentages, whatever their colours and positions are.",
["inputs"],"every well-formed image and every collection of swatches with non-NaN percentages",
"There is no test of the swatch ordering at all, and the order of the returned palette is never asserted.",
[IMG,SW],[("percentage","sort key",SW)],[("Ord / PartialOrd of Swatch",SW),("swatches.sort()",IMG)],["order of the returned Vec","Ord, PartialOrd of Swatch"])
p("P06","Extraction is a function of the image alone",
"Extracting from images with equal width, height and RGB bytes always gives the same palette: in any process, any number of times, on any thread, interleaved in any way with other extractions and whatever was extracted before. The alpha bytes have no influence on the palette.",
["schedules","histories","inputs"],"every history of extract calls, sequential or concurrent, over any set of images and in any number of processes",
"The only test extracts once from one image; nothing repeats, reorders or overlaps calls, and hash seeds change between processes.",
[IMG,DB,SW],[("ImageData","borrowed pixel buffer and dimensions",IMG)],[("no shared mutable state","src/"),("cluster-id ordered centroids",DB),("stable sort",IMG)],["ImageData::extract return values of a history of calls"])
p("P07","Every well-formed image yields a well-formed palette",
"For every image whose buffer holds width*height RGBA pixels (including the empty image), extraction terminates and returns without panicking, in single and double precision. Every returned swatch has a position inside the image and a percentage in (0, 1], and the percentages of a palette add up to at most 1.",
["inputs","configurations"],"every width, height and pixel content, e.g. gradients whose average colour falls outside of the sRGB gamut",
"Only one image is ever processed by the tests; a panic needs particular colour averages, shapes or sizes.",
[IMG,RGBA,XYZ,LAB,NUM,DB],[],[("limit of the channels to 0..255",RGBA),("clamps of XYZ and L*a*b* components","src/color"),("every point ends up assigned or outlier",DB)],["ImageData::extract returns"])
p("P08","sRGB to XYZ and L*a*b* conversion follows the CIE definition",
"Converting any 8-bit sRGB colour to CIE XYZ and CIE L*a*b* (D65) gives the values of the standard definitions (sRGB decoding with its linear part below 0.04045, the D65 matrix, and the cube-root function with its linear part below (6/29)^3) within 0.01 units for L*a*b* and 0.00001 for XYZ. L* stays within [0,100], a* and b* within [-128,127], and lightness never decreases when a channel increases.",
["inputs"],"all 16777216 sRGB colours, both precisions",
"Unit tests pin black, white, red, green and blue, all of which avoid the linear parts of both curves.",
[RGBA,XYZ,LAB,WP,NUM],[],[("decode and matrix",XYZ),("cube-root function and clamp",LAB)],["Lab::from(&XYZ::from(&rgba))"],H)
p("P09","L*a*b* to sRGB conversion is total and inverts the forward conversion",
"Converting any 8-bit sRGB colour to L*a*b* and back through XYZ returns exactly the same red, green and blue with full opacity. Every L*a*b* value in range converts, without panicking, to the sRGB colour that the standard definitions give for it (with X, Y and Z limited to the range from black to the reference white), each channel rounded to the nearest integer and limited to 0..255 when the value is outside of the sRGB gamut.",
["inputs"],"all 16777216 sRGB colours and every L*a*b* value in [0,100]x[-128,127]x[-128,127], both precisions",
"Unit tests convert back five in-gamut pure colours; no round trip, no dark colour and no out-of-gamut value is tested.",
[LAB,XYZ,RGBA,NUM],[],[("inverse cube-root function",XYZ),("matrix, encoding and channel limits",RGBA)],["Rgba::from(&XYZ::from(&lab))"],H)
p("P10","DBSCAN returns a density-based clustering of the dataset",
"For every dataset, radius, minimum number of points and metric, every point is either in exactly one cluster or an outlier; two core points (at least the minimum number of points, and at least itself, within the radius) share a cluster exactly if a chain of core points within the radius links them; a non-core point within the radius of a core point belongs to the cluster of such a core point; all other points are outliers. Each cluster's count is the number of its points and its centroid is their mean.",
["inputs"],"every dataset (any order of points, duplicates, ties at the radius), radius (also negative or infinite), minimum (also 0) and both metrics, in 2, 3 and 5 dimensions",
"A single 16-point dataset with one parameter choice is tested, without outliers, contested border points or other metrics.",
[DB,"src/math/clustering/dbscan/label.rs","src/math/clustering/dbscan/params.rs",KD],[("labels","Undefined / Marked / Outlier / Assigned(c)",DB),("queue","points to be expanded",DB)],
[("expand_cluster",DB),("radius search",KD)],["DBSCAN::fit result: members, counts, centroids, outliers"],H)
p("P11","Radius search returns exactly the points within the radius",
"For every dataset, query point, radius and metric, both neighbour search back ends (k-d tree and linear) return each data point whose distance to the query is not greater than the radius exactly once, with its distance, and no other point. A negative radius returns nothing.",
["inputs"],"every dataset (duplicates, collinear points, ties at the radius and at splitting planes), query, radius (also below 1) and metric, in 2, 3 and 5 dimensions",
"Tests use one 8-point and one 5-point planar dataset with integer squared radii >= 1.",
[KD,LIN,MET,"src/math/neighbors/nns.rs","src/math/neighbors/kdtree/node.rs","src/math/neighbors/kdtree/element.rs"],[("tree","median split of the points per axis",KD)],[("pruning of subtrees by splitting plane distance",KD),("median build",KD)],["NeighborSearch::search_radius"],H)
p("P12","k-nearest search returns the k nearest points in order",
"For every dataset, query point, k and metric, both neighbour search back ends return min(k, size) distinct data points in non-decreasing order of distance, each with its distance, such that no point left out is nearer than a returned one. The nearest search returns a point at minimum distance, or nothing exactly if the dataset is empty.",
["inputs"],"every dataset, query, k from 0 to beyond the dataset size and metric, in 2, 3 and 5 dimensions",
"Tests use one planar dataset with k = 0, 1, 2 and 10 (which visits everything), so wrong pruning is invisible.",
[KD,LIN,MET,"src/math/neighbors/nns.rs","src/math/neighbors/kdtree/node.rs","src/math/neighbors/kdtree/element.rs"],[("heap","candidates found so far",KD)],[("pruning by the k-th nearest distance",KD),("sort and take k",LIN)],["NeighborSearch::search, search_nearest"],H)
p("P13","Every k-means iteration assigns to the nearest centroid and averages",
"One k-means iteration puts every point into exactly one cluster, a cluster whose previous centroid is nearest to the point, and then moves the centroid of every non-empty cluster to the mean of its points while the centroid of an empty cluster stays where it was. With k = 0 there are no clusters, and with k at least the dataset size every point is a cluster of its own whose centroid is the point.",
["inputs","histories"],"every dataset, k, metric, seed and number of iterations",
"The only test runs k-means once on five points with a random seed and asserts nothing.",
[KM,"src/math/clustering/kmeans/cluster.rs",KD],[("clusters","centroid and members of each cluster",KM)],[("reassign",KM),("update_centroid","src/math/clustering/kmeans/cluster.rs")],["Kmeans::fit with 0, 1, 2, ... iterations: centroids, counts, members"],H)
p("P14","k-means starts from k different data points, spread out by k-means++",
"The initial centroids are min(k, size) different points of the dataset (a value occurs at most as often as in the dataset). With the k-means++ initializer every centroid after the first is a not yet chosen point whose distance to its nearest already chosen centroid is maximal.",
["inputs","histories"],"every dataset (with duplicates), k, metric and random seed, both initializers",
"Tests only count the initial centroids (k = 2 of 5 points) for an unseeded random generator.",
[INI],[("selected","points already chosen",INI)],[("random",INI),("kmeans_plus_plus",INI)],["Initializer::initialize"],H)
p("P15","k-means stops exactly when every cluster has settled or at the limit",
"k-means returns the state after the first iteration in which every cluster's centroid moved by less than the tolerance, or after the maximum number of iterations if that never happens before. It always terminates and never performs more iterations than the maximum.",
["inputs","histories"],"every dataset, k, metric, seed, tolerance and maximum number of iterations",
"The stop condition is never asserted; a run that stops early or late returns a plausible result.",
[KM,"src/math/clustering/kmeans/params.rs"],[("converged","whether the iteration settled",KM)],[("convergence test",KM),("iteration limit",KM)],["Kmeans::fit result compared with the states after each iteration"],H)
p("P16","The spanning tree spans all vertices with minimum total weight",
"For every complete weighted graph the built tree has one edge less than there are vertices, connects all vertices without a cycle, uses the weights of the graph, and no other spanning tree has a smaller total weight; the reported weight is the sum of its edges. An empty graph or a single vertex gives no edges and weight 0.",
["inputs"],"every number of vertices and every symmetric weight function, with ties, zero and negative weights",
"One 4-vertex graph without ties is tested.",
[MST,EDGE],[("attached","vertices already in the tree",MST),("candidates","priority queue of crossing edges",MST)],[("lightest crossing edge first",MST),("reversed edge ordering",EDGE)],["MinimumSpanningTree::build: edges(), weight()"],H)
p("P17","The hierarchy is a single-linkage dendrogram",
"For n data points the hierarchy has n-1 merges (none for n <= 1), numbered n, n+1, ...; each merge joins two different current clusters that have the smallest single-linkage distance of all pairs of current clusters, records that distance as its weight and the number of points below it as its size. Weights never decrease from merge to merge and every point is below the last merge.",
["inputs","histories"],"every dataset size and every symmetric weight function, with ties",
"One 6-point dataset is tested.",
[HI,UF,MST,"src/math/clustering/hierarchical/node.rs"],[("hierarchy","merges in order",HI)],[("sorted spanning tree edges",HI),("union-find labels",UF)],["HierarchicalClustering::fit"],H)
p("P18","Partitioning cuts the hierarchy into exactly k clusters",
"Partitioning a hierarchy of n points into 2 <= k <= n clusters returns one label per point, uses exactly the labels 0..k-1, and two points share a label exactly if the merges other than the last k-1 have joined them. With k of 0 or 1 all points get label 0.",
["inputs"],"every hierarchy (any shape, from chains to balanced trees) and every k from 0 to the number of points",
"Four values of k on one 6-point hierarchy are tested.",
[HI],[("node_ids","frontier of the cut",HI)],[("splitting the latest merge first",HI),("labelling of subtrees",HI)],["HierarchicalClustering::partition"],H)
p("P19","Core distances are distances to the m-th nearest other point",
"The core distance of every point is its distance to its m-th nearest other point of the dataset, where m is the minimum number of samples, or to the furthest point if there are fewer others, and 0 if m is 0. There is exactly one core distance per point, in the order of the dataset.",
["inputs"],"every dataset (with duplicates), m >= 0 and both metrics",
"One 6-point planar dataset with m = 3 is tested.",
[CD,KD],[("distances","core distance per point",CD)],[("k-nearest search with k = m + 1",CD)],["CoreDistance::distance_at"],H)
p("P20","Union-find tracks merged sets under any operation sequence",
"After any sequence of unions of two different current roots and of finds, a find on any element or earlier root returns the label of the set that contains it: two elements have the same root exactly if unions have joined them, the t-th union creates label n+t-1 and returns the number of elements in the joined set. Finds never change any answer.",
["histories","inputs"],"every number of elements and every interleaving of unions and finds, whatever path shortening the finds have done before",
"Two short operation sequences on 4 elements are tested.",
[UF],[("parent","parent pointer of elements and labels",UF),("size","elements below a label",UF),("next_label","label of the next union",UF)],[("find with path shortening",UF),("union",UF)],["UnionFind::find, union"],H)
p("P21","Distances and point arithmetic are componentwise and metric",
"In 2, 3 and 5 dimensions, adding, subtracting and scaling points (also in place) acts on every coordinate independently, and indexing, dimension, vector form and zero agree with the coordinates; dividing by zero panics. The squared Euclidean distance is the sum of the squared coordinate differences, the Euclidean distance is its square root, and both are symmetric and zero exactly for equal points.",
["inputs"],"all points and scalars in both precisions, in 2, 3 and 5 dimensions",
"Unit tests use one or two pairs of points per operation, only in 2 and 3 dimensions, and never the in-place scaling and division.",
[PT,MET,NUM],[],[("impl_point macro",PT),("measure",MET)],["Point operators","DistanceMetric::measure"],H)
p("P22","Every algorithm is a function of its inputs",
"Neighbour searches, DBSCAN, k-means, core distances, spanning trees, hierarchies with their partitions, and colour conversions give exactly the same result (bit for bit, including the order of members, edges and clusters) whenever they are called with equal data, equal parameters and, for k-means, an equal state of the random generator: in any process, any number of times, on any thread, interleaved in any way with other calls and whatever was computed before.",
["inputs","schedules","histories"],"all requests to these algorithms and all histories and interleavings of calls from several threads and processes",
"A unit test calls an algorithm once on fresh data in one thread; hash iteration orders, caches and shared buffers only show across calls, threads and processes.",
[KD,LIN,DB,KM,INI,HI,MST,CD,LAB,XYZ,RGBA],[("no state outlives a call","absence of shared buffers, caches and ambient randomness","src")],
[("fit functions",DB),("generator handed in by the caller",INI),("searches on a structure built per call",KD)],["return values of the algorithms (exact text)"],H)
p("P23","Weighted edges are ordered from the heaviest to the lightest",
"Comparing two weighted edges (compare, partial compare, sort, max) gives exactly the reverse of the order of their weights, whatever their vertices are, so that a priority queue that returns a greatest element always returns a lightest edge. Two edges are equal exactly if both vertices and the weights are equal, and an edge returns the vertices and the weight that it was created with.",
["inputs","histories"],"all edges whose weights are numbers (infinite ones included, NaN excluded), both precisions, and all sequences of queue operations",
"Unit tests compare three pairs of edges; none puts edges into a queue, and none has weights that are close to one another.",
[EDGE,MST,HI],[("u, v, weight","the edge",EDGE)],[("partial_cmp reverses the order of the weights",EDGE),("eq compares vertices and weight",EDGE)],["Ord / PartialOrd / PartialEq of WeightedEdge"],H)
p("P24","Colours are limited to the range of their colour space",
"Creating a CIE L*a*b* colour limits L* to [0,100] and a* and b* to [-128,127], and creating a CIE XYZ colour limits X to [0,0.950456], Y to [0,1] and Z to [0,1.088644]: each component on its own becomes the nearest number of its range, and a component inside its range (limits included) is kept unchanged.",
["inputs"],"all numbers (infinite ones included, NaN excluded) for every component, both precisions",
"Unit tests create colours with one or two values beyond each limit.",
[LAB,XYZ,NUM],[],[("normalize_* limit each component",LAB),("normalize_* limit each component",XYZ),("Clamp",NUM)],["Lab::new","XYZ::new"],H)
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x["title"])<=80, x["id"]
