import json
S='src/lpaggreg/sources/'; H='src/lpaggreg/headers/'
P=[]
def p(id,title,statement,text,why,files,mech,over=("inputs",),state=None,observe=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":list(over),"text":text},why_tests_cant=why,anchors=a))
NOASSERT="The existing tests run one or two hand-written data sets and assert nothing beyond not crashing; "
p("C01","Ordered: the best partition is optimal for its parameter",
 "For every parameter p, the partition computed over an ordered dimension of n elements maximises p*gain-(1-p)*loss among all partitions of the dimension into consecutive intervals, where the gain and loss of a partition are the sums of those of its intervals. The quality reported for the partition is exactly the sum of the qualities of its intervals.",
 "every n from 1 to 65535, every real p, every content of the interval-quality matrix, every competing partition into consecutive intervals",
 NOASSERT+"optimality quantifies over 2^(n-1) competitors for every quality matrix and every p.",
 [S+"opartitioner.cpp",S+"opartition.cpp",S+"tradeoff.cpp",S+"quality.cpp",S+"uppertriangularmatrix.cpp"],
 [("suffix dynamic programming",S+"opartitioner.cpp OPartitioner::computeBestPartition"),("tradeoff comparison",S+"tradeoff.cpp operator>"),("quality sum",S+"opartition.cpp OPartition::computeQuality")],
 observe=["OPartitioner::computeBestPartition","OPartition::getParts","OPartition::getQuality"])
p("C02","Ordered: a computed partition covers the dimension exactly once",
 "The parts of a partition computed over an ordered dimension of n elements are consecutive non-empty intervals in increasing order that start at 0, end at n-1, and leave no gap and no overlap. Each part carries the quality of exactly its own interval, its size is the number of its elements, and the partition carries the parameter it was computed for.",
 "every n from 1 to 65535, every real p, every interval-quality matrix",
 NOASSERT+"coverage must hold for whatever cut vector any data produces.",
 [S+"opartition.cpp",S+"opartitioner.cpp",S+"partition.cpp",S+"uppertriangularmatrix.cpp"],
 [("walk along the cuts",S+"opartition.cpp OPartition::computeParts"),("cut vector",S+"opartitioner.cpp OPartitioner::computeBestPartition")],
 observe=["OPartition::getParts","OPart::getSize","Partition::getParameter"])
p("C03","Hierarchical: the best partition is optimal for its parameter",
 "For every valid hierarchy, every assignment of qualities to its nodes and every p, the partition computed maximises p*gain-(1-p)*loss among all partitions of the leaves into node subtrees. The quality reported for it is exactly the sum of the qualities of its nodes.",
 "every valid hierarchy (leaves numbered first, one root, every inner node has children) of up to 65535 nodes, every quality vector, every real p, every competing hierarchical partition",
 NOASSERT+"optimality quantifies over all antichains covering the leaves, for every tree shape.",
 [S+"hpartitioner.cpp",S+"hpartition.cpp",S+"hvalues.cpp",S+"tradeoff.cpp",S+"quality.cpp"],
 [("bottom-up dynamic programming",S+"hpartitioner.cpp HPartitioner::computeBestPartition"),("descent to aggregated nodes",S+"hpartition.cpp HPartition::computeSubPart"),("children-before-parents order",S+"hvalues.cpp HValuesMetaData::setPath")],
 observe=["HPartitioner::computeBestPartition","HPartition::getParts","HPartition::getQuality"])
p("C04","Hierarchical: a computed partition covers each leaf exactly once",
 "The parts of a partition computed over a valid hierarchy are nodes whose subtrees are pairwise disjoint and together contain every leaf. Each part carries the quality of its own node and a size equal to the number of leaves below that node, and the partition carries the parameter it was computed for.",
 "every valid hierarchy of up to 65535 nodes, every quality vector, every real p",
 NOASSERT+"coverage must hold for every tree shape, including leaves at different depths and node numberings where the root is not last.",
 [S+"hpartition.cpp",S+"hpartitioner.cpp",S+"hvalues.cpp"],
 [("descent to aggregated nodes",S+"hpartition.cpp HPartition::computeSubPart"),("aggregation flags",S+"hpartitioner.cpp HPartitioner::computeBestPartition")],
 observe=["HPartition::getParts","HPart::getSize"])
p("C05","Spatiotemporal: the best partition is optimal for its parameter",
 "Over a valid hierarchy and an ordered dimension of n elements, the partition computed maximises p*gain-(1-p)*loss among all partitions obtained by recursively keeping a (node, interval) block whole, splitting it between the node's children, or cutting its interval in two. The quality reported for it is exactly the sum of the qualities of its blocks.",
 "every valid hierarchy, every n from 1 to 65535 with at most 2^31-1 (leaf, element) cells, every quality of every (node, interval), every real p, every competing recursive partition",
 NOASSERT+"the only test has two leaves and prints the result; optimality quantifies over all guillotine partitions.",
 [S+"dpartitioner.cpp",S+"dpartition.cpp",S+"hvalues.cpp",S+"tradeoff.cpp",S+"uppertriangularmatrix.cpp"],
 [("dynamic programming over nodes and intervals",S+"dpartitioner.cpp DPartitioner::computeBestPartition"),("recursive expansion of the cuts",S+"dpartition.cpp DPartition::computeSubPart")],
 observe=["DPartitioner::computeBestPartition","DPartition::getParts","DPartition::getQuality"])
p("C06","Spatiotemporal: a computed partition covers each (leaf, time) cell once",
 "The parts of a partition computed over a valid hierarchy and an ordered dimension of n elements are (node, interval) blocks such that every (leaf, element) cell lies in exactly one block. Each block carries the quality of its own node and interval, its hierarchical size is the number of leaves below the node and its size the number of its cells, and the partition carries the parameter it was computed for.",
 "every valid hierarchy, every n from 1 to 65535 with at most 2^31-1 (leaf, element) cells, every quality of every (node, interval), every real p",
 NOASSERT+"exact coverage must hold for every combination of spatial and temporal cuts.",
 [S+"dpartition.cpp",S+"dpartitioner.cpp",S+"hvalues.cpp",S+"uppertriangularmatrix.cpp"],
 [("recursive expansion of the cuts",S+"dpartition.cpp DPartition::computeSubPart"),("cut matrices",S+"dpartitioner.cpp DPartitioner::computeBestPartition")],
 observe=["DPartition::getParts","DPart::getHSize","DPart::getOSize","DPart::getSize"])
p("C07","Ordered: gain and loss of every interval follow their definition",
 "For data of any number of series over n ordered elements, the computed gain of interval [i,j] is the sum, over the series whose sum S over [i,j] is positive, of S*log2(S) minus the sum of v*log2(v) over the series' positive values v in [i,j]. The computed loss is the sum over all series of S*log2(j-i+1) minus that gain, and single-element intervals have gain 0 and loss 0.",
 "every number of series, every n from 1 to 65535, every real value, every interval",
 NOASSERT+"the formula must hold for every interval of every data set and the recurrences accumulate over all of them.",
 [S+"oqualities.cpp",S+"complexity.cpp",S+"uppertriangularmatrix.cpp",S+"quality.cpp"],
 [("incremental sums of values and information",S+"oqualities.cpp OQualities::computeQualities"),("entropy formulas",S+"complexity.cpp")],
 observe=["OQualities::getQualities"])
p("C08","Hierarchical: gain and loss of every node follow their definition",
 "For data of any number of series over the leaves of a valid hierarchy, the computed gain of a node is the sum, over the series whose sum S over the leaves below it is positive, of S*log2(S) minus the sum of v*log2(v) over the series' positive values v at those leaves. The computed loss is the sum over all series of S*log2(number of leaves below) minus that gain, and leaves have gain 0 and loss 0.",
 "every valid hierarchy of up to 65535 nodes, every number of series, every real leaf value, every node",
 NOASSERT+"the bottom-up accumulation must be right for every tree shape and numbering.",
 [S+"hqualities.cpp",S+"hvalues.cpp",S+"complexity.cpp",S+"quality.cpp"],
 [("bottom-up sums along the path",S+"hqualities.cpp HQualities::computeQualities")],
 observe=["HQualities::getQualities"])
p("C09","Spatiotemporal: gain and loss of every block follow their definition",
 "For data of any number of series over (leaf, element) cells, the computed gain of a (node, interval) block is the sum, over the series whose sum S over its cells is positive, of S*log2(S) minus the sum of v*log2(v) over the series' positive values v in those cells. The computed loss is the sum over all series of S*log2(number of cells) minus that gain, and single cells have gain 0 and loss 0.",
 "every valid hierarchy, every n >= 1, every number of series, every real cell value, every (node, interval)",
 NOASSERT+"the accumulation runs over nodes, intervals and series together; the test has a two-leaf tree.",
 [S+"dqualities.cpp",S+"hvalues.cpp",S+"complexity.cpp",S+"uppertriangularmatrix.cpp"],
 [("bottom-up sums per node and interval",S+"dqualities.cpp DQualities::computeQualities")],
 observe=["DQualities::getQualities"])
p("C10","Normalisation divides every quality by that of the whole",
 "Normalising the qualities of an ordered, hierarchical or spatiotemporal data set divides the gain and the loss of every element by the gain and the loss that the whole data set had before the call, so that the whole gets (1,1). A component that is 0 for the whole is left unchanged everywhere, and qualities supplied without values are normalised the same way as computed ones.",
 "every quality content, every size, every valid hierarchy and node numbering, computed or prebuilt qualities",
 NOASSERT+"every element must be divided by the original whole, whatever the storage order of the whole relative to the element.",
 [S+"oqualities.cpp",S+"hqualities.cpp",S+"dqualities.cpp",S+"quality.cpp"],
 [("division by the whole",S+"oqualities.cpp, hqualities.cpp, dqualities.cpp normalize()"),("component-wise division",S+"quality.cpp Quality::operator/=")],
 observe=["OQualities::normalize","HQualities::normalize","DQualities::normalize"])
p("C11","Hierarchy metadata is right for every valid hierarchy",
 "For every valid parent list, the traversal path contains every node exactly once, the leaves come first, every node precedes its parent and the root is last. The size of a node is the number of leaves below it, the children list of a node contains exactly the nodes whose parent it is, each once, and the reported root, leaf count and node count are those of the parent list.",
 "every valid hierarchy of up to 65535 nodes: any depth, any arity, leaves at different depths, any numbering of inner nodes",
 "The tests use a handful of small balanced trees; the claim is over all tree shapes and numberings.",
 [S+"hvalues.cpp"],
 [("traversal order, sizes and children",S+"hvalues.cpp HValuesMetaData::setPath")],
 state=[("path/size/children/root","derived description of the tree",H+"hvalues.h HValuesMetaData")],
 observe=["HValuesMetaData::getPath","HValuesMetaData::getSize","HValuesMetaData::getChildren","HValuesMetaData::getRoot"])
p("C12","A parameter sweep leaves mutually consistent results",
 "After a sweep from min to max (min<=max), for all three kinds of data, the parameter list is strictly increasing, starts with min and stays within [min,max], and consecutive parameters have different partitions; the partition of each listed parameter is a best partition for it, and that of the last one has the same parts as the best one computed at max. The partition map, the quality map and the tuple list have exactly the listed parameters, the quality map gives each partition's quality, and the tuples list all parts of all partitions in order with their bounds, sizes, gain and loss.",
 "every quality content and size, every threshold, every min<=max including min==max, every earlier sweep on the same object",
 NOASSERT+"consistency must hold for every bisection history and every number of equal neighbours removed.",
 [S+"opartitioner.cpp",S+"hpartitioner.cpp",S+"dpartitioner.cpp",S+"opartition.cpp",S+"hpartition.cpp",S+"dpartition.cpp",S+"partitioner.cpp"],
 [("bisection",S+"?partitioner.cpp addBestQualities"),("duplicate removal and result lists",S+"?partitioner.cpp computeBestPartitions"),("partition equality",S+"?partition.cpp operator==")],over=("inputs","histories"),
 state=[("pList, partitions, qualityList, partitionsTuples","results of the last sweep",H+"partitioner.h, ?partitioner.h")],
 observe=["getPList","getPartitions","getQualityList","getPartitionsTuples"])
p("C13","A parameter sweep terminates for every threshold",
 "A sweep returns for every threshold, including zero, negative ones and ones below the spacing of floating-point numbers, and for every finite min and max. In particular the bisection of the parameter range always stops with the machine's rounded arithmetic.",
 "every finite float threshold, min and max, every outcome of the partition comparisons",
 "Tests use a threshold of 0.001 on [0,1], which never reaches the resolution of the parameter type.",
 [S+"opartitioner.cpp",S+"hpartitioner.cpp",S+"dpartitioner.cpp"],
 [("bisection of the parameter",S+"?partitioner.cpp addBestQualities")],
 observe=["computeBestPartitions"])
p("C14","Selected parameter and area under the curve match their definitions",
 "After a sweep, the optimal parameter is a listed one minimising (gain-1)^2+loss^2, the largest one among ties, the maximal parameter is the last listed one and the minimal parameter is 0. The area under the quality curve is 1 minus the sum over consecutive listed parameters of the gain difference times the mean of the two losses.",
 "every non-empty parameter list with its quality map, whatever the magnitude of the qualities",
 NOASSERT+"no test checks either value; the claim is over every list length and every quality magnitude.",
 [S+"partitioner.cpp"],
 [("search for the optimum",S+"partitioner.cpp Partitioner::computePOpt"),("strategy switch",S+"partitioner.cpp Partitioner::getP"),("trapezoid sum",S+"partitioner.cpp Partitioner::computeAUC")],
 observe=["Partitioner::getP","Partitioner::computeAUC"])
p("C15","The triangular matrix is an exact map on pairs i<=j",
 "A triangular matrix of size n (0<=n<=65535) stores n(n+1)/2 elements, initially all equal to the given or default value (distinct fresh objects for objects). Reading (i,j) with i<=j<n returns the last value written at exactly that pair, writing it changes no other pair, every access stays inside the storage, and linear indices enumerate each pair exactly once.",
 "every size up to 65535, every sequence of writes and reads, every pair",
 "No test touches the matrix directly; injectivity of the index formula is a nonlinear fact over all pairs.",
 [S+"uppertriangularmatrix.cpp",H+"uppertriangularmatrix.h"],
 [("index formula",S+"uppertriangularmatrix.cpp operator()(i,j)")],over=("inputs","histories"),
 observe=["UpperTriangularMatrix::operator()","UpperTriangularMatrix::operator[]","getElements","getSize"])
p("C16","Value containers return what was stored, also through the flat view",
 "A value container of any kind (ordered, hierarchical, spatiotemporal) and any number of dimensions reports the dimensions of its rectangular input, returns under each coordinate the value last stored there (initially the input value, or 0 when built from sizes), and a write changes no other coordinate. The flat series view used by the computations enumerates each combination of inner coordinates exactly once, in row-major order.",
 "every rectangular input shape with at most 65535 series and elements, every coordinate, every sequence of reads and writes",
 "Tests build one or two small containers and never read them back through the flat view.",
 [S+"ovaluesn.cpp",S+"hvaluesn.cpp",S+"dvaluesn.cpp",S+"ovalues.cpp",S+"hvalues.cpp",S+"dvalues.cpp",H+"lpglobal.h"],
 [("flat index split",S+"?valuesn.cpp toI/toJ/toK"),("dimension macros",H+"lpglobal.h SIZE1..SIZE4")],over=("inputs","histories"),
 observe=["operator()","operator[]","getValue","getVsize","getOsize","getI","getJ","getK"])
p("C17","Ordered: an aggregate is the sum and mean over its interval",
 "For every part of an ordered partition and data with any number of inner dimensions, the aggregate's sum for each inner coordinate is the sum of that coordinate's values over exactly the part's interval, and its mean is that sum divided by the part's size. An aggregation has one aggregate per part of its partition, in order.",
 "every part within the dimension, every rectangular data set of 1 to 4 dimensions",
 "No test builds an aggregate.",
 [S+"oaggregationn.cpp",S+"oaggregation.cpp",S+"ovaluesn.cpp",S+"opartition.cpp"],
 [("interval sums",S+"oaggregationn.cpp OAggregateN1..N4::compute"),("one aggregate per part",S+"oaggregationn.cpp OAggregationN1..N4 constructors")],
 observe=["OAggregateN*::getSum","OAggregateN*::getMean","OAggregationN*::getAggregates"])
p("C18","Hierarchical and spatiotemporal aggregates sum over their own block",
 "For every part of a hierarchical or spatiotemporal partition and data with any number of inner dimensions, the aggregate's sum for each inner coordinate is the sum of that coordinate's values over exactly the leaves below the part's node (and the elements of its interval), and its mean is that sum divided by the part's size. An aggregation has one aggregate per part of its partition, in order.",
 "every valid hierarchy, every part, every rectangular data set of 1 to 4 dimensions",
 "No test builds an aggregate.",
 [S+"haggregationn.cpp",S+"daggregationn.cpp",S+"haggregation.cpp",S+"daggregation.cpp",S+"hvalues.cpp"],
 [("subtree sums",S+"haggregationn.cpp and daggregationn.cpp subSum"),("one aggregate per part",S+"haggregationn.cpp and daggregationn.cpp aggregation constructors")],
 observe=["HAggregateN*::getSum","HAggregateN*::getMean","DAggregateN*::getSum","DAggregateN*::getMean"])
p("C19","Quality arithmetic and comparison act on gain and loss alike",
 "Addition, subtraction, multiplication and division of two qualities, in place or not, combine the two gains and the two losses component by component and leave the right operand (and, for the binary forms, both operands) unchanged. Two qualities compare equal exactly when both components are identical or both differ by less than the relative precision 1e-13 times half the larger of the gain sum and the loss sum, and unequal otherwise.",
 "all real gains and losses (non-zero divisors), distinct or identical operands",
 "No test compares or combines qualities directly.",
 [S+"quality.cpp",H+"quality.h",H+"lpglobal.h"],
 [("operators",S+"quality.cpp"),("precision",H+"lpglobal.h LP_PRECISION")],
 observe=["Quality operators","Quality::getGain","Quality::getLoss"])
p("C20","Tradeoff value is p*gain-(1-p)*loss and its operators are consistent",
 "Building or setting a tradeoff from a quality and p yields the value p*gain-(1-p)*loss and a private copy of the quality, so later changes to the tradeoff never change the source quality and vice versa. Its arithmetic operators act on value and quality alike, equality and the strict less-than compare the values, and greater-than orders by value, then larger gain, then smaller loss, with the non-strict forms their negations.",
 "all real gains, losses and p, all pairs of tradeoffs",
 "No test uses tradeoffs directly.",
 [S+"tradeoff.cpp",H+"tradeoff.h"],
 [("value formula",S+"tradeoff.cpp Tradeoff::computePIC"),("quality copies",S+"tradeoff.cpp constructors and set"),("comparisons",S+"tradeoff.cpp operators")],
 observe=["Tradeoff::getValue","Tradeoff::getQuality","Tradeoff operators"])
p("C21","Gain and loss of non-negative data are never negative",
 "For non-negative data, the computed gain and loss of every interval, node or block lie between 0 and the total loss bound: gain >= 0 and loss >= 0, and gain+loss equals the sum over series of S*log2(number of cells), S being the series' sum over the block. If in addition all cells of a block hold the same values, its loss is 0.",
 "every non-negative data set of the three kinds, every interval, node and block, in exact arithmetic",
 "Non-negativity is an inequality about logarithms over all inputs; tests assert nothing on qualities.",
 [S+"complexity.cpp",S+"oqualities.cpp",S+"hqualities.cpp",S+"dqualities.cpp"],
 [("entropy formulas",S+"complexity.cpp"),("accumulation",S+"oqualities.cpp, hqualities.cpp, dqualities.cpp computeQualities")],
 observe=["OQualities::getQualities","HQualities::getQualities","DQualities::getQualities"])
p("C22","Computing partitions and aggregates never changes their inputs",
 "Computing a best partition, running a sweep, comparing partitions or building aggregates leaves every quality of the supplied quality set unchanged, and so are the partitions already returned; computing qualities leaves the values unchanged. Hence repeating a computation on the same object gives the same parts, and results of an earlier call stay valid.",
 "every input of the three kinds, every history of computations on shared qualities and values",
 "Tests run one history and never re-read the inputs afterwards; shared pointers make silent corruption possible for any history.",
 [S+"opartitioner.cpp",S+"hpartitioner.cpp",S+"dpartitioner.cpp",S+"tradeoff.cpp",S+"opartition.cpp",S+"hpartition.cpp",S+"dpartition.cpp",S+"oqualities.cpp",S+"hqualities.cpp",S+"dqualities.cpp"],
 [("private copies of qualities",S+"tradeoff.cpp Tradeoff::set"),("fresh quality for sums",S+"?partition.cpp computeQuality")],over=("inputs","histories"),
 observe=["getQualities after computeBestPartition / computeBestPartitions"])
p("C23","Along a sweep, gain and loss grow with the parameter",
 "When p<q, the best partition computed for q has a gain and a loss that are at least those of the best partition computed for p, for 0<=p<q<=1 and for all three kinds of data. Hence along the parameter list of a sweep within [0,1] gain and loss never decrease.",
 "every quality content of the three kinds, every pair of parameters 0<=p<q<=1, in exact arithmetic",
 "Monotonicity is a consequence of optimality at every parameter; tests assert nothing on gain and loss.",
 [S+"opartitioner.cpp",S+"hpartitioner.cpp",S+"dpartitioner.cpp",S+"tradeoff.cpp"],
 [("optimality for each p",S+"?partitioner.cpp computeBestPartition")],
 observe=["getQualityList","computeBestPartition(p)->getQuality"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
