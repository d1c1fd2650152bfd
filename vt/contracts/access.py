"""Constructors of parts and read accessors.  They are verified on their own; callers are checked against the bodies."""
C = {}
def get(key, field, **kw): C[key] = dict(inline=True, ensures=[("returns the stored " + field.split("_")[-1], "result = this.%s" % field)], **kw)
INT = "-2147483648 <= this.%s <= 2147483647"
def geti(key, field): get(key, field, requires=[("machine range of the field", INT % field)])
def ctor(key, params, fields): C[key] = dict(inline=True, params=params, ensures=[("stores " + f.split("_")[-1], "result.%s = %s" % (f, p)) for p, f in zip(params, fields)])
# parts
ctor("OPart::OPart(int, int, shared_ptr<Quality>)", ["s", "e", "q"], ["oPart_start", "oPart_end", "oPart_quality"])
geti("OPart::getStart()", "oPart_start"); geti("OPart::getEnd()", "oPart_end"); get("OPart::getQuality()", "oPart_quality")
C["OPart::getSize()"] = dict(inline=True, requires=[("an interval", "0 <= this.oPart_start <= this.oPart_end <= 2147483646")], ensures=[("number of elements of the interval", "result = this.oPart_end - this.oPart_start + 1")])
ctor("HPart::HPart(int, int, shared_ptr<Quality>)", ["h", "s", "q"], ["hPart_h", "hPart_size", "hPart_quality"])
geti("HPart::getH()", "hPart_h"); geti("HPart::getSize()", "hPart_size"); get("HPart::getQuality()", "hPart_quality")
ctor("DPart::DPart(int, int, int, int, shared_ptr<Quality>)", ["h", "hs", "s", "e", "q"], ["dPart_h", "dPart_hsize", "dPart_start", "dPart_end", "dPart_quality"])
for g, f in (("getH", "h"), ("getHSize", "hsize"), ("getStart", "start"), ("getEnd", "end")): geti("DPart::%s()" % g, "dPart_" + f)
get("DPart::getQuality()", "dPart_quality")
DI = ("an interval", "0 <= this.dPart_start <= this.dPart_end <= 2147483646")
C["DPart::getOSize()"] = dict(inline=True, requires=[DI], ensures=[("number of elements of the interval", "result = this.dPart_end - this.dPart_start + 1")])
C["DPart::getSize()"] = dict(inline=True, requires=[DI, ("hierarchical size", "0 <= this.dPart_hsize <= 2147483647"), ("cell count fits the result type", "this.dPart_hsize * (this.dPart_end - this.dPart_start + 1) <= 2147483647")],
    ensures=[("number of cells of the block", "result = this.dPart_hsize * (this.dPart_end - this.dPart_start + 1)")])
for op, neg in (("==", ""), ("!=", "not ")):
    C["operator%s(OPart&, OPart&)" % op] = dict(inline=True, params=["a", "b"], ensures=[("compares the bounds", "result <-> %s(a.oPart_start = b.oPart_start /\\ a.oPart_end = b.oPart_end)" % neg)])
    C["operator%s(HPart&, HPart&)" % op] = dict(inline=True, params=["a", "b"], ensures=[("compares node and size", "result <-> %s(a.hPart_h = b.hPart_h /\\ a.hPart_size = b.hPart_size)" % neg)])
CELLS = lambda x: ("block of %s" % x, "0 <= %s.dPart_start <= %s.dPart_end <= 2147483646 /\\ 0 <= %s.dPart_hsize <= 2147483647 /\\ %s.dPart_hsize * (%s.dPart_end - %s.dPart_start + 1) <= 2147483647" % ((x,) * 6))
for op, neg in (("==", ""), ("!=", "not ")):
    C["operator%s(DPart&, DPart&)" % op] = dict(inline=True, params=["a", "b"], requires=[CELLS("a"), CELLS("b")],
        ensures=[("compares node, bounds and number of cells", "result <-> %s(a.dPart_h = b.dPart_h /\\ a.dPart_start = b.dPart_start /\\ a.dPart_end = b.dPart_end /\\ a.dPart_hsize * (a.dPart_end - a.dPart_start + 1) = b.dPart_hsize * (b.dPart_end - b.dPart_start + 1))" % neg)])
# partitions
get("Partition::getParameter()", "partition_parameter"); get("Partition::getQuality()", "partition_quality")
C["Partition::Partition(float)"] = dict(inline=True, params=["p"], ensures=[("stores the parameter", "result.partition_parameter = p")])
get("OPartition::getCuts()", "oPartition_cuts"); get("OPartition::getParts()", "oPartition_parts"); get("OPartition::getQualities()", "oPartition_qualities")
get("HPartition::getAggregated()", "hPartition_aggregated"); get("HPartition::getParts()", "hPartition_parts"); get("HPartition::getQualities()", "hPartition_qualities"); get("HPartition::getMetaData()", "hPartition_metaData")
get("DPartition::getCuts()", "dPartition_cuts"); get("DPartition::getParts()", "dPartition_parts"); get("DPartition::getQualities()", "dPartition_qualities"); get("DPartition::getMetaData()", "dPartition_metaData")
# partitioners
get("Partitioner::getPList()", "partitioner_pList"); get("Partitioner::getQualityList()", "partitioner_qualityList")
for K in "OHD":
    k = K.lower() + "Partitioner_"
    get("%sPartitioner::getPartitions()" % K, k + "partitions"); get("%sPartitioner::getPartitionsTuples()" % K, k + "partitionsTuples")
EMPTY = lambda B: [("no parameters yet", "result.%sartitioner_base.partitioner_pList.len = 0" % B), ("no partitions yet", "forall x. not result.%sartitioner_partitions.dom[x]" % B)]
C["OPartitioner::OPartitioner(shared_ptr<UpperTriangularMatrix<shared_ptr<Quality>>>)"] = dict(inline=True, params=["q"], ensures=[("stores the qualities", "result.oPartitioner_qualities = q")] + EMPTY("oP"))
C["OPartitioner::OPartitioner(OQualities)"] = dict(inline=True, params=["q"], ensures=[("stores the qualities", "result.oPartitioner_qualities = q.oQualities_qualities")] + EMPTY("oP"))
C["HPartitioner::HPartitioner(shared_ptr<vector<shared_ptr<Quality>>>, HValuesMetaData)"] = dict(inline=True, params=["q", "m"], ensures=[("stores the qualities", "result.hPartitioner_qualities = q"), ("stores the hierarchy", "result.hPartitioner_metaData = m")] + EMPTY("hP"))
C["HPartitioner::HPartitioner(HQualities)"] = dict(inline=True, params=["q"], ensures=[("stores the qualities", "result.hPartitioner_qualities = q.hQualities_qualities"), ("stores the hierarchy", "result.hPartitioner_metaData = q.hQualities_metaData")] + EMPTY("hP"))
C["DPartitioner::DPartitioner(shared_ptr<vector<shared_ptr<UpperTriangularMatrix<shared_ptr<Quality>>>>>, HValuesMetaData)"] = dict(inline=True, params=["q", "m"], ensures=[("stores the qualities", "result.dPartitioner_qualities = q"), ("stores the hierarchy", "result.dPartitioner_metaData = m")] + EMPTY("dP"))
C["DPartitioner::DPartitioner(DQualities)"] = dict(inline=True, params=["q"], ensures=[("stores the qualities", "result.dPartitioner_qualities = q.dQualities_qualities"), ("stores the hierarchy", "result.dPartitioner_metaData = q.dQualities_metaData")] + EMPTY("dP"))
# hierarchy and values
get("HValuesMetaData::getChildren()", "meta_children"); get("HValuesMetaData::getParents()", "meta_parents"); get("HValuesMetaData::getPath()", "meta_path"); get("HValuesMetaData::getSize()", "meta_size")
geti("HValuesMetaData::getRoot()", "meta_root")
for g, f in (("getHsize", "hsize"), ("getLeaveSize", "leaveSize")): get("HValuesMetaData::%s()" % g, "meta_" + f, requires=[("machine range of the field", "0 <= this.meta_%s <= 4294967295" % f)])
U = lambda f: [("machine range of the field", "0 <= this.%s <= 4294967295" % f)]
get("OValues::getOsize()", "oValues_osize", requires=U("oValues_osize")); get("OValues::getVsize()", "oValues_vsize", requires=U("oValues_vsize"))
get("HValues::getVsize()", "hValues_vsize", requires=U("hValues_vsize")); get("HValues::getMetaData()", "hValues_metaData")
get("DValues::getVsize()", "dValues_vsize", requires=U("dValues_vsize")); get("DValues::getOsize()", "dValues_osize", requires=U("dValues_osize")); get("DValues::getMetaData()", "dValues_metaData")
# qualities
get("OQualities::getQualities()", "oQualities_qualities"); get("HQualities::getQualities()", "hQualities_qualities"); get("HQualities::getMetaData()", "hQualities_metaData")
get("DQualities::getQualities()", "dQualities_qualities"); get("DQualities::getMetaData()", "dQualities_metaData")
C["OQualities::OQualities(shared_ptr<OValues>)"] = dict(inline=True, params=["v"], ensures=[("stores the values", "result.oQualities_values = v")])
C["OQualities::OQualities(shared_ptr<UpperTriangularMatrix<shared_ptr<Quality>>>)"] = dict(inline=True, params=["q"], ensures=[("stores the qualities", "result.oQualities_qualities = q")])
C["HQualities::HQualities(shared_ptr<vector<shared_ptr<Quality>>>, HValuesMetaData)"] = dict(inline=True, params=["q", "m"], ensures=[("stores the qualities", "result.hQualities_qualities = q"), ("stores the hierarchy", "result.hQualities_metaData = m")])
C["DQualities::DQualities(shared_ptr<vector<shared_ptr<UpperTriangularMatrix<shared_ptr<Quality>>>>>, HValuesMetaData)"] = dict(inline=True, params=["q", "m"], ensures=[("stores the qualities", "result.dQualities_qualities = q"), ("stores the hierarchy", "result.dQualities_metaData = m")])
# aggregates
for K in "OHD":
    k = K.lower(); ns = (1, 2, 3, 4) if K != "D" else (2, 3, 4)
    get("%sAggregate::getPart()" % K, k + "Aggregate_part")
    for n in ns:
        get("%sAggregateN%d::getSum()" % (K, n), "%sAggregateN%d_sum" % (k, n)); get("%sAggregateN%d::getMean()" % (K, n), "%sAggregateN%d_mean" % (k, n))
        get("%sAggregationN%d::getAggregates()" % (K, n), "%sAggregationN%d_aggregates" % (k, n))
for K, k in (("H", "h"), ("D", "d")):
    C["%sQualities::%sQualities(shared_ptr<%sValues>)" % (K, K, K)] = dict(inline=True, params=["v"], requires=[("values", "v > 0")],
        ensures=[("stores the values", "result.%sQualities_values = v" % k), ("hierarchy of the values", "result.%sQualities_metaData = (dynbase_%sValues h_%sValues[v]).%sValues_metaData" % (k, K, K, k))])
for k, h, f in (("O", "h_UTM_pQuality", "utm_size"), ("H", "h_vec_pQuality", "len"), ("D", "h_vec_pUTM_pQuality", "len")):
    q = "this.%sQualities_qualities" % k.lower()
    C["%sQualities::size()" % k] = dict(inline=True, requires=[("qualities present", "0 < %s < n_%s /\\ 0 <= %s[%s].%s <= 2147483647" % (q, h[2:], h, q, f))], ensures=[("number of elements or nodes", "result = %s[%s].%s" % (h, q, f))])
