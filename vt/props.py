"""Which functions and lemma libraries decide which property.  Callees under contract are added automatically."""
UTM = r"UpperTriangularMatrix<.*>::.*"
P = {
 "C15": dict(fns=[UTM], libs=["utminj"]),
 "C19": dict(fns=[r"Quality::.*", r"operator(\+|-|\*|/|==|!=)\(Quality&, Quality&\)"]),
 "C20": dict(fns=[r"Tradeoff::.*", r"operator(\+|-|\*|/|==|!=|<|>|<=|>=)\(Tradeoff&, Tradeoff&\)"]),
 "C01": dict(fns=[r"OPartitioner::computeBestPartition\(float\)", r"OPartition::OPartition\(.*", r"OPartition::get.*", r"Partition::get.*", r"OPartitioner::OPartitioner\(.*"]),
 "C02": dict(fns=[r"OPartitioner::computeBestPartition\(float\)", r"OPartition::.*", r"OPart::.*", r"operator(==|!=)\(OPart&, OPart&\)", r"Partition::.*"]),
 "C03": dict(fns=[r"HPartitioner::computeBestPartition\(float\)", r"HPartition::HPartition\(.*", r"HPartition::computeSubPart.*", r"HPartition::get.*", r"Partition::get.*", r"HPartitioner::HPartitioner\(.*"], libs=["hval"]),
 "C04": dict(fns=[r"HPartitioner::computeBestPartition\(float\)", r"HPartition::.*", r"HPart::.*", r"operator(==|!=)\(HPart&, HPart&\)", r"Partition::.*"], libs=["hval"]),
 "C14": dict(fns=[r"Partitioner::getP\(int\)", r"Partitioner::computeAUC\(\)"]),
 "C17": dict(fns=[r"OAggregateN\d::.*", r"OAggregationN\d::.*", r"OAggregate::.*", r"OPart::get.*"]),
 "C07": dict(fns=[r"OQualities::computeQualities\(\)", r"OQualities::OQualities\(.*", r"OQualities::(get|size).*", r"entropy.*", r"divergence.*"], libs=["compl"]),
 "C08": dict(fns=[r"HQualities::computeQualities\(\)", r"HQualities::HQualities\(.*", r"HQualities::(get|size).*", r"entropy.*", r"divergence.*"], libs=["compl", "hspec", "hval", "hinfo"]),
 "C09": dict(fns=[r"DQualities::computeQualities\(\)", r"DQualities::DQualities\(.*", r"DQualities::(get|size).*", r"entropy.*", r"divergence.*"], libs=["compl", "hspec", "hval", "hinfo"]),
 "C11": dict(fns=[r"HValuesMetaData::.*"], libs=["hspec"]),
 "C10": dict(fns=[r"[OHD]Qualities::normalize\(\)"]),
 "C05": dict(fns=[r"DPartitioner::computeBestPartition\(float\)", r"DPartition::DPartition\(.*", r"DPartition::computeSubPart.*", r"DPartition::get.*", r"Partition::get.*", r"DPartitioner::DPartitioner\(.*"]),
 "C06": dict(fns=[r"DPartitioner::computeBestPartition\(float\)", r"DPartition::.*", r"DPart::.*", r"operator(==|!=)\(DPart&, DPart&\)", r"Partition::.*"]),
 "C12": dict(fns=[r"[OHD]Partitioner::.*", r"Partitioner::.*", r"operator(==|!=)\([OHD]Partition&, [OHD]Partition&\)"]),
 "C13": dict(fns=[r"[OHD]Partitioner::(computeBestPartitions|addBestQualities)\(.*", r"operator(==|!=)\([OHD]Partition&, [OHD]Partition&\)"], only=r"^(loop )?variant decrease$|parameters are increasing floats|^parameter( kept)?$"),
 "C18": dict(fns=[r"[HD]AggregateN\d::.*", r"[HD]AggregationN\d::.*", r"[HD]Aggregate::.*", r"[HD]Part::get.*"], libs=["hspec", "hval", "hagg"]),
 "C21": dict(fns=[r"[OHD]Qualities::computeQualities\(\)", r"entropy.*", r"divergence.*"], libs=["compl", "hspec", "hval", "hinfo", "nonneg"]),
 "C22": dict(fns=[r"[OHD]Partitioner::.*", r"Partitioner::.*", r"[OHD]Partition::.*", r"Partition::.*", r"operator(==|!=)\([OHD]Part(ition)?&, [OHD]Part(ition)?&\)", r"[OHD]Aggregat.*", r"[OHD]Qualities::.*", r"[OHD]Values.*"], only=r"\bframe|fresh|\bown |apart|distinct|unchanged|private|only this|nothing else|(qualities|values|inputs) kept"),
 "C23": dict(fns=[r"[OHD]Partitioner::computeBestPartitions?\(.*", r"[OHD]Partition::[OHD]Partition\(.*", r"Partition::get.*", r"Partitioner::get(QualityList|PList)\(.*"], libs=["mono"]),
 "C16": dict(fns=[r"[OHD]ValuesN\d::.*", r"[OHD]Values::.*", r"[OHD]ValuesProxy::.*"], libs=["vals"]),
}
