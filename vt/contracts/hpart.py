"""HPartition, HPartitioner (C03, C04, C12, C13)."""
from . import ordered
C = {}
USE = ["qspec.QSpec", "hspec.HSpec", "hval.HSum", "hval.HVSpec"]
M, AG, Q, P = "this.hPartition_metaData", "this.hPartition_aggregated", "this.hPartition_qualities", "this.hPartition_parts"
QV = lambda q: "h_vec_pQuality[%s]" % q
LEAVES = lambda ag, m: "forall x. 0 <= x < %s.meta_leaveSize -> %s.elt[x]" % (m, ag)
def hok(m, q): return [("hierarchy", "hier %s" % m), ("one quality per node", "%s > 0 /\\ qvec %s %s.meta_hsize n_Quality" % (q, QV(q), m))]
C["HPartition::computeSubPart(int)"] = dict(params=["h"], use=USE + ["hspec.HTree", "hval.HSub"],
    requires=[("heap", "n_Quality > 0")] + hok(M, Q) + [("one flag per node", "%s.len = %s.meta_hsize" % (AG, M)), ("leaves are kept whole", LEAVES(AG, M)), ("a node", "0 <= h < %s.meta_hsize" % M), ("parts", "0 <= %s.len" % P)],
    this_mod=["hPartition_parts"], variant="ppos %s.meta_path.elt %s.meta_hsize h" % (M, M),
    ensures=[("list of parts", "0 <= %s.len" % P), ("the parts of the subtree are appended", "sub_done h_Quality %s %s %s.elt (old this).hPartition_parts %s h" % (QV(Q), M, AG, P))],
    entry="    assert { kid %(m)s.meta_hsize %(m)s.meta_root %(m)s.meta_parents.elt %(m)s.meta_children.elt[h] h };" % dict(m=M),
    loops={1: dict(pre="        sub_init h_Quality (pure { %s }) (pure { %s }) (pure { %s.elt }) (pure { %s }) h;" % (QV(Q), M, AG, P),
                   inv=[("only the parts change", "this = { (this at Pre) with hPartition_parts = %s }" % P), ("child", "0 <= $i <= %s.meta_children.elt[h].len" % M), ("parts", "0 <= %s.len" % P),
                        ("parts of the children so far", "sub_part h_Quality %s %s %s.elt (this at Pre).hPartition_parts %s h $i" % (QV(Q), M, AG, P))],
                   var="%s.meta_children.elt[h].len - $i" % M, begin="label B1 in assert { [@expl:a child lies before its parent] let c = %s.meta_children.elt[h].elt[$i] in 0 <= c < %s.meta_hsize /\\ ppos %s.meta_path.elt %s.meta_hsize c < ppos %s.meta_path.elt %s.meta_hsize h };" % (M, M, M, M, M, M),
                   end="        sub_step h_Quality (pure { %s }) (pure { %s }) (pure { %s.elt }) (pure { (this at Pre).hPartition_parts }) (pure { (this at B1).hPartition_parts }) (pure { %s }) h ($i - 1);" % (QV(Q), M, AG, P),
                   post="        sub_final h_Quality (pure { %s }) (pure { %s }) (pure { %s.elt }) (pure { (this at Pre).hPartition_parts }) (pure { %s }) h;" % (QV(Q), M, AG, P))},
    exit="    if pure { %s.elt[h] } then sub_whole h_Quality (pure { %s }) (pure { %s }) (pure { %s.elt }) (pure { (this at Pre).hPartition_parts }) (pure { %s }) h;" % (AG, QV(Q), M, AG, P))
PQ = "%s.hPartition_base.partition_quality"
RP = "result.hPartition_parts"
C["HPartition::HPartition(vector<bool>, shared_ptr<vector<shared_ptr<Quality>>>, float, HValuesMetaData)"] = dict(params=["agg", "q", "p", "m"], use=USE + ["hval.HSub", "hval.HCount"],
    requires=[("heap", "n_Quality > 0")] + hok("m", "q") + [("one flag per node", "agg.len = m.meta_hsize"), ("leaves are kept whole", LEAVES("agg", "m"))],
    ensures=[("every leaf is in exactly one part", "hparts m %s %s" % (QV("q"), RP)), ("no more parts than leaves", "0 < %s.len <= m.meta_leaveSize" % RP),
             ("parameter kept", "result.hPartition_base.partition_parameter = p"), ("qualities kept", "result.hPartition_qualities = q"), ("hierarchy kept", "result.hPartition_metaData = m"), ("flags kept", "result.hPartition_aggregated = agg"),
             ("own quality", "old n_Quality <= %s < n_Quality /\\ %s > 0" % (PQ % "result", PQ % "result")),
             ("quality gain is the sum over the parts", "h_Quality[%s].quality_gain = hgain h_Quality %s.elt %s.len" % (PQ % "result", RP, RP)),
             ("quality loss is the sum over the parts", "h_Quality[%s].quality_loss = hloss h_Quality %s.elt %s.len" % (PQ % "result", RP, RP)),
             ("value is that of the flags", "forall p v. consistent h_Quality p %s m agg.elt v -> pic p h_Quality[%s] = v[m.meta_root]" % (QV("q"), PQ % "result"))],
    loops={1: dict(pre="        sub_all h0 (pure { %s }) m (pure { agg.elt }) (pure { %s });" % (QV("q"), P), inv=[("index", "0 <= $ix <= %s.len /\\ $rng = %s" % (P, P)), ("fields", "%s = m /\\ %s = q /\\ %s = agg /\\ this.hPartition_base.partition_parameter = p" % (M, Q, AG)),
                        ("parts", "hparts m %s %s" % (QV("q"), P)), ("worth", "forall p v. consistent (h_Quality at Pre) p %s m agg.elt v -> psum (h_Quality at Pre) p %s.elt %s.len = v[m.meta_root]" % (QV("q"), P, P)),
                        ("own quality", "n_Quality at Pre <= %s < n_Quality /\\ %s > 0" % (PQ % "this", PQ % "this")),
                        ("gain so far", "h_Quality[%s].quality_gain = hgain (h_Quality at Pre) %s.elt $ix" % (PQ % "this", P)),
                        ("loss so far", "h_Quality[%s].quality_loss = hloss (h_Quality at Pre) %s.elt $ix" % (PQ % "this", P))], var="%s.len - $ix" % P,
                   begin="        assert { hpart_ok m %s %s.elt[$ix] };" % (QV("q"), P))},
    entry="    let ghost h0 = pure { h_Quality } in",
    exit="""    let ghost ps = pure { r__.hPartition_parts } in parts_bound m (pure { %(q)s }) ps;
    assert { forall k. 0 <= k < ps.len -> hpart_ok m %(q)s ps.elt[k] && 0 < ps.elt[k].hPart_quality < n_Quality at Pre };
    hsums_frame h_Quality (pure { h_Quality at Pre }) ps.elt ps.elt ps.len; consistent_frames (pure { h_Quality at Pre }) h_Quality (pure { n_Quality at Pre }) (pure { %(q)s }) m agg.elt;
    let ghost hq0 = pure { h_Quality at Pre } in let ghost hqe = pure { h_Quality } in let lemma val_of (pp: real) : unit ensures { pic pp hqe[r__.hPartition_base.partition_quality] = psum hq0 pp ps.elt ps.len } = psum_pic hq0 pp ps.elt ps.len in""" % dict(q=QV("q")))

# ------------------------------------------------------------------ HPartitioner::computeBestPartition
M, Q = "this.hPartitioner_metaData", "this.hPartitioner_qualities"
N, L, PATH, PAR = M + ".meta_hsize", M + ".meta_leaveSize", M + ".meta_path", M + ".meta_parents"
R = "h_HPartition[result]"; RP = R + ".hPartition_parts"; RQ = PQ % R
HEAP = ("heap", "n_Quality > 0 /\\ n_Tradeoff > 0 /\\ n_HPartition > 0")
TR, TC, AG = "$tradeoff", "$tradeoffChildren", "$aggregated"
FR = lambda v, b: "forall k. 0 <= k < %s -> n_Tradeoff at Pre <= %s.elt[k] < n_Tradeoff /\\ n_Quality at Pre <= h_Tradeoff[%s.elt[k]].tradeoff_quality < n_Quality" % (b, v, v)
def table(b): return [("node count", "$hsize = %s" % N), ("one tradeoff per node", "%s.len = %s /\\ %s.len = %s /\\ %s.len = %s" % (TR, b, TC, b, AG, b)),
    ("tradeoffs are fresh", FR(TR, b)), ("children tradeoffs are fresh", FR(TC, b)),
    ("tradeoffs are distinct", "forall k l. 0 <= k < l < %s -> %s.elt[k] <> %s.elt[l]" % (b, TR, TR)), ("children tradeoffs are distinct", "forall k l. 0 <= k < l < %s -> %s.elt[k] <> %s.elt[l]" % (b, TC, TC)),
    ("tradeoffs and children tradeoffs are distinct", "forall k l. 0 <= k < %s -> 0 <= l < %s -> %s.elt[k] <> %s.elt[l]" % (b, b, TR, TC)),
    ("qualities unchanged", "%s > 0 /\\ qvec %s %s n_Quality" % (Q, QV(Q), N)), ("leaves are kept whole", "forall x. 0 <= x < %s -> x < %s -> %s.elt[x]" % (b, L, AG))]
READY = lambda i: "hready (h_Quality at Pre) p %s %s %s.elt h_Tradeoff %s.elt %s.elt %s" % (QV(Q), M, AG, TR, TC, i)
HV = "hv (h_Quality at Pre) p %s" % QV(Q)
NODE = lambda i, h: ("current node", "0 <= %s < %s /\\ %s = %s.elt[%s]" % (i, N, h, PATH, i))
def begin(lab): return """        label %(lab)s in
        let ghost hc = pure { %(path)s.elt[$i] } in assert { [@expl:current node and its parent] ppos %(path)s.elt %(n)s hc = $i /\\ 0 <= hc < %(n)s /\\ %(l)s <= %(par)s.elt[hc] < %(n)s /\\ (%(l)s <= $i -> %(l)s <= hc) };
        assert { [@expl:quality of the current node] pic p h_Quality[%(q)s.elt[hc]] = %(hv)s hc };""" % dict(lab=lab, path=PATH, n=N, l=L, par=PAR, q=QV(Q), hv=HV)
def end(lab): return """        assert { [@expl:the other nodes keep their tradeoff] forall x. 0 <= x < %(n)s -> x <> hc -> h_Tradeoff[%(tr)s.elt[x]].tradeoff_value = (h_Tradeoff at %(lab)s)[%(tr)s.elt[x]].tradeoff_value };
        assert { [@expl:the other parents keep their tradeoff] forall x. 0 <= x < %(n)s -> x <> %(par)s.elt[hc] -> h_Tradeoff[%(tc)s.elt[x]].tradeoff_value = (h_Tradeoff at %(lab)s)[%(tc)s.elt[x]].tradeoff_value };
        ready_step (pure { h_Quality at Pre }) p (pure { %(q)s }) (pure { %(m)s }) (pure { (%(ag)s at %(lab)s).elt }) (pure { %(ag)s.elt }) (pure { h_Tradeoff at %(lab)s }) h_Tradeoff (pure { %(tr)s.elt }) (pure { %(tc)s.elt }) (pure { $i at %(lab)s }) hc;""" % dict(lab=lab, n=N, par=PAR, tr=TR, tc=TC, ag=AG, q=QV(Q), m=M)
HOK = ("hierarchy with one quality per node", "hier %s /\\ %s > 0 /\\ qvec %s %s n_Quality" % (M, Q, QV(Q), N))
C["HPartitioner::computeBestPartition(float)"] = dict(params=["p"], use=USE + ["hval.HOpt", "hval.HSub", "hval.HTab", "hval.HSame"],
    requires=[HEAP, HOK], open=["hbest"],
    ensures=[("fresh partition", "old n_HPartition <= result < n_HPartition /\\ result > 0"), ("fresh quality", "old n_Quality <= %s" % RQ),
             ("best partition", "hbest h_Quality n_Quality %s %s %s %s p" % (M, QV(Q), Q, R))],
    ensures_local=[("every leaf is in exactly one part", "hparts %s %s %s" % (M, QV(Q), RP)), ("parameter", "%s.hPartition_base.partition_parameter = p" % R), ("qualities and hierarchy", "%s.hPartition_qualities = %s /\\ %s.hPartition_metaData = %s" % (R, Q, R, M)),
             ("own quality", "0 < %s < n_Quality" % RQ),
             ("quality gain is the sum over the parts", "h_Quality[%s].quality_gain = hgain h_Quality %s.elt %s.len" % (RQ, RP, RP)), ("quality loss is the sum over the parts", "h_Quality[%s].quality_loss = hloss h_Quality %s.elt %s.len" % (RQ, RP, RP)),
             ("no hierarchical partition has a better tradeoff", "forall s. nodepart %s %s %s.elt s -> svalue (old h_Quality) p %s s %s <=. pic p h_Quality[%s]" % (L, N, PAR, QV(Q), N, RQ))],
    entry="    let ghost ref g_t = pure { h_Tradeoff } in let ghost ref g_a = (any map int bool) in",
    loops={1: dict(inv=[("count", "0 <= $h <= %s" % N)] + table("$h") + [("flags are set", "forall k. 0 <= k < $h -> %s.elt[k] /\\ h_Tradeoff[%s.elt[k]].tradeoff_value = 0.0" % (AG, TC))], var="%s - $h" % N,
                   post="        ready_init (pure { h_Quality at Pre }) p (pure { %s }) (pure { %s }) (pure { %s.elt }) h_Tradeoff (pure { %s.elt }) (pure { %s.elt });" % (QV(Q), M, AG, TR, TC)),
           2: dict(inv=[NODE("$i", "$h#2"), ("leaves first", "$i <= %s" % L)] + table(N) + [("table filled along the path", READY("$i"))], var="%s - $i" % L, begin=begin("B2"), end=end("B2")),
           3: dict(inv=[NODE("$i", "$h#2"), ("inner nodes", "%s <= $i" % L)] + table(N) + [("table filled along the path", READY("$i"))], var="%s - $i" % N, begin=begin("B3"), end=end("B3"),
                   post="        g_t <- pure { h_Tradeoff }; g_a <- pure { %s.elt };" % AG)},
    exit="""    let ghost hq0 = pure { h_Quality at Pre } in let ghost qq = pure { %(q)s } in let ghost m = pure { %(m)s } in
    ready_step hq0 p qq m g_a (pure { %(ag)s.elt }) g_t h_Tradeoff (pure { %(tr)s.elt }) (pure { %(tc)s.elt }) (m.meta_hsize - 1) (m.meta_root);
    ready_done hq0 p qq m (pure { %(ag)s.elt }) h_Tradeoff (pure { %(tr)s.elt }) (pure { %(tc)s.elt });
    consistent_frames hq0 h_Quality (pure { n_Quality at Pre }) qq m (pure { %(ag)s.elt });
    svalue_frames hq0 h_Quality (pure { n_Quality at Pre }) p qq (m.meta_hsize);
    assert { [@expl:the partition has the value of the table] pic p h_Quality[h_HPartition[r__].hPartition_base.partition_quality] = h_Tradeoff[%(tr)s.elt[m.meta_root]].tradeoff_value };""" % dict(q=QV(Q), m=M, ag=AG, tr=TR, tc=TC))

# ------------------------------------------------------------------ comparison and sweep
C["operator==(HPartition&, HPartition&)"] = dict(params=["a", "b"], use=USE + ["hval.HSame"], open=["same_hparts"],
    ensures=[("equality is that of the parts", "result <-> same_hparts a.hPartition_parts b.hPartition_parts")],
    requires=[("fewer than 2^31 parts", "0 <= a.hPartition_parts.len <= 2147483647")],
    loops={1: dict(inv=[("equal so far", "0 <= $i <= a.hPartition_parts.len /\\ a.hPartition_parts.len = b.hPartition_parts.len /\\ forall k. 0 <= k < $i -> same_hpart a.hPartition_parts.elt[k] b.hPartition_parts.elt[k]")],
                   var="a.hPartition_parts.len - $i")})
C["operator!=(HPartition&, HPartition&)"] = dict(params=["a", "b"], use=USE + ["hval.HSame"], requires=C["operator==(HPartition&, HPartition&)"]["requires"], ensures=[("inequality is that of the parts", "result <-> not same_hparts a.hPartition_parts b.hPartition_parts")])
best = lambda pt, p: "hbest h_Quality n_Quality %s %s %s %s %s" % (M, QV(Q), Q, pt, p)
ordered.USES["H"] = ["qspec.QSpec", "hspec.HSpec", "hval.HVSpec", "hval.HSame", "hval.HKeep", "hval.HFacts", "seqs.Seqs"]
ordered.MONO["H"] = "(pure { %s }) (pure { %s }) (pure { %s })" % (M, QV(Q), Q)
ordered.TOFFMOD["H"] = "hval.HTuples"
ordered.sweep("H", "same_hparts", best, Q, None, HOK, None, C)
