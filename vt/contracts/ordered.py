"""OPartition, OPartitioner (C01, C02, C12, C13)."""
C = {}
USE = ["utm.UTM", "qspec.QSpec", "ospec.OSpec", "utmidx.UTMIdx"]
def M(q): return "h_UTM_pQuality[%s]" % q
HEAP = ("heap", "n_Quality > 0 /\\ n_Tradeoff > 0 /\\ n_OPartition > 0")
QOK = lambda q: ("matrix of qualities", "%s > 0 /\\ qmat %s n_Quality /\\ %s.utm_size > 0" % (q, M(q), M(q)))
A = lambda x: "(%s at Pre)" % x
# constructor
m = M("q"); n = m + ".utm_size"
TH = "this.oPartition_parts"
QP = "%s.oPartition_base.partition_quality"
C["OPartition::OPartition(vector<int>, shared_ptr<UpperTriangularMatrix<shared_ptr<Quality>>>, float)"] = dict(params=["cuts", "q", "p"], use=USE + ["ospec.OLemmas"],
    requires=[("heap", "n_Quality > 0"), QOK("q"), ("one end per start", "cuts.len = %s /\\ ends %s cuts.elt" % (n, n))],
    ensures=[("parts are the chain of the cuts", "oparts %s %s cuts.elt result.oPartition_parts" % (m, n)),
             ("parameter kept", "result.oPartition_base.partition_parameter = p"), ("qualities kept", "result.oPartition_qualities = q"), ("cuts kept", "result.oPartition_cuts = cuts"),
             ("own quality", "old n_Quality <= %s < n_Quality /\\ %s > 0" % (QP % "result", QP % "result")),
             ("quality gain is the sum over the parts", "h_Quality[%s].quality_gain = pgain h_Quality result.oPartition_parts result.oPartition_parts.len" % (QP % "result")),
             ("quality loss is the sum over the parts", "h_Quality[%s].quality_loss = ploss h_Quality result.oPartition_parts result.oPartition_parts.len" % (QP % "result"))],
    loops={1: dict(inv=[("position", "0 <= $i <= %s /\\ $i = next_start %s %s.len /\\ 0 <= %s.len <= $i" % (n, TH, TH, TH)),
                        ("fields", "this.oPartition_cuts = cuts /\\ this.oPartition_qualities = q /\\ this.oPartition_base.partition_parameter = p"),
                        ("chain", "ochain %s %s cuts.elt %s %s.len" % (m, n, TH, TH)), ("starts at 0", "%s.len > 0 -> %s.elt[0].oPart_start = 0" % (TH, TH))], var=n + " - $i"),
           2: dict(inv=[("index", "0 <= $ix <= %s.len /\\ $rng = %s" % (TH, TH)), ("fields", "this.oPartition_cuts = cuts /\\ this.oPartition_qualities = q /\\ this.oPartition_base.partition_parameter = p"),
                        ("chain", "oparts %s %s cuts.elt %s" % (m, n, TH)),
                        ("own quality", "n_Quality at Pre <= %s < n_Quality /\\ %s > 0" % (QP % "this", QP % "this")),
                        ("gain so far", "h_Quality[%s].quality_gain = pgain (h_Quality at Pre) %s $ix" % (QP % "this", TH)),
                        ("loss so far", "h_Quality[%s].quality_loss = ploss (h_Quality at Pre) %s $ix" % (QP % "this", TH))], var="%s.len - $ix" % TH)},
    exit="    let ghost ps = pure { r__.oPartition_parts } in sums_frame h_Quality (pure { h_Quality at Pre }) ps (ps.len);")

# ------------------------------------------------------------------ OPartitioner::computeBestPartition
q = "this.oPartitioner_qualities"; m = M(q); n = m + ".utm_size"
TR = "$tradeoff"; TT = "$tradeoff_t"
R = "h_OPartition[result]"
OQOK = ("matrix of qualities", "%s > 0 /\\ qmat %s n_Quality /\\ 0 < %s <= 65535" % (q, m, n))
def optimal(part, hq, m, n, p): return "forall e. ends %s e -> oval %s %s %s %s e 0 <=. pic %s h_Quality[%s]" % (n, hq, m, p, n, p, QP % part)
TABLE = [("size", "$size = %s" % n), ("cut length", "$cut.len = %s" % n), ("one tradeoff per start", "%s.len = %s" % (TR, n)),
         ("tradeoffs are fresh", "forall k. 0 <= k < %s -> n_Tradeoff at Pre <= %s.elt[k] < n_Tradeoff /\\ n_Quality at Pre <= h_Tradeoff[%s.elt[k]].tradeoff_quality < n_Quality" % (n, TR, TR)),
         ("tradeoffs are distinct", "forall k l. 0 <= k < l < %s -> %s.elt[k] <> %s.elt[l]" % (n, TR, TR)),
         ("candidate is fresh", "n_Tradeoff at Pre <= %s < n_Tradeoff /\\ n_Quality at Pre <= h_Tradeoff[%s].tradeoff_quality < n_Quality" % (TT, TT)),
         ("candidate is apart", "forall k. 0 <= k < %s -> %s.elt[k] <> %s" % (n, TR, TT)),
         ("qualities unchanged", QOK(q)[1])]
HQ0 = "(h_Quality at Pre)"
def tab(lo, hi): return [("table dominates", "forall k. %s < k < %s -> dominates %s %s p %s h_Tradeoff %s.elt k" % (lo, n, HQ0, m, n, TR)),
                     ("table attained", "forall k. %s < k < %s -> attained %s %s p %s h_Tradeoff %s.elt $cut.elt k" % (lo, n, HQ0, m, n, TR)),
                     ("cuts in range", "forall k. 0 <= k < %s -> k <= $cut.elt[k] < %s" % (n, n)),
                     ("cuts not yet chosen", "forall k. 0 <= k %s -> $cut.elt[k] = %s - 1" % (hi, n))]
KEEP = "        keep_table (pure { h_Quality at Pre }) (pure { %(m)s }) p (pure { %(m)s.utm_size }) (pure { h_Tradeoff at %(L)s }) h_Tradeoff $tradeoff.elt (pure { ($cut at %(L)s).elt }) $cut.elt $i#2;\n"
V = lambda k: "h_Tradeoff[%s.elt[%s]].tradeoff_value" % (TR, k)
C["OPartitioner::computeBestPartition(float)"] = dict(params=["p"], use=USE + ["ospec.OLemmas", "ospec.OSame"],
    requires=[HEAP, OQOK], open=["obest"],
    ensures=[("fresh partition", "old n_OPartition <= result < n_OPartition /\\ result > 0"), ("fresh quality", "old n_Quality <= %s" % (QP % R)),
             ("best partition", "obest h_Quality n_Quality %s %s %s p" % (m, q, R))],
    ensures_local=[
             ("well formed partition", "ends %s %s.oPartition_cuts.elt /\\ oparts %s %s %s.oPartition_cuts.elt %s.oPartition_parts" % (n, R, m, n, R, R)),
             ("parameter", "%s.oPartition_base.partition_parameter = p" % R), ("qualities", "%s.oPartition_qualities = %s" % (R, q)),
             ("own quality", "0 < %s < n_Quality" % (QP % R)),
             ("quality gain is the sum over the parts", "h_Quality[%s].quality_gain = pgain h_Quality %s.oPartition_parts %s.oPartition_parts.len" % (QP % R, R, R)),
             ("quality loss is the sum over the parts", "h_Quality[%s].quality_loss = ploss h_Quality %s.oPartition_parts %s.oPartition_parts.len" % (QP % R, R, R)),
             ("no ordered partition has a better tradeoff", optimal(R, "(old h_Quality)", m, n, "p"))],
    loops={1: dict(inv=[("count", "0 <= $i <= %s /\\ %s.len = $i" % (n, TR)), TABLE[0], TABLE[1], TABLE[7], ("cuts", "forall k. 0 <= k < %s -> $cut.elt[k] = %s - 1" % (n, n)),
                        ("tradeoffs are fresh", "forall k. 0 <= k < $i -> n_Tradeoff at Pre <= %s.elt[k] < n_Tradeoff /\\ n_Quality at Pre <= h_Tradeoff[%s.elt[k]].tradeoff_quality < n_Quality" % (TR, TR)),
                        ("tradeoffs are distinct", "forall k l. 0 <= k < l < $i -> %s.elt[k] <> %s.elt[l]" % (TR, TR))]),
           2: dict(inv=[("start", "-1 <= $i#2 < %s" % n)] + TABLE + tab("$i#2", "<= $i#2"), var="$i#2", begin="label L2 in"),
           3: dict(inv=[("starts", "0 <= $i#2 < %s /\\ $i#2 <= $cut_t <= %s - 1" % (n, n))] + TABLE + tab("$i#2", "< $i#2") + 
                       [("current start dominates the whole", "%s >=. qval %s %s p $i#2 (%s - 1)" % (V("$i#2"), HQ0, m, n)),
                        ("current start dominates the ends tried", "forall c. $i#2 <= c < $cut_t -> %s >=. qval %s %s p $i#2 c +. %s" % (V("$i#2"), HQ0, m, V("c + 1"))),
                        ("current start attained", "if $cut.elt[$i#2] = %s - 1 then %s = qval %s %s p $i#2 $cut.elt[$i#2] else %s = qval %s %s p $i#2 $cut.elt[$i#2] +. %s" % (n, V("$i#2"), HQ0, m, V("$i#2"), HQ0, m, V("$cut.elt[$i#2] + 1")))],
               var="%s - $cut_t" % n, begin="label L3 in", pre=KEEP % dict(L="L2", m=m),
     end="""        assert { [@expl:other starts keep their tradeoff] forall k. $i#2 < k < %(n)s -> %(vk)s = ((h_Tradeoff at L3)[$tradeoff.elt[k]]).tradeoff_value };
        assert { [@expl:the tradeoff of the start does not decrease] %(vi)s >=. ((h_Tradeoff at L3)[$tradeoff.elt[$i#2]]).tradeoff_value };
        assert { [@expl:the end just tried is dominated] forall c. c = $cut_t - 1 -> %(vi)s >=. qval (h_Quality at Pre) %(m)s p $i#2 c +. %(vc)s };
""" % dict(n=n, m=m, vk=V("k"), vi=V("$i#2"), vc=V("c + 1")) + KEEP % dict(L="L3", m=m),
     post="        table_intro (pure { h_Quality at Pre }) (pure { %(m)s }) p (pure { %(m)s.utm_size }) h_Tradeoff $tradeoff.elt $cut.elt $i#2;" % dict(m=m))},
    exit="""    let ghost hq = pure { h_Quality at Pre } in let ghost mm = pure { %(m)s } in let ghost n = pure { mm.utm_size } in
    let ghost ps = pure { h_OPartition[r__].oPartition_parts } in
    table_bounds hq mm p n h_Tradeoff $tradeoff.elt; table_value hq mm p n h_Tradeoff $tradeoff.elt $cut.elt 0;
    parts_value hq mm p n $cut.elt ps ps.len;
    assert { oval hq mm p n $cut.elt n = 0.0 };
    assert { forall k. 0 <= k < ps.len -> 0 < ps.elt[k].oPart_quality < (n_Quality at Pre) };
    assert { ends n $cut.elt /\\ oparts mm n $cut.elt ps };
    sums_frame h_Quality hq ps ps.len;
    assert { qmat mm n_Quality };
    assert { [@expl:optimal] forall e. ends n e -> oval hq mm p n e 0 <=. pic p h_Quality[h_OPartition[r__].oPartition_base.partition_quality] };
    oval_frames hq h_Quality (pure { n_Quality at Pre }) mm p;
""" % dict(m=m))

# ------------------------------------------------------------------ comparison and sweep
C["operator==(OPartition&, OPartition&)"] = dict(params=["a", "b"], use=USE + ["ospec.OSame"], open=["same_parts"],
    ensures=[("equality is that of the parts", "result <-> same_parts a.oPartition_parts b.oPartition_parts")],
    requires=[("fewer than 2^31 parts", "0 <= a.oPartition_parts.len <= 65535")],
    loops={1: dict(inv=[("equal so far", "0 <= $i <= a.oPartition_parts.len /\\ a.oPartition_parts.len = b.oPartition_parts.len /\\ forall k. 0 <= k < $i -> same_part a.oPartition_parts.elt[k] b.oPartition_parts.elt[k]")],
                   var="a.oPartition_parts.len - $i")})
C["operator!=(OPartition&, OPartition&)"] = dict(params=["a", "b"], use=USE + ["ospec.OSame"], requires=C["operator==(OPartition&, OPartition&)"]["requires"], ensures=[("inequality is that of the parts", "result <-> not same_parts a.oPartition_parts b.oPartition_parts")])
HEAPX = {}; HINTS = {}; MONO = {"O": "(pure { %s }) (pure { %s })" % (M(q), q)}
# parameter list and partition map of a sweep
def sweep(K, same, best, q, env, qok, tuples, C):
    L = "%s.%sartitioner_base.partitioner_pList"; B = K.lower() + "P"
    L = "%s." + B + "artitioner_base.partitioner_pList"; D = "%s." + B + "artitioner_partitions"
    HP = "h_%sPartition" % K
    par = lambda p: "%s[%s].%sartition_base.partition_parameter" % (HP, p, B)
    l, d = L % "this", D % "this"; l0, d0 = L % "(old this)", D % "(old this)"
    allbest = lambda d: "forall x. %s.dom[x] -> 0 < %s.img[x] < n_%sPartition /\\ %s" % (d, d, K, best("%s[%s.img[x]]" % (HP, d), "x"))
    req = [("heap", "n_Quality > 0 /\\ n_Tradeoff > 0 /\\ n_%sPartition > 0" % K + HEAPX.get(K, "")), qok]
    C["%sPartitioner::addBestQualities(float, shared_ptr<%sPartition>, shared_ptr<%sPartition>)" % (K, K, K)] = dict(params=["threshold", "pmin", "pmax"], flt=True, use=USES[K],
        requires=req + [("partitions", "0 < pmin < n_%sPartition /\\ 0 < pmax < n_%sPartition" % (K, K)),
                        ("bounds are best partitions", best("%s[pmin]" % HP, par("pmin")) + " /\\ " + best("%s[pmax]" % HP, par("pmax"))),
                        ("parameters are increasing floats", "is_flt %s /\\ is_flt %s /\\ %s <. %s" % (par("pmin"), par("pmax"), par("pmin"), par("pmax"))),
                        ("list ends with the lower parameter", "0 < %s.len /\\ %s.elt[%s.len - 1] = %s" % (l, l, l, par("pmin"))),
                        ("list is increasing", "increasing %s" % l),
                        ("listed parameters have partitions", "forall k. 0 <= k < %s.len -> %s.dom[%s.elt[k]]" % (l, d, l)),
                        ("partitions so far are below", "forall x. %s.dom[x] -> x <=. %s" % (d, par("pmin"))),
                        ("partitions so far are best", allbest(d))],
        this_mod=["partitioner_pList", B + "artitioner_partitions"],
        variant="fcount (%s) (%s)" % (par("pmin"), par("pmax")),
        ensures=[("list grows at its end", "%s.len >= %s.len /\\ forall k. 0 <= k < %s.len -> %s.elt[k] = %s.elt[k]" % (l, l0, l0, l, l0)),
                 ("new parameters lie strictly between the bounds", "forall k. %s.len <= k < %s.len -> (old %s) <. %s.elt[k] <. (old %s)" % (l0, l, par("pmin"), l, par("pmax"))),
                 ("list is increasing", "increasing %s" % l),
                 ("listed parameters have partitions", "forall k. 0 <= k < %s.len -> %s.dom[%s.elt[k]]" % (l, d, l)),
                 ("earlier partitions are kept", "forall x. %s.dom[x] -> %s.dom[x] /\\ %s.img[x] = %s.img[x]" % (d0, d, d, d0)),
                 ("partitions are those of the listed parameters", "forall x. %s.dom[x] -> %s.dom[x] \\/ exists k. %s.len <= k < %s.len /\\ %s.elt[k] = x" % (d, d0, l0, l, l)),
                 ("partitions are best", allbest(d))])
    QL = "this.%sartitioner_base.partitioner_qualityList" % B
    T = "this.%sartitioner_partitionsTuples" % B
    pimg = lambda x: "%s[%s.img[%s]]" % (HP, d, x)
    parts = lambda x: "%s.%sartition_parts" % (pimg(x), B)
    SP = "%s %%s.%sartition_parts %%s.%sartition_parts" % (same, B, B)
    lastsame = lambda: "exists z. 0 < z < n_%sPartition /\\ %s /\\ %s" % (K, best("%s[z]" % HP, "max"), SP % (pimg("%s.elt[%s.len - 1]" % (l, l)), "%s[z]" % HP))
    REGS = [("list is not empty and starts with min", "0 < %s.len /\\ %s.elt[0] = min" % (l, l)), ("list is increasing", "increasing %s" % l),
            ("list stays within the range", "forall k. 0 <= k < %s.len -> min <=. %s.elt[k] <=. max" % (l, l)),
            ("partitions are exactly those listed", "lists %s %s.dom" % (l, d)),
            ("partitions are best for their parameter", allbest(d)),
            ("last partition is the best one at max", lastsame())]
    TOFF = lambda keys, k: "toff_%s %s %s.img %s.elt %s" % (K, HP, d, keys, k)
    FIX = [("position", "0 <= $ix#1 <= $keys.len /\\ $keys.len = %s.len" % l), ("keys are the listed parameters", "forall i. 0 <= i < %s.len -> $keys.elt[i] = %s.elt[i]" % (l, l)),
           ("list unchanged", "%s = (%s at L2)" % (l, l)), ("partitions unchanged", "%s = (%s at L2)" % (d, d)), ("offsets fit", "forall k. 0 <= k < $ix#1 -> 0 <= %s /\\ %s + %s.len <= %s" % (TOFF("$keys", "k"), TOFF("$keys", "k"), parts("$keys.elt[k]"), TOFF("$keys", "$ix#1"))), ("offset", "0 <= %s" % TOFF("$keys", "$ix#1"))]
    QDONE = lambda x: "(forall k. 0 <= k < %s -> %s.dom[$keys.elt[k]] /\\ %s.img[$keys.elt[k]] = %s.%sartition_base.partition_quality) /\\ (forall y. %s.dom[y] -> exists k. 0 <= k < %s /\\ $keys.elt[k] = y)" % (x, QL, QL, pimg("$keys.elt[k]"), B, QL, x)
    TUP = lambda key, pp, o, x: "tupled_%s h_Quality %s %s %s.elt (%s) (%s)" % (K, pp, key, T, o, x)
    TDONE = lambda x: "forall k. 0 <= k < %s -> %s + %s.len <= %s.len /\\ %s" % (x, TOFF("$keys", "k"), parts("$keys.elt[k]"), T, TUP("$keys.elt[k]", parts("$keys.elt[k]"), TOFF("$keys", "k"), parts("$keys.elt[k]") + ".len"))
    QUAL = lambda x: "%s.%sartition_base.partition_quality" % (pimg(x), B)
    HINT = HINTS.get(K, (lambda x: "", lambda x: ""))
    C["%sPartitioner::computeBestPartitions(float, float, float)" % K] = dict(params=["threshold", "min", "max"], flt=True, use=USES[K] + [TOFFMOD[K], "mono.Mono" + K],
        requires=req + [("min is at most max", "min <=. max")],
        this_mod=["partitioner_pList", B + "artitioner_partitions", B + "artitioner_partitionsTuples", "partitioner_qualityList"],
        ensures=REGS + [("consecutive parameters have different partitions", "forall k. 0 <= k < %s.len - 1 -> not (%s)" % (l, SP % (pimg("%s.elt[k]" % l), pimg("%s.elt[k + 1]" % l)))),
                 ("quality map has exactly the listed parameters", "lists %s %s.dom" % (l, QL)),
                 ("quality map gives the quality of each partition", "forall k. 0 <= k < %s.len -> %s.img[%s.elt[k]] = %s.%sartition_base.partition_quality" % (l, QL, l, pimg("%s.elt[k]" % l), B)),
                 ("tuple list has one entry per part", "%s.len = %s" % (T, TOFF(l, l + ".len"))),
                 ("tuples describe the parts in order", "forall k. 0 <= k < %s.len -> %s" % (l, TUP("%s.elt[k]" % l, parts("%s.elt[k]" % l), TOFF(l, "k"), parts("%s.elt[k]" % l) + ".len")))],
        ensures_local=[("gain and loss grow along the list of parameters within [0,1]", "0.0 <=. min -> max <=. 1.0 -> forall i j. 0 <= i < j < %s.len -> h_Quality[%s].quality_gain <=. h_Quality[%s].quality_gain /\\ h_Quality[%s].quality_loss <=. h_Quality[%s].quality_loss" % ((l,) + 2 * (QUAL(l + ".elt[i]"), QUAL(l + ".elt[j]"))))],
        exit="    if pure { 0.0 <=. min /\\ max <=. 1.0 } then sweep_grows_%s h_Quality n_Quality %s %s (pure { %s }) (pure { %s.img });" % (K.lower(), MONO[K], HP, l, d),
        loops={1: dict(inv=[("position", "0 <= $it < %s.len" % l)] + REGS +
                       [("later partitions differ from their predecessors", "forall k. $it <= k < %s.len - 1 -> not (%s)" % (l, SP % (pimg("%s.elt[k]" % l), pimg("%s.elt[k + 1]" % l)))),
                        ("tuples empty", "%s.len = 0 /\\ forall x. not %s.dom[x]" % (T, QL))], var="$it", begin=HINT[0](parts("%s.elt[$it]" % l)) + HINT[0](parts("%s.elt[$it - 1]" % l))),
               2: dict(pre="label L2 in same_lists (pure { %s }) $keys (pure { %s.dom });" % (l, d),
                       inv=FIX + [("qualities of the partitions done", QDONE("$ix#1")),
                        ("tuples of the partitions done", "%s.len = %s" % (T, TOFF("$keys", "$ix#1"))), ("tuples so far", TDONE("$ix#1"))],
                       var="$keys.len - $ix#1",
                       end="        assert { %s = %s + $rng#1.len } ;" % (TOFF("$keys", "$ix#1"), TOFF("$keys", "($ix#1 - 1)")) if False else "",
                       post="        toff_same_%s %s (pure { %s.img }) (pure { %s.elt }) (pure { $keys.elt }) (pure { %s.len });" % (K, HP, d, l, l)),
               3: dict(pre="label L3 in", inv=FIX + [("partition", "$ix#1 < $keys.len /\\ 0 <= $ix#2 <= $rng.len /\\ $rng = %s" % parts("$keys.elt[$ix#1]")),
                        ("quality map unchanged", "%s = (%s at L3)" % (QL, QL)),
                        ("tuples of the partitions done", "%s.len = %s + $ix#2" % (T, TOFF("$keys", "$ix#1"))), ("tuples so far", TDONE("$ix#1")),
                        ("tuples of this partition", TUP("$keys.elt[$ix#1]", "$rng", TOFF("$keys", "$ix#1"), "$ix#2"))],
                       var="$rng.len - $ix#2", begin=HINT[1]("$rng.elt[$ix#2]") and "        assert { %s.dom[$keys.elt[$ix#1]] }; assert { %s };\n" % (d, best(pimg("$keys.elt[$ix#1]"), "$keys.elt[$ix#1]")) + HINT[1]("$rng.elt[$ix#2]"),
                       post="        assert { 0 <= $rng.len }; toff_step_%s %s (pure { %s.img }) (pure { $keys.elt }) $ix#1;\n        assert { $ix#2 = %s.len }; assert { %s };" % (K, HP, d, parts("$keys.elt[$ix#1]"), TUP("$keys.elt[$ix#1]", parts("$keys.elt[$ix#1]"), TOFF("$keys", "$ix#1"), parts("$keys.elt[$ix#1]") + ".len")))})
    return L, D, HP, B, par, allbest
best = lambda pt, p: "obest h_Quality n_Quality %s %s %s %s" % (M(q), q, pt, p)
USES = {"O": ["utm.UTM", "qspec.QSpec", "ospec.OSpec", "ospec.OSame", "ospec.OKeep", "ospec.OFacts", "seqs.Seqs"]}
OQOK = ("matrix of qualities", "%s > 0 /\\ qmat %s n_Quality /\\ 0 < %s <= 65535" % (q, M(q), n))
TOFFMOD = {"O": "ospec.OTuples"}
sweep("O", "same_parts", best, q, None, OQOK, None, C)
