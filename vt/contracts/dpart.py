"""DPartition, DPartitioner (C05, C06, C12, C13)."""
from . import ordered
C = {}
USE = ["utm.UTM", "qspec.QSpec", "hspec.HSpec", "hval.HSum", "dval.DSpec"]
M, CU, Q, P = "this.dPartition_metaData", "this.dPartition_cuts", "this.dPartition_qualities", "this.dPartition_parts"
QM = lambda q: "h_vec_pUTM_pQuality[%s]" % q
HM, HC = "h_UTM_pQuality", "h_UTM_int"
SIZE = lambda q: "%s[%s.elt[0]].utm_size" % (HM, QM(q))
def dok(m, q): return [("hierarchy", "hier %s" % m), ("one matrix of qualities per node", "%s > 0 /\\ dmat %s %s %s.meta_hsize %s n_Quality" % (q, HM, QM(q), m, SIZE(q)))]
S = SIZE(Q)
ENV = "h_Quality %s (pure { %s }) (pure { %s }) (pure { %s }) %s (pure { %s })" % (HM, QM(Q), M, S, HC, CU)
PRE, CUR = "(pure { (this at Pre).dPartition_parts })", "(pure { %s })" % P
C["DPartition::computeSubPart(int, int, int)"] = dict(params=["h", "i", "j"], use=USE + ["utmidx.UTMIdx", "hspec.HTree", "dval.DSub"],
    requires=[("heap", "n_Quality > 0")] + dok(M, Q) + [("cut table", "dcuts %s %s %s %s" % (HC, CU, M, S)), ("a node", "0 <= h < %s.meta_hsize" % M), ("an interval", "pair %s i j" % S), ("parts", "0 <= %s.len" % P)],
    this_mod=["dPartition_parts"], variant="ppos %s.meta_path.elt %s.meta_hsize h, j - i" % (M, M),
    ensures=[("list of parts", "0 <= %s.len" % P), ("the parts of the block are appended", "dsub_done h_Quality %s %s %s %s %s %s (old this).dPartition_parts %s h i j" % (HM, QM(Q), M, S, HC, CU, P))],
    entry="""    assert { kid %(m)s.meta_hsize %(m)s.meta_root %(m)s.meta_parents.elt %(m)s.meta_children.elt[h] h };
    assert { [@expl:the cut of the block is one of its choices] cutok %(m)s h i j (dcut %(hc)s %(cu)s %(s)s h i j) };""" % dict(m=M, p=P, hc=HC, cu=CU, s=S),
    loops={1: dict(pre="        dsub_init %s %s h i j;" % (ENV, CUR),
                   inv=[("only the parts change", "this = { (this at Pre) with dPartition_parts = %s }" % P), ("child", "0 <= $k <= %s.meta_children.elt[h].len" % M), ("parts", "0 <= %s.len" % P),
                        ("parts of the children so far", "dsub_part h_Quality %s %s %s %s %s %s (this at Pre).dPartition_parts %s h i j $k" % (HM, QM(Q), M, S, HC, CU, P))],
                   var="%s.meta_children.elt[h].len - $k" % M, begin="label B1 in assert { [@expl:a child lies before its parent] let c = %s.meta_children.elt[h].elt[$k] in 0 <= c < %s.meta_hsize /\\ ppos %s.meta_path.elt %s.meta_hsize c < ppos %s.meta_path.elt %s.meta_hsize h };" % (M, M, M, M, M, M),
                   end="        dsub_step %s %s (pure { (this at B1).dPartition_parts }) %s h i j ($k - 1);" % (ENV, PRE, CUR),
                   post="        dsub_final %s %s %s h i j;" % (ENV, PRE, CUR))},
    exit="    if pure { dcut %(hc)s %(cu)s %(s)s h i j = j } then dsub_whole %(env)s %(pre)s %(cur)s h i j;\n    if pure { i <= dcut %(hc)s %(cu)s %(s)s h i j < j } then dsub_two %(env)s %(pre)s (any vec c_DPart ensures { dsub_done h_Quality %(hm)s %(q)s %(m)s %(s)s %(hc)s %(cu)s (this at Pre).dPartition_parts result h i (dcut %(hc)s %(cu)s %(s)s h i j) /\\ dsub_done h_Quality %(hm)s %(q)s %(m)s %(s)s %(hc)s %(cu)s result %(p)s h (dcut %(hc)s %(cu)s %(s)s h i j + 1) j }) %(cur)s h i j;" % dict(hm=HM, q=QM(Q), m=M, hc=HC, cu=CU, s=S, env=ENV, pre=PRE, cur=CUR, p=P))
PQ = "%s.dPartition_base.partition_quality"
RP = "result.dPartition_parts"
K = "DPartition::DPartition(vector<shared_ptr<UpperTriangularMatrix<int>>>, shared_ptr<vector<shared_ptr<UpperTriangularMatrix<shared_ptr<Quality>>>>>, float, HValuesMetaData)"
QQ, SQ = QM("q"), SIZE("q")
C[K] = dict(params=["cuts", "q", "p", "m"], use=USE + ["utmidx.UTMIdx", "hspec.HTree", "dval.DSub"],
    requires=[("heap", "n_Quality > 0")] + dok("m", "q") + [("cut table", "dcuts %s cuts m %s" % (HC, SQ))],
    ensures=[("every cell is in exactly one part", "dparts m %s %s %s %s" % (HM, QQ, SQ, RP)),
             ("parameter kept", "result.dPartition_base.partition_parameter = p"), ("qualities kept", "result.dPartition_qualities = q"), ("hierarchy kept", "result.dPartition_metaData = m"), ("cuts kept", "result.dPartition_cuts = cuts"),
             ("own quality", "old n_Quality <= %s < n_Quality /\\ %s > 0" % (PQ % "result", PQ % "result")),
             ("quality gain is the sum over the parts", "h_Quality[%s].quality_gain = dgain h_Quality %s.elt %s.len" % (PQ % "result", RP, RP)),
             ("quality loss is the sum over the parts", "h_Quality[%s].quality_loss = dloss h_Quality %s.elt %s.len" % (PQ % "result", RP, RP)),
             ("the parts are obtained by keeping, splitting and cutting blocks", "forall pp w. weights h_Quality %s pp %s m.meta_hsize %s w -> dval w m m.meta_root 0 (%s - 1) (dpsum h_Quality pp %s.elt %s.len)" % (HM, QQ, SQ, SQ, RP, RP)),
             ("value is that of the cuts", "forall pp w v. weights h_Quality %s pp %s m.meta_hsize %s w -> dconsistent w m %s cuts %s v -> pic pp h_Quality[%s] = v[m.meta_root][0][%s - 1]" % (HM, QQ, SQ, HC, SQ, PQ % "result", SQ))],
    entry="    let ghost h0 = pure { h_Quality } in",
    loops={1: dict(pre="        dsub_all h0 %s (pure { %s }) m (pure { %s }) %s cuts (pure { %s });" % (HM, QQ, SQ, HC, P),
                   inv=[("index", "0 <= $ix <= %s.len /\\ $rng = %s" % (P, P)), ("fields", "%s = m /\\ %s = q /\\ %s = cuts /\\ this.dPartition_base.partition_parameter = p" % (M, Q, CU)),
                        ("parts", "dparts m %s %s %s %s" % (HM, QQ, SQ, P)),
                        ("worth", "forall pp w v. weights (h_Quality at Pre) %s pp %s m.meta_hsize %s w -> dconsistent w m %s cuts %s v -> dpsum (h_Quality at Pre) pp %s.elt %s.len = v[m.meta_root][0][%s - 1]" % (HM, QQ, SQ, HC, SQ, P, P, SQ)),
                        ("parts form a partition", "forall pp w. weights (h_Quality at Pre) %s pp %s m.meta_hsize %s w -> dval w m m.meta_root 0 (%s - 1) (dpsum (h_Quality at Pre) pp %s.elt %s.len)" % (HM, QQ, SQ, SQ, P, P)),
                        ("own quality", "n_Quality at Pre <= %s < n_Quality /\\ %s > 0" % (PQ % "this", PQ % "this")),
                        ("gain so far", "h_Quality[%s].quality_gain = dgain (h_Quality at Pre) %s.elt $ix" % (PQ % "this", P)),
                        ("loss so far", "h_Quality[%s].quality_loss = dloss (h_Quality at Pre) %s.elt $ix" % (PQ % "this", P))], var="%s.len - $ix" % P,
                   begin="        assert { dpart_ok m %s %s %s %s.elt[$ix] && 0 < %s.elt[$ix].dPart_quality < n_Quality at Pre };" % (HM, QQ, SQ, P, P))},
    exit="""    let ghost ps = pure { r__.dPartition_parts } in
    assert { forall k. 0 <= k < ps.len -> dpart_ok m %(hm)s %(q)s %(s)s ps.elt[k] && 0 < ps.elt[k].dPart_quality < n_Quality at Pre };
    dsums_frame h_Quality (pure { h_Quality at Pre }) ps.elt ps.elt ps.len;
    let ghost hq0 = pure { h_Quality at Pre } in let ghost hqe = pure { h_Quality } in
    let lemma val_of (pp: real) : unit ensures { pic pp hqe[r__.dPartition_base.partition_quality] = dpsum hq0 pp ps.elt ps.len } = dpsum_pic hq0 pp ps.elt ps.len in
    weights_frames hqe hq0 (pure { n_Quality at Pre }) %(hm)s (pure { %(q)s }) (pure { m.meta_hsize }) (pure { %(s)s });""" % dict(hm=HM, q=QQ, s=SQ))

# ------------------------------------------------------------------ comparison
FITS = lambda x: "0 <= %s.dPartition_parts.len <= 2147483647 /\\ forall k. 0 <= k < %s.dPartition_parts.len -> dfits %s.dPartition_parts.elt[k]" % (x, x, x)
A1, B1 = "a.dPartition_parts", "b.dPartition_parts"
C["operator==(DPartition&, DPartition&)"] = dict(params=["a", "b"], use=["qspec.QSpec", "hspec.HSpec", "dval.DSpec", "dval.DSame"], open=["same_dparts"],
    requires=[("parts with a machine number of cells", FITS("a") + " /\\ " + FITS("b").replace("forall k. 0 <= k", "forall k. 0 <= k"))],
    ensures=[("equality is that of the sets of parts", "result <-> same_dparts a.dPartition_parts b.dPartition_parts")],
    loops={1: dict(inv=[("every part so far is found", "0 <= $i <= %s.len /\\ %s.len = %s.len /\\ forall k. 0 <= k < $i -> dmember %s.elt[k] %s" % (A1, A1, B1, A1, B1))], var="%s.len - $i" % A1),
           2: dict(inv=[("part searched", "0 <= $i < %s.len /\\ $part = %s.elt[$i] /\\ dfits $part /\\ 0 <= $j <= %s.len" % (A1, A1, B1)), ("not found so far", "not $similar /\\ forall k. 0 <= k < $j -> not same_dpart $part %s.elt[k]" % B1)],
                   begin="        assert { dfits %s.elt[$j] };" % B1, var="%s.len - $j" % B1)})

C["operator!=(DPartition&, DPartition&)"] = dict(params=["a", "b"], use=C["operator==(DPartition&, DPartition&)"]["use"], requires=C["operator==(DPartition&, DPartition&)"]["requires"], ensures=[("inequality is that of the sets of parts", "result <-> not same_dparts a.dPartition_parts b.dPartition_parts")])
# ------------------------------------------------------------------ DPartitioner::computeBestPartition
M, Q = "this.dPartitioner_metaData", "this.dPartitioner_qualities"
N, L, PATH, PAR = M + ".meta_hsize", M + ".meta_leaveSize", M + ".meta_path", M + ".meta_parents"
R = "h_DPartition[result]"; RP = R + ".dPartition_parts"; RQ = PQ % R
HEAP = ("heap", "n_Quality > 0 /\\ n_Tradeoff > 0 /\\ n_DPartition > 0 /\\ n_UTM_int > 0 /\\ n_UTM_pTradeoff > 0")
DOK = ("hierarchy with one matrix of qualities per node", "%s > 0 /\\ dinput %s %s %s n_Quality" % (Q, M, HM, QM(Q)))
TR, TC, CU, HT = "$tradeoff", "$tradeoffChildren", "$cuts", "h_UTM_pTradeoff"
SZ_ = "gs"
CELL = lambda v, h, i, j: "dqp %s %s gs %s %s %s" % (HT, v, h, i, j)
OWN = lambda v: ("%s own qualities" % v[1:], "owned h_Tradeoff %s %s $h (n_Quality at Pre) n_Quality /\\ zeroed h_Tradeoff %s %s $h" % (HT, v, HT, v))
OWNS = ("tradeoffs keep their own qualities", "gnq <= n_Quality /\\ forall t [h_Tradeoff[t]]. 0 < t < gn -> h_Tradeoff[t].tradeoff_quality = ght[t].tradeoff_quality \\/ (n_Quality at Pre) <= h_Tradeoff[t].tradeoff_quality < n_Quality")
OWNAT = lambda h, i="$i", j="$j": "        own_at ght h_Tradeoff %s %s %s gm.meta_hsize gs (pure { n_Tradeoff at Pre }) gn (pure { n_Quality at Pre }) gnq n_Quality (pure { %s }) %s %s;\n" % (HT, TR, TC, h, i, j)
CONLY = "        cell_only %s %s %s gm.meta_hsize gs (pure { n_Tradeoff at Pre }) gn (pure { %s }) $i $j;\n"
CUTWF = lambda b: "$cuts.len = %s /\\ (forall x [$cuts.elt[x]]. 0 <= x < %s -> 0 < $cuts.elt[x] < n_UTM_int /\\ n_UTM_int at Pre <= $cuts.elt[x] /\\ %s[$cuts.elt[x]].utm_size = gs /\\ utm_wf gs %s[$cuts.elt[x]].utm_elements %s[$cuts.elt[x]].utm_matrix.len) /\\ (forall x y. 0 <= x < y < %s -> $cuts.elt[x] <> $cuts.elt[y])" % (b, b, HC, HC, HC, b)
COMMON = [("sizes", "$hsize = gm.meta_hsize /\\ $osize = gs"), ("qualities unchanged", "dmat %s gq gm.meta_hsize gs n_Quality" % HM)]
HERE = lambda x: "%s" % x
EXC = "not (x = $h#2 /\\ a = $i /\\ b = $j) -> "
VAL = lambda v, g, e="": "forall x a b. 0 <= x < gm.meta_hsize -> pair gs a b -> %sh_Tradeoff[%s].tradeoff_value = %s[x][a][b]" % (e, CELL(v, "x", "a", "b"), g)
CUTV = lambda e="": "forall x a b. 0 <= x < gm.meta_hsize -> pair gs a b -> %sdcut %s $cuts gs x a b = gcut[x][a][b]" % (e, HC)
def dyn(e=""): return COMMON + [("one cut table per node", CUTWF("gm.meta_hsize")), ("tradeoffs allocated", "gn <= n_Tradeoff"), OWNS,
    ("tradeoffs of the blocks", VAL(TR, "gv", e)), ("tradeoffs of the children of the blocks", VAL(TC, "gcv")), ("cuts of the blocks", CUTV(e))]
READY = lambda k, i, j: ("table filled so far", "dready gw gm gs gcut gv gcv %s %s %s" % (k, i, j))
NODE = ("current node", "0 <= $k < gm.meta_hsize /\\ $h#2 = gm.meta_path.elt[$k]")
V = "h_Tradeoff[%s].tradeoff_value" % CELL(TR, "$h#2", "$i", "$j")
CUT = "dcut %s $cuts gs $h#2 $i $j" % HC
MOVE = "        dready_move gw gm gs gcut gv gcv %s;\n"
C["DPartitioner::computeBestPartition(float)"] = dict(merge={4}, params=["p"], use=USE + ["utmidx.UTMIdx", "dval.DSub", "dval.DOpt", "dval.DTab", "dval.DMap", "dval.DSame", "dval.DCount"], open=["dbest"],
    requires=[HEAP, DOK],
    ensures=[("fresh partition", "old n_DPartition <= result < n_DPartition /\\ result > 0"), ("fresh quality", "old n_Quality <= %s" % RQ),
             ("best partition", "dbest h_Quality n_Quality %s %s %s %s %s p" % (HM, M, QM(Q), Q, R))],
    ensures_local=[("every cell is in exactly one part", "dparts %s %s %s (msize %s %s) %s" % (M, HM, QM(Q), HM, QM(Q), RP)), ("parameter", "%s.dPartition_base.partition_parameter = p" % R), ("qualities and hierarchy", "%s.dPartition_qualities = %s /\\ %s.dPartition_metaData = %s" % (R, Q, R, M)),
             ("own quality", "0 < %s < n_Quality" % RQ),
             ("quality gain is the sum over the parts", "h_Quality[%s].quality_gain = dgain h_Quality %s.elt %s.len" % (RQ, RP, RP)), ("quality loss is the sum over the parts", "h_Quality[%s].quality_loss = dloss h_Quality %s.elt %s.len" % (RQ, RP, RP)),
             ("the parts are obtained by keeping, splitting and cutting blocks", "forall pp w. weights h_Quality %s pp %s %s (msize %s %s) w -> dval w %s %s.meta_root 0 (msize %s %s - 1) (dpsum h_Quality pp %s.elt %s.len)" % (HM, QM(Q), N, HM, QM(Q), M, M, HM, QM(Q), RP, RP)),
             ("no spatiotemporal partition has a better tradeoff", "forall w x. weights (old h_Quality) %s p %s %s (msize %s %s) w -> dval w %s %s.meta_root 0 (msize %s %s - 1) x -> x <=. pic p h_Quality[%s]" % (HM, QM(Q), N, HM, QM(Q), M, M, HM, QM(Q), RQ))],
    entry="""    let ghost gm = pure { %(m)s } in let ghost gq = pure { %(q)s } in let ghost gs = pure { msize %(hm)s gq } in let ghost hq0 = pure { h_Quality } in
    let ghost gw = wmap hq0 %(hm)s p gq gm.meta_hsize gs in let ghost ref gv = gw in let ghost ref gcv = gw in let ghost ref gcut = (any m3 int) in let ghost ref gn = 0 in let ghost ref gnq = 0 in let ghost ref ght = pure { h_Tradeoff } in""" % dict(m=M, q=QM(Q), hm=HM),
    loops={1: dict(inv=COMMON + [("count", "0 <= $h <= gm.meta_hsize /\\ $tradeoff.len = $h /\\ $tradeoffChildren.len = $h"), ("one cut table per node", CUTWF("$h")),
                        ("tables of tradeoffs", "forall x. 0 <= x < $h -> (n_UTM_pTradeoff at Pre) <= $tradeoff.elt[x] < n_UTM_pTradeoff /\\ (n_UTM_pTradeoff at Pre) <= $tradeoffChildren.elt[x] < n_UTM_pTradeoff"),
                        ("one table of tradeoffs per node", "grid %s $tradeoff $h gs (n_Tradeoff at Pre) n_Tradeoff" % HT),
                        ("one table of tradeoffs of the children per node", "grid %s $tradeoffChildren $h gs (n_Tradeoff at Pre) n_Tradeoff" % HT),
                        ("tables are apart", "grids_apart %s $tradeoff $tradeoffChildren $h" % HT), OWN(TR), OWN(TC)], var="gm.meta_hsize - $h",
                   pre="        grids_init %s $tradeoff $tradeoffChildren gs (pure { n_Tradeoff at Pre }); own_init h_Tradeoff %s $tradeoff n_Quality n_Quality; own_init h_Tradeoff %s $tradeoffChildren n_Quality n_Quality;" % (HT, HT, HT),
                   begin="        label B1 in let ghost a1 = $tradeoff in let ghost c1 = $tradeoffChildren in",
                   end="""        let ghost b0 = $h - 1 in let ghost g1 = pure { %(ht)s at B1 } in let ghost t1 = pure { h_Tradeoff at B1 } in let ghost nt = pure { n_Tradeoff at B1 } in let ghost n0 = pure { n_Tradeoff at Pre } in
        assert { $tradeoff.elt[b0] >= (n_UTM_pTradeoff at B1) /\\ $tradeoffChildren.elt[b0] >= (n_UTM_pTradeoff at B1) };
        assert { forall x. 0 <= x < b0 -> $tradeoff.elt[x] = a1.elt[x] /\\ $tradeoffChildren.elt[x] = c1.elt[x] }; assert { forall x. 0 <= x < b0 -> %(ht)s[a1.elt[x]] = g1[a1.elt[x]] /\\ %(ht)s[c1.elt[x]] = g1[c1.elt[x]] };
        assert { newtable %(ht)s $tradeoff.elt[b0] gs nt n_Tradeoff }; assert { newtable %(ht)s $tradeoffChildren.elt[b0] gs nt n_Tradeoff };
        grids_push g1 %(ht)s a1 c1 $tradeoff $tradeoffChildren b0 gs n0 nt n_Tradeoff;
        own_push t1 h_Tradeoff g1 %(ht)s a1 $tradeoff b0 gs n0 nt (pure { n_Quality at Pre }) (pure { n_Quality at B1 }) n_Quality;
        own_push t1 h_Tradeoff g1 %(ht)s c1 $tradeoffChildren b0 gs n0 nt (pure { n_Quality at Pre }) (pure { n_Quality at B1 }) n_Quality;""" % dict(ht=HT),
                   post="""        assert { $h = gm.meta_hsize }; gn <- pure { n_Tradeoff }; gnq <- pure { n_Quality }; ght <- pure { h_Tradeoff }; grid_cells %(ht)s $tradeoff gm.meta_hsize gs (pure { n_Tradeoff at Pre }) gn; grid_cells %(ht)s $tradeoffChildren gm.meta_hsize gs (pure { n_Tradeoff at Pre }) gn;
        own_cells h_Tradeoff %(ht)s $tradeoff $tradeoffChildren gm.meta_hsize gs (pure { n_Quality at Pre }) n_Quality;
        zero_cells h_Tradeoff %(ht)s $tradeoffChildren gm.meta_hsize gs;
        grid_cells_apart %(ht)s $tradeoff $tradeoffChildren gm.meta_hsize gs (pure { n_Tradeoff at Pre }) gn;
        apart_sym %(ht)s $tradeoff $tradeoffChildren gm.meta_hsize gs;
        gv <- vmap h_Tradeoff %(ht)s $tradeoff gs; gcv <- vmap h_Tradeoff %(ht)s $tradeoffChildren gs; gcut <- cmap %(hc)s $cuts gs;
        dready_init gw gm gs gcut gv gcv;""" % dict(ht=HT, hc=HC)),
           2: dict(inv=dyn() + [NODE, READY("$k", "(gs - 1)", "(gs - 1)")], var="gm.meta_hsize - $k",
                   begin="""        assert { [@expl:current node and its parent] ppos gm.meta_path.elt gm.meta_hsize gm.meta_path.elt[$k] = $k /\\ 0 <= gm.meta_path.elt[$k] < gm.meta_hsize /\\ (gm.meta_leaveSize <= $k <-> gm.meta_leaveSize <= gm.meta_path.elt[$k]) /\\ ($k < gm.meta_hsize - 1 <-> gm.meta_path.elt[$k] <> gm.meta_root) /\\ (gm.meta_path.elt[$k] <> gm.meta_root -> 0 <= gm.meta_parents.elt[gm.meta_path.elt[$k]] < gm.meta_hsize) };""",
                   post="""        assert { [@expl:the traversal ends with the root] $k = gm.meta_hsize - 1 };
        dready_done hq0 %s p gq gw gm gs gcut gv gcv;
        assert { dcuts %s $cuts gm gs };""" % (HM, HC)),
           3: dict(inv=dyn() + [NODE, ("row", "-1 <= $i < gs"), READY("$k", "$i", "$i")], var="$i + 1",
                   end=MOVE % "$k ($i + 1) gs $k $i $i", post="        if $k < gm.meta_hsize - 1 then dready_move gw gm gs gcut gv gcv $k (-1) (-1) ($k + 1) (gs - 1) (gs - 1);"),
           4: dict(inv=dyn() + [NODE, ("block", "0 <= $i < gs /\\ $i <= $j <= gs"), READY("$k", "$i", "$j")], var="gs - $j", begin="        label B4 in\n" + OWNAT("$h#2") + "        let ghost gp = pure { if $k < gm.meta_hsize - 1 then gm.meta_parents.elt[$h#2] else $h#2 } in\n" + OWNAT("gp") + CONLY % (HT, TR, TC, "$h#2") + CONLY % (HT, TC, TR, "gp") + "let ghost j0 = $j in\n        assert { [@expl:quality of the block] pic p h_Quality[dqp %s gq gs $h#2 $i $j] = gw[$h#2][$i][$j] };" % HM,
                   end="""        let ghost v2 = vmap h_Tradeoff %(ht)s $tradeoff gs in let ghost cv2 = vmap h_Tradeoff %(ht)s $tradeoffChildren gs in let ghost cut2 = cmap %(hc)s $cuts gs in
        dready_step gw gm gs gcut cut2 gv gcv v2 cv2 $k $i j0; gv <- v2; gcv <- cv2; gcut <- cut2;""" % dict(ht=HT, hc=HC)),
           5: dict(inv=dyn(EXC) + [NODE, ("block", "0 <= $i <= $cut_t <= $j < gs"),
                        ("own qualities of the current block", "(n_Quality at Pre) <= h_Tradeoff[%s].tradeoff_quality < n_Quality /\\ (n_Quality at Pre) <= h_Tradeoff[%s].tradeoff_quality < n_Quality" % (CELL(TR, "$h#2", "$i", "$j"), CELL(TC, "gp", "$i", "$j"))),
                        ("not worse than the whole block", "%s >=. gw[$h#2][$i][$j]" % V), ("not worse than the children", "gm.meta_leaveSize <= $h#2 -> %s >=. gcv[$h#2][$i][$j]" % V),
                        ("not worse than the cuts tried", "forall c. $i <= c < $cut_t -> %s >=. gv[$h#2][$i][c] +. gv[$h#2][c + 1][$j]" % V),
                        ("value of the current cut", "cutok gm $h#2 $i $j (%s) /\\ (if %s = -1 then %s = gcv[$h#2][$i][$j] else if %s < $j then %s = gv[$h#2][$i][%s] +. gv[$h#2][%s + 1][$j] else %s = gw[$h#2][$i][$j])" % (CUT, CUT, V, CUT, V, CUT, CUT, V))],
                   var="$j - $cut_t", begin="        label B5 in\n" + OWNAT("$h#2") + OWNAT("$h#2", "$i", "$cut_t") + OWNAT("$h#2", "($cut_t + 1)", "$j"),
                   end="        assert { [@expl:the tradeoff of the block does not decrease] %s >=. (h_Tradeoff at B5)[%s].tradeoff_value };\n        assert { [@expl:the cut just tried is not better] forall c. c = $cut_t - 1 -> %s >=. gv[$h#2][$i][c] +. gv[$h#2][c + 1][$j] };" % (V, CELL(TR, "$h#2", "$i", "$j"), V))},
    exit="""    let ghost n0 = pure { n_Quality at Pre } in weights_frames hq0 h_Quality n0 %(hm)s gq gm.meta_hsize gs; weights_frames h_Quality hq0 n0 %(hm)s gq gm.meta_hsize gs;
    assert { dconsistent gw gm %(hc)s $cuts gs gv };
    assert { [@expl:the partition has the value of the table] pic p h_Quality[h_DPartition[r__].dPartition_base.partition_quality] = gv[gm.meta_root][0][gs - 1] };
    dparts_bound gm %(hm)s gq (pure { n_Quality }) (pure { h_DPartition[r__].dPartition_parts });""" % dict(hm=HM, hc=HC))

best = lambda pt, p: "dbest h_Quality n_Quality %s %s %s %s %s %s" % (HM, M, QM(Q), Q, pt, p)
ordered.USES["D"] = ["utm.UTM", "qspec.QSpec", "hspec.HSpec", "dval.DSpec", "dval.DSame", "dval.DKeep", "dval.DFacts", "seqs.Seqs"]
ordered.MONO["D"] = "%s (pure { %s }) (pure { %s }) (pure { %s })" % (HM, M, QM(Q), Q)
ordered.TOFFMOD["D"] = "dval.DTuples"
ordered.HEAPX["D"] = " /\\ n_UTM_int > 0 /\\ n_UTM_pTradeoff > 0"
ordered.HINTS["D"] = (lambda x: "        assert { 0 <= %s.len <= 2147483647 }; assert { forall k. 0 <= k < %s.len -> dfits %s.elt[k] };\n" % (x, x, x), lambda x: "        assert { dfits %s };\n" % x)
ordered.sweep("D", "same_dparts", best, Q, None, DOK, None, C)
