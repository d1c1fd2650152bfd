"""Information measures (C07, C08, C09)."""
U = ["compl.Compl"]
C = {
 "entropy(long double)": dict(params=["v"], use=U, requires=[("positive", "v >. 0.0")], ensures=[("v log2 v", "result = v *. ln v /. ln 2.0")]),
 "entropyReduction(long double, long double)": dict(params=["v", "e"], use=U, open=["er"], ensures=[("entropy reduction", "result = er v e")]),
 "divergence(int, long double, long double)": dict(params=["n", "v", "e"], use=U, open=["dv"], requires=[("positive size", "n > 0")], ensures=[("divergence", "result = dv n v e")]),
}

# ------------------------------------------------------------------ OQualities
q = "this.oQualities_qualities"; m = "h_UTM_pQuality[%s]" % q; n = m + ".utm_size"
D = "h_OValues[this.oQualities_values]"; K = "(dynbase_OValues %s).oValues_vsize" % D; N = "(dynbase_OValues %s).oValues_osize" % D
P = lambda i, j: "h_Quality[qptr %s %s %s]" % (m, i, j)
BASE = [("fields", "this.oQualities_values = (this at Pre).oQualities_values /\\ $osize = %s /\\ $vsize = %s" % (N, K)),
        ("matrices", "utm_wf $sum.utm_size $sum.utm_elements $sum.utm_matrix.len /\\ utm_wf $info.utm_size $info.utm_elements $info.utm_matrix.len /\\ $sum.utm_size = %s /\\ $info.utm_size = %s" % (N, N)),
        ("matrix of qualities", "%s > 0 /\\ qmat %s n_Quality /\\ %s = %s" % (q, m, n, N)),
        ("objects of the elements", "qall %s (n_Quality at Pre) n_Quality" % m),
        ("fresh qualities", "forall a b. pair %s a b -> n_Quality at Pre <= qptr %s a b" % (n, m)),
        ("distinct qualities", "forall a b c d. pair %s a b -> pair %s c d -> qptr %s a b = qptr %s c d -> a = c /\\ b = d" % (n, n, m, m))]
def sums(c): return [("sums so far", "forall a b. pair %s a b -> %s -> $sum.utm_matrix.elt[idx %s a b] = osum %s $k a (b + 1)" % (N, c, N, D)),
                     ("information so far", "forall a b. pair %s a b -> %s -> $info.utm_matrix.elt[idx %s a b] = oinf %s $k a (b + 1)" % (N, c, N, D))]
def quals(c): return [("qualities done", "forall a b. pair %s a b -> %s -> oq %s %s a b ($k + 1)" % (N, c, D, P("a", "b"))),
                      ("qualities to do", "forall a b. pair %s a b -> not (%s) -> oq %s %s a b $k" % (N, c, D, P("a", "b")))]
C["OQualities::computeQualities()"] = dict(use=["vals.Vals", "valview.ValView", "utm.UTM", "utmidx.UTMIdx", "ospec.OSpec"] + U + ["compl.Norm", "compl.OInfo"], open=[],
    requires=[("heap", "n_Quality > 0 /\\ n_UTM_pQuality > 0"), ("values", "this.oQualities_values <> 0 -> ov_wf %s /\\ 0 < %s <= 65535 /\\ %s <= 2147483647" % (D, N, K))],
    this_mod=["oQualities_qualities"],
    ensures=[("nothing without values", "this.oQualities_values = 0 -> this = old this"),
             ("matrix of fresh qualities", "this.oQualities_values <> 0 -> %s >= old n_UTM_pQuality /\\ qmat %s n_Quality /\\ %s = %s /\\ forall a b. pair %s a b -> old n_Quality <= qptr %s a b" % (q, m, n, N, n, m)),
             ("different pairs have different objects", "this.oQualities_values <> 0 -> forall a b c d. pair %s a b -> pair %s c d -> qptr %s a b = qptr %s c d -> a = c /\\ b = d" % (n, n, m, m)),
             ("every element holds a fresh object of its own", "this.oQualities_values <> 0 -> qall %s (old n_Quality) n_Quality" % m),
             ("gain and loss of every interval", "this.oQualities_values <> 0 -> forall a b. pair %s a b -> oq %s %s a b %s" % (n, D, P("a", "b"), K))],
    loops={1: dict(inv=BASE + [("series", "0 <= $k <= $vsize"), ("qualities", "forall a b. pair %s a b -> oq %s %s a b $k" % (N, D, P("a", "b")))], var="$vsize - $k"),
           2: dict(inv=BASE + [("series", "0 <= $k < $vsize"), ("row", "-1 <= $i < $osize")] + sums("a > $i") + quals("a > $i"), var="$i",
                   ),
           3: dict(inv=BASE + [("series", "0 <= $k < $vsize"), ("row", "0 <= $i < $j <= $osize")] + sums("a > $i \\/ (a = $i /\\ b < $j)") + quals("a > $i \\/ (a = $i /\\ b < $j)"), var="$osize - $j",
                   pre="        oinf_one (pure { %s }) $k $i; oq_diag (pure { %s }) (pure { %s }) $i $k;" % (D, D, P("$i", "$i")), begin="label B3 in")})

# ------------------------------------------------------------------ normalisation
DIVD = lambda x, w: "divided h_Quality[%s] (old h_Quality)[%s] (old h_Quality)[%s]" % (x, x, w)
def inv(x, seen, w): return [("whole and divisor", "0 < $max /\\ n_Quality at Pre <= $max < n_Quality /\\ divisor h_Quality[$max] (h_Quality at Pre)[%s]" % w)]
e = m + ".utm_matrix"
w = "qptr %s 0 (%s - 1)" % (m, n)
C["OQualities::normalize()"] = dict(use=["utm.UTM", "utmidx.UTMIdx", "ospec.OSpec", "compl.Norm"], 
    requires=[("heap", "n_Quality > 0"), ("matrix of qualities", "%s > 0 /\\ qmat %s n_Quality /\\ 0 < %s <= 65535" % (q, m, n)), ("every pair has an object of its own", "qall %s 1 n_Quality" % m)],
    modifies={"Quality": "exists k. 0 <= k < %s.len /\\ p_ = %s.elt[k]" % (e, e)},
    ensures=[("gain and loss of every element are divided by those of the whole", "forall k. 0 <= k < %s.len -> %s" % (e, DIVD(e + ".elt[k]", w))),
             ("also read through the pairs", "forall a b. pair %s a b -> %s" % (n, DIVD("qptr %s a b" % m, w)))],
    loops={1: dict(inv=[("position", "0 <= $i <= %s.len" % e)] + inv(0, 0, w) +
                       [("done so far", "forall k. 0 <= k < $i -> divided h_Quality[%s.elt[k]] (h_Quality at Pre)[%s.elt[k]] (h_Quality at Pre)[%s]" % (e, e, w)),
                        ("not yet done", "forall k. $i <= k < %s.len -> h_Quality[%s.elt[k]] = (h_Quality at Pre)[%s.elt[k]]" % (e, e, e))], var="%s.len - $i" % e)})
# hierarchical
V = "h_vec_pQuality[this.hQualities_qualities]"; R = "this.hQualities_metaData.meta_root"
w = V + ".elt[%s]" % R
C["HQualities::normalize()"] = dict(use=["compl.Norm"],
    requires=[("heap", "n_Quality > 0"), ("vector of qualities", "this.hQualities_qualities > 0 /\\ vall %s 1 n_Quality" % V), ("root is a node", "0 <= %s < %s.len /\\ %s.len <= 2147483647" % (R, V, V))],
    modifies={"Quality": "exists k. 0 <= k < %s.len /\\ p_ = %s.elt[k]" % (V, V)},
    ensures=[("gain and loss of every node are divided by those of the whole", "forall k. 0 <= k < %s.len -> %s" % (V, DIVD(V + ".elt[k]", w)))],
    loops={1: dict(inv=[("position", "0 <= $ix <= %s.len /\\ $rng = %s" % (V, V))] + inv(0, 0, w) +
                       [("done so far", "forall k. 0 <= k < $ix -> divided h_Quality[%s.elt[k]] (h_Quality at Pre)[%s.elt[k]] (h_Quality at Pre)[%s]" % (V, V, w)),
                        ("not yet done", "forall k. $ix <= k < %s.len -> h_Quality[%s.elt[k]] = (h_Quality at Pre)[%s.elt[k]]" % (V, V, V))], var="%s.len - $ix" % V)})
# spatiotemporal
V = "h_vec_pUTM_pQuality[this.dQualities_qualities]"; R = "this.dQualities_metaData.meta_root"; H = "this.dQualities_metaData.meta_hsize"
MH = lambda h: "h_UTM_pQuality[%s.elt[%s]]" % (V, h)
X = lambda h, k: "%s.utm_matrix.elt[%s]" % (MH(h), k)
w = "qptr %s 0 (%s.utm_size - 1)" % (MH(R), MH(R))
HK = lambda g, k: "0 <= %s < %s /\\ 0 <= %s < %s.utm_matrix.len" % (g, H, k, MH(g))
def done(c): return [("done so far", "forall g k. %s -> %s -> divided h_Quality[%s] (h_Quality at Pre)[%s] (h_Quality at Pre)[%s]" % (HK("g", "k"), c, X("g", "k"), X("g", "k"), w)),
                     ("not yet done", "forall g k. %s -> not (%s) -> h_Quality[%s] = (h_Quality at Pre)[%s]" % (HK("g", "k"), c, X("g", "k"), X("g", "k")))]
C["DQualities::normalize()"] = dict(use=["utm.UTM", "utmidx.UTMIdx", "ospec.OSpec", "compl.Norm"],
    requires=[("heap", "n_Quality > 0"), ("one matrix per node", "this.dQualities_qualities > 0 /\\ %s.len = %s /\\ 0 <= %s < %s <= 2147483647" % (V, H, R, H)),
              ("matrices of qualities", "forall g. 0 <= g < %s -> %s.elt[g] > 0 /\\ utm_wf %s.utm_size %s.utm_elements %s.utm_matrix.len /\\ 0 < %s.utm_size" % (H, V, MH("g"), MH("g"), MH("g"), MH("g"))),
              ("qualities present", "forall g k. %s -> 0 < %s < n_Quality" % (HK("g", "k"), X("g", "k"))),
              ("every block has an object of its own", "forall g k h l. %s -> %s -> %s = %s -> g = h /\\ k = l" % (HK("g", "k"), HK("h", "l"), X("g", "k"), X("h", "l")))],
    modifies={"Quality": "exists g k. %s /\\ p_ = %s" % (HK("g", "k"), X("g", "k"))},
    ensures=[("gain and loss of every block are divided by those of the whole", "forall g k. %s -> %s" % (HK("g", "k"), DIVD(X("g", "k"), w))),
             ("also read through the pairs", "forall g a b. 0 <= g < %s -> pair %s.utm_size a b -> %s" % (H, MH("g"), DIVD("qptr %s a b" % MH("g"), w)))],
    loops={1: dict(inv=[("node", "0 <= $h <= %s" % H)] + inv(0, 0, w) + done("g < $h"), var="%s - $h" % H),
           2: dict(inv=[("node", "0 <= $h < %s" % H), ("position", "0 <= $i <= %s.utm_matrix.len" % MH("$h"))] + inv(0, 0, w) + done("g < $h \\/ (g = $h /\\ k < $i)"), var="%s.utm_matrix.len - $i" % MH("$h"))})

# ------------------------------------------------------------------ HQualities
M, QP = "this.hQualities_metaData", "this.hQualities_qualities"
V = "h_vec_pQuality[%s]" % QP
L, N, R, PAR, PATH = [M + ".meta_" + x for x in ("leaveSize", "hsize", "root", "parents.elt", "path.elt")]
D = "h_HValues[this.hQualities_values]"; B = "(dynbase_HValues %s).hValues_" % D; K = B + "vsize"
UHQ = ["vals.Vals", "valview.ValView", "valview.HValView", "hspec.HSpec", "hspec.HTree", "hval.HSum"] + U + ["compl.Norm", "hinfo.HAcc", "hinfo.HInfo"]
TREE = " ".join("(pure { %s })" % x for x in (L, N, R, PAR, PATH))
ROW = {"sum": "(pure { hrow %s $k })" % D, "info": "(pure { hirow %s $k })" % D}
HACC = lambda i: [("sums so far", "hacc %s %s %s %s %s (hrow %s $k) %s $sum.elt" % (L, N, R, PAR, PATH, D, i)), ("information so far", "hacc %s %s %s %s %s (hirow %s $k) %s $info.elt" % (L, N, R, PAR, PATH, D, i))]
BASE = [("fields", "this.hQualities_values = (this at Pre).hQualities_values /\\ this.hQualities_metaData = (this at Pre).hQualities_metaData /\\ $hsize = %s /\\ $vsize = %s" % (N, K)),
        ("vector of qualities", "n_vec_pQuality at Pre <= %s < n_vec_pQuality /\\ %s.len = %s /\\ vall %s (n_Quality at Pre) n_Quality" % (QP, V, N, V))]
LENS = [("lengths", "$sum.len = %s /\\ $info.len = %s" % (N, N))]
HQS = lambda i: [("qualities so far", "hqs %s %s h_Quality %s %s $k" % (M, D, V, i))]
MD = "(pure { %s }) (pure { %s })" % (M, D)
each = lambda f: " ".join("%s %s %s $i (pure { $%s.elt at B%%(b)d }) (pure { $%s.elt }) hc;" % (f, TREE, ROW[x], x, x) for x in ("sum", "info"))
C["HQualities::computeQualities()"] = dict(use=UHQ, open=[],
    requires=[("heap", "n_Quality > 0 /\\ n_vec_pQuality > 0"), ("values", "this.hQualities_values <> 0 -> hv_wf %s /\\ %s <= 2147483647 /\\ %s /\\ %smetaData = %s" % (D, K, "hier " + M, B, M))],
    this_mod=["hQualities_qualities"],
    ensures=[("nothing without values", "this.hQualities_values = 0 -> this = old this"),
             ("one fresh quality per node", "this.hQualities_values <> 0 -> old n_vec_pQuality <= %s < n_vec_pQuality /\\ %s.len = %s /\\ vall %s (old n_Quality) n_Quality" % (QP, V, N, V)),
             ("gain and loss of every node", "this.hQualities_values <> 0 -> forall h. 0 <= h < %s -> hq %s %s h_Quality[%s.elt[h]] h %s" % (N, M, D, V, K))],
    loops={1: dict(inv=[BASE[0], ("count", "0 <= $h <= %s" % N), ("vector of qualities so far", "n_vec_pQuality at Pre <= %s < n_vec_pQuality /\\ %s.len = %s" % (QP, V, N)),
                        ("fresh qualities", "forall x. 0 <= x < $h -> n_Quality at Pre <= %s.elt[x] < n_Quality /\\ h_Quality[%s.elt[x]].quality_gain = 0.0 /\\ h_Quality[%s.elt[x]].quality_loss = 0.0" % (V, V, V)),
                        ("different qualities", "forall x y. 0 <= x < y < $h -> %s.elt[x] <> %s.elt[y]" % (V, V))], var="%s - $h" % N,
                   post="        hqs_zero %s h_Quality (pure { %s });" % (MD, V)),
           2: dict(inv=BASE + [("series", "0 <= $k <= $vsize")] + HQS("0"), var="$vsize - $k",
                   end="        hqs_next %s h_Quality (pure { %s }) ($k - 1);" % (MD, V),
                   ),
           3: dict(inv=BASE + LENS + [("series", "0 <= $k < $vsize"), ("leaf", "0 <= $i <= %s /\\ $h#2 = %s[$i]" % (L, PATH))] + HACC("$i") + HQS("0"), var="%s - $i" % L,
                   pre=" ".join("        hacc_init %s %s (pure { $%s.elt });" % (TREE, ROW[x], x) for x in ("sum", "info")),
                   begin="        label B3 in let ghost ic = $i in let ghost hc = pure { %s[$i] } in path_at %s $i;" % (PATH, TREE),
                   end="        rows (pure { %s }) $k; hacc_leaf %s %s ic (pure { $sum.elt at B3 }) (pure { $sum.elt }) hc; hacc_leaf %s %s ic (pure { $info.elt at B3 }) (pure { $info.elt }) hc;" % (D, TREE, ROW["sum"], TREE, ROW["info"]),
                   post="        hqs_leaves %s h_Quality (pure { %s }) $k;" % (MD, V)),
           4: dict(inv=BASE + LENS + [("series", "0 <= $k < $vsize"), ("inner node", "%s <= $i <= %s - 1 /\\ $h#2 = %s[$i]" % (L, N, PATH))] + HACC("$i") + HQS("$i"), var="%s - $i" % N,
                   begin="        label B4 in let ghost ic = $i in let ghost hc = pure { %s[$i] } in path_at %s $i; has_leaves (pure { %s }) hc;" % (PATH, TREE, M),
                   end="        hacc_inner %s %s ic (pure { $sum.elt at B4 }) (pure { $sum.elt }) hc; hacc_inner %s %s ic (pure { $info.elt at B4 }) (pure { $info.elt }) hc; hqs_step %s (pure { h_Quality at B4 }) h_Quality (pure { %s }) ic $k hc;" % (TREE, ROW["sum"], TREE, ROW["info"], MD, V),
                   post="        let ghost rc = pure { %s[$i] } in path_at %s $i; has_leaves (pure { %s }) rc; hacc_done %s %s $i (pure { $sum.elt }) rc; hacc_done %s %s $i (pure { $info.elt }) rc;" % (PATH, TREE, M, TREE, ROW["sum"], TREE, ROW["info"]))},
    exit="    hqs_all %s h_Quality (pure { %s }) (pure { %s });" % (MD, V, K))
# after the loop over the inner nodes comes the root
l2 = C["HQualities::computeQualities()"]["loops"][2]
l2["begin"] = "        let ghost ref g_q = pure { h_Quality } in"
C["HQualities::computeQualities()"]["loops"][4]["post"] += " g_q <- pure { h_Quality };"
l2["end"] = "        hqs_step %s (pure { g_q }) h_Quality (pure { %s }) (pure { %s - 1 }) ($k - 1) (pure { %s });" % (MD, V, N, R) + l2["end"]

# ------------------------------------------------------------------ DQualities
M, QP = "this.dQualities_metaData", "this.dQualities_qualities"
V = "h_vec_pUTM_pQuality[%s]" % QP; H = "h_UTM_pQuality"
L, N, R, PAR, PATH = [M + ".meta_" + x for x in ("leaveSize", "hsize", "root", "parents.elt", "path.elt")]
D = "h_DValues[this.dQualities_values]"; B = "(dynbase_DValues %s).dValues_" % D; K = B + "vsize"; O = B + "osize"
UDQ = UHQ + ["utm.UTM", "utmidx.UTMIdx", "qspec.QSpec", "ospec.OSpec", "dval.DSpec", "hinfo.DRows", "hinfo.DAcc", "hinfo.DInfo"]
TREE = " ".join("(pure { %s })" % x for x in (L, N, R, PAR, PATH))
p = lambda x: "(pure { %s })" % x
MP, OP, DP, VP, W = p(M), p(O), p(D), p(V), {"sum": "(pure { drows %s $k })" % D, "info": "(pure { dirows %s $k })" % D}
both = lambda f: " ".join(f(x) for x in ("sum", "info"))
DACC = lambda i, r, c: [("%s so far" % n, "dacc %s (%s %s $k) %s %s %s %s $%s" % (M, f, D, O, i, r, c, x)) for n, f, x in (("sums", "drows", "sum"), ("information", "dirows", "info"))]
DQS = lambda i, r, c: [("qualities so far", "dqs %s %s h_Quality %s %s %s %s %s %s $k" % (M, D, H, V, O, i, r, c)), ("qualities are allocated", "g_hi <= n_Quality")]
HEADQ = "%s %s h_Quality %s %s %s" % (MP, DP, H, VP, OP)
qmove = lambda i, r, c, r2, c2: "dqs_move %s %s (%s) (%s) $k (%s) (%s);" % (HEADQ, i, r, c, r2, c2)
amove = lambda i, r, c, r2, c2, at="": both(lambda x: "dacc_move %s %s %s %s (%s) (%s) (%s) (%s) (pure { $%s%s });" % (MP, W[x], OP, i, r, c, r2, c2, x, at))
qstep = lambda lab, i, r, c, h: "dqs_step %s %s (pure { h_Quality at %s }) h_Quality %s %s %s (pure { n_Quality at Pre }) (pure { g_hi }) %s %s %s $k %s;" % (MP, DP, lab, H, VP, OP, i, r, c, h)
cellof = "dall_first %s %s hc (pure { %s }) %s (pure { n_Quality at Pre }) (pure { g_hi });" % (H, VP, N, OP)
cell2 = lambda r, c, h="hc": "dall_cell %s %s (pure { %s }) %s (pure { n_Quality at Pre }) (pure { g_hi }) %s %s %s;" % (H, VP, N, OP, h, r, c)
mats = lambda i, r, c: both(lambda x: "dacc_mats %s %s %s %s (%s) (%s) (pure { $%s });" % (MP, W[x], OP, i, r, c, x))
C["DQualities::computeQualities()"] = dict(use=UDQ, open=[],
    requires=[("heap", "n_Quality > 0 /\\ n_vec_pUTM_pQuality > 0 /\\ n_UTM_pQuality > 0"),
              ("values", "this.dQualities_values <> 0 -> dv_wf %s /\\ %s <= 2147483647 /\\ 0 < %s <= 65535 /\\ hier %s /\\ %smetaData = %s /\\ %s * %s <= 2147483647" % (D, K, O, M, B, M, O, L))],
    this_mod=["dQualities_qualities"],
    ensures=[("nothing without values", "this.dQualities_values = 0 -> this = old this"),
             ("one fresh quality per block", "this.dQualities_values <> 0 -> old n_vec_pUTM_pQuality <= %s < n_vec_pUTM_pQuality /\\ %s.len = %s /\\ dall %s %s %s %s (old n_Quality) n_Quality" % (QP, V, N, H, V, N, O)),
             ("gain and loss of every block", "this.dQualities_values <> 0 -> forall h a b. 0 <= h < %s -> pair %s a b -> dq %s %s h_Quality[dqp %s %s %s h a b] h a b %s" % (N, O, M, D, H, V, O, K))],
    entry="    let ghost ref g_hi = 0 in",
    loops={1: dict(inv=[("count", "0 <= $h <= %s" % N), ("vector of matrices", "n_vec_pUTM_pQuality at Pre <= %s < n_vec_pUTM_pQuality /\\ %s.len = %s" % (QP, V, N)), ("matrices are allocated", "forall g. 0 <= g < $h -> %s.elt[g] < n_UTM_pQuality" % V),
                        ("fresh qualities, all different", "dall %s %s $h %s (n_Quality at Pre) n_Quality" % (H, V, O)), ("qualities are 0", "dzero h_Quality %s %s $h" % (H, V))], var="%s - $h" % N,
                   pre="        dall_zero h_Quality %s %s %s (pure { n_Quality at Pre });" % (H, VP, OP), begin="        label B1 in",
                   end="        dall_push (pure { h_Quality at B1 }) h_Quality (pure { %s at B1 }) %s (pure { %s at B1 }) %s ($h - 1) %s (pure { n_Quality at Pre }) (pure { n_Quality at B1 }) (pure { n_Quality });" % (H, H, V, VP, OP),
                   post="        g_hi <- pure { n_Quality }; dqs_zero %s (pure { n_Quality at Pre }) (pure { g_hi });" % HEADQ),
           2: dict(inv=[("series", "0 <= $k <= $vsize")] + DQS("0", "(%s - 1)" % O, "0"), var="$vsize - $k", end="        dqs_next %s ($k - 1);" % HEADQ),
           3: dict(inv=[("count", "0 <= $h#2 <= %s" % N)] + [("matrices of %s" % x, "smats $%s $h#2 %s" % (x, O)) for x in ("sum", "info")] +
                       [("%s is 0" % x, "forall g k. 0 <= g < $h#2 -> 0 <= k < $%s.elt[g].utm_matrix.len -> $%s.elt[g].utm_matrix.elt[k] = 0.0" % (x, x)) for x in ("sum", "info")], var="%s - $h#2" % N,
                   post="        " + both(lambda x: "dacc_init %s %s %s (pure { $%s });" % (MP, W[x], OP, x))),
           4: dict(inv=[("series", "0 <= $k < $vsize"), ("leaf", "0 <= $i <= %s /\\ $h#2 = %s[$i]" % (L, PATH))] + DACC("$i", "(%s - 1)" % O, "0") + DQS("$i", "(%s - 1)" % O, "0"), var="%s - $i" % L,
                   begin="        let ghost ic = $i in let ghost hc = pure { %s[$i] } in path_at %s $i; %s" % (PATH, TREE, cellof),
                   end="        " + both(lambda x: "dacc_node %s %s %s ic (pure { $%s });" % (MP, W[x], OP, x)) + " dqs_node %s ic $k;" % HEADQ),
           5: dict(inv=[("row", "-1 <= $i#2 < %s" % O)] + DACC("ic", "$i#2", "0") + DQS("ic", "$i#2", "0"), var="$i#2", begin="        label B5 in " + mats("ic", "$i#2", "0")),
           6: dict(pre="        drow_at %s $k $i#2 $i#2 hc; %s %s %s dqs_diag %s (pure { n_Quality at Pre }) (pure { g_hi }) ic $i#2 $k hc;" % (DP, amove("ic", "$i#2", "0", "$i#2", "$i#2", " at B5"),
                       both(lambda x: "dacc_leaf %s %s %s ic $i#2 $i#2 (pure { $%s at B5 }) (pure { $%s }) hc;" % (MP, W[x], OP, x, x)), qmove("ic", "$i#2", "0", "$i#2", "$i#2"), HEADQ),
                   inv=[("column", "0 <= $i#2 < $j <= %s" % O)] + DACC("ic", "$i#2", "$j") + DQS("ic", "$i#2", "$j"), var="%s - $j" % O,
                   begin="        label B6 in let ghost jc = $j in %s %s drow_at %s $k $i#2 jc hc; leaf_block %s %s $k hc $i#2 jc; %s" % (mats("ic", "$i#2", "jc"),
                       both(lambda x: "dacc_read %s %s %s ic $i#2 jc (pure { $%s }) ($i#2 + 1) jc; dacc_read %s %s %s ic $i#2 jc (pure { $%s }) $i#2 $i#2;" % (MP, W[x], OP, x, MP, W[x], OP, x)), DP, MP, DP, cell2("$i#2", "jc")),
                   end="        " + both(lambda x: "dacc_leaf %s %s %s ic $i#2 jc (pure { $%s at B6 }) (pure { $%s }) hc;" % (MP, W[x], OP, x, x)) + qstep("B6", "ic", "$i#2", "jc", "hc"),
                   post="        " + amove("ic", "$i#2", "$j", "$i#2 - 1", "0") + qmove("ic", "$i#2", "$j", "$i#2 - 1", "0")),
           7: dict(inv=[("series", "0 <= $k < $vsize"), ("inner node", "%s <= $i <= %s - 1 /\\ $h#2 = %s[$i]" % (L, N, PATH))] + DACC("$i", "(%s - 1)" % O, "0") + DQS("$i", "(%s - 1)" % O, "0"), var="%s - $i" % N,
                   begin="        let ghost ic = $i in let ghost hc = pure { %s[$i] } in path_at %s $i; %s" % (PATH, TREE, cellof),
                   end="        " + both(lambda x: "dacc_node %s %s %s ic (pure { $%s });" % (MP, W[x], OP, x)) + " dqs_node %s ic $k;" % HEADQ,
                   post="        path_at %s $i; let ghost rc = pure { %s[$i] } in %s" % (TREE, PATH, cellof.replace("hc", "rc"))),
           8: dict(inv=[("row", "-1 <= $i#3 < %s" % O)] + DACC("ic", "$i#3", "0") + DQS("ic", "$i#3", "0"), var="$i#3"),
           9: dict(pre="        %s %s" % (amove("ic", "$i#3", "0", "$i#3", "$i#3"), qmove("ic", "$i#3", "0", "$i#3", "$i#3")),
                   inv=[("column", "0 <= $i#3 <= $j#2 <= %s" % O)] + DACC("ic", "$i#3", "$j#2") + DQS("ic", "$i#3", "$j#2"), var="%s - $j#2" % O,
                   begin="        label B9 in let ghost jc = $j#2 in %s block_size %s %s hc $i#3 jc; %s %s" % (mats("ic", "$i#3", "jc"), MP, OP,
                       both(lambda x: "dacc_done %s %s %s ic $i#3 jc (pure { $%s }) hc;" % (MP, W[x], OP, x)), cell2("$i#3", "jc")),
                   end="        " + both(lambda x: "dacc_inner %s %s %s ic $i#3 jc (pure { $%s at B9 }) (pure { $%s }) hc;" % (MP, W[x], OP, x, x)) + qstep("B9", "ic", "$i#3", "jc", "hc"),
                   post="        " + amove("ic", "$i#3", "$j#2", "$i#3 - 1", "0") + qmove("ic", "$i#3", "$j#2", "$i#3 - 1", "0")),
           10: dict(inv=[("row", "-1 <= $i#4 < %s" % O)] + DQS("(%s - 1)" % N, "$i#4", "0"), var="$i#4", post="        dqs_node %s (pure { %s - 1 }) $k;" % (HEADQ, N)),
           11: dict(pre="        " + qmove("(pure { %s - 1 })" % N, "$i#4", "0", "$i#4", "$i#4"),
                    inv=[("column", "0 <= $i#4 <= $j#3 <= %s" % O)] + DQS("(%s - 1)" % N, "$i#4", "$j#3"), var="%s - $j#3" % O,
                    begin="        label B11 in let ghost jc = $j#3 in let ghost hc = $h#2 in %s block_size %s %s hc $i#4 jc; %s %s" % (mats(p(N + " - 1"), p(O + " - 1"), "0"), MP, OP,
                        both(lambda x: "dacc_root %s %s %s (pure { $%s }) $i#4 jc;" % (MP, W[x], OP, x)), cell2("$i#4", "jc")),
                    end="        " + qstep("B11", p(N + " - 1"), "$i#4", "jc", "hc"),
                    post="        " + qmove("(pure { %s - 1 })" % N, "$i#4", "$j#3", "$i#4 - 1", "0"))},
    exit="    dqs_all %s (pure { %s }); dall_widen %s %s (pure { %s }) %s (pure { n_Quality at Pre }) (pure { g_hi }) (pure { n_Quality });" % (HEADQ, K, H, VP, N, OP))
