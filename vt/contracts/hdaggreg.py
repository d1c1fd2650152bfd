"""Aggregates over hierarchical and spatiotemporal partitions (C18)."""
C = {}
def e(v, ix): return v + "".join(".elt[%s]" % i for i in ix)
def build(K, n):
    k = K.lower(); cls = "%sAggregateN%d" % (K, n); fp = "%sAggregateN%d" % (k, n); vt = "%sValuesN%d" % (K, n); vf = "%sValuesN%d" % (k, n)
    nf = n - 1 if K == "H" else n - 2                       # inner dimensions
    bf = k + "Values_"; part = k + "Part_"
    USE = ["vals.Vals", "valview.ValView", "valview.HValView", "hspec.HSpec", "hspec.HTree", "hval.HSum", "hagg.HAgg"]
    base = lambda H: "%s.%s_base.%s" % (H, vf, bf)
    dims = lambda H: [] if nf == 0 else [base(H) + "vsize"] if nf == 1 else ["%s.%s_%s" % (H, vf, x) for x in ["i", "j", "k"][:nf]]
    MD = lambda H: base(H) + "metaData"
    W = lambda H, ix: "(%sw%d %s.%s_values%s)" % (k, n, H, vf, "".join(" " + x for x in ix))
    val = lambda v: ("values present", "0 < %s < n_%s /\\ %s_wf h_%s[%s] /\\ hier %s" % (v, vt, vf, vt, v, MD("h_%s[%s]" % (vt, v))))
    # the sum over the subtree, at fixed coordinates
    T = "this.%s_values" % fp; H = "h_%s[%s]" % (vt, T); m = MD(H)
    ps = ["i", "j", "k"][:nf] + (["o"] if K == "D" else [])
    lim = dims(H) + ([base(H) + "osize"] if K == "D" else [])
    w = W(H, ps[:nf]) + ("[o]" if K == "D" else "")
    C["%s::subSum(%s)" % (cls, ", ".join(["int"] * (1 + len(ps))))] = dict(params=["h"] + ps, use=USE,
        requires=[val(T), ("a node", "0 <= h < %s.meta_hsize" % m)] + ([("coordinates in range", " /\\ ".join("0 <= %s < %s" % z for z in zip(ps, lim)))] if ps else []),
        ensures=[("sum over the leaves below the node", "result = below %s %s h" % (m, w))], variant="ppos %s.meta_path.elt %s.meta_hsize h" % (m, m),
        entry="    subtree (pure { %s }) (pure { %s }) h;" % (m, w),
        loops={1: dict(inv=[("child", "0 <= $ix <= $rng.len /\\ $rng = %s.meta_children.elt[h]" % m), ("children so far", "$sum_t = wcsum %s.meta_parents.elt %s %s.meta_children.elt[h].elt $ix %s.meta_leaveSize" % (m, w, m, m))],
                       var="$rng.len - $ix", begin="        child_at (pure { %s }) (pure { %s }) h $ix;" % (m, w))})
    # the aggregate
    S, M = "this.%s_sum" % fp, "this.%s_mean" % fp
    V = "h_%s[values]" % vt; d = dims(V); idx = ["$i", "$j", "$k"][:nf]
    a, b, hh = [("part." + part + x) for x in ("start", "end", "h")]
    small = [("dimensions fit the loop counters", " /\\ ".join("%s <= 2147483647" % x for x in d + ([base(V) + "osize"] if K == "D" else [])))] if d or K == "D" else []
    PB = "%s_base.%sAggregate_part" % (fp, k)
    FLD = ("part and values", "this.%s = part /\\ this.%s_values = values" % (PB, fp))
    cell = lambda s, mean, ix: "%scell %s %s %s %s part" % (k, MD(V), s, mean, W(V, ix))
    def rows(v, mv, fixed, rest, lens, top):
        """every coordinate extending fixed below v is right"""
        if not rest: return cell(v, mv, fixed)
        x = rest[0]
        inner = rows("%s.elt[%s]" % (v, x), "%s.elt[%s]" % (mv, x), fixed + [x], rest[1:], lens[1:], None)
        return "%s.len = %s /\\ %s.len = %s /\\ forall %s. 0 <= %s < %s -> (%s)" % (v, top or lens[0], mv, top or lens[0], x, x, top or lens[0], inner)
    X = ["x1", "x2", "x3"]
    def inv(t):
        out = [FLD]
        for s in range(t + 1):
            if s < nf:
                out.append(("coordinate %d" % (s + 1), "0 <= %s %s %s" % (idx[s], "<=" if s == t else "<", d[s])))
                sub, subm = e(S, idx[:s]), e(M, idx[:s]); n1 = idx[s] if s == t else idx[s] + " + 1"
                out.append(("one entry per coordinate done (%d)" % (s + 1), "%s.len = %s /\\ %s.len = %s" % (sub, n1, subm, n1)))
                y = X[s]
                out.append(("coordinates done (%d)" % (s + 1), "forall %s. 0 <= %s < %s -> (%s)" % (y, y, idx[s], rows(e(S, idx[:s] + [y]), e(M, idx[:s] + [y]), idx[:s] + [y], X[s + 1:nf], d[s + 1:], None))))
        if t == nf: out += [("elements", "%s <= $o <= %s + 1" % (a, b)), ("sum so far", "%s = dseg %s %s %s %s $o" % (e(S, idx), MD(V), W(V, idx), hh, a))]
        return out
    nl = nf if K == "H" else nf + 1
    loops = {t + 1: dict(inv=inv(t), var=("%s - %s" % (d[t], idx[t])) if t < nf else "%s - $o" % b) for t in range(nl)}
    OK = lambda o: "%sagg%d %s %s.%s_sum %s.%s_mean %s.%s_values %s.%s%s" % (k, n, MD(V), o, fp, o, fp, V, vf, o, PB, "".join(" " + x for x in d))
    def okpart(p): return "0 <= %s.%sh < %s.meta_hsize" % (p, part, MD(V)) + (" /\\ 0 < %s.hPart_size <= 2147483647" % p if K == "H" else
        " /\\ 0 <= {0}.dPart_start <= {0}.dPart_end < {1}osize /\\ 0 < {0}.dPart_hsize <= 2147483647 /\\ {0}.dPart_hsize * ({0}.dPart_end - {0}.dPart_start + 1) <= 2147483647".format(p, base(V)))
    C["%s::%s(%sPart, shared_ptr<%s>)" % (cls, cls, K, vt)] = dict(params=["part", "values"], use=USE, open=["%scell" % k, "%sagg%d" % (k, n)],
        requires=[val("values")] + small + [("part lies in the hierarchy", okpart("part"))],
        ensures=[("part kept", "result.%s = part" % PB), ("values kept", "result.%s_values = values" % fp), ("sum and mean over the block", OK("result"))], loops=loops)
    P = "h_%sPartition[partition].%sPartition_parts" % (K, k)
    A = lambda x: "%s.%sAggregationN%d_aggregates" % (x, k, n)
    C["%sAggregationN%d::%sAggregationN%d(shared_ptr<%sPartition>, shared_ptr<%s>)" % (K, n, K, n, K, vt)] = dict(params=["partition", "values"], use=USE,
        requires=[val("values")] + small + [("partition present", "0 < partition < n_%sPartition /\\ 0 <= %s.len" % (K, P)), ("parts lie in the hierarchy", "forall x. 0 <= x < %s.len -> %s" % (P, okpart(P + ".elt[x]")))],
        ensures=[("one aggregate per part", "%s.len = %s.len" % (A("result"), P)),
                 ("aggregates in the order of the parts", "forall x. 0 <= x < %s.len -> %s.elt[x].%s = %s.elt[x]" % (P, A("result"), PB, P)),
                 ("sum and mean over each part's block", "forall x. 0 <= x < %s.len -> %s" % (P, OK(A("result") + ".elt[x]")))],
        loops={1: dict(inv=[("position", "0 <= $ix <= $rng.len /\\ $rng = %s /\\ %s.len = $ix" % (P, A("this"))),
                            ("aggregates in the order of the parts", "forall x. 0 <= x < $ix -> %s.elt[x].%s = %s.elt[x]" % (A("this"), PB, P)),
                            ("sum and mean over each part's block", "forall x. 0 <= x < $ix -> %s" % OK(A("this") + ".elt[x]"))], var="$rng.len - $ix")})
for n in (1, 2, 3, 4): build("H", n)
for n in (2, 3, 4): build("D", n)
