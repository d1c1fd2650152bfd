"""Aggregates over an ordered partition (C17)."""
C = {}
def e(v, ix): return v + "".join(".elt[%s]" % i for i in ix)
def build(n):
    cls = "OAggregateN%d" % n; fp = "oAggregateN%d" % n; vt = "OValuesN%d" % n; vf = "oValuesN%d" % n
    H = "h_%s[values]" % vt
    VAL = lambda h: "%s[values].%s_values" % (h, vf)
    nf = n - 1
    dims = [] if nf == 0 else ["%s.%s_base.oValues_vsize" % (H, vf)] if nf == 1 else ["%s.%s_%s" % (H, vf, x) for x in ["i", "j", "k"][:nf]]
    OS = "%s.%s_base.oValues_osize" % (H, vf)
    use = ["vals.Vals", "valview.ValView", "seg.Seg"]
    values = ("values present", "0 < values < n_%s /\\ %s_wf %s" % (vt, vf, H))
    small = ("dimensions fit the loop counters", " /\\ ".join("%s <= 2147483647" % d for d in dims + [OS]))
    S, M = "this.%s_sum" % fp, "this.%s_mean" % fp
    W = "h_%s[values].%s_values" % (vt, vf)
    idx = ["$i", "$j", "$k"][:nf]
    a, b = "part.oPart_start", "part.oPart_end"
    FLD = ("part and values", "this.%s_base.oAggregate_part = part /\\ this.%s_values = values" % (fp, fp))
    def inv(t):
        """loop t (0-based) over idx[t]; t = nf is the loop over the elements"""
        out = [FLD]
        for s in range(t + 1):
            if s < nf:
                out.append(("coordinate %d" % (s + 1), "0 <= %s %s %s" % (idx[s], "<=" if s == t else "<", dims[s])))
                sub, subm = e(S, idx[:s]), e(M, idx[:s])
                n1 = idx[s] if s == t else idx[s] + " + 1"
                out.append(("one entry per coordinate done (%d)" % (s + 1), "%s.len = %s /\\ %s.len = %s" % (sub, n1, subm, n1)))
                out.append(("coordinates done (%d)" % (s + 1), "forall x. 0 <= x < %s -> %s %s %s %s %s %s" % (idx[s], "okrow" if s == nf - 1 else "okseg%d" % (nf - s), e(S, idx[:s] + ["x"]), e(M, idx[:s] + ["x"]), e(W, idx[:s] + ["x"]), a, b)))
        if t == nf:
            out += [("elements", "%s <= $o <= %s + 1" % (a, b)), ("sum so far", "%s = seg (%s).elt %s $o" % (e(S, idx), e(W, idx), a))]
        return out
    loops = {t + 1: dict(inv=inv(t), var=("%s - %s" % (dims[t], idx[t])) if t < nf else "%s - $o" % b) for t in range(nf + 1)}
    OK = lambda x: "okseg%d %s.%s_sum %s.%s_mean %s %s.%s_base.oAggregate_part.oPart_start %s.%s_base.oAggregate_part.oPart_end" % (n, x, fp, x, fp, W, x, fp, x, fp)
    C["%s::%s(OPart, shared_ptr<%s>)" % (cls, cls, vt)] = dict(params=["part", "values"], use=use, open=["okseg1", "okseg2", "okseg3", "okseg4"],
        requires=[values, small, ("part lies in the dimension", "0 <= %s <= %s < %s" % (a, b, OS))],
        ensures=[("part kept", "result.%s_base.oAggregate_part = part" % fp), ("values kept", "result.%s_values = values" % fp), ("sum and mean over the interval", OK("result"))], loops=loops)
    P = "h_OPartition[opartition].oPartition_parts"
    A = lambda x: "%s.oAggregationN%d_aggregates" % (x, n)
    C["OAggregationN%d::OAggregationN%d(shared_ptr<OPartition>, shared_ptr<%s>)" % (n, n, vt)] = dict(params=["opartition", "values"], use=use,
        requires=[values, small, ("partition present", "0 < opartition < n_OPartition /\\ 0 <= %s.len" % P), ("parts lie in the dimension", "forall k. 0 <= k < {0}.len -> 0 <= {0}.elt[k].oPart_start <= {0}.elt[k].oPart_end < {1}".format(P, OS))],
        ensures=[("one aggregate per part", "%s.len = %s.len" % (A("result"), P)),
                 ("aggregates in the order of the parts", "forall k. 0 <= k < %s.len -> %s.elt[k].%s_base.oAggregate_part = %s.elt[k]" % (P, A("result"), fp, P)),
                 ("sum and mean over each part's interval", "forall k. 0 <= k < %s.len -> %s" % (P, OK(A("result") + ".elt[k]")))],
        loops={1: dict(inv=[("position", "0 <= $ix <= $rng.len /\\ $rng = %s /\\ %s.len = $ix" % (P, A("this"))),
                            ("aggregates in the order of the parts", "forall k. 0 <= k < $ix -> %s.elt[k].%s_base.oAggregate_part = %s.elt[k]" % (A("this"), fp, P)),
                            ("sum and mean over each part's interval", "forall k. 0 <= k < $ix -> %s" % OK(A("this") + ".elt[k]"))], var="$rng.len - $ix")})
for n in (1, 2, 3, 4): build(n)
