"""Parameter selection and area under the curve (C14)."""
C = {}
L, M = "this.partitioner_pList", "this.partitioner_qualityList"
OK = [("listed parameters have qualities", "listed_q %s %s n_Quality" % (L, M)), ("fewer than 2^31 parameters", "0 < %s.len <= 2147483647" % L)]
SC = lambda k: "score (pq h_Quality %s %s %s)" % (M, L, k)
KEEP = ("results of the sweep kept", "this = (old this)")
INV = ("results of the sweep kept", "this = (this at Pre)")
C["Partitioner::getP(int)"] = dict(params=["strategy"], use=["sweepq.SweepQ"], open=[],
    requires=[("parameters increase", "strategy = 1 \\/ strategy = 2 -> incr %s" % L), ("machine range", "-2147483648 <= strategy <= 2147483647")] + [(n, "strategy = 1 \\/ strategy = 2 -> " + f) for n, f in OK],
    ensures=[("minimal parameter is 0", "strategy = 0 -> result = 0.0"),
             ("maximal parameter is the last listed", "strategy = 1 -> result = %s.elt[%s.len - 1]" % (L, L)),
             ("optimal parameter is listed and minimises the score, the largest among ties",
              "strategy = 2 -> exists k. 0 <= k < %s.len /\\ result = %s.elt[k] /\\ (forall j. 0 <= j < %s.len -> %s <=. %s) /\\ (forall j. k < j < %s.len -> %s <. %s)" % (L, L, L, SC("k"), SC("j"), L, SC("k"), SC("j"))), KEEP],
    loops={1: dict(inv=[("position", "0 <= $ix <= $rng.len /\\ $rng = %s" % L), INV, ("nothing found yet", "$found <-> $ix > 0"),
                        ("best so far", "$found -> exists k. 0 <= k < $ix /\\ $popt = %s.elt[k] /\\ $score = %s /\\ (forall j. 0 <= j < $ix -> %s <=. %s) /\\ (forall j. k < j < $ix -> %s <. %s)" % (L, SC("k"), SC("k"), SC("j"), SC("k"), SC("j")))],
                   var="$rng.len - $ix", begin="label B1 in",
                   end="""        score_def (pure { pq h_Quality %s %s ($ix - 1) });
        assert { [@expl:parameter kept or replaced] ($found at B1 /\\ $popt = ($popt at B1) /\\ $score = ($score at B1) /\\ $score <. %s) \\/ ($popt = %s.elt[$ix - 1] /\\ $score = %s /\\ ($found at B1 -> $score <=. ($score at B1))) };
        assert { [@expl:all scores so far are at least the best] forall j. 0 <= j < $ix -> $score <=. %s };""" % (M, L, SC("($ix - 1)"), L, SC("($ix - 1)"), SC("j")))})
C["Partitioner::computeAUC()"] = dict(exact=True, use=["sweepq.SweepQ"], requires=OK,
    ensures=[("one minus the area under the curve", "result = 1.0 -. area h_Quality %s %s (%s.len - 1)" % (M, L, L)), KEEP],
    loops={1: dict(inv=[("position", "0 <= $i <= %s.len - 1" % L), INV, ("area so far", "$auc = area h_Quality %s %s $i" % (M, L))], var="%s.len - $i" % L)})
