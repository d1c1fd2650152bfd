"""UpperTriangularMatrix (C15)."""
C = {}
USE = ["utm.UTM", "utmidx.UTMIdx"]
def at(m, i, j): return "%s.utm_matrix.elt[idx %s.utm_size %s %s]" % (m, m, i, j)
def wf(m): return "utm_wf %s.utm_size %s.utm_elements %s.utm_matrix.len" % (m, m, m)
ENTRY = "    assert { idx_machine this.utm_size i j };"
SZ = ("size", "n <= 65535")
def build(T, zero):
    K = "UpperTriangularMatrix<%s>::" % T
    NEW = [("well formed", wf("result")), ("size is the argument", "result.utm_size = n")]
    C[K + "UpperTriangularMatrix(unsigned int)"] = d = dict(params=["n"], use=USE + ["qspec.QSpec", "utmmachine.UTMMachine"], entry="    assert { elems_machine n };", requires=[SZ], open=[])
    if zero is not None:
        d["ensures"] = NEW + [("every pair starts at 0", "forall k. 0 <= k < result.utm_matrix.len -> result.utm_matrix.elt[k] = " + zero)]
    else:
        h = T[11:-1]
        d["requires"] = [SZ, ("heap", "n_Quality > 0 /\\ n_Tradeoff > 0")] if h == "Tradeoff" else [SZ, ("heap", "n_Quality > 0")]
        heaps = ["Quality"] + (["Tradeoff"] if h == "Tradeoff" else [])
        v = "v"
        fresh = lambda m, old: "forall k. 0 <= k < %s.len -> %s <= %s.elt[k] < n_%s /\\ %s.elt[k] > 0" % (m, old("n_" + h), m, h, m)
        dist = lambda m: "forall k l. 0 <= k < l < %s.len -> %s.elt[k] < %s.elt[l]" % (m, m, m)
        if h == "Quality":
            zero_ = lambda m: "forall k. 0 <= k < %s.len -> h_Quality[%s.elt[k]] = { quality_gain = 0.0; quality_loss = 0.0 }" % (m, m)
            extra = lambda m, old: []
        else:
            zero_ = lambda m: "forall k. 0 <= k < %s.len -> h_Tradeoff[%s.elt[k]].tradeoff_value = 0.0 /\\ h_Quality[h_Tradeoff[%s.elt[k]].tradeoff_quality] = { quality_gain = 0.0; quality_loss = 0.0 }" % (m, m, m)
            extra = lambda m, old: [("fresh qualities", "forall k. 0 <= k < %s.len -> %s <= h_Tradeoff[%s.elt[k]].tradeoff_quality < n_Quality /\\ h_Tradeoff[%s.elt[k]].tradeoff_quality > 0" % (m, old("n_Quality"), m, m)),
                                    ("distinct qualities", "forall k l. 0 <= k < l < %s.len -> h_Tradeoff[%s.elt[k]].tradeoff_quality < h_Tradeoff[%s.elt[l]].tradeoff_quality" % (m, m, m))]
        o = lambda x: "old " + x
        d["ensures"] = NEW + [("every pair holds a fresh object", fresh("result.utm_matrix", o)), ("objects of different pairs are distinct", dist("result.utm_matrix")),
                              ("every object starts at 0", zero_("result.utm_matrix"))] + extra("result.utm_matrix", o)
        a = lambda x: "(%s at Pre)" % x
        M = "this.utm_matrix"
        d["loops"] = {1: dict(inv=[("count", "0 <= $i <= this.utm_elements /\\ %s.len = $i" % M), ("dims", "this.utm_size = n /\\ 2 * this.utm_elements = n * (n + 1)"),
                                   ("fresh objects", fresh(M, a)), ("distinct objects", dist(M)), ("zero objects", zero_(M))] + extra(M, a))}
    vt = T if not T.startswith("shared") else T
    C[K + "UpperTriangularMatrix(unsigned int, %s)" % T] = dict(params=["n", "v"], use=USE + ["utmmachine.UTMMachine"], entry="    assert { elems_machine n };", requires=[SZ], open=[],
        ensures=NEW + [("every pair starts at the given value", "forall k. 0 <= k < result.utm_matrix.len -> result.utm_matrix.elt[k] = v")])
    IN = ("pair in range", "pair this.utm_size i j")
    C[K + "operator()(unsigned int, unsigned int)"] = dict(params=["i", "j"], use=USE + ["utmmachine.UTMMachine"], entry=ENTRY, requires=[("well formed", wf("this")), IN], open=[],
        ensures=[("reads the pair", "result = " + at("this", "i", "j"))])
    C[K + "operator()(unsigned int, unsigned int, %s)" % T] = dict(params=["i", "j", "v"], use=USE + ["utmmachine.UTMMachine"], entry=ENTRY, requires=[("well formed", wf("this")), IN], open=[],
        this_mod=["utm_matrix"],
        ensures=[("length kept", "this.utm_matrix.len = (old this).utm_matrix.len"),
                 ("writes the pair", at("this", "i", "j") + " = v"),
                 ("only that element is written", "this.utm_matrix.elt = (old this).utm_matrix.elt[idx this.utm_size i j <- v]"),
                 ("no other pair changes", "forall k l. pair this.utm_size k l -> not (k = i /\\ l = j) -> %s = %s" % (at("this", "k", "l"), at("(old this)", "k", "l")))])
    C[K + "operator[](unsigned int)"] = dict(params=["k"], requires=[("index in range", "0 <= k < this.utm_matrix.len")], ensures=[("reads the element", "result = this.utm_matrix.elt[k]")])
    C[K + "getElements()"] = dict(ensures=[("elements", "result = this.utm_elements")])
    C[K + "getSize()"] = dict(ensures=[("size", "result = this.utm_size")])
for T, z in (("double", "0.0"), ("int", "0"), ("long double", "0.0"), ("shared_ptr<Quality>", None), ("shared_ptr<Tradeoff>", None)): build(T, z)
