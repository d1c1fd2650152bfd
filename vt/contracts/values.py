"""Value containers (C16): what is stored is what is read, also through the flat view."""
C = {}
U32 = 4294967295
def vt(n): return "vector<" * n + "double" + ">" * n
def elt(v, ix): return v + "".join(".elt[%s]" % i for i in ix)
DIM = lambda v, k, n: "%s.len" % v if k == 0 else "d%d_%d %s" % (k + 1, n, v)
AX = ["x1", "x2", "x3", "x4"]
def build(K, n):
    """K: O, H, D.  n: number of dimensions.  Flat dimensions are those that are neither leaves nor ordered elements"""
    cls = "%sValuesN%d" % (K, n); fp = "%sValuesN%d" % (K.lower(), n); bf = K.lower() + "Values_"
    lead = 0 if K == "O" else 1; trail = 0 if K == "H" else 1
    nf = n - lead - trail                                  # flat dimensions
    ijk = ["i", "j", "k"][:nf] if nf >= 2 else []
    def dims(o):
        b = "%s.%s_base.%s" % (o, fp, bf)
        return (["%smetaData.meta_leaveSize" % b] if lead else []) + (["%s.%s_%s" % (o, fp, x) for x in ijk] if ijk else ["%svsize" % b] if nf == 1 else []) + (["%sosize" % b] if trail else [])
    V = lambda o: "%s.%s_values" % (o, fp)
    vs = lambda o: "%s.%s_base.%svsize" % (o, fp, bf)
    wf = "%s_wf" % fp
    use = ["vals.Vals", "valview.ValView"] + ([] if K == "O" else ["valview.HValView", "hspec.HSpec"])
    # constructors
    cp = ["leaves"] if lead else []
    flat = ijk if ijk else ["vsize"] if nf == 1 else []
    sizes = cp + flat + (["osize"] if trail else [])
    D = [DIM("vs", k, n) for k in range(n)]
    prod = lambda l: " * ".join(l) if l else "1"
    fl = lambda l: l[lead:lead + nf]
    par = ["par"] if lead else []
    hreq = lambda leaves: [("valid hierarchy", "valid_parents %s par" % leaves)] if lead else []
    hens = lambda leaves: [("hierarchy of the parent list", "meta_of %s par result.%s_base.%smetaData" % (leaves, fp, bf))] if lead else []
    def post(sz): return [("well formed container", "%s result" % wf), ("size of the flat view", "%s = %s" % (vs("result"), prod(fl(sz))))] + [("dimension %d" % (k + 1), "%s = %s" % (dims("result")[k], sz[k])) for k in range(n)]
    C["%s::%s(%s%s)" % (cls, cls, vt(n), ", vector<int>" if lead else "")] = dict(params=["vs"] + par, use=use,
        requires=[("rectangular data", "shape%d vs %s" % (n, " ".join("(%s)" % d for d in D))), ("sizes fit", " /\\ ".join("0 <= %s <= 2147483647" % d for d in D) + " /\\ 0 <= %s <= %d" % (prod(fl(D)), U32))] + hreq(D[0]),
        ensures=post(D) + [("holds the values given", "%s = vs" % V("result"))] + hens(D[0]))
    C["%s::%s(%s%s)" % (cls, cls, ", ".join(["unsigned int"] * len(sizes)), ", vector<int>" if lead else "")] = dict(params=sizes + par, use=use,
        requires=[("sizes fit", " /\\ ".join("%s <= 2147483647" % d for d in sizes) + " /\\ %s <= %d" % (prod(fl(sizes)), U32))] + hreq("leaves"),
        ensures=post(sizes) + [("all values are 0", "forall %s. %s -> %s = 0.0" % (" ".join(AX[:n]), " /\\ ".join("0 <= %s < %s" % (x, d) for x, d in zip(AX, sizes)), elt(V("result"), AX[:n])))] + hens("leaves"))
    # element access
    W = [("well formed container", "%s this" % wf)]
    ix = AX[:n]
    names = ["a1", "a2", "a3", "a4"][:n]
    inr = ("coordinates in range", " /\\ ".join("0 <= %s < %s" % (a, d) for a, d in zip(names, dims("this"))))
    C["%s::operator()(%s)" % (cls, ", ".join(["unsigned int"] * n))] = dict(params=names, use=use, requires=W + [inr], ensures=[("value stored there", "result = %s" % elt(V("this"), names))])
    C["%s::operator()(%s, double)" % (cls, ", ".join(["unsigned int"] * n))] = dict(params=names + ["v"], use=use, requires=W + [inr], this_mod=[fp + "_values"],
        ensures=W + [("value stored there", "%s = v" % elt(V("this"), names)),
                 ("no other coordinate changes", "forall %s. %s -> not (%s) -> %s = %s" % (" ".join(ix), " /\\ ".join("0 <= %s < %s" % (x, d) for x, d in zip(ix, dims("this"))), " /\\ ".join("%s = %s" % z for z in zip(ix, names)), elt(V("this"), ix), elt(V("(old this)"), ix)))])
    for g, x in zip(["getI", "getJ", "getK"], ijk):
        C["%s::%s()" % (cls, g)] = dict(inline=True, requires=[("machine range of the field", "0 <= this.%s_%s <= 4294967295" % (fp, x))], ensures=[("dimension", "result = this.%s_%s" % (fp, x))])
    # flat view
    f = "%s::operator[](unsigned int)" % cls if K == "O" else "%s::getValue(int, int)" % cls
    fpar = ["x"] if K == "O" else ["h", "x"]
    req = W + [("flat index in range", "0 <= x < %s" % vs("this"))] + ([("leaf", "0 <= h < %s" % dims("this")[0])] if lead else [])
    hd = ["h"] if lead else []
    d = dims("this")
    if nf == 0: ens = "result = %s" % elt(V("this"), hd); ent = ""
    elif nf == 1: ens = "result = %s" % elt(V("this"), hd + ["x"]); ent = ""
    elif nf == 2:
        ens = "forall a b. 0 <= a < %s -> 0 <= b < %s -> x = a * %s + b -> result = %s" % (d[lead], d[lead + 1], d[lead + 1], elt(V("this"), hd + ["a", "b"]))
        ent = "    flat_dim2 x (pure { %s }) (pure { %s }); flat2 x (pure { %s });" % (d[lead], d[lead + 1], d[lead + 1])
    else:
        ens = "forall a b c. 0 <= a < %s -> 0 <= b < %s -> 0 <= c < %s -> x = (a * %s + b) * %s + c -> result = %s" % (d[lead], d[lead + 1], d[lead + 2], d[lead + 1], d[lead + 2], elt(V("this"), hd + ["a", "b", "c"]))
        ent = "    flat_dim3 x (pure { %s }) (pure { %s }) (pure { %s }); flat3 x (pure { %s }) (pure { %s });" % (tuple(d[lead:lead + 3]) + tuple(d[lead + 1:lead + 3]))
    C[f] = dict(params=fpar, use=use, requires=req, entry=ent, ensures=[("row-major flat view", ens)] +
        ([("flat view used by the computations", "result = %s_at this h x" % fp)] if K == "H" else
         [("one value per element", "result.len = %s" % d[-1]), ("flat view used by the computations", "forall o. 0 <= o < %s -> result.elt[o] = %s_at this %s o" % (d[-1], fp, " ".join(fpar)))]))
for n in (1, 2, 3, 4): build("O", n)
for n in (1, 2, 3, 4): build("H", n)
for n in (2, 3, 4): build("D", n)
# the base classes
C["OValues::operator[](unsigned int)"] = dict(params=["x"], use=["vals.Vals", "valview.ValView"], requires=[("well formed container", "ov_wf this"), ("flat index in range", "0 <= x < (dynbase_OValues this).oValues_vsize")],
    ensures=[("one value per element", "result.len = (dynbase_OValues this).oValues_osize"), ("flat view", "forall o. 0 <= o < result.len -> result.elt[o] = ov_at this x o")])
UH = ["vals.Vals", "valview.ValView", "valview.HValView", "hspec.HSpec"]
def base(K, k):
    b = "(dynbase_%sValues %%s).%sValues_" % (K, k); at = ("result = %sv_at %%s h x" % k) if K == "H" else "result.len = %sosize /\\ forall o. 0 <= o < result.len -> result.elt[o] = dv_at %%s h x o" % b
    req = lambda o, h, x: [("well formed container", "%sv_wf %s" % (k, o)), ("leaf", "0 <= %s < %smetaData.meta_leaveSize" % (h, b % o)), ("flat index in range", "0 <= %s < %svsize" % (x, b % o))]
    C["%sValues::getValue(int, int)" % K] = dict(params=["h", "x"], use=UH, requires=req("this", "h", "x"), ensures=[("flat view", at.replace("%s", "this"))])
    C["%sValues::operator[](unsigned int)" % K] = dict(params=["h"], inline=True, use=UH, requires=[("machine range", "h <= 2147483647")], ensures=[("the row of this container", "result.%(k)sValuesProxy_%(k)svalues = this /\\ result.%(k)sValuesProxy_h = h" % dict(k=k))])
    o = "h_%sValues[this.%sValuesProxy_%svalues]" % (K, k, k); h = "this.%sValuesProxy_h" % k
    C["%sValuesProxy::operator[](unsigned int)" % K] = dict(params=["x"], inline=True, use=UH, requires=[("container", "this.%sValuesProxy_%svalues > 0" % (k, k)), ("machine range", "x <= 2147483647")] + req(o, h, "x"), ensures=[("flat view", at.replace("%s", o).replace(" h x", " %s x" % h))])
    C["%sValues::%sValues(unsigned int, unsigned int, %svector<int>)" % (K, K, "unsigned int, " if K == "D" else "")] = dict(params=["leaves", "vs"] + (["os"] if K == "D" else []) + ["par"], use=UH, requires=[("valid hierarchy", "valid_parents leaves par")],
        ensures=[("sizes", "result.%sValues_vsize = vs" % k + (" /\\ result.dValues_osize = os" if K == "D" else "")), ("hierarchy of the parent list", "meta_of leaves par result.%sValues_metaData" % k)])
base("H", "h"); base("D", "d")
