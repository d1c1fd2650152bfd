"""Quality and Tradeoff (C19, C20)."""
C = {}
G, L = "quality_gain", "quality_loss"
def q(p): return "h_Quality[%s]" % p
def oq(p): return "(old h_Quality)[%s]" % p
FRESHQ = ("fresh quality", "old n_Quality <= result < n_Quality /\\ result > 0")

C["Quality::Quality()"] = dict(requires=[("heap", "n_Quality > 0")], ensures=[FRESHQ, ("gain is 0", "h_Quality[result].quality_gain = 0.0"), ("loss is 0", "h_Quality[result].quality_loss = 0.0")])
C["Quality::Quality(long double, long double)"] = dict(params=["gain", "loss"], requires=[("heap", "n_Quality > 0")],
    ensures=[FRESHQ, ("gain is the argument", "h_Quality[result].quality_gain = gain"), ("loss is the argument", "h_Quality[result].quality_loss = loss")])
C["Quality::getGain()"] = dict(ensures=[("gain", "result = h_Quality[this].quality_gain")])
C["Quality::getLoss()"] = dict(ensures=[("loss", "result = h_Quality[this].quality_loss")])
MOD = {"Quality": "p_ = this"}
C["Quality::setGain(long double)"] = dict(params=["x"], modifies=MOD, ensures=[("gain set", "h_Quality[this] = { (old h_Quality)[this] with quality_gain = x }")])
C["Quality::setLoss(long double)"] = dict(params=["x"], modifies=MOD, ensures=[("loss set", "h_Quality[this] = { (old h_Quality)[this] with quality_loss = x }")])
C["Quality::addToGain(long double)"] = dict(params=["x"], modifies=MOD, ensures=[("gain increased", "h_Quality[this] = { (old h_Quality)[this] with quality_gain = (old h_Quality)[this].quality_gain +. x }")])
C["Quality::addToLoss(long double)"] = dict(params=["x"], modifies=MOD, ensures=[("loss increased", "h_Quality[this] = { (old h_Quality)[this] with quality_loss = (old h_Quality)[this].quality_loss +. x }")])
for op, o in (("+", "+."), ("-", "-."), ("*", "*."), ("/", "/.")):
    nz = [("components of the divisor are not zero", "h_Quality[%s].quality_gain <> 0.0 /\\ h_Quality[%s].quality_loss <> 0.0")] if op == "/" else []
    C["Quality::operator%s=(Quality&)" % op] = dict(params=["r"], modifies=MOD, requires=[(n, f % ("r", "r")) for n, f in nz],
        ensures=[("gain combined", "h_Quality[this].quality_gain = (old h_Quality)[this].quality_gain %s (old h_Quality)[r].quality_gain" % o),
                 ("loss combined", "h_Quality[this].quality_loss = (old h_Quality)[this].quality_loss %s (old h_Quality)[r].quality_loss" % o),
                 ("nothing else written", "forall p_:int. p_ <> this -> h_Quality[p_] = (old h_Quality)[p_]")])
    C["operator%s(Quality&, Quality&)" % op] = dict(params=["a", "b"], requires=[("heap", "0 < a < n_Quality /\\ 0 < b < n_Quality")] + [(n, f % ("b", "b")) for n, f in nz],
        ensures=[FRESHQ, ("gain combined", "h_Quality[result].quality_gain = (old h_Quality)[a].quality_gain %s (old h_Quality)[b].quality_gain" % o),
                 ("loss combined", "h_Quality[result].quality_loss = (old h_Quality)[a].quality_loss %s (old h_Quality)[b].quality_loss" % o)])
C["operator==(Quality&, Quality&)"] = dict(params=["a", "b"], use=["qspec.QSpec"], open=["pic"],
    ensures=[("equality is the documented relation", "result <-> q_equal h_Quality[a] h_Quality[b]")])
C["operator!=(Quality&, Quality&)"] = dict(params=["a", "b"], use=["qspec.QSpec"], open=["pic"],
    ensures=[("inequality is the negation of equality", "result <-> not (q_equal h_Quality[a] h_Quality[b])")])

# ------------------------------------------------------------------ Tradeoff
PIC = "pic p h_Quality[%s]"
OLDHEAP = ("heap", "n_Quality > 0 /\\ n_Tradeoff > 0")
FRESHT = ("fresh tradeoff", "old n_Tradeoff <= result < n_Tradeoff /\\ result > 0")
PRIV = ("private copy of the quality", "old n_Quality <= h_Tradeoff[result].tradeoff_quality < n_Quality /\\ h_Tradeoff[result].tradeoff_quality > 0")
def same(src): return ("copied quality has the same components", "h_Quality[h_Tradeoff[result].tradeoff_quality] = (old h_Quality)[%s]" % src)
QA = ("quality argument", "0 < qa < n_Quality")
C["Tradeoff::Tradeoff()"] = dict(use=["qspec.QSpec"], open=["pic"], requires=[OLDHEAP],
    ensures=[FRESHT, PRIV, ("zero", "h_Tradeoff[result].tradeoff_value = 0.0 /\\ h_Quality[h_Tradeoff[result].tradeoff_quality] = { quality_gain = 0.0; quality_loss = 0.0 }")])
C["Tradeoff::Tradeoff(long double, shared_ptr<Quality>)"] = dict(params=["v", "qa"], requires=[OLDHEAP, QA],
    ensures=[FRESHT, PRIV, same("qa"), ("value is the argument", "h_Tradeoff[result].tradeoff_value = v")])
C["Tradeoff::Tradeoff(shared_ptr<Quality>)"] = dict(params=["qa"], requires=[OLDHEAP, QA],
    ensures=[FRESHT, PRIV, same("qa"), ("value is 0", "h_Tradeoff[result].tradeoff_value = 0.0")])
C["Tradeoff::Tradeoff(shared_ptr<Quality>, float)"] = dict(params=["qa", "p"], use=["qspec.QSpec"], open=["pic"], requires=[OLDHEAP, QA],
    ensures=[FRESHT, PRIV, same("qa"), ("value is p*gain-(1-p)*loss", "h_Tradeoff[result].tradeoff_value = pic p (old h_Quality)[qa]")])
C["Tradeoff::computePIC(float)"] = dict(params=["p"], use=["qspec.QSpec"], open=["pic"], requires=[("quality present", "h_Tradeoff[this].tradeoff_quality <> 0")],
    modifies={"Tradeoff": "p_ = this"},
    ensures=[("value is p*gain-(1-p)*loss", "h_Tradeoff[this] = { (old h_Tradeoff)[this] with tradeoff_value = pic p h_Quality[(old h_Tradeoff)[this].tradeoff_quality] }"),
             ("only this", "forall p_:int. p_ <> this -> h_Tradeoff[p_] = (old h_Tradeoff)[p_]")])
C["Tradeoff::set(shared_ptr<Quality>, float)"] = dict(params=["qa", "p"], use=["qspec.QSpec"], open=["pic"], requires=[OLDHEAP, QA],
    modifies={"Tradeoff": "p_ = this"},
    ensures=[("private copy of the quality", "old n_Quality <= h_Tradeoff[this].tradeoff_quality < n_Quality /\\ h_Tradeoff[this].tradeoff_quality > 0"),
             ("copied quality has the same components", "h_Quality[h_Tradeoff[this].tradeoff_quality] = (old h_Quality)[qa]"),
             ("value is p*gain-(1-p)*loss", "h_Tradeoff[this].tradeoff_value = pic p (old h_Quality)[qa]"),
             ("only this", "forall p_:int. p_ <> this -> h_Tradeoff[p_] = (old h_Tradeoff)[p_]")])
C["Tradeoff::getQuality()"] = dict(ensures=[("quality", "result = h_Tradeoff[this].tradeoff_quality")])
C["Tradeoff::getValue()"] = dict(ensures=[("value", "result = h_Tradeoff[this].tradeoff_value")])
for op, o in (("+", "+."), ("-", "-."), ("*", "*."), ("/", "/.")):
    def nz(p): return [("components of the divisor are not zero", "h_Tradeoff[%s].tradeoff_value <> 0.0 /\\ h_Quality[h_Tradeoff[%s].tradeoff_quality].quality_gain <> 0.0 /\\ h_Quality[h_Tradeoff[%s].tradeoff_quality].quality_loss <> 0.0" % (p, p, p))] if op == "/" else []
    C["Tradeoff::operator%s=(Tradeoff&)" % op] = dict(params=["r"], 
        requires=[("qualities present", "h_Tradeoff[this].tradeoff_quality <> 0 /\\ h_Tradeoff[r].tradeoff_quality <> 0")] + nz("r"),
        modifies={"Tradeoff": "p_ = this", "Quality": "p_ = (old h_Tradeoff)[this].tradeoff_quality"},
        ensures=[("value combined", "h_Tradeoff[this].tradeoff_value = (old h_Tradeoff)[this].tradeoff_value %s (old h_Tradeoff)[r].tradeoff_value" % o),
                 ("quality kept private", "h_Tradeoff[this].tradeoff_quality = (old h_Tradeoff)[this].tradeoff_quality"),
                 ("gain combined", "h_Quality[h_Tradeoff[this].tradeoff_quality].quality_gain = (old h_Quality)[(old h_Tradeoff)[this].tradeoff_quality].quality_gain %s (old h_Quality)[(old h_Tradeoff)[r].tradeoff_quality].quality_gain" % o),
                 ("loss combined", "h_Quality[h_Tradeoff[this].tradeoff_quality].quality_loss = (old h_Quality)[(old h_Tradeoff)[this].tradeoff_quality].quality_loss %s (old h_Quality)[(old h_Tradeoff)[r].tradeoff_quality].quality_loss" % o),
                 ("only this tradeoff", "forall p_:int. p_ <> this -> h_Tradeoff[p_] = (old h_Tradeoff)[p_]"),
                 ("only this quality", "forall p_:int. p_ <> (old h_Tradeoff)[this].tradeoff_quality -> h_Quality[p_] = (old h_Quality)[p_]")])
    C["operator%s(Tradeoff&, Tradeoff&)" % op] = dict(params=["a", "b"],
        requires=[OLDHEAP, ("operands", "0 < a < n_Tradeoff /\\ 0 < b < n_Tradeoff /\\ 0 < h_Tradeoff[a].tradeoff_quality < n_Quality /\\ 0 < h_Tradeoff[b].tradeoff_quality < n_Quality")] + nz("b"),
        ensures=[FRESHT, PRIV, ("value combined", "h_Tradeoff[result].tradeoff_value = (old h_Tradeoff)[a].tradeoff_value %s (old h_Tradeoff)[b].tradeoff_value" % o),
                 ("gain combined", "h_Quality[h_Tradeoff[result].tradeoff_quality].quality_gain = (old h_Quality)[(old h_Tradeoff)[a].tradeoff_quality].quality_gain %s (old h_Quality)[(old h_Tradeoff)[b].tradeoff_quality].quality_gain" % o),
                 ("loss combined", "h_Quality[h_Tradeoff[result].tradeoff_quality].quality_loss = (old h_Quality)[(old h_Tradeoff)[a].tradeoff_quality].quality_loss %s (old h_Quality)[(old h_Tradeoff)[b].tradeoff_quality].quality_loss" % o)])
TV = "h_Tradeoff[%s].tradeoff_value"
CMPQ = [("qualities present", "h_Tradeoff[a].tradeoff_quality <> 0 /\\ h_Tradeoff[b].tradeoff_quality <> 0")]
GT = "t_greater h_Tradeoff[a] h_Quality[h_Tradeoff[a].tradeoff_quality] h_Tradeoff[b] h_Quality[h_Tradeoff[b].tradeoff_quality]"
for op, f in (("==", "h_Tradeoff[a].tradeoff_value = h_Tradeoff[b].tradeoff_value"), ("!=", "h_Tradeoff[a].tradeoff_value <> h_Tradeoff[b].tradeoff_value"),
              (">", GT), ("<=", "not (%s)" % GT), ("<", "h_Tradeoff[a].tradeoff_value <. h_Tradeoff[b].tradeoff_value"), (">=", "not (h_Tradeoff[a].tradeoff_value <. h_Tradeoff[b].tradeoff_value)")):
    C["operator%s(Tradeoff&, Tradeoff&)" % op] = dict(params=["a", "b"], use=["qspec.QSpec"], open=["pic"], requires=[] if op in ("==", "!=") else CMPQ,
        ensures=[("operator%s is the documented relation" % op, "result <-> (%s)" % f)])
