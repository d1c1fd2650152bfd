"""Hierarchies (C11), hierarchical partitions (C03, C04)."""
C = {}
PAR, PATH, CH, SZ, L, N = "this.meta_parents", "this.meta_path", "this.meta_children", "this.meta_size", "this.meta_leaveSize", "this.meta_hsize"
VP = "vp %s %s groot %s.elt grank" % (L, N, PAR)
FIX = ("inputs kept", "%s = %s.len /\\ %s = (this at Pre).meta_hsize /\\ %s = (this at Pre).meta_parents /\\ %s = (this at Pre).meta_leaveSize /\\ %s" % (N, PAR, N, PAR, L, VP))
PENDING = lambda i: "forall x. 0 <= x < %s -> $pending.elt[x] = rem %s.elt %s.elt %s %s x" % (N, PAR, PATH, *i)
SIZED = "sized %s %s %s.elt %s.elt %s" % (L, N, PAR, CH, SZ)
LEAF0 = lambda b: [("leaf order", "forall j. 0 <= j < %s -> %s.elt[j] = j" % (b, PATH)), ("no children yet", "forall j. 0 <= j < %s.len -> %s.elt[j].len = 0" % (CH, CH)),
                   ("leaf sizes", "forall j. %s.dom[j] <-> 0 <= j < %s" % (SZ, b)), ("leaf size is 1", "forall j. 0 <= j < %s -> %s.img[j] = 1" % (b, SZ))]
ARGS = "(pure { %s }) (pure { %s }) (pure { groot }) (pure { %s.elt }) (pure { grank }) " % (L, N, PAR)
B = lambda x: x.replace("this.", "(this at B4).")
C["HValuesMetaData::setPath()"] = dict(use=["hspec.HSpec", "hspec.HTree", "hspec.HPath"],
    requires=[("node count", "%s = %s.len" % (N, PAR)), ("nothing computed yet", "%s.len = 0 /\\ %s.len = 0 /\\ forall x. not %s.dom[x]" % (PATH, CH, SZ)), ("valid hierarchy", "valid_parents %s %s" % (L, PAR))],
    this_mod=["meta_children", "meta_size", "meta_path", "meta_root"],
    ensures=[("the metadata are those of the hierarchy", "hier this")],
    entry="    let ghost groot = the_root (pure { %s }) (pure { %s }) in let ghost grank = the_rank (pure { %s }) (pure { %s }) groot in" % (L, PAR, L, PAR),
    loops={1: dict(inv=[FIX, ("leaf", "0 <= $h#1 <= %s /\\ %s.len = $h#1 /\\ %s.len = $h#1" % (L, PATH, CH))] + LEAF0("$h#1"), var="%s - $h#1" % L),
           2: dict(inv=[FIX, ("node", "%s <= $h#2 <= %s /\\ %s.len = %s /\\ %s.len = $h#2" % (L, N, PATH, L, CH))] + LEAF0(L), var="%s - $h#2" % N),
           3: dict(inv=[FIX, ("node", "0 <= $h#3 <= %s /\\ %s.len = %s /\\ %s.len = %s /\\ $pending.len = %s" % (N, PATH, L, CH, N, N)), ("children counted so far", PENDING(("0", "$h#3")))] + LEAF0(L), var="%s - $h#3" % N,
                   begin="        let ghost k3 = $h#3 in let ghost par3 = pure { %s.elt } in let ghost path3 = pure { %s.elt } in let lemma rz (x: int) : unit ensures { 0 <= rem par3 path3 0 k3 x <= k3 } = rem_zero par3 path3 0 k3 x in" % (PAR, PATH),
                   post="        walk_init %s(pure { %s.elt });" % (ARGS, PATH)),
           4: dict(inv=[FIX, ("within the path", "0 <= $i < %s.len" % PATH), ("lengths", "%s.len = %s /\\ $pending.len = %s" % (CH, N, N)),
                        ("the path holds the nodes whose children are done", "walked %s %s %s.elt %s.elt %s.len $i" % (L, N, PAR, PATH, PATH)),
                        ("children still pending", PENDING(("$i", N))),
                        ("children lists so far", "forall h. 0 <= h < %s -> kidsof %s %s.elt %s.elt %s.len $i %s.elt[h] h" % (N, N, PAR, PATH, PATH, CH)), ("sizes so far", SIZED)], var="%s - $i" % N,
                   begin="""        label B4 in
        walk_step %(A)s(pure { %(p)s.elt }) (pure { %(p)s.len }) $i; size_final %(A)s(pure { %(p)s.elt }) (pure { %(p)s.len }) $i (pure { %(c)s.elt }) (pure { %(s)s }) (pure { %(p)s.elt[$i] });
        size_step %(A)s(pure { %(p)s.elt }) (pure { %(p)s.len }) $i (pure { %(c)s.elt[%(par)s.elt[%(p)s.elt[$i]]] }) (pure { %(par)s.elt[%(p)s.elt[$i]] });
        rem_zero (pure { %(par)s.elt }) (pure { %(p)s.elt }) $i (pure { %(n)s }) (pure { %(par)s.elt[%(p)s.elt[$i]] });
        assert { 0 <= %(p)s.elt[$i] < %(n)s /\\ %(l)s <= %(par)s.elt[%(p)s.elt[$i]] < %(n)s };""" % dict(A=ARGS, p=PATH, c=CH, s=SZ, par=PAR, n=N, l=L),
                   end="""        let ghost gp = pure { (%(par)s.elt)[(%(p)s at B4).elt[$i - 1]] } in
        if pure { rem %(par)s.elt (%(p)s at B4).elt $i %(n)s gp = 0 } then walk_push %(A)s(pure { (%(p)s at B4).elt }) (pure { (%(p)s at B4).len }) ($i - 1) gp;
        kids_steps %(A)s(pure { (%(p)s at B4).elt }) (pure { %(p)s.elt }) (pure { (%(p)s at B4).len }) (pure { %(p)s.len }) ($i - 1) (pure { (%(c)s at B4).elt }) (pure { %(c)s.elt });
        sized_steps %(A)s(pure { (%(p)s at B4).elt }) (pure { (%(p)s at B4).len }) ($i - 1) (pure { (%(c)s at B4).elt }) (pure { %(c)s.elt }) (pure { %(s)s at B4 }) (pure { %(s)s });
        not_exhausted %(A)s(pure { %(p)s.elt }) (pure { %(p)s.len }) $i;""" % dict(A=ARGS, p=PATH, c=CH, s=SZ, par=PAR, n=N),
                   post="        completed %s(pure { %s.elt }) (pure { %s.len }) $i (pure { %s.elt }) (pure { %s });" % (ARGS, PATH, PATH, CH, SZ))})
C["HValuesMetaData::HValuesMetaData(unsigned int, vector<int>)"] = dict(params=["leaves", "par"], use=["hspec.HSpec", "hspec.HTree"], entry="    the_bounds (pure { leaves }) (pure { par });",
    requires=[("valid hierarchy", "valid_parents leaves par")], ensures=[("metadata of the parent list", "meta_of leaves par result")])
