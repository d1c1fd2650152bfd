(* the containers as flat series *)
module ValView
  use int.Int
  use real.RealInfix
  use map.Map
  use cpp.Prelude
  use types.Types
  use vals.Vals
  function d2_2 (v: vec (vec real)) : int = if v.len > 0 then v.elt[0].len else 0
  function d2_3 (v: vec (vec (vec real))) : int = if v.len > 0 then v.elt[0].len else 0
  function d3_3 (v: vec (vec (vec real))) : int = if v.len > 0 then d2_2 v.elt[0] else 0
  function d2_4 (v: vec (vec (vec (vec real)))) : int = if v.len > 0 then v.elt[0].len else 0
  function d3_4 (v: vec (vec (vec (vec real)))) : int = if v.len > 0 then d2_3 v.elt[0] else 0
  function d4_4 (v: vec (vec (vec (vec real)))) : int = if v.len > 0 then d3_3 v.elt[0] else 0
  predicate u32 (x: int) = 0 <= x <= 4294967295

  predicate oValuesN1_wf (v: c_OValuesN1) = shape1 v.oValuesN1_values v.oValuesN1_base.oValues_osize /\ u32 v.oValuesN1_base.oValues_osize /\ v.oValuesN1_base.oValues_vsize = 1
  predicate oValuesN2_wf (v: c_OValuesN2) = shape2 v.oValuesN2_values v.oValuesN2_base.oValues_vsize v.oValuesN2_base.oValues_osize /\ u32 v.oValuesN2_base.oValues_vsize /\ u32 v.oValuesN2_base.oValues_osize
  predicate oValuesN3_wf (v: c_OValuesN3) = shape3 v.oValuesN3_values v.oValuesN3_i v.oValuesN3_j v.oValuesN3_base.oValues_osize /\ u32 v.oValuesN3_i /\ u32 v.oValuesN3_j /\ u32 v.oValuesN3_base.oValues_osize
    /\ v.oValuesN3_base.oValues_vsize = v.oValuesN3_i * v.oValuesN3_j /\ u32 v.oValuesN3_base.oValues_vsize
  predicate oValuesN4_wf (v: c_OValuesN4) = shape4 v.oValuesN4_values v.oValuesN4_i v.oValuesN4_j v.oValuesN4_k v.oValuesN4_base.oValues_osize /\ u32 v.oValuesN4_i /\ u32 v.oValuesN4_j /\ u32 v.oValuesN4_k /\ u32 v.oValuesN4_base.oValues_osize
    /\ v.oValuesN4_base.oValues_vsize = v.oValuesN4_i * v.oValuesN4_j * v.oValuesN4_k /\ u32 v.oValuesN4_base.oValues_vsize
  function oValuesN1_at (v: c_OValuesN1) (x o: int) : real = v.oValuesN1_values.elt[o]
  function oValuesN2_at (v: c_OValuesN2) (x o: int) : real = v.oValuesN2_values.elt[x].elt[o]
  function oValuesN3_at (v: c_OValuesN3) (x o: int) : real = v.oValuesN3_values.elt[qdiv x v.oValuesN3_j].elt[qmod x v.oValuesN3_j].elt[o]
  function oValuesN4_at (v: c_OValuesN4) (x o: int) : real = v.oValuesN4_values.elt[qdiv (qdiv x v.oValuesN4_k) v.oValuesN4_j].elt[qmod (qdiv x v.oValuesN4_k) v.oValuesN4_j].elt[qmod x v.oValuesN4_k].elt[o]
  predicate ov_wf (d: dyn_OValues) = match d with Dyn_OValuesN1 v -> oValuesN1_wf v | Dyn_OValuesN2 v -> oValuesN2_wf v | Dyn_OValuesN3 v -> oValuesN3_wf v | Dyn_OValuesN4 v -> oValuesN4_wf v end
  function ov_at (d: dyn_OValues) (x o: int) : real = match d with Dyn_OValuesN1 v -> oValuesN1_at v x o | Dyn_OValuesN2 v -> oValuesN2_at v x o | Dyn_OValuesN3 v -> oValuesN3_at v x o | Dyn_OValuesN4 v -> oValuesN4_at v x o end
end

module HValView
  use int.Int
  use real.RealInfix
  use map.Map
  use cpp.Prelude
  use types.Types
  use vals.Vals
  use ValView
  predicate hValuesN1_wf (v: c_HValuesN1) = shape1 v.hValuesN1_values v.hValuesN1_base.hValues_metaData.meta_leaveSize /\ v.hValuesN1_base.hValues_vsize = 1
  function hValuesN1_at (v: c_HValuesN1) (h x: int) : real = v.hValuesN1_values.elt[h]
  predicate hValuesN2_wf (v: c_HValuesN2) = shape2 v.hValuesN2_values v.hValuesN2_base.hValues_metaData.meta_leaveSize v.hValuesN2_base.hValues_vsize /\ u32 v.hValuesN2_base.hValues_vsize
  function hValuesN2_at (v: c_HValuesN2) (h x: int) : real = v.hValuesN2_values.elt[h].elt[x]
  predicate hValuesN3_wf (v: c_HValuesN3) = shape3 v.hValuesN3_values v.hValuesN3_base.hValues_metaData.meta_leaveSize v.hValuesN3_i v.hValuesN3_j /\ u32 v.hValuesN3_i /\ u32 v.hValuesN3_j
    /\ v.hValuesN3_base.hValues_vsize = v.hValuesN3_i * v.hValuesN3_j /\ u32 v.hValuesN3_base.hValues_vsize
  function hValuesN3_at (v: c_HValuesN3) (h x: int) : real = v.hValuesN3_values.elt[h].elt[qdiv x v.hValuesN3_j].elt[qmod x v.hValuesN3_j]
  predicate hValuesN4_wf (v: c_HValuesN4) = shape4 v.hValuesN4_values v.hValuesN4_base.hValues_metaData.meta_leaveSize v.hValuesN4_i v.hValuesN4_j v.hValuesN4_k /\ u32 v.hValuesN4_i /\ u32 v.hValuesN4_j /\ u32 v.hValuesN4_k
    /\ v.hValuesN4_base.hValues_vsize = v.hValuesN4_i * v.hValuesN4_j * v.hValuesN4_k /\ u32 v.hValuesN4_base.hValues_vsize
  function hValuesN4_at (v: c_HValuesN4) (h x: int) : real = v.hValuesN4_values.elt[h].elt[qdiv (qdiv x v.hValuesN4_k) v.hValuesN4_j].elt[qmod (qdiv x v.hValuesN4_k) v.hValuesN4_j].elt[qmod x v.hValuesN4_k]
  predicate hv_wf (d: dyn_HValues) = match d with Dyn_HValuesN1 v -> hValuesN1_wf v | Dyn_HValuesN2 v -> hValuesN2_wf v | Dyn_HValuesN3 v -> hValuesN3_wf v | Dyn_HValuesN4 v -> hValuesN4_wf v end
  function hv_at (d: dyn_HValues) (h x: int) : real = match d with Dyn_HValuesN1 v -> hValuesN1_at v h x | Dyn_HValuesN2 v -> hValuesN2_at v h x | Dyn_HValuesN3 v -> hValuesN3_at v h x | Dyn_HValuesN4 v -> hValuesN4_at v h x end
  predicate dValuesN2_wf (v: c_DValuesN2) = shape2 v.dValuesN2_values v.dValuesN2_base.dValues_metaData.meta_leaveSize v.dValuesN2_base.dValues_osize /\ u32 v.dValuesN2_base.dValues_osize /\ v.dValuesN2_base.dValues_vsize = 1
  function dValuesN2_at (v: c_DValuesN2) (h x o: int) : real = v.dValuesN2_values.elt[h].elt[o]
  predicate dValuesN3_wf (v: c_DValuesN3) = shape3 v.dValuesN3_values v.dValuesN3_base.dValues_metaData.meta_leaveSize v.dValuesN3_base.dValues_vsize v.dValuesN3_base.dValues_osize /\ u32 v.dValuesN3_base.dValues_vsize /\ u32 v.dValuesN3_base.dValues_osize
  function dValuesN3_at (v: c_DValuesN3) (h x o: int) : real = v.dValuesN3_values.elt[h].elt[x].elt[o]
  predicate dValuesN4_wf (v: c_DValuesN4) = shape4 v.dValuesN4_values v.dValuesN4_base.dValues_metaData.meta_leaveSize v.dValuesN4_i v.dValuesN4_j v.dValuesN4_base.dValues_osize /\ u32 v.dValuesN4_i /\ u32 v.dValuesN4_j /\ u32 v.dValuesN4_base.dValues_osize
    /\ v.dValuesN4_base.dValues_vsize = v.dValuesN4_i * v.dValuesN4_j /\ u32 v.dValuesN4_base.dValues_vsize
  function dValuesN4_at (v: c_DValuesN4) (h x o: int) : real = v.dValuesN4_values.elt[h].elt[qdiv x v.dValuesN4_j].elt[qmod x v.dValuesN4_j].elt[o]
  predicate dv_wf (d: dyn_DValues) = match d with Dyn_DValuesN2 v -> dValuesN2_wf v | Dyn_DValuesN3 v -> dValuesN3_wf v | Dyn_DValuesN4 v -> dValuesN4_wf v end
  function dv_at (d: dyn_DValues) (h x o: int) : real = match d with Dyn_DValuesN2 v -> dValuesN2_at v h x o | Dyn_DValuesN3 v -> dValuesN3_at v h x o | Dyn_DValuesN4 v -> dValuesN4_at v h x o end
end
