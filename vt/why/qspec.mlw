module QSpec
  use int.Int
  use real.RealInfix
  use types.Types
  (* p*gain-(1-p)*loss *)
  function pic (p: real) (q: c_Quality) : real = (p *. q.quality_gain) -. ((1.0 -. p) *. q.quality_loss)
  function rmax2 (a b: real) : real = if a <. b then b else a
  function rabs2 (a: real) : real = if a <. 0.0 then -. a else a
  function q_precision (a b: c_Quality) : real =
    (rmax2 (a.quality_gain +. b.quality_gain) (a.quality_loss +. b.quality_loss)) /. 2.0 *. (1.0 /. 10000000000000.0)
  predicate q_equal (a b: c_Quality) =
    (a.quality_gain = b.quality_gain /\ a.quality_loss = b.quality_loss) \/
    (rabs2 (a.quality_gain -. b.quality_gain) <. q_precision a b /\ rabs2 (a.quality_loss -. b.quality_loss) <. q_precision a b)
  predicate t_greater (a: c_Tradeoff) (qa: c_Quality) (b: c_Tradeoff) (qb: c_Quality) =
    a.tradeoff_value >. b.tradeoff_value \/
    (a.tradeoff_value = b.tradeoff_value /\
      (qa.quality_gain >. qb.quality_gain \/ (qa.quality_gain = qb.quality_gain /\ qa.quality_loss <. qb.quality_loss)))
end
