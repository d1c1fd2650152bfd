(* upper triangular matrices: pairs i<=j<n stored diagonal by diagonal *)
module UTM
  use int.Int
  use cpp.Prelude
  use types.Types
  function tri (d: int) : int = qdiv (d * (d - 1)) 2
  function idx (n i j: int) : int = (j - i) * n - tri (j - i) + i
  function off (n d: int) : int = d * n - tri d
  predicate pair (n i j: int) = 0 <= i <= j < n
  predicate utm_wf (n e l: int) = 0 <= n <= 65535 /\ 2 * e = n * (n + 1) /\ l = e

end
