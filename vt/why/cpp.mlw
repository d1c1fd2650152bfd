(* Meaning of the C++ constructs and standard-library members that the code under test uses.
   Everything in here is assumed (trusted base): it is the semantics the extraction is written against. *)
module Prelude
  use int.Int
  use int.MinMax
  use real.RealInfix
  use real.FromInt
  use map.Map

  (* ---- tuples *)
  type tup2 'a 'b = { t2_0: 'a; t2_1: 'b }
  type tup3 'a 'b 'c = { t3_0: 'a; t3_1: 'b; t3_2: 'c }
  type tup5 'a 'b 'c 'd 'e = { t5_0: 'a; t5_1: 'b; t5_2: 'c; t5_3: 'd; t5_4: 'e }
  type tup7 'a 'b 'c 'd 'e 'f 'g = { t7_0: 'a; t7_1: 'b; t7_2: 'c; t7_3: 'd; t7_4: 'e; t7_5: 'f; t7_6: 'g }

  (* ---- std::vector *)
  type vec 'a = { len: int; elt: map int 'a }
  val vlen (v: vec 'a) : int ensures { result = v.len } ensures { 0 <= result < 1152921504606846976 }
  val vget (v: vec 'a) (i: int) : 'a requires { [@expl:vector index in range] 0 <= i < v.len } ensures { result = v.elt[i] }
  val vset (v: vec 'a) (i: int) (x: 'a) : vec 'a requires { [@expl:vector index in range] 0 <= i < v.len }
    ensures { result.len = v.len } ensures { result.elt = v.elt[i <- x] }
  val vpush (v: vec 'a) (x: 'a) : vec 'a ensures { result.len = v.len + 1 } ensures { result.elt = v.elt[v.len <- x] }
  val vempty () : vec 'a ensures { result.len = 0 }
  val vmake (n: int) (x: 'a) : vec 'a requires { [@expl:vector size is not negative] 0 <= n } ensures { result.len = n }
    ensures { forall i. 0 <= i < n -> result.elt[i] = x }
  val verase (v: vec 'a) (i: int) : vec 'a requires { [@expl:erased position in range] 0 <= i < v.len }
    ensures { result.len = v.len - 1 }
    ensures { forall j. 0 <= j < i -> result.elt[j] = v.elt[j] }
    ensures { forall j. i <= j < v.len - 1 -> result.elt[j] = v.elt[j + 1] }
    ensures { forall j [v.elt[j]]. i < j < v.len -> result.elt[j - 1] = v.elt[j] }
  val vresize (v: vec 'a) (n: int) (x: 'a) : vec 'a requires { [@expl:vector size is not negative] 0 <= n }
    ensures { result.len = n }
    ensures { forall j. 0 <= j < v.len -> j < n -> result.elt[j] = v.elt[j] }
    ensures { forall j. v.len <= j < n -> result.elt[j] = x }
  (* an iterator is its distance from begin(); stepping to begin()-1 is tolerated (erase-then-decrement idiom) *)
  val viter_step (len i: int) : int requires { [@expl:iterator stays within its container] -1 <= i <= len } ensures { result = i }

  (* ---- std::map: finite map with a default for absent keys, iterated in key order *)
  type cmap 'k 'v = { dom: map 'k bool; img: map 'k 'v }
  val mempty (d: 'v) : cmap 'k 'v ensures { forall k: 'k. not result.dom[k] }
  val mput (m: cmap 'k 'v) (k: 'k) (x: 'v) : cmap 'k 'v requires { [@expl:map key present] m.dom[k] }
    ensures { result.dom = m.dom } ensures { result.img = m.img[k <- x] }
  val mtouch (m: cmap 'k 'v) (k: 'k) (d: 'v) : cmap 'k 'v
    ensures { result.dom = m.dom[k <- true] }
    ensures { result.img = if m.dom[k] then m.img else m.img[k <- d] }
    ensures { m.dom[k] -> result = m }
  val mat (m: cmap 'k 'v) (k: 'k) : 'v requires { [@expl:map key present] m.dom[k] } ensures { result = m.img[k] }
  val mget (m: cmap 'k 'v) (k: 'k) : 'v requires { [@expl:map key present] m.dom[k] } ensures { result = m.img[k] }
  val mhas (m: cmap 'k 'v) (k: 'k) : bool ensures { result <-> m.dom[k] }
  val merase (m: cmap 'k 'v) (k: 'k) : cmap 'k 'v
    ensures { result.dom = m.dom[k <- false] } ensures { result.img = m.img }
  val merase_at (m: cmap 'k 'v) (k: 'k) : cmap 'k 'v requires { [@expl:map key present] m.dom[k] }
    ensures { result.dom = m.dom[k <- false] } ensures { result.img = m.img }
  val msize (m: cmap 'k 'v) : int ensures { 0 <= result < 1152921504606846976 }
    ensures { result = 0 <-> forall k. not m.dom[k] }
  val mkeys (m: cmap real 'v) : vec real
    ensures { 0 <= result.len < 1152921504606846976 }
    ensures { forall i. 0 <= i < result.len -> m.dom[result.elt[i]] }
    ensures { forall i j. 0 <= i < j < result.len -> result.elt[i] <. result.elt[j] }
    ensures { forall k. m.dom[k] -> exists i. 0 <= i < result.len /\ result.elt[i] = k }

  (* ---- heap *)
  val hget (h: map int 'a) (p: int) : 'a ensures { result = h[p] }
  val hset (h: map int 'a) (p: int) (x: 'a) : map int 'a ensures { result = h[p <- x] }
  val deref (p: int) : int requires { [@expl:pointer is not null] p <> 0 } ensures { result = p }

  (* ---- machine integers: signed overflow is an error, unsigned wraps *)
  predicate in_i32 (x: int) = -2147483648 <= x <= 2147483647
  predicate in_u32 (x: int) = 0 <= x <= 4294967295
  predicate in_i64 (x: int) = -9223372036854775808 <= x <= 9223372036854775807
  predicate in_u64 (x: int) = 0 <= x <= 18446744073709551615
  val as_i32 (x: int) : int ensures { result = x } ensures { -2147483648 <= x <= 2147483647 }
  val as_u32 (x: int) : int ensures { result = x } ensures { 0 <= x <= 4294967295 }
  val as_i64 (x: int) : int ensures { result = x } ensures { -9223372036854775808 <= x <= 9223372036854775807 }
  val as_u64 (x: int) : int ensures { result = x } ensures { 0 <= x <= 18446744073709551615 }
  (* length of a list of parameters (vector<float>): assumed below 2^31 *)
  val as_listed (x: int) : int ensures { result = x } ensures { 0 <= x <= 2147483647 }
  val as_i16 (x: int) : int ensures { result = x } ensures { -32768 <= x <= 32767 }
  val as_u16 (x: int) : int ensures { result = x } ensures { 0 <= x <= 65535 }
  val as_i8 (x: int) : int ensures { result = x } ensures { -128 <= x <= 127 }
  val as_u8 (x: int) : int ensures { result = x } ensures { 0 <= x <= 255 }
  val to_i32 (x: int) : int ensures { -2147483648 <= result <= 2147483647 } ensures { -2147483648 <= x <= 2147483647 -> result = x }
  val to_u32 (x: int) : int ensures { 0 <= result <= 4294967295 } ensures { 0 <= x <= 4294967295 -> result = x }
    ensures { -4294967296 <= x < 0 -> result = x + 4294967296 }
  val to_i64 (x: int) : int ensures { -9223372036854775808 <= result <= 9223372036854775807 }
    ensures { -9223372036854775808 <= x <= 9223372036854775807 -> result = x }
  val to_u64 (x: int) : int ensures { 0 <= result <= 18446744073709551615 } ensures { 0 <= x <= 18446744073709551615 -> result = x }
    ensures { -18446744073709551616 <= x < 0 -> result = x + 18446744073709551616 }
  val to_i16 (x: int) : int ensures { -32768 <= result <= 32767 } ensures { -32768 <= x <= 32767 -> result = x }
  val to_u16 (x: int) : int ensures { 0 <= result <= 65535 } ensures { 0 <= x <= 65535 -> result = x }
  val to_i8 (x: int) : int ensures { -128 <= result <= 127 } ensures { -128 <= x <= 127 -> result = x }
  val to_u8 (x: int) : int ensures { 0 <= result <= 255 } ensures { 0 <= x <= 255 -> result = x }
  val add_i32 (a b: int) : int requires { [@expl:no signed overflow] -2147483648 <= a + b <= 2147483647 } ensures { result = a + b }
  val sub_i32 (a b: int) : int requires { [@expl:no signed overflow] -2147483648 <= a - b <= 2147483647 } ensures { result = a - b }
  val mul_i32 (a b: int) : int requires { [@expl:no signed overflow] -2147483648 <= a * b <= 2147483647 } ensures { result = a * b }
  val add_i64 (a b: int) : int requires { [@expl:no signed overflow] -9223372036854775808 <= a + b <= 9223372036854775807 } ensures { result = a + b }
  val sub_i64 (a b: int) : int requires { [@expl:no signed overflow] -9223372036854775808 <= a - b <= 9223372036854775807 } ensures { result = a - b }
  val mul_i64 (a b: int) : int requires { [@expl:no signed overflow] -9223372036854775808 <= a * b <= 9223372036854775807 } ensures { result = a * b }
  val add_u32 (a b: int) : int ensures { 0 <= result <= 4294967295 } ensures { 0 <= a + b <= 4294967295 -> result = a + b }
    ensures { a + b > 4294967295 -> result = a + b - 4294967296 }
  val sub_u32 (a b: int) : int ensures { 0 <= result <= 4294967295 } ensures { 0 <= a - b <= 4294967295 -> result = a - b }
    ensures { a - b < 0 -> result = a - b + 4294967296 }
  val mul_u32 (a b: int) : int ensures { 0 <= result <= 4294967295 } ensures { 0 <= a * b <= 4294967295 -> result = a * b }
  val add_u64 (a b: int) : int ensures { 0 <= result <= 18446744073709551615 } ensures { 0 <= a + b <= 18446744073709551615 -> result = a + b }
    ensures { a + b > 18446744073709551615 -> result = a + b - 18446744073709551616 }
  val sub_u64 (a b: int) : int ensures { 0 <= result <= 18446744073709551615 } ensures { 0 <= a - b <= 18446744073709551615 -> result = a - b }
    ensures { a - b < 0 -> result = a - b + 18446744073709551616 }
  val mul_u64 (a b: int) : int ensures { 0 <= result <= 18446744073709551615 } ensures { 0 <= a * b <= 18446744073709551615 -> result = a * b }
  (* integer division truncates; q is the quotient, characterised without div *)
  function qdiv (a b: int) : int
  axiom qdiv_def: forall a b. 0 <= a -> b > 0 -> b * qdiv a b <= a < b * qdiv a b + b
  function qmod (a b: int) : int
  axiom qmod_def: forall a b. 0 <= a -> b > 0 -> qmod a b = a - b * qdiv a b
  val div_u32 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qdiv a b /\ b * result <= a < b * result + b /\ 0 <= result <= a }
  val div_u64 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qdiv a b /\ b * result <= a < b * result + b /\ 0 <= result <= a }
  val div_i32 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qdiv a b /\ b * result <= a < b * result + b /\ 0 <= result <= a }
  val div_i64 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qdiv a b /\ b * result <= a < b * result + b /\ 0 <= result <= a }
  val mod_u32 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qmod a b /\ 0 <= result < b }
  val mod_u64 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qmod a b /\ 0 <= result < b }
  val mod_i32 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qmod a b /\ 0 <= result < b }
  val mod_i64 (a b: int) : int requires { [@expl:divisor is not zero] b <> 0 } ensures { 0 <= a -> 0 < b -> result = qmod a b /\ 0 <= result < b }
  val iabs_i32 (a: int) : int requires { [@expl:no signed overflow] a > -2147483648 } ensures { result = if a < 0 then - a else a }
  val iabs_i64 (a: int) : int ensures { result = if a < 0 then - a else a }
  val imax (a b: int) : int ensures { result = if a < b then b else a }
  val imin (a b: int) : int ensures { result = if b < a then b else a }
  val beq (a b: bool) : bool ensures { result <-> (a = b) }

  (* ---- floating point, as exact reals *)
  val radd (a b: real) : real ensures { result = a +. b }
  val rsub (a b: real) : real ensures { result = a -. b }
  val rmul (a b: real) : real ensures { result = a *. b }
  val rdiv (a b: real) : real requires { [@expl:divisor is not zero] b <> 0.0 } ensures { result = a /. b }
  (* rounded single precision: the result is some float; between two floats there are finitely many floats *)
  predicate is_flt (x: real)
  function rnd (x: real) : real
  axiom rnd_flt: forall x [rnd x]. is_flt (rnd x)
  function fcount (a b: real) : int
  axiom fcount_pos: forall a b [fcount a b]. fcount a b >= 0
  axiom fcount_left: forall a m b [fcount a m, fcount a b]. is_flt a -> is_flt m -> is_flt b -> a <. m -> m <. b -> fcount a m < fcount a b
  axiom fcount_right: forall a m b [fcount m b, fcount a b]. is_flt a -> is_flt m -> is_flt b -> a <. m -> m <. b -> fcount m b < fcount a b
  function drnd (x: real) : real
  val dround (a: real) : real ensures { result = drnd a }
  val fround (a: real) : real ensures { result = rnd a }
  val fradd (a b: real) : real ensures { result = rnd (a +. b) }
  val frsub (a b: real) : real ensures { result = rnd (a -. b) }
  val frmul (a b: real) : real ensures { result = rnd (a *. b) }
  val frdiv (a b: real) : real requires { [@expl:divisor is not zero] b <> 0.0 } ensures { result = rnd (a /. b) }
  val rneg (a: real) : real ensures { result = -. a }
  val rabs (a: real) : real ensures { result = if a <. 0.0 then -. a else a }
  val rmax (a b: real) : real ensures { result = if a <. b then b else a }
  val rmin (a b: real) : real ensures { result = if b <. a then b else a }
  val rlt (a b: real) : bool ensures { result <-> a <. b }
  val rle (a b: real) : bool ensures { result <-> a <=. b }
  val rgt (a b: real) : bool ensures { result <-> a >. b }
  val rge (a b: real) : bool ensures { result <-> a >=. b }
  val req (a b: real) : bool ensures { result <-> a = b }
  val rne (a b: real) : bool ensures { result <-> a <> b }
  val r_of_int (a: int) : real ensures { result = from_int a }
  val real_const_ratio (a b: real) : real requires { b <> 0.0 } ensures { result = a /. b }
  val rtrunc_i32 (x: real) : int
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result >=. x >. from_int result -. 1.0 }
  val rtrunc_u32 (x: real) : int ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
  val rtrunc_u64 (x: real) : int ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
  val rtrunc_i64 (x: real) : int
    ensures { x >=. 0.0 -> from_int result <=. x <. from_int result +. 1.0 }
    ensures { x <=. 0.0 -> from_int result >=. x >. from_int result -. 1.0 }
  function ln (x: real) : real
  val rlog (x: real) : real requires { [@expl:logarithm of a positive number] x >. 0.0 } ensures { result = ln x }
end
(* facts of the natural logarithm *)
module Logs
  use real.RealInfix
  use Prelude
  axiom ln_mul: forall x y. x >. 0.0 -> y >. 0.0 -> ln (x *. y) = ln x +. ln y
  axiom ln_le: forall x. x >. 0.0 -> ln x <=. x -. 1.0
end
