import Mathlib
namespace DV
section
open Classical

/-- x is a power of two -/
def isp2 (x : ℤ) : Prop := ∃ n : ℕ, x = 2 ^ n
/-- exponent of a power of two -/
noncomputable def lg (x : ℤ) : ℤ := if h : isp2 x then ((choose h : ℕ) : ℤ) else 0
/-- sum (or product) of c values of V from s on, d slots apart -/
noncomputable def fd (V : ℤ → ℝ) (ia : Prop) (d c s : ℤ) : ℝ :=
  if ia then ∑ j ∈ Finset.range c.toNat, V (s + j * d) else ∏ j ∈ Finset.range c.toNat, V (s + j * d)
noncomputable def red (V : ℤ → ℝ) (ia : Prop) (p n : ℤ) : ℤ → ℝ := fun s => fd V ia p n s
def str (x : ℤ) : ℤ := if x = 0 then 1 else 2 * x
/-- the vector held before the rotation by x slots -/
noncomputable def accv (V : ℤ → ℝ) (ia : Prop) (p n x : ℤ) : ℤ → ℝ := fun s => fd V ia (str x * p) (n / str x) s
noncomputable def rop (ia : Prop) (a b : ℝ) : ℝ := if ia then a + b else a * b
def pwm (a b : ℤ → ℝ) : ℤ → ℝ := fun s => a s * b s
noncomputable def bs (E : ℤ → ℤ → ℝ) (R : ℤ → ℤ) (Z : ℤ → Prop) (V : ℤ → ℝ) (p s n : ℤ) : ℝ :=
  ∑ k ∈ Finset.range n.toNat, if Z k then 0 else E k (s + R k) * V (s + p * k)

theorem fd_step (V : ℤ → ℝ) (ia : Prop) (d c s : ℤ) : c ≥ 0 →
    rop ia (fd V ia (2 * d) c s) (fd V ia (2 * d) c (s + d)) = fd V ia d (2 * c) s := by
  intro h
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have e : (2 * (m:ℤ)).toNat = 2 * m := by omega
  unfold rop fd
  simp only [Int.toNat_natCast, e]
  clear e h
  by_cases hi : ia
  · simp only [hi, if_true]
    induction m with
    | zero => simp
    | succ m ih =>
      rw [Finset.sum_range_succ, Finset.sum_range_succ, show 2 * (m + 1) = 2 * m + 1 + 1 by ring, Finset.sum_range_succ, Finset.sum_range_succ, ← ih]
      have h1 : s + (m:ℤ) * (2 * d) = s + ((2 * m : ℕ) : ℤ) * d := by push_cast; ring
      have h2 : s + d + (m:ℤ) * (2 * d) = s + ((2 * m + 1 : ℕ) : ℤ) * d := by push_cast; ring
      rw [h1, h2]; ring
  · simp only [hi, if_false]
    induction m with
    | zero => simp
    | succ m ih =>
      rw [Finset.prod_range_succ, Finset.prod_range_succ, show 2 * (m + 1) = 2 * m + 1 + 1 by ring, Finset.prod_range_succ, Finset.prod_range_succ, ← ih]
      have h1 : s + (m:ℤ) * (2 * d) = s + ((2 * m : ℕ) : ℤ) * d := by push_cast; ring
      have h2 : s + d + (m:ℤ) * (2 * d) = s + ((2 * m + 1 : ℕ) : ℤ) * d := by push_cast; ring
      rw [h1, h2]; ring

theorem isp2_pos (x : ℤ) : isp2 x → x ≥ 1 := by
  rintro ⟨n, rfl⟩; exact_mod_cast Nat.one_le_two_pow
theorem isp2_half (x : ℤ) : isp2 x → (if x = 1 then x / 2 = 0 else (isp2 (x / 2) ∧ 2 * (x / 2) = x)) := by
  rintro ⟨n, rfl⟩
  cases n with
  | zero => simp
  | succ n =>
    have : (2:ℤ) ^ (n + 1) / 2 = 2 ^ n := by rw [pow_succ]; exact Int.mul_ediv_cancel _ (by norm_num)
    have h0 : (1:ℤ) ≤ 2 ^ n := by exact_mod_cast Nat.one_le_two_pow
    have h1 : (2:ℤ) ^ (n + 1) ≠ 1 := by rw [pow_succ]; omega
    rw [if_neg h1, this]
    exact ⟨⟨n, rfl⟩, by rw [pow_succ]; ring⟩
theorem isp2_dvd (x y : ℤ) : isp2 x → isp2 y → x ≤ y → (y % x = 0 ∧ isp2 (y / x) ∧ y / x * x = y) := by
  rintro ⟨a, rfl⟩ ⟨b, rfl⟩ h
  have hab : a ≤ b := by
    by_contra hc
    have : (2:ℤ) ^ b < 2 ^ a := pow_lt_pow_right₀ (by norm_num) (by omega)
    omega
  obtain ⟨c, rfl⟩ := Nat.exists_eq_add_of_le hab
  have hp : (2:ℤ) ^ a ≠ 0 := by positivity
  rw [pow_add]
  refine ⟨Int.mul_emod_right _ _, ?_, ?_⟩
  · rw [Int.mul_ediv_cancel_left _ hp]; exact ⟨c, rfl⟩
  · rw [Int.mul_ediv_cancel_left _ hp]; ring
theorem isp2_pow2 (e : ℤ) : e ≥ 0 → isp2 (pow2 e) := by
  intro _; exact ⟨e.toNat, rfl⟩
theorem lg_def (x : ℤ) : isp2 x → (lg x ≥ 0 ∧ pow2 (lg x) = x) := by
  intro h
  have e : lg x = ((choose h : ℕ) : ℤ) := by unfold lg; rw [dif_pos h]
  rw [e]
  refine ⟨by positivity, ?_⟩
  unfold pow2
  rw [Int.toNat_natCast]; exact (choose_spec h).symm
theorem lg_log2 (x : ℤ) : isp2 x → Real.logb 2 (x : ℝ) = ((lg x : ℤ) : ℝ) := by
  intro h
  have e : lg x = ((choose h : ℕ) : ℤ) := by unfold lg; rw [dif_pos h]
  have hs := choose_spec h
  rw [e]
  conv_lhs => rw [hs]
  push_cast
  rw [Real.logb_pow, Real.logb_self_eq_one (by norm_num)]; ring
theorem acc_init (V : ℤ → ℝ) (ia : Prop) (p n s : ℤ) : isp2 n → accv V ia p n (n / 2) s = V s := by
  intro h
  have h2 := isp2_half n h
  have hp := isp2_pos n h
  unfold accv str fd
  by_cases h1 : n = 1
  · subst h1; simp
  · rw [if_neg h1] at h2
    have : n / 2 ≠ 0 := by omega
    rw [if_neg this, h2.2, Int.ediv_self (by omega)]; simp
theorem acc_end (V : ℤ → ℝ) (ia : Prop) (p n s : ℤ) : accv V ia p n 0 s = red V ia p n s := by
  unfold accv red str; simp
theorem acc_step (V : ℤ → ℝ) (ia : Prop) (p n x s : ℤ) : isp2 n → isp2 x → x ≤ n / 2 →
    rop ia (accv V ia p n x s) (accv V ia p n x (s + x * p)) = accv V ia p n (x / 2) s := by
  intro hn hx hle
  have hx1 := isp2_pos x hx
  have hxh := isp2_half x hx
  have h2x : isp2 (2 * x) := by obtain ⟨k, rfl⟩ := hx; exact ⟨k + 1, by rw [pow_succ]; ring⟩
  have hd := isp2_dvd (2 * x) n h2x hn (by omega)
  have hs1 : str x = 2 * x := by unfold str; rw [if_neg (by omega)]
  have hs2 : str (x / 2) = x := by
    unfold str
    by_cases h1 : x = 1
    · subst h1; simp
    · rw [if_neg h1] at hxh; rw [if_neg (by omega)]; exact hxh.2
  unfold accv
  rw [hs1, hs2]
  have hc : n / x = 2 * (n / (2 * x)) := by
    have : n = n / (2 * x) * 2 * x := by linarith [hd.2.2]
    conv_lhs => rw [this]
    rw [Int.mul_ediv_cancel _ (by omega)]; ring
  rw [hc, show 2 * x * p = 2 * (x * p) by ring]
  exact fd_step V ia (x * p) _ s (Int.ediv_nonneg (by have := isp2_pos n hn; omega) (by omega))
theorem rop_def (ia : Prop) (a b : ℝ) : rop ia a b = if ia then a + b else rm a b := rfl
theorem red_ext (V W : ℤ → ℝ) (ia : Prop) (p n s : ℤ) : (∀ t : ℤ, V t = W t) → red V ia p n s = red W ia p n s := by
  intro h; rw [show V = W from funext h]
theorem red_one (V : ℤ → ℝ) (ia : Prop) (p s : ℤ) : red V ia p 1 s = V s := by
  unfold red fd; simp
theorem pwm_def (a b : ℤ → ℝ) (s : ℤ) : pwm a b s = rm (a s) (b s) := rfl
theorem bs_zero (E : ℤ → ℤ → ℝ) (R : ℤ → ℤ) (Z : ℤ → Prop) (V : ℤ → ℝ) (p s : ℤ) : bs E R Z V p s 0 = 0 := by simp [bs]
theorem bs_succ (E : ℤ → ℤ → ℝ) (R : ℤ → ℤ) (Z : ℤ → Prop) (V : ℤ → ℝ) (p s n : ℤ) : n ≥ 0 →
    bs E R Z V p s (n + 1) = bs E R Z V p s n + (if Z n then 0 else rm (E n (s + R n)) (V (s + p * n))) := by
  intro h
  unfold bs
  rw [show (n + 1).toNat = n.toNat + 1 by omega, Finset.sum_range_succ]
  have : ((n.toNat : ℕ) : ℤ) = n := Int.toNat_of_nonneg h
  rw [this]; rfl

/-- matrix-vector product, row r, of the first m columns -/
noncomputable def mvp (A : ℤ → ℤ → ℝ) (v : ℤ → ℝ) (r m : ℤ) : ℝ := ∑ c ∈ Finset.range m.toNat, A r c * v c

theorem sum_shift_mod (f : ℤ → ℝ) (m : ℕ) (s : ℤ) (hm : 0 < m) :
    ∑ c ∈ Finset.range m, f ((s + c) % m) = ∑ c ∈ Finset.range m, f c := by
  have hm' : (0:ℤ) < m := by exact_mod_cast hm
  apply Finset.sum_bij (fun (c : ℕ) _ => ((s + c) % m).toNat)
  · intro c _
    have h1 := Int.emod_nonneg (s + c) (by omega : (m:ℤ) ≠ 0)
    have h2 := Int.emod_lt_of_pos (s + c) hm'
    simp only [Finset.mem_range]; omega
  · intro a ha b hb hab
    simp only [Finset.mem_range] at ha hb
    have ea := Int.emod_nonneg (s + a) (by omega : (m:ℤ) ≠ 0)
    have eb := Int.emod_nonneg (s + b) (by omega : (m:ℤ) ≠ 0)
    have h : (s + a) % m = (s + b) % m := by
      have := congrArg (Nat.cast : ℕ → ℤ) hab
      rwa [Int.toNat_of_nonneg ea, Int.toNat_of_nonneg eb] at this
    have h3 : (a:ℤ) ≡ b [ZMOD m] := Int.ModEq.add_left_cancel' s h
    unfold Int.ModEq at h3
    rw [Int.emod_eq_of_lt (by omega) (by omega), Int.emod_eq_of_lt (by omega) (by omega)] at h3
    exact_mod_cast h3
  · intro b hb
    simp only [Finset.mem_range] at hb
    have h1 := Int.emod_nonneg (b - s) (by omega : (m:ℤ) ≠ 0)
    have h2 := Int.emod_lt_of_pos (b - s) hm'
    refine ⟨((b - s) % m).toNat, ?_, ?_⟩
    · simp only [Finset.mem_range]; omega
    · rw [Int.toNat_of_nonneg h1]
      have : (s + (b - s) % m) % m = b := by
        rw [Int.add_emod_emod, add_sub_cancel]
        exact Int.emod_eq_of_lt (by omega) (by omega)
      rw [this]; simp
  · intro c _
    have h1 := Int.emod_nonneg (s + c) (by omega : (m:ℤ) ≠ 0)
    rw [Int.toNat_of_nonneg h1]

theorem sum_two_level (f : ℤ → ℝ) (n q : ℕ) :
    ∑ j ∈ Finset.range q, ∑ k ∈ Finset.range n, f ((j:ℤ) * n + k) = ∑ c ∈ Finset.range (q * n), f c := by
  induction q with
  | zero => simp
  | succ q ih =>
    rw [Finset.sum_range_succ, ih, Nat.succ_mul, Finset.sum_range_add]
    push_cast; rfl

/-- Halevi-Shoup with diagonals M_k[s] = A[s mod n][(s+k) mod m], n dividing m, v repeated with period m -/
theorem hs_correct (M : ℤ → ℤ → ℝ) (R0 : ℤ → ℤ) (Z : ℤ → Prop) (V : ℤ → ℝ) (A : ℤ → ℤ → ℝ) (w W : ℤ → ℝ) (n m s : ℤ) :
    n ≥ 1 → m ≥ 1 → m % n = 0 → (∀ t : ℤ, V t = w (t % m)) →
    (∀ k : ℤ, 0 ≤ k → k < n → ∀ t : ℤ, (if Z k then 0 else M k (t + R0 k)) = A (t % n) ((t + k) % m)) →
    (∀ t : ℤ, W t = bs M R0 Z V 1 t n) →
    red W True n (m / n) s = mvp A w (s % n) m := by
  intro hn hm hd hV hM hW
  obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
  obtain ⟨q, rfl⟩ := Int.dvd_of_emod_eq_zero hd
  have hq : 0 < q := by
    by_contra hc
    have : (N:ℤ) * q ≤ 0 := by nlinarith
    omega
  obtain ⟨Q, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ q)
  have hdiv : (N:ℤ) * Q / N = Q := Int.mul_ediv_cancel_left _ (by omega)
  unfold red fd mvp
  rw [if_pos trivial, hdiv, Int.toNat_natCast]
  have hmm : ((N:ℤ) * Q).toNat = Q * N := by rw [← Nat.cast_mul, Int.toNat_natCast, Nat.mul_comm]
  rw [hmm]
  let f : ℤ → ℝ := fun c => A (s % N) c * w c
  have h1 : ∀ j ∈ Finset.range Q, W (s + j * N) = ∑ k ∈ Finset.range N, f ((s + ((j:ℤ) * N + k)) % ((N:ℤ) * Q)) := by
    intro j _
    rw [hW]; unfold bs
    rw [Int.toNat_natCast]
    apply Finset.sum_congr rfl
    intro k hk
    simp only [Finset.mem_range] at hk
    have hk' := hM k (by omega) (by exact_mod_cast hk) (s + j * N)
    have hr : (s + (j:ℤ) * N) % N = s % N := Int.add_mul_emod_self_right _ _ _
    rw [hr] at hk'
    have ev : V (s + ↑j * ↑N + 1 * ↑k) = w ((s + ((j:ℤ) * N + k)) % ((N:ℤ) * Q)) := by
      rw [hV]; congr 2; ring
    have ea : (s + (j:ℤ) * N + k) = s + ((j:ℤ) * N + k) := by ring
    rw [ea] at hk'
    show _ = A (s % N) _ * w _
    rw [ev, ← hk']
    split <;> simp
  rw [Finset.sum_congr rfl h1, sum_two_level (fun c => f ((s + c) % ((N:ℤ) * Q)))]
  have := sum_shift_mod f (Q * N) s (by
    have : 0 < N := by omega
    have : 0 < Q := by omega
    positivity)
  have hc : ((Q * N : ℕ) : ℤ) = (N:ℤ) * Q := by push_cast; ring
  rw [hc] at this
  exact this
theorem bs_ext (E F : ℤ → ℤ → ℝ) (R S : ℤ → ℤ) (Z Y : ℤ → Prop) (V W : ℤ → ℝ) (p s n : ℤ) :
    (∀ k : ℤ, 0 ≤ k → k < n → (if Z k then 0 else E k (s + R k) * V (s + p * k)) = (if Y k then 0 else F k (s + S k) * W (s + p * k))) →
    bs E R Z V p s n = bs F S Y W p s n := by
  intro h
  unfold bs
  apply Finset.sum_congr rfl
  intro k hk
  simp only [Finset.mem_range] at hk
  exact h k (by omega) (by omega)
theorem mul_bound (n p : ℤ) : 0 ≤ n → n < 1073741824 → -1073741824 ≤ p → p ≤ 1073741824 → (-2305843009213693952 < n * p ∧ n * p < 2305843009213693952) := by
  intro h1 h2 h3 h4
  constructor <;> nlinarith
theorem mul_distr (p n k : ℤ) : p * (n + k) = p * n + p * k := by ring
theorem div_unique (x k n : ℤ) : n ≥ 1 → x * n = k * n → x = k := by
  intro h1 h2
  exact mul_right_cancel₀ (by omega) h2
noncomputable def npo (v : ℤ) : ℤ := 2 ^ Nat.clog 2 v.toNat
theorem npo_def (x : ℤ) : x ≥ 1 → (isp2 (npo x) ∧ npo x ≥ x ∧ npo x < 2 * x) := by
  intro h
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ x)
  have hn : 1 ≤ n := by omega
  refine ⟨⟨_, rfl⟩, ?_, ?_⟩
  · unfold npo; rw [Int.toNat_natCast]
    have := Nat.le_pow_clog (b := 2) (by norm_num) n
    exact_mod_cast this
  · unfold npo; rw [Int.toNat_natCast]
    have : 2 ^ Nat.clog 2 n < 2 * n := by
      rcases Nat.lt_or_ge 1 n with h1 | h1
      · have h2 := Nat.pow_pred_clog_lt_self (b := 2) (by norm_num) h1
        have h3 : 0 < Nat.clog 2 n := Nat.clog_pos (by norm_num) h1
        have h4 : 2 ^ Nat.clog 2 n = 2 * 2 ^ (Nat.clog 2 n).pred := by
          rw [← Nat.pow_succ', Nat.succ_pred_eq_of_pos h3]
        omega
      · have : n = 1 := by omega
        subst this; simp
    exact_mod_cast this
theorem red_dbl (V : ℤ → ℝ) (ia : Prop) (p x s : ℤ) : x ≥ 0 →
    rop ia (red V ia p x s) (red V ia p x (s + x * p)) = red V ia p (2 * x) s := by
  intro h
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have e : (2 * (m:ℤ)).toNat = m + m := by omega
  unfold rop red fd
  simp only [Int.toNat_natCast, e]
  by_cases hi : ia
  · simp only [hi, if_true]
    rw [Finset.sum_range_add]
    congr 1
    apply Finset.sum_congr rfl
    intro j _
    congr 1; push_cast; ring
  · simp only [hi, if_false]
    rw [Finset.prod_range_add]
    congr 1
    apply Finset.prod_congr rfl
    intro j _
    congr 1; push_cast; ring
theorem isp2_lt (x y : ℤ) : isp2 x → isp2 y → x < y → (isp2 (2 * x) ∧ 2 * x ≤ y) := by
  rintro ⟨a, rfl⟩ ⟨b, rfl⟩ h
  have hab : a < b := by
    by_contra hc
    have : (2:ℤ) ^ b ≤ 2 ^ a := pow_le_pow_right₀ (by norm_num) (by omega)
    omega
  refine ⟨⟨a + 1, by rw [pow_succ]; ring⟩, ?_⟩
  calc (2:ℤ) * 2 ^ a = 2 ^ (a + 1) := by rw [pow_succ]; ring
    _ ≤ 2 ^ b := pow_le_pow_right₀ (by norm_num) (by omega)
/-- what is replicated: the reduction brought to the last p slots of each block, masked if there is a mask -/
noncomputable def brw (V M : ℤ → ℝ) (ia has : Prop) (p n N : ℤ) : ℤ → ℝ := fun s =>
  if has then rm (red V ia p n (s + (N - (n - 1) * p))) (M s) else red V ia p n (s + (N - (n - 1) * p))
theorem brw_def (V M : ℤ → ℝ) (ia has : Prop) (p n N s : ℤ) : brw V M ia has p n N s =
  if has then rm (red V ia p n (s + (N - (n - 1) * p))) (M s) else red V ia p n (s + (N - (n - 1) * p)) := rfl
theorem red_per (V : ℤ → ℝ) (ia : Prop) (p n N s : ℤ) : (∀ t : ℤ, V (t + N) = V t) → red V ia p n (s + N) = red V ia p n s := by
  intro h
  unfold red fd
  have : ∀ j : ℕ, V (s + N + (j:ℤ) * p) = V (s + (j:ℤ) * p) := by
    intro j; rw [← h (s + (j:ℤ) * p)]; congr 1; ring
  simp only [this]
theorem br_core (V M : ℤ → ℝ) (p n N q i o : ℤ) : n ≥ 1 → p ≥ 1 → 0 ≤ o → o < p → 0 ≤ i → i < n →
    (∀ t : ℤ, V (t + N) = V t) → (∀ t : ℤ, M t = if t % (n * p) ≥ (n - 1) * p then 1 else 0) →
    red (brw V M True True p n N) True p n (q * (n * p) + (i * p + o)) = red V True p n (q * (n * p) + o) := by
  intro hn hp ho ho' hi hi' hV hM
  have hmod : ∀ c : ℤ, ∀ j : ℤ, 0 ≤ j → j < n → (c * (n * p) + (j * p + o)) % (n * p) = j * p + o := by
    intro c j hj hj'
    rw [Int.add_comm, Int.add_mul_emod_self_right]
    apply Int.emod_eq_of_lt
    · nlinarith
    · nlinarith
  conv_lhs => unfold red fd
  simp only [if_true]
  rw [Finset.sum_eq_single (n - 1 - i).toNat]
  · have hk : (((n - 1 - i).toNat : ℕ) : ℤ) = n - 1 - i := by omega
    rw [hk, brw_def, hM]
    have e1 : q * (n * p) + (i * p + o) + (n - 1 - i) * p = q * (n * p) + ((n - 1) * p + o) := by ring
    rw [e1, hmod q (n - 1) (by omega) (by omega)]
    rw [if_pos trivial, if_pos (by omega)]
    have e2 : q * (n * p) + ((n - 1) * p + o) + (N - (n - 1) * p) = q * (n * p) + o + N := by ring
    rw [e2, red_per V True p n N _ hV]
    unfold rm; ring
  · intro k hk hne
    have hk' := Finset.mem_range.mp hk
    rw [brw_def, hM, if_pos trivial]
    have h0 : ¬ ((q * (n * p) + (i * p + o) + (k:ℤ) * p) % (n * p) ≥ (n - 1) * p) := by
      by_cases hc : i + k < n
      · have e : q * (n * p) + (i * p + o) + (k:ℤ) * p = q * (n * p) + ((i + k) * p + o) := by ring
        rw [e, hmod q (i + k) (by omega) hc]
        have : i + (k:ℤ) ≤ n - 2 := by omega
        nlinarith
      · have e : q * (n * p) + (i * p + o) + (k:ℤ) * p = (q + 1) * (n * p) + ((i + k - n) * p + o) := by ring
        rw [e, hmod (q + 1) (i + k - n) (by omega) (by omega)]
        have : i + (k:ℤ) - n ≤ n - 2 := by omega
        nlinarith
    rw [if_neg h0]; unfold rm; ring
  · intro h
    exfalso; apply h; rw [Finset.mem_range]; omega
theorem br_full (V M : ℤ → ℝ) (p n N s : ℤ) : n ≥ 1 → p ≥ 1 →
    (∀ t : ℤ, V (t + N) = V t) → (∀ t : ℤ, M t = if t % (n * p) ≥ (n - 1) * p then 1 else 0) →
    red (brw V M True True p n N) True p n s = red V True p n (s / (n * p) * (n * p) + s % p) := by
  intro hn hp hV hM
  have hB : n * p > 0 := by positivity
  have h1 := Int.emod_add_mul_ediv s (n * p)
  have h2 := Int.emod_nonneg s hB.ne'
  have h3 := Int.emod_lt_of_pos s hB
  have h4 := Int.emod_add_mul_ediv (s % (n * p)) p
  have h5 := Int.emod_nonneg (s % (n * p)) (show p ≠ 0 by omega)
  have h6 := Int.emod_lt_of_pos (s % (n * p)) (show p > 0 by omega)
  have h7 : s % (n * p) % p = s % p := Int.emod_emod_of_dvd s (Dvd.intro_left n rfl)
  have h8 : 0 ≤ s % (n * p) / p := Int.ediv_nonneg h2 (by omega)
  have h9 : s % (n * p) / p < n := Int.ediv_lt_of_lt_mul (by omega) h3
  have := br_core V M p n N (s / (n * p)) (s % (n * p) / p) (s % p) hn hp (by omega) (by omega) h8 h9 hV hM
  rw [← this]; congr 1
  rw [h7] at h4
  linarith [mul_comm (n * p) (s / (n * p)), mul_comm p (s % (n * p) / p)]
theorem br_nat (V : ℤ → ℝ) (p n N s : ℤ) : n ≥ 1 → p ≥ 1 → n * p = N → (∀ t : ℤ, V (t + N) = V t) →
    red V True p n s = red V True p n (s / (n * p) * (n * p) + s % p) := by
  intro hn hp hN hV
  have hstep : ∀ t : ℤ, red V True p n (t + p) = red V True p n t := by
    intro t
    obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n by omega)
    unfold red fd
    simp only [if_true, Int.toNat_natCast]
    have e := Finset.sum_range_succ (fun j : ℕ => V (t + (j:ℤ) * p)) m
    have e' := Finset.sum_range_succ' (fun j : ℕ => V (t + (j:ℤ) * p)) m
    have hm : V (t + ((m:ℕ):ℤ) * p) = V t := by rw [hN]; exact hV t
    have h0 : V (t + ((0:ℕ):ℤ) * p) = V t := by simp
    have hs : ∀ j : ℕ, V (t + p + (j:ℤ) * p) = V (t + ((j + 1 : ℕ):ℤ) * p) := by
      intro j; congr 1; push_cast; ring
    simp only [hs]
    rw [h0] at e'; rw [hm] at e
    linarith
  have hmul : ∀ (k : ℕ) (t : ℤ), red V True p n (t + (k:ℤ) * p) = red V True p n t := by
    intro k
    induction k with
    | zero => intro t; simp
    | succ k ih =>
      intro t
      have : t + ((k + 1 : ℕ):ℤ) * p = t + (k:ℤ) * p + p := by push_cast; ring
      rw [this, hstep, ih]
  have hB : n * p > 0 := by positivity
  have h1 := Int.emod_add_mul_ediv s (n * p)
  have h2 := Int.emod_nonneg s hB.ne'
  have h4 := Int.emod_add_mul_ediv (s % (n * p)) p
  have h7 : s % (n * p) % p = s % p := Int.emod_emod_of_dvd s (Dvd.intro_left n rfl)
  obtain ⟨k, hk⟩ := Int.eq_ofNat_of_zero_le (Int.ediv_nonneg h2 (show 0 ≤ p by omega))
  have := hmul k (s / (n * p) * (n * p) + s % p)
  rw [← this]; congr 1
  rw [h7, hk] at h4
  linarith [mul_comm (n * p) (s / (n * p)), mul_comm p (k:ℤ)]

end
end DV
