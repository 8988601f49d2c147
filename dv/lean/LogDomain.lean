import Mathlib
/-! Log-domain arithmetic over the reals (C15). -/
namespace DV
noncomputable def exp2r (x : ℝ) : ℝ := (2 : ℝ) ^ x
noncomputable def log2r (x : ℝ) : ℝ := Real.logb 2 x

theorem exp2_pos (x : ℝ) : exp2r x > 0 := Real.rpow_pos_of_pos (by norm_num) x
theorem exp2_add (x y : ℝ) : exp2r (x + y) = exp2r x * exp2r y := Real.rpow_add (by norm_num) x y
theorem exp2_sub (x y : ℝ) : exp2r (x - y) * exp2r y = exp2r x := by
  rw [← exp2_add]; congr 1; ring
theorem exp2_neg (x : ℝ) : exp2r (-x) * exp2r x = 1 := by
  rw [← exp2_add]; simp [exp2r]
theorem exp2_lt (x y : ℝ) : (exp2r x < exp2r y) ↔ (x < y) := Real.rpow_lt_rpow_left_iff (by norm_num)
theorem exp2_inj (x y : ℝ) : (exp2r x = exp2r y) ↔ (x = y) := by
  constructor
  · intro h
    rcases lt_trichotomy x y with a | a | a
    · rw [← exp2_lt] at a; linarith
    · exact a
    · rw [← exp2_lt] at a; linarith
  · intro h; rw [h]
theorem exp2_log2 (x : ℝ) : x > 0 → exp2r (log2r x) = x := fun h => Real.rpow_logb (by norm_num) (by norm_num) h
theorem exp2_lndiv (x : ℝ) : x > 0 → exp2r (Real.log x / Real.log 2) = x := fun h => Real.rpow_logb (by norm_num) (by norm_num) h
theorem exp2_one : exp2r 1 = 2 := by simp [exp2r]
theorem ln2_pos : Real.log 2 > 0 := Real.log_pos (by norm_num)

theorem sqrtr_pos (x : ℝ) : x > 0 → (Real.sqrt x > 0 ∧ Real.sqrt x * Real.sqrt x = x) :=
  fun h => ⟨Real.sqrt_pos.mpr h, Real.mul_self_sqrt h.le⟩
theorem half_mul (n t : ℤ) : n % 2 = 0 → (((n * t / 2 : ℤ) : ℝ)) = (n : ℝ) * (t : ℝ) / 2 := by
  intro h
  obtain ⟨k, rfl⟩ := Int.dvd_of_emod_eq_zero h
  rw [mul_assoc, Int.mul_ediv_cancel_left _ (by norm_num)]
  push_cast; ring

theorem exp2_far_aux (x y : ℝ) : x - y > 512 → exp2r y ≤ exp2r x * ((1:ℝ)/2^512) := by
  intro h
  have e : exp2r (x - 512) = exp2r x * ((1:ℝ)/2^512) := by
    unfold exp2r
    rw [Real.rpow_sub (by norm_num)]
    norm_num [div_eq_mul_inv]
  rw [← e]
  have := (exp2_lt y (x - 512)).mpr (by linarith)
  exact this.le

theorem mul_aux (d va vb ef t w M1 M2 M3 M4 s1 s2 r : ℝ) (d0 : 0 ≤ d) (d1 : 3 * d ≤ 1) (a0 : va ≥ 0) (b0 : vb ≥ 0) (ef0 : ef ≥ 0) (t0 : t ≥ 0)
    (w0 : w ≥ 0) (h1 : M1 = va * vb) (h2 : M2 = M1 * ef) (h3 : M3 = M2 * t) (h4 : M4 = s2 * w) (q1 : s1 ≤ va + vb)
    (q2 : s1 ≥ (1 - d) * (va + vb)) (q3 : s2 ≤ s1 + 1) (q4 : s2 ≥ (1 - d) * (s1 + 1)) (q5 : r ≤ M3 + M4) (q6 : r ≥ (1 - d) * (M3 + M4)) :
    r ≤ ef * t * (va * vb) + (va + vb + 1) * w ∧ r ≥ (1 - 3 * d) * (ef * t * (va * vb) + (va + vb + 1) * w) := by
  subst h1 h2 h3 h4
  have u : s2 * w ≤ (va + vb + 1) * w := mul_le_mul_of_nonneg_right (by linarith) w0
  have e1 : (1 - d) * (s1 + 1) ≥ (1 - d) * ((1 - d) * (va + vb) + (1 - d)) :=
    mul_le_mul_of_nonneg_left (by linarith) (by linarith)
  have e2 : s2 ≥ (1 - 2 * d) * (va + vb + 1) := by nlinarith [mul_nonneg (mul_nonneg d0 d0) (by linarith : (0:ℝ) ≤ va + vb + 1)]
  have l : s2 * w ≥ (1 - 2 * d) * (va + vb + 1) * w := mul_le_mul_of_nonneg_right e2 w0
  have X0 : 0 ≤ va * vb * ef * t := by positivity
  have Y0 : 0 ≤ (va + vb + 1) * w := by positivity
  constructor
  · linarith [mul_comm (ef * t) (va * vb)]
  · have e3 : (1 - d) * (va * vb * ef * t + s2 * w) ≥ (1 - d) * (va * vb * ef * t + (1 - 2 * d) * ((va + vb + 1) * w)) :=
      mul_le_mul_of_nonneg_left (by linarith) (by linarith)
    have e4 := mul_nonneg (mul_nonneg d0 d0) Y0
    have e5 := mul_nonneg d0 X0
    have : ef * t * (va * vb) = va * vb * ef * t := by ring
    rw [this]
    nlinarith

theorem mul_aux2 (d va vb ef t Q h g c M1 M2 M3 M4 M5 M6 s1 s2 r : ℝ) (d0 : 0 ≤ d) (d1 : 3 * d ≤ 1) (a0 : va ≥ 0) (b0 : vb ≥ 0)
    (ef0 : ef ≥ 0) (t0 : t ≥ 0) (Q0 : Q ≥ 0) (h0 : h ≥ 0) (g0 : g ≥ 0) (c0 : c ≥ 0)
    (h1 : M1 = va * vb) (h2 : M2 = M1 * ef) (h3 : M3 = M2 * t) (h4 : M4 = M3 * Q) (h5 : M5 = s1 * h) (h6 : M6 = M5 * g)
    (q1 : s1 ≤ va + vb) (q2 : s1 ≥ (1 - d) * (va + vb)) (q3 : s2 ≤ M4 + M6) (q4 : s2 ≥ (1 - d) * (M4 + M6))
    (q5 : r ≤ s2 + c) (q6 : r ≥ (1 - d) * (s2 + c)) :
    r ≤ ef * t * (va * vb) * Q + (va + vb) * h * g + c ∧ r ≥ (1 - 3 * d) * (ef * t * (va * vb) * Q + (va + vb) * h * g + c) := by
  subst h1 h2 h3 h4 h5 h6
  have hg : 0 ≤ h * g := mul_nonneg h0 g0
  have u : s1 * h * g ≤ (va + vb) * h * g := by rw [mul_assoc, mul_assoc]; exact mul_le_mul_of_nonneg_right q1 hg
  have l : s1 * h * g ≥ (1 - d) * ((va + vb) * h * g) := by
    have := mul_le_mul_of_nonneg_right q2 hg
    nlinarith
  have X0 : 0 ≤ va * vb * ef * t * Q := by positivity
  have Y0 : 0 ≤ (va + vb) * h * g := by positivity
  have e : ef * t * (va * vb) * Q = va * vb * ef * t * Q := by ring
  rw [e]
  generalize va * vb * ef * t * Q = X at *
  generalize (va + vb) * h * g = Y at *
  generalize s1 * h * g = Z at *
  constructor
  · linarith
  · have a1 : (1 - d) * (X + Z) ≥ (1 - d) * (X + (1 - d) * Y) := mul_le_mul_of_nonneg_left (by linarith) (by linarith)
    have a2 : s2 ≥ (1 - 2 * d) * (X + Y) := by nlinarith [mul_nonneg (mul_nonneg d0 d0) Y0, mul_nonneg d0 X0]
    have a3 : (1 - d) * (s2 + c) ≥ (1 - d) * ((1 - 2 * d) * (X + Y) + c) := mul_le_mul_of_nonneg_left (by linarith) (by linarith)
    nlinarith [mul_nonneg (mul_nonneg d0 d0) (add_nonneg X0 Y0), mul_nonneg d0 c0]

theorem delta_ok : (0:ℝ) ≤ ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ)) ∧ 3 * ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ)) ≤ (1:ℝ) := by constructor <;> norm_num
set_option exponentiation.threshold 600 in
theorem exp2_far (x y : ℝ) : x - y > (512 : ℝ) → exp2r y ≤ exp2r x * ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ)) := by
  intro h
  have := exp2_far_aux x y h
  have e : ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ)) = ((1:ℝ)/2^512) := by norm_num
  rw [e]; exact this
noncomputable def rmul (x y : ℝ) : ℝ := x * y
theorem rmul_def (x y : ℝ) : rmul x y = x * y := rfl
theorem mul_bgv (va vb ef t w M1 M2 M3 M4 s1 s2 r : ℝ) : va ≥ 0 → vb ≥ 0 → ef ≥ 0 → t ≥ 0 → w ≥ 0 → M1 = rmul va vb → M2 = rmul M1 ef →
    M3 = rmul M2 t → M4 = rmul s2 w → s1 ≤ va + vb → s1 ≥ (1 - ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (va + vb) → s2 ≤ s1 + 1 → s2 ≥ (1 - ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (s1 + 1) → r ≤ M3 + M4 →
    r ≥ (1 - ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (M3 + M4) →
    (r ≤ ef * t * (va * vb) + (va + vb + 1) * w ∧ r ≥ (1 - 3 * ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (ef * t * (va * vb) + (va + vb + 1) * w)) :=
  mul_aux _ va vb ef t w M1 M2 M3 M4 s1 s2 r delta_ok.1 delta_ok.2
theorem mul_bfv (va vb ef t Q h g c M1 M2 M3 M4 M5 M6 s1 s2 r : ℝ) : va ≥ 0 → vb ≥ 0 → ef ≥ 0 → t ≥ 0 → Q ≥ 0 → h ≥ 0 → g ≥ 0 → c ≥ 0 →
    M1 = rmul va vb → M2 = rmul M1 ef → M3 = rmul M2 t → M4 = rmul M3 Q → M5 = rmul s1 h → M6 = rmul M5 g → s1 ≤ va + vb →
    s1 ≥ (1 - ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (va + vb) → s2 ≤ M4 + M6 → s2 ≥ (1 - ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (M4 + M6) → r ≤ s2 + c → r ≥ (1 - ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (s2 + c) →
    (r ≤ ef * t * (va * vb) * Q + (va + vb) * h * g + c ∧ r ≥ (1 - 3 * ((1 : ℝ)/(13407807929942597099574024998205846127479365820592393377723561443721764030073546976801874298166903427690031858186486050853753882811946569946433649006084096 : ℝ))) * (ef * t * (va * vb) * Q + (va + vb) * h * g + c)) :=
  mul_aux2 _ va vb ef t Q h g c M1 M2 M3 M4 M5 M6 s1 s2 r delta_ok.1 delta_ok.2
end DV
