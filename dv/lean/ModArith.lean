import Mathlib
namespace DV

theorem modexp_init (b e m : ℤ) : e ≥ 0 → m > 0 → ((1 % m) * pw (b % m) e) % m = pw b e % m := by
  intro _ _
  unfold pw
  rw [Int.mul_emod, Int.emod_emod_of_dvd _ (dvd_refl m), ← Int.mul_emod, one_mul]
  exact (Int.ModEq.pow _ (Int.mod_modEq b m))

theorem modexp_even (r b e m : ℤ) : e ≥ 0 → m > 0 → e % 2 = 0 →
    (r * pw ((b * b) % m) (e / 2)) % m = (r * pw b e) % m := by
  intro he _ h2
  unfold pw
  have h : e.toNat = 2 * (e / 2).toNat := by omega
  rw [h, pow_mul]
  have : Int.ModEq m ((b * b) % m) (b ^ 2) := by
    rw [pow_two]; exact Int.mod_modEq _ _
  exact (Int.ModEq.mul_left r (Int.ModEq.pow _ this))

theorem modexp_odd (r b e m : ℤ) : e ≥ 0 → m > 0 → e % 2 ≠ 0 →
    (((r * b) % m) * pw ((b * b) % m) (e / 2)) % m = (r * pw b e) % m := by
  intro he _ h2
  unfold pw
  have h : e.toNat = 2 * (e / 2).toNat + 1 := by omega
  rw [h, pow_succ, pow_mul]
  have h1 : Int.ModEq m ((b * b) % m) (b ^ 2) := by
    rw [pow_two]; exact Int.mod_modEq _ _
  have h3 : Int.ModEq m ((r * b) % m) (r * b) := Int.mod_modEq _ _
  have := Int.ModEq.mul h3 (Int.ModEq.pow (e / 2).toNat h1)
  have h4 : r * b * (b ^ 2) ^ (e / 2).toNat = r * ((b ^ 2) ^ (e / 2).toNat * b) := by ring
  rw [h4] at this
  exact this

theorem pw_zero (b : ℤ) : pw b 0 = 1 := by simp [pw]

theorem gcd_step (a b : ℤ) : a ≥ 0 → b > 0 → gcd b (a % b) = gcd a b := by
  intro _ _
  unfold gcd
  rw [Int.gcd_comm b, Int.gcd_emod, ]

theorem gcd_step' (a b : ℤ) : a ≥ 0 → b > 0 → gcd (a % b) b = gcd a b := by
  intro _ _
  unfold gcd
  rw [Int.gcd_emod]

theorem gcd_comm' (a b : ℤ) : gcd a b = gcd b a := by
  unfold gcd; rw [Int.gcd_comm]

theorem gcd_zero (a : ℤ) : a ≥ 0 → gcd a 0 = a := by
  intro h
  unfold gcd
  simp [abs_of_nonneg h]

/-- extended Euclid, keeping r0 ≡ -x A, r1 ≡ x B (mod m) -/
theorem euclid_neg (x A B r0 r1 m : ℤ) : m > 0 → r1 > 0 → (r0 + x * A) % m = 0 → (r1 - x * B) % m = 0 →
    (r0 % r1 + x * (A + B * (r0 / r1))) % m = 0 := by
  intro _ _ h0 h1
  have e : r0 % r1 + x * (A + B * (r0 / r1)) = (r0 + x * A) - (r1 - x * B) * (r0 / r1) := by
    have := Int.emod_add_mul_ediv r0 r1
    linear_combination this
  rw [e]
  exact Int.emod_eq_zero_of_dvd (dvd_sub (Int.dvd_of_emod_eq_zero h0)
    (Dvd.dvd.mul_right (Int.dvd_of_emod_eq_zero h1) _))

theorem euclid_pos (x A B r0 r1 m : ℤ) : m > 0 → r0 > 0 → (r0 + x * A) % m = 0 → (r1 - x * B) % m = 0 →
    (r1 % r0 - x * (B + A * (r1 / r0))) % m = 0 := by
  intro _ _ h0 h1
  have e : r1 % r0 - x * (B + A * (r1 / r0)) = (r1 - x * B) - (r0 + x * A) * (r1 / r0) := by
    have := Int.emod_add_mul_ediv r1 r0
    linear_combination this
  rw [e]
  exact Int.emod_eq_zero_of_dvd (dvd_sub (Int.dvd_of_emod_eq_zero h1)
    (Dvd.dvd.mul_right (Int.dvd_of_emod_eq_zero h0) _))

/-- r*B + s*A = m is kept by one division step -/
theorem euclid_det (r s A B m : ℤ) : s > 0 → r ≥ 0 → A ≥ 0 → B ≥ 0 → r * B + s * A = m →
    (s * (A + B * (r / s)) + (r % s) * B = m ∧ A + B * (r / s) ≤ m ∧ A + B * (r / s) ≥ 0) := by
  intro hs hr hA hB h
  have := Int.emod_add_mul_ediv r s
  have h1 : s * (A + B * (r / s)) + (r % s) * B = m := by linear_combination h + B * this
  have h2 : 0 ≤ r / s := Int.ediv_nonneg hr hs.le
  have h3 : 0 ≤ r % s := Int.emod_nonneg r hs.ne'
  have h4 : 0 ≤ A + B * (r / s) := by positivity
  have h5 : 0 ≤ (r % s) * B := by positivity
  refine ⟨h1, ?_, h4⟩
  nlinarith

theorem euclid_half (r s A B m : ℤ) : s ≥ 0 → r > s → A ≥ 0 → B ≥ 0 → r * B + s * A = m → B * (s + 1) ≤ m := by
  intro hs hr hA hB h
  nlinarith [mul_nonneg hs hA, mul_nonneg hB (by omega : 0 ≤ r - (s + 1))]

/-- t0 - t1*q computed modulo P, for t0 = -A, t1 = B -/
theorem wrap_sub (t A B q P : ℤ) : P > 0 → t ≥ 0 → t < P → A = (if t = 0 then 0 else P - t) → A + B * q < P →
    A + B * q ≥ 0 →
    (if (t - (B * q) % P) % P = 0 then 0 else P - (t - (B * q) % P) % P) = A + B * q := by
  intro hP h0 h1 hA h2 h3
  have e : (t - (B * q) % P) % P = (-(A + B * q)) % P := by
    have h : Int.ModEq P (t - (B * q) % P) (-A - B * q) := by
      apply Int.ModEq.sub _ (Int.mod_modEq _ _)
      rw [hA]
      split_ifs with h
      · rw [h]; simp
      · apply Int.modEq_iff_dvd.mpr; exact ⟨-1, by ring⟩
    rw [show -(A + B * q) = -A - B * q by ring]
    exact h
  rw [e]
  generalize A + B * q = c at *
  by_cases hc : c = 0
  · subst hc; simp
  · have : (-c) % P = P - c := by
      rw [show -c = (P - c) + P * (-1) by ring, Int.add_mul_emod_self_left]
      exact Int.emod_eq_of_lt (by omega) (by omega)
    rw [this, if_neg (by omega)]
    ring

theorem wrap_sub' (t A B q P : ℤ) : P > 0 → t ≥ 0 → t < P → A = (if t = 0 then 0 else P - t) → B + A * q < P →
    B + A * q ≥ 0 →
    (B - (t * q) % P) % P = B + A * q := by
  intro hP h0 h1 hA h2 h3
  have e : (B - (t * q) % P) % P = (B + A * q) % P := by
    have h : Int.ModEq P (B - (t * q) % P) (B - (-A) * q) := by
      apply Int.ModEq.sub rfl
      apply (Int.mod_modEq _ _).trans
      apply Int.ModEq.mul_right
      rw [hA]
      split_ifs with h
      · rw [h]; simp
      · apply Int.modEq_iff_dvd.mpr; exact ⟨-1, by ring⟩
    rw [show B + A * q = B - (-A) * q by ring]
    exact h
  rw [e]
  exact Int.emod_eq_of_lt h3 h2

theorem inv_neg (x A m : ℤ) : m > 0 → (1 + x * A) % m = 0 → (x * (m - A)) % m = 1 % m := by
  intro _ h
  have hd := Int.dvd_of_emod_eq_zero h
  apply Int.ModEq.symm
  apply (Int.modEq_iff_dvd).mpr
  have e : x * (m - A) - 1 = m * x - (1 + x * A) := by ring
  rw [e]
  exact dvd_sub (dvd_mul_right m x) hd

theorem inv_pos (x B m : ℤ) : m > 0 → (1 - x * B) % m = 0 → (x * B) % m = 1 % m := by
  intro _ h
  have hd := Int.dvd_of_emod_eq_zero h
  apply (Int.modEq_iff_dvd).mpr
  exact hd

theorem srem_mod (x o : ℤ) : o > 0 → ((if x ≥ 0 then x % o else -((-x) % o)) % o = x % o ∧
    ((if x ≥ 0 then x % o else -((-x) % o)) + o) % o = x % o ∧ (if x ≥ 0 then x % o else -((-x) % o)) < o ∧
    (if x ≥ 0 then x % o else -((-x) % o)) > -o ∧ (x ≤ 0 → (if x ≥ 0 then x % o else -((-x) % o)) ≤ 0)) := by
  intro h
  have a1 := Int.emod_nonneg x (by omega : o ≠ 0)
  have a2 := Int.emod_lt_of_pos x h
  have b1 := Int.emod_nonneg (-x) (by omega : o ≠ 0)
  have b2 := Int.emod_lt_of_pos (-x) h
  have c : (-((-x) % o)) % o = x % o := by
    have : (-((-x) % o)) ≡ x [ZMOD o] := by
      calc (-((-x) % o)) ≡ -(-x) [ZMOD o] := Int.ModEq.neg (Int.mod_modEq _ _)
        _ = x := by ring
    exact this
  split
  · refine ⟨Int.emod_emod_of_dvd _ dvd_rfl, by simp, a2, by omega, ?_⟩
    intro hx
    have : x = 0 := by omega
    subst this; simp
  · refine ⟨c, by simpa using c, by omega, by omega, ?_⟩
    intro _; omega

/-- iterations of for (i = lo; i < hi; i += s) -/
theorem trips_ceil (lo hi s t : ℤ) : s ≥ 1 → lo < hi → lo + (t - 1) * s < hi → hi ≤ lo + t * s →
    (hi - lo + s - 1) / s = t := by
  intro hs _ h1 h2
  rw [Int.ediv_eq_iff_of_pos (by omega)]
  constructor <;> nlinarith
end DV
