import Mathlib
namespace DV

/-- x is s halved, rounding down, one or more times -/
def ish (s x : ℤ) : Prop := ∃ k : ℕ, x = s / 2 ^ (k + 1)

theorem ish_init (s : ℤ) : ish s (s / 2) := ⟨0, by norm_num⟩
theorem ish_step (s k : ℤ) : ish s k → ish s (k / 2) := by
  rintro ⟨a, rfl⟩
  refine ⟨a + 1, ?_⟩
  rw [Int.ediv_ediv_of_nonneg (by positivity), pow_succ _ (a + 1)]
theorem ish_le (s k : ℤ) : s ≥ 0 → ish s k → k ≤ s / 2 := by
  rintro h ⟨a, rfl⟩
  rw [pow_succ, mul_comm, ← Int.ediv_ediv_of_nonneg (by norm_num)]
  exact Int.ediv_le_self _ (by omega)
theorem ish_gap (s k t : ℤ) : s ≥ 0 → ish s k → ish s t → k ≤ t → (k = t ∨ k ≤ t / 2) := by
  rintro h ⟨a, rfl⟩ ⟨b, rfl⟩ hle
  rcases le_or_gt a b with hab | hab
  · left
    obtain ⟨c, rfl⟩ := Nat.exists_eq_add_of_le hab
    apply le_antisymm hle
    have : (2:ℤ) ^ (a + c + 1) = 2 ^ (a + 1) * 2 ^ c := by ring
    rw [this, ← Int.ediv_ediv_of_nonneg (by positivity)]
    exact Int.ediv_le_self _ (Int.ediv_nonneg h (by positivity))
  · right
    obtain ⟨c, rfl⟩ := Nat.exists_eq_add_of_lt hab
    have : (2:ℤ) ^ (b + c + 1 + 1) = 2 ^ (b + 1) * 2 * 2 ^ c := by ring
    rw [this, ← Int.ediv_ediv_of_nonneg (by positivity), ← Int.ediv_ediv_of_nonneg (by positivity)]
    exact Int.ediv_le_self _ (Int.ediv_nonneg (Int.ediv_nonneg h (by positivity)) (by norm_num))
theorem neg_mod (k s : ℤ) : s ≥ 1 → (-k) % s = if k % s = 0 then 0 else s - k % s := by
  intro h
  split
  · rename_i h0
    exact Int.emod_eq_zero_of_dvd ((Int.dvd_neg).2 (Int.dvd_of_emod_eq_zero h0))
  · rename_i h0
    have h1 := Int.emod_nonneg k (by omega : s ≠ 0)
    have h2 := Int.emod_lt_of_pos k (by omega : 0 < s)
    have : -k = (s - k % s) + s * (-(k / s) - 1) := by
      have := Int.emod_add_mul_ediv k s
      linarith [this, mul_comm s (k / s)]
    rw [this, Int.add_mul_emod_self_left]
    exact Int.emod_eq_of_lt (by omega) (by omega)
theorem mod_small (k s : ℤ) : 0 ≤ k → k < s → k % s = k := fun h h' => Int.emod_eq_of_lt h h'
theorem mod_wrap (k s : ℤ) : s ≥ 1 → (k + s) % s = k % s := fun _ => Int.add_emod_right k s
theorem sqrt_ub (s : ℤ) : s ≥ 1 → (1 ≤ -⌊-Real.sqrt (s:ℝ)⌋ ∧ -⌊-Real.sqrt (s:ℝ)⌋ ≤ s) := by
  intro h
  have h1 : (1:ℝ) ≤ s := by exact_mod_cast h
  have h2 : (1:ℝ) ≤ Real.sqrt s := Real.one_le_sqrt.2 h1
  have h3 : Real.sqrt s ≤ s := by
    rw [Real.sqrt_le_left (by linarith)]; nlinarith
  constructor
  · have : ⌊-Real.sqrt (s:ℝ)⌋ ≤ -1 := by
      have := Int.floor_le (-Real.sqrt (s:ℝ))
      have h4 : ((⌊-Real.sqrt (s:ℝ)⌋ : ℤ) : ℝ) ≤ ((-1 : ℤ) : ℝ) := by push_cast; linarith
      exact_mod_cast h4
    omega
  · have : -s ≤ ⌊-Real.sqrt (s:ℝ)⌋ := by
      rw [Int.le_floor]; push_cast; linarith
    omega
theorem pow2_30 : pow2 30 = 1073741824 := by
  have : pow2 30 = (2:ℤ)^30 := rfl
  rw [this]; norm_num

end DV
