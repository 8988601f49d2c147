import Mathlib

namespace DV

/-- 2^n for n ≥ 0 (1 below) -/
def pow2 (n : ℤ) : ℤ := 2 ^ n.toNat

theorem pow2_zero : pow2 0 = 1 := by simp [pow2]

theorem pow2_pos (k : ℤ) : k ≥ 0 → pow2 k ≥ 1 := by
  intro _
  unfold pow2
  exact_mod_cast Nat.one_le_two_pow

theorem pow2_succ (k : ℤ) : k ≥ 1 → pow2 k = 2 * pow2 (k - 1) := by
  intro h
  unfold pow2
  have : k.toNat = (k - 1).toNat + 1 := by omega
  rw [this, pow_succ]; ring

theorem pow2_add (a b : ℤ) : a ≥ 0 → b ≥ 0 → pow2 (a + b) = pow2 a * pow2 b := by
  intro ha hb
  unfold pow2
  rw [Int.toNat_add ha hb, pow_add]

theorem pow2_mono (a b : ℤ) : a ≥ 0 → a ≤ b → pow2 a ≤ pow2 b := by
  intro ha hb
  unfold pow2
  apply pow_le_pow_right₀ (by norm_num)
  omega

theorem pow2_lt (a b : ℤ) : a ≥ 0 → a < b → 2 * pow2 a ≤ pow2 b := by
  intro ha hb
  rw [pow2_succ b (by omega)]
  have := pow2_mono a (b-1) ha (by omega)
  omega

theorem pow2_gt (a : ℤ) : a ≥ 0 → a < pow2 a := by
  intro ha
  unfold pow2
  have := (Nat.lt_two_pow_self (n := a.toNat))
  have h2 : ((a.toNat : ℕ) : ℤ) = a := Int.toNat_of_nonneg ha
  calc a = (a.toNat : ℤ) := h2.symm
    _ < ((2 ^ a.toNat : ℕ) : ℤ) := by exact_mod_cast this
    _ = _ := by push_cast; rfl

theorem mul_lt_sq (a b p : ℤ) : a ≥ 0 → b ≥ 0 → a < p → b < p → (a * b ≥ 0 ∧ a * b < p * p) := by
  intro ha hb hap hbp
  constructor
  · positivity
  · nlinarith

/-- b^e, e ≥ 0 -/
def pw (b e : ℤ) : ℤ := b ^ e.toNat

def gcd (a b : ℤ) : ℤ := (Int.gcd a b : ℤ)

/-- bitwise and of non-negative integers -/
def band (a b : ℤ) : ℤ := ((a.toNat &&& b.toNat : ℕ) : ℤ)

end DV
