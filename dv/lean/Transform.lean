import Mathlib
namespace DV
open Finset

/-- bit reversal of t among g = 2^k values -/
def brevN (g t : ℕ) : ℕ := if h : g ≤ 1 then 0 else (t % 2) * (g / 2) + brevN (g / 2) (t / 2)
termination_by g
decreasing_by omega

def brev (g t : ℤ) : ℤ := (brevN g.toNat t.toNat : ℤ)

theorem brevN_step (g t b : ℕ) (hg : 1 ≤ g) (hb : b < 2) : brevN (2 * g) (2 * t + b) = b * g + brevN g t := by
  rw [brevN]
  have h : ¬ (2 * g ≤ 1) := by omega
  rw [dif_neg h]
  have h1 : (2 * t + b) % 2 = b := by omega
  have h2 : 2 * g / 2 = g := by omega
  have h3 : (2 * t + b) / 2 = t := by omega
  rw [h1, h2, h3]

/-- slot p of the transform split into g groups: a coefficient of the polynomial reduced modulo the group's factor -/
noncomputable def nttT (a : ℤ → ℤ) (psi n g p : ℤ) : ℤ :=
  ∑ h ∈ range g.toNat, a (p % (n / g) + (n / g) * h) *
    pw psi ((2 * brev g (p / (n / g)) + 1) * (p % (n / g) + (n / g) * h))

noncomputable def nttS (a : ℤ → ℤ) (psi q n g p : ℤ) : ℤ := nttT a psi n g p % q

/-- value of the polynomial with coefficients a_0 .. a_{n-1} at x -/
noncomputable def evalp (a : ℤ → ℤ) (x n : ℤ) : ℤ := ∑ i ∈ range n.toNat, a i * pw x i

theorem ntts_rng (a : ℤ → ℤ) (psi q n g p : ℤ) : q > 0 → (0 ≤ nttS a psi q n g p ∧ nttS a psi q n g p < q) := by
  intro h
  exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ h⟩

theorem ntts_init (a : ℤ → ℤ) (psi q n p : ℤ) : 0 ≤ p → p < n → nttS a psi q n 1 p = (a p * pw psi p) % q := by
  intro h0 h1
  unfold nttS nttT
  have e : brev 1 (p / (n / 1)) = 0 := by
    unfold brev; rw [brevN]; simp
  rw [e]
  have hm : p % n = p := Int.emod_eq_of_lt h0 h1
  simp [hm]

theorem ntts_final (a : ℤ → ℤ) (psi q n p : ℤ) : 0 ≤ p → p < n →
    nttS a psi q n n p = evalp a (pw psi (2 * brev n p + 1)) n % q := by
  intro h0 h1
  unfold nttS nttT evalp
  have hn : n / n = 1 := Int.ediv_self (by omega)
  rw [hn]
  congr 1
  apply Finset.sum_congr rfl
  intro i _
  have hb : 0 ≤ brev n p := by unfold brev; positivity
  simp only [Int.emod_one, Int.ediv_one, zero_add, one_mul]
  congr 1
  unfold pw
  rw [← pow_mul, Int.toNat_mul (by omega) (by omega)]

theorem sum_even_odd {M : Type*} [AddCommMonoid M] (f : ℕ → M) (G : ℕ) :
    ∑ h ∈ range (2 * G), f h = ∑ h ∈ range G, (f (2 * h) + f (2 * h + 1)) := by
  induction G with
  | zero => simp
  | succ k ih =>
    rw [show 2 * (k + 1) = 2 * k + 1 + 1 by ring, sum_range_succ, sum_range_succ, ih, sum_range_succ, add_assoc]

/-- one level, in ZMod -/
theorem ntt_core (a : ℤ → ℤ) (Q : ℕ) (psi : ℤ) (n s g t j b : ℕ) (hs : 1 ≤ s) (hg : 1 ≤ g) (hn : n = 2 * s * g)
    (hj : j < s) (hb : b < 2) (hp : ((psi : ℤ) : ZMod Q) ^ n = -1) :
    ((nttT a psi n (2 * g : ℕ) ((2 * t + b) * s + j : ℕ) : ℤ) : ZMod Q) =
    (((nttT a psi n g (2 * s * t + j : ℕ) : ℤ) : ZMod Q) +
      (-1) ^ b * ((nttT a psi n g (2 * s * t + j + s : ℕ) : ℤ) : ZMod Q)) * ((psi : ℤ) : ZMod Q) ^ (2 * b * g * j) := by
  have l1 : (n : ℤ) / ((2 * g : ℕ) : ℤ) = (s : ℤ) := by
    have : n / (2 * g) = s := by
      rw [hn, show 2 * s * g = s * (2 * g) by ring]; exact Nat.mul_div_cancel _ (by omega)
    exact_mod_cast this
  have l2 : (n : ℤ) / (g : ℤ) = ((2 * s : ℕ) : ℤ) := by
    have : n / g = 2 * s := by rw [hn]; exact Nat.mul_div_cancel _ (by omega)
    exact_mod_cast this
  have p1 : (((2 * t + b) * s + j : ℕ) : ℤ) % (s : ℤ) = (j : ℤ) := by
    have : ((2 * t + b) * s + j) % s = j := by
      rw [add_comm, Nat.add_mul_mod_self_right]; exact Nat.mod_eq_of_lt hj
    exact_mod_cast this
  have d1 : (((2 * t + b) * s + j : ℕ) : ℤ) / (s : ℤ) = ((2 * t + b : ℕ) : ℤ) := by
    have : ((2 * t + b) * s + j) / s = 2 * t + b := by
      rw [add_comm, Nat.add_mul_div_right _ _ (by omega), Nat.div_eq_of_lt hj, zero_add]
    exact_mod_cast this
  have p2 : ((2 * s * t + j : ℕ) : ℤ) % ((2 * s : ℕ) : ℤ) = (j : ℤ) := by
    have : (2 * s * t + j) % (2 * s) = j := by
      rw [add_comm, Nat.add_mul_mod_self_left]; exact Nat.mod_eq_of_lt (by omega)
    exact_mod_cast this
  have d2 : ((2 * s * t + j : ℕ) : ℤ) / ((2 * s : ℕ) : ℤ) = (t : ℤ) := by
    have : (2 * s * t + j) / (2 * s) = t := by
      rw [add_comm, Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
    exact_mod_cast this
  have p3 : ((2 * s * t + j + s : ℕ) : ℤ) % ((2 * s : ℕ) : ℤ) = ((j + s : ℕ) : ℤ) := by
    have : (2 * s * t + j + s) % (2 * s) = j + s := by
      rw [add_assoc, add_comm, Nat.add_mul_mod_self_left]; exact Nat.mod_eq_of_lt (by omega)
    exact_mod_cast this
  have d3 : ((2 * s * t + j + s : ℕ) : ℤ) / ((2 * s : ℕ) : ℤ) = (t : ℤ) := by
    have : (2 * s * t + j + s) / (2 * s) = t := by
      rw [add_assoc, add_comm, Nat.add_mul_div_left _ _ (by omega), Nat.div_eq_of_lt (by omega), zero_add]
    exact_mod_cast this
  unfold nttT
  rw [l1, l2, p1, d1, p2, d2, p3, d3]
  simp only [Int.toNat_natCast]
  have hb1 : brev ((2 * g : ℕ) : ℤ) ((2 * t + b : ℕ) : ℤ) = ((b * g + brevN g t : ℕ) : ℤ) := by
    unfold brev; rw [Int.toNat_natCast, Int.toNat_natCast, brevN_step g t b hg hb]
  have hb2 : brev (g : ℤ) (t : ℤ) = (brevN g t : ℤ) := by
    unfold brev; rw [Int.toNat_natCast, Int.toNat_natCast]
  rw [hb1, hb2]
  set r := brevN g t with hr
  rw [sum_even_odd]
  rw [Int.cast_sum, Int.cast_sum, Int.cast_sum, Finset.mul_sum, ← Finset.sum_add_distrib, Finset.sum_mul]
  apply Finset.sum_congr rfl
  intro h _
  have cast1 : ∀ e f : ℕ, ((pw psi ((2 * (e : ℤ) + 1) * (f : ℤ)) : ℤ) : ZMod Q) = ((psi : ℤ) : ZMod Q) ^ ((2 * e + 1) * f) := by
    intro e f
    unfold pw
    rw [show ((2 * (e : ℤ) + 1) * (f : ℤ)) = (((2 * e + 1) * f : ℕ) : ℤ) by push_cast; ring, Int.toNat_natCast]
    push_cast; rfl
  have i1 : (j : ℤ) + (s : ℤ) * ((2 * h : ℕ) : ℤ) = ((j + 2 * s * h : ℕ) : ℤ) := by push_cast; ring
  have i2 : (j : ℤ) + (s : ℤ) * ((2 * h + 1 : ℕ) : ℤ) = ((j + s + 2 * s * h : ℕ) : ℤ) := by push_cast; ring
  have i3 : (j : ℤ) + ((2 * s : ℕ) : ℤ) * (h : ℤ) = ((j + 2 * s * h : ℕ) : ℤ) := by push_cast; ring
  have i4 : ((j + s : ℕ) : ℤ) + ((2 * s : ℕ) : ℤ) * (h : ℤ) = ((j + s + 2 * s * h : ℕ) : ℤ) := by push_cast; ring
  rw [i1, i2, i3, i4]
  rw [Int.cast_add, Int.cast_mul, Int.cast_mul, Int.cast_mul, Int.cast_mul, cast1, cast1, cast1, cast1]
  set w := ((psi : ℤ) : ZMod Q)
  have e1 : w ^ ((2 * (b * g + r) + 1) * (j + 2 * s * h)) = w ^ ((2 * r + 1) * (j + 2 * s * h)) * w ^ (2 * b * g * j) := by
    have : (2 * (b * g + r) + 1) * (j + 2 * s * h) = (2 * r + 1) * (j + 2 * s * h) + 2 * b * g * j + n * (2 * b * h) := by
      rw [hn]; ring
    rw [this, pow_add, pow_add, pow_mul w n, hp]
    rw [show 2 * b * h = 2 * (b * h) by ring, pow_mul]; simp
  have e2 : w ^ ((2 * (b * g + r) + 1) * (j + s + 2 * s * h)) =
      (-1) ^ b * w ^ ((2 * r + 1) * (j + s + 2 * s * h)) * w ^ (2 * b * g * j) := by
    have : (2 * (b * g + r) + 1) * (j + s + 2 * s * h) =
        (2 * r + 1) * (j + s + 2 * s * h) + 2 * b * g * j + n * b + n * (2 * b * h) := by
      rw [hn]; ring
    rw [this, pow_add, pow_add, pow_add, pow_mul w n, pow_mul w n, hp]
    rw [show 2 * b * h = 2 * (b * h) by ring, pow_mul (-1 : ZMod Q) 2]; simp; ring
  rw [e1, e2]; ring

theorem cast_emod (Q : ℕ) (x : ℤ) : ((x % (Q : ℤ) : ℤ) : ZMod Q) = ((x : ℤ) : ZMod Q) := by
  exact (ZMod.intCast_eq_intCast_iff _ _ _).2 (Int.mod_modEq x Q)

theorem cast_emod' (q x : ℤ) (hq : q > 1) : ((x % q : ℤ) : ZMod q.toNat) = (x : ZMod q.toNat) := by
  have h : q = (q.toNat : ℤ) := (Int.toNat_of_nonneg (by omega)).symm
  exact (ZMod.intCast_eq_intCast_iff _ _ _).2 (by rw [← h]; exact Int.mod_modEq x q)

theorem half_cast (Q : ℕ) (psi n : ℤ) : pw psi n % (Q : ℤ) = Q - 1 → ((psi : ℤ) : ZMod Q) ^ n.toNat = -1 := by
  intro h
  have := congrArg (fun z : ℤ => (z : ZMod Q)) h
  simp only [cast_emod, cast_pw] at this
  rw [this]; push_cast; simp

theorem ntts_lo (a : ℤ → ℤ) (psi q n s g t j : ℤ) : q > 1 → s ≥ 1 → g ≥ 1 → n = 2 * s * g → 0 ≤ t → 0 ≤ j → j < s →
    pw psi n % q = q - 1 →
    nttS a psi q n (2 * g) (t * (2 * s) + j) = (nttS a psi q n g (t * (2 * s) + j) + nttS a psi q n g (t * (2 * s) + j + s)) % q := by
  intro hq hs hg hn ht hj hjs hp
  lift q to ℕ using (by omega) with Q
  have hp' := half_cast Q psi n hp
  lift n to ℕ using (by rw [hn]; positivity) with n'
  lift s to ℕ using (by omega) with s'
  lift g to ℕ using (by omega) with g'
  lift t to ℕ using ht with t'
  lift j to ℕ using hj with j'
  rw [Int.toNat_natCast] at hp'
  have := ntt_core a Q psi n' s' g' t' j' 0 (by omega) (by omega) (by exact_mod_cast hn) (by omega) (by omega) hp'
  unfold nttS
  rw [emod_eq_iff Q _ _ _ rfl, Int.cast_add, cast_emod, cast_emod]
  simp only [pow_zero, one_mul, mul_zero, zero_mul, mul_one, add_zero] at this
  have e1 : ((t' : ℤ) * (2 * (s' : ℤ)) + (j' : ℤ)) = ((2 * s' * t' + j' : ℕ) : ℤ) := by push_cast; ring
  rw [e1, show ((2 * s' * t' + j' : ℕ) : ℤ) + (s' : ℤ) = ((2 * s' * t' + j' + s' : ℕ) : ℤ) by push_cast; ring, ← this]
  congr 2
  · rw [show 2 * s' * t' + j' = 2 * t' * s' + j' by ring]

theorem ntts_hi (a : ℤ → ℤ) (psi q n s g t j : ℤ) : q > 1 → s ≥ 1 → g ≥ 1 → n = 2 * s * g → 0 ≤ t → 0 ≤ j → j < s →
    pw psi n % q = q - 1 →
    nttS a psi q n (2 * g) (t * (2 * s) + j + s) =
      (((nttS a psi q n g (t * (2 * s) + j) - nttS a psi q n g (t * (2 * s) + j + s)) % q) * (pw psi (2 * j * g) % q)) % q := by
  intro hq hs hg hn ht hj hjs hp
  lift q to ℕ using (by omega) with Q
  have hp' := half_cast Q psi n hp
  lift n to ℕ using (by rw [hn]; positivity) with n'
  lift s to ℕ using (by omega) with s'
  lift g to ℕ using (by omega) with g'
  lift t to ℕ using ht with t'
  lift j to ℕ using hj with j'
  rw [Int.toNat_natCast] at hp'
  have := ntt_core a Q psi n' s' g' t' j' 1 (by omega) (by omega) (by exact_mod_cast hn) (by omega) (by omega) hp'
  unfold nttS
  rw [emod_eq_iff Q _ _ _ rfl, Int.cast_mul, cast_emod, cast_emod, Int.cast_sub, cast_emod, cast_emod, cast_pw]
  have e1 : ((t' : ℤ) * (2 * (s' : ℤ)) + (j' : ℤ)) = ((2 * s' * t' + j' : ℕ) : ℤ) := by push_cast; ring
  have e2 : (2 * (j' : ℤ) * (g' : ℤ)).toNat = 2 * 1 * g' * j' := by
    rw [show (2 * (j' : ℤ) * (g' : ℤ)) = ((2 * 1 * g' * j' : ℕ) : ℤ) by push_cast; ring, Int.toNat_natCast]
  rw [e1, e2, show ((2 * s' * t' + j' : ℕ) : ℤ) + (s' : ℤ) = ((2 * s' * t' + j' + s' : ℕ) : ℤ) by push_cast; ring]
  have e3 : (2 * t' + 1) * s' + j' = 2 * s' * t' + j' + s' := by ring
  rw [e3] at this
  have e4 : (2 * (g' : ℤ)) = ((2 * g' : ℕ) : ℤ) := by push_cast; ring
  rw [e4, this]; ring

noncomputable def nttC (s : ℤ) (a : ℤ → ℤ) (psi q n g p : ℤ) : ℤ := (s * nttS a psi q n g p) % q

theorem nttc_rng (s : ℤ) (a : ℤ → ℤ) (psi q n g p : ℤ) : q > 0 → (0 ≤ nttC s a psi q n g p ∧ nttC s a psi q n g p < q) := by
  intro h
  exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ h⟩

theorem nttc_final (a : ℤ → ℤ) (psi q n p : ℤ) : q > 0 → 0 ≤ p → p < n →
    nttC 1 a psi q n n p = evalp a (pw psi (2 * brev n p + 1)) n % q := by
  intro h h0 h1
  rw [← ntts_final a psi q n p h0 h1]
  unfold nttC nttS; simp

/-- undoing one level: the inverse keeps every slot multiplied by the current span -/
theorem intt_core (a : ℤ → ℤ) (psi inv q n s g t j : ℤ) (hq : q > 1) (hs : s ≥ 1) (hg : g ≥ 1) (hn : n = 2 * s * g) (ht : 0 ≤ t)
    (hj : 0 ≤ j) (hjs : j < s) (hp : pw psi n % q = q - 1) (hi : (psi * inv) % q = 1) (Q : ℕ) (hQ : q = (Q : ℤ)) :
    ((nttS a psi q n (2 * g) (t * (2 * s) + j) : ℤ) : ZMod Q) =
      (nttS a psi q n g (t * (2 * s) + j) : ℤ) + (nttS a psi q n g (t * (2 * s) + j + s) : ℤ) ∧
    ((nttS a psi q n (2 * g) (t * (2 * s) + j + s) * pw inv (2 * j * g) : ℤ) : ZMod Q) =
      (nttS a psi q n g (t * (2 * s) + j) : ℤ) - (nttS a psi q n g (t * (2 * s) + j + s) : ℤ) := by
  have h1 := ntts_lo a psi q n s g t j hq hs hg hn ht hj hjs hp
  have h2 := ntts_hi a psi q n s g t j hq hs hg hn ht hj hjs hp
  constructor
  · rw [h1, hQ, cast_emod]; push_cast; rfl
  · rw [h2, hQ, Int.cast_mul, cast_emod, Int.cast_mul, cast_emod, cast_emod, cast_pw, cast_pw, mul_assoc, ← mul_pow]
    have : ((psi : ℤ) : ZMod Q) * ((inv : ℤ) : ZMod Q) = 1 := by
      have := congrArg (fun z : ℤ => (z : ZMod Q)) hi
      simp only [hQ, cast_emod] at this
      push_cast at this; exact this
    rw [this]; simp

theorem intt_lo (a : ℤ → ℤ) (psi inv q n s g t j : ℤ) : q > 1 → s ≥ 1 → g ≥ 1 → n = 2 * s * g → 0 ≤ t → 0 ≤ j → j < s →
    pw psi n % q = q - 1 → (psi * inv) % q = 1 →
    (nttC s a psi q n (2 * g) (t * (2 * s) + j) +
      (nttC s a psi q n (2 * g) (t * (2 * s) + j + s) * (pw inv (2 * j * g) % q)) % q) % q
      = nttC (2 * s) a psi q n g (t * (2 * s) + j) := by
  intro hq hs hg hn ht hj hjs hp hi
  unfold nttC
  have hQ : q = (q.toNat : ℤ) := (Int.toNat_of_nonneg (by omega)).symm
  obtain ⟨h1, h2⟩ := intt_core a psi inv q n s g t j hq hs hg hn ht hj hjs hp hi q.toNat hQ
  rw [emod_eq_iff q.toNat _ _ _ hQ]
  set X := nttS a psi q n (2 * g) (t * (2 * s) + j)
  set Y := nttS a psi q n (2 * g) (t * (2 * s) + j + s)
  have hc : ∀ x : ℤ, ((x % q : ℤ) : ZMod q.toNat) = (x : ZMod q.toNat) := fun x => cast_emod' q x hq
  rw [Int.cast_mul] at h2
  simp only [Int.cast_add, Int.cast_sub, Int.cast_mul, hc]
  rw [h1, mul_assoc, h2]
  push_cast; ring

theorem intt_hi (a : ℤ → ℤ) (psi inv q n s g t j : ℤ) : q > 1 → s ≥ 1 → g ≥ 1 → n = 2 * s * g → 0 ≤ t → 0 ≤ j → j < s →
    pw psi n % q = q - 1 → (psi * inv) % q = 1 →
    (nttC s a psi q n (2 * g) (t * (2 * s) + j) -
      (nttC s a psi q n (2 * g) (t * (2 * s) + j + s) * (pw inv (2 * j * g) % q)) % q) % q
      = nttC (2 * s) a psi q n g (t * (2 * s) + j + s) := by
  intro hq hs hg hn ht hj hjs hp hi
  unfold nttC
  have hQ : q = (q.toNat : ℤ) := (Int.toNat_of_nonneg (by omega)).symm
  obtain ⟨h1, h2⟩ := intt_core a psi inv q n s g t j hq hs hg hn ht hj hjs hp hi q.toNat hQ
  rw [emod_eq_iff q.toNat _ _ _ hQ]
  set X := nttS a psi q n (2 * g) (t * (2 * s) + j)
  set Y := nttS a psi q n (2 * g) (t * (2 * s) + j + s)
  have hc : ∀ x : ℤ, ((x % q : ℤ) : ZMod q.toNat) = (x : ZMod q.toNat) := fun x => cast_emod' q x hq
  rw [Int.cast_mul] at h2
  simp only [Int.cast_add, Int.cast_sub, Int.cast_mul, hc]
  rw [h1, mul_assoc, h2]
  push_cast; ring

/-- the last pass of the inverse: untwist and divide by n -/
theorem intt_final (a : ℤ → ℤ) (psi inv ninv q n p : ℤ) : q > 1 → 0 ≤ p → p < n → (psi * inv) % q = 1 → (n * ninv) % q = 1 →
    0 ≤ a p → a p < q →
    (nttC n a psi q n 1 p * (((pw inv p % q) * ninv) % q)) % q = a p := by
  intro hq h0 h1 hi hv ha haq
  unfold nttC
  rw [ntts_init a psi q n p h0 h1]
  have hQ : q = (q.toNat : ℤ) := (Int.toNat_of_nonneg (by omega)).symm
  have e : a p = a p % q := (Int.emod_eq_of_lt ha haq).symm
  conv_rhs => rw [e]
  rw [emod_eq_iff q.toNat _ _ _ hQ]
  have k1 : ((psi : ℤ) : ZMod q.toNat) * ((inv : ℤ) : ZMod q.toNat) = 1 := by
    have := congrArg (fun z : ℤ => (z : ZMod q.toNat)) hi
    rw [cast_emod' _ _ hq] at this
    push_cast at this; exact this
  have k2 : ((n : ℤ) : ZMod q.toNat) * ((ninv : ℤ) : ZMod q.toNat) = 1 := by
    have := congrArg (fun z : ℤ => (z : ZMod q.toNat)) hv
    rw [cast_emod' _ _ hq] at this
    push_cast at this; exact this
  have k3 : ((psi : ℤ) : ZMod q.toNat) ^ p.toNat * ((inv : ℤ) : ZMod q.toNat) ^ p.toNat = 1 := by
    rw [← mul_pow, k1, one_pow]
  generalize hA : a p = A
  have : ∀ x : ℤ, ((x % q : ℤ) : ZMod q.toNat) = (x : ZMod q.toNat) := fun x => cast_emod' q x hq
  simp only [Int.cast_mul, this, cast_pw]
  linear_combination ((A : ℤ) : ZMod q.toNat) * ((psi : ℤ) : ZMod q.toNat) ^ p.toNat * ((inv : ℤ) : ZMod q.toNat) ^ p.toNat * k2
    + ((A : ℤ) : ZMod q.toNat) * k3

theorem pw_next (x b i q : ℤ) : q > 0 → i ≥ 0 → x = pw b i % q → (x * b) % q = pw b (i + 1) % q := by
  intro hq hi hx
  rw [hx]; unfold pw
  rw [Int.toNat_add hi (by norm_num), pow_add]
  simp [Int.mul_emod]

theorem mul_pw_mod (x b i q : ℤ) : (x * (pw b i % q)) % q = (x * pw b i) % q := by
  simp [Int.mul_emod]

/-- a primitive 2n-th root of unity is a square root of -1 to the n -/
theorem root_half (q psi n : ℤ) : prime q → q > 2 → n ≥ 1 → hasord q psi (2 * n) → pw psi n % q = q - 1 := by
  intro hq h2 hn ho
  have hQ : q = (q.toNat : ℤ) := (Int.toNat_of_nonneg (by omega)).symm
  haveI : Fact (Nat.Prime q.toNat) := ⟨hq.2⟩
  have h1 : pw psi n % q ≠ 1 % q := ho.2 n (by omega) (by omega)
  have h3 : pw psi (2 * n) % q = 1 % q := ho.1
  rw [Ne, emod_eq_iff q.toNat _ _ _ hQ, cast_pw] at h1
  rw [emod_eq_iff q.toNat _ _ _ hQ, cast_pw] at h3
  have h4 : (((psi : ℤ) : ZMod q.toNat) ^ n.toNat) ^ 2 = 1 := by
    rw [← pow_mul, show n.toNat * 2 = (2 * n).toNat by omega]
    simpa using h3
  have h5 : ((psi : ℤ) : ZMod q.toNat) ^ n.toNat = -1 := by
    rcases (by simpa using h4 : ((psi : ℤ) : ZMod q.toNat) ^ n.toNat = 1 ∨ ((psi : ℤ) : ZMod q.toNat) ^ n.toNat = -1) with h | h
    · exact absurd (by simpa using h) h1
    · exact h
  have h6 : q - 1 = (q - 1) % q := (Int.emod_eq_of_lt (by omega) (by omega)).symm
  have h7 : ((q : ℤ) : ZMod q.toNat) = 0 := by
    have := cast_emod' q q (by omega)
    rw [Int.emod_self] at this; rw [← this]; simp
  rw [h6, emod_eq_iff q.toNat _ _ _ hQ, cast_pw, h5, Int.cast_sub, h7]
  simp

theorem root_unit (q psi n : ℤ) : prime q → q > 2 → n ≥ 1 → 0 ≤ psi → psi < q → hasord q psi (2 * n) →
    (gcd psi q = 1 ∧ gcd n q = 1 ∧ 2 * n < q ∧ psi > 0) := by
  intro hq h2 hn hp0 hpq ho
  have hQ : q = (q.toNat : ℤ) := (Int.toNat_of_nonneg (by omega)).symm
  haveI : Fact (Nat.Prime q.toNat) := ⟨hq.2⟩
  have hpp : psi > 0 := by
    rcases lt_or_eq_of_le hp0 with h | h
    · exact h
    · exfalso
      have := ho.1
      rw [← h] at this
      unfold pw at this
      rw [zero_pow (by omega)] at this
      rw [Int.emod_eq_of_lt (by omega) (by omega : (1:ℤ) < q)] at this
      simp at this
  have hord := (hasord_iff q.toNat psi (2 * n) (by omega)).1 (by rw [← hQ]; exact ho)
  have hz : ((psi : ℤ) : ZMod q.toNat) ≠ 0 := by
    intro h
    rw [ZMod.intCast_zmod_eq_zero_iff_dvd] at h
    rw [← hQ] at h
    have := Int.le_of_dvd hpp h
    omega
  have hlt : 2 * n < q := by
    have h5 : orderOf ((psi : ℤ) : ZMod q.toNat) ∣ q.toNat - 1 := ZMod.orderOf_dvd_card_sub_one hz
    rw [hord] at h5
    have := Nat.le_of_dvd (by omega) h5
    omega
  have cop : ∀ x : ℤ, 0 < x → x < q → gcd x q = 1 := by
    intro x h0 h1
    unfold gcd
    have : Nat.Coprime x.toNat q.toNat := Nat.Coprime.symm ((Nat.Prime.coprime_iff_not_dvd hq.2).2
      (fun h => by have := Nat.le_of_dvd (by omega) h; omega))
    have h3 : Int.gcd x q = Nat.gcd x.toNat q.toNat := by
      rw [Int.gcd_eq_natAbs]
      congr 1 <;> omega
    rw [h3]
    exact_mod_cast this
  exact ⟨cop psi hpp hpq, cop n (by omega) (by omega), hlt, hpp⟩

/-- offset inside a half block of the given span, and number of the block -/
def nlow (p s : ℤ) : ℤ := p % s
def nblk (p s : ℤ) : ℤ := p / (2 * s)

theorem nlow_at (s t j p : ℤ) : s ≥ 1 → 0 ≤ t → 0 ≤ j → j < s → (nlow (t * (2 * s) + j) s = j ∧ nblk (t * (2 * s) + j) s = t ∧
    nlow (t * (2 * s) + j + s) s = j ∧ nblk (t * (2 * s) + j + s) s = t ∧
    (nlow p s = j → nblk p s = t → (p = t * (2 * s) + j ∨ p = t * (2 * s) + j + s))) := by
  intro hs ht hj hjs
  unfold nlow nblk
  have m : ∀ k : ℤ, (k * s + j) % s = j := by
    intro k; rw [add_comm, Int.add_mul_emod_self_right]; exact Int.emod_eq_of_lt hj hjs
  have d : ∀ r : ℤ, 0 ≤ r → r < 2 * s → (t * (2 * s) + r) / (2 * s) = t := by
    intro r h0 h1
    rw [add_comm, Int.add_mul_ediv_right _ _ (by omega), Int.ediv_eq_zero_of_lt h0 h1, zero_add]
  refine ⟨?_, d j hj (by omega), ?_, ?_, ?_⟩
  · rw [show t * (2 * s) + j = (2 * t) * s + j by ring]; exact m _
  · rw [show t * (2 * s) + j + s = (2 * t + 1) * s + j by ring]; exact m _
  · rw [add_assoc]; exact d _ (by omega) (by omega)
  · intro h1 h2
    have e1 := Int.emod_add_mul_ediv p (2 * s)
    rw [h2] at e1
    have r0 := Int.emod_nonneg p (by omega : 2 * s ≠ 0)
    have r1 := Int.emod_lt_of_pos p (by omega : 2 * s > 0)
    set r := p % (2 * s)
    have e2 : p = (2 * t) * s + r := by linarith
    have e3 : r % s = j := by
      rw [← h1, e2, add_comm, Int.add_mul_emod_self_right]
    rcases lt_or_ge r s with h | h
    · left; rw [Int.emod_eq_of_lt r0 h] at e3; rw [e2, e3]; ring
    · right
      have : (r - s) % s = j := by rw [← e3]; simp
      rw [Int.emod_eq_of_lt (by omega) (by omega)] at this
      rw [e2]; linarith

theorem nlow_rng (p s g : ℤ) : s ≥ 1 → 0 ≤ p → p < 2 * s * g → (0 ≤ nlow p s ∧ nlow p s < s ∧ 0 ≤ nblk p s ∧ nblk p s < g) := by
  intro hs h0 h1
  unfold nlow nblk
  refine ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega), Int.ediv_nonneg h0 (by omega), ?_⟩
  apply Int.ediv_lt_of_lt_mul (by omega); linarith

theorem blk_rng (s g t j : ℤ) : s ≥ 1 → 0 ≤ t → t < g → 0 ≤ j → j < s →
    (0 ≤ t * (2 * s) ∧ t * (2 * s) + j + s < 2 * s * g ∧ 0 ≤ 2 * j * g ∧ 2 * j * g < 2 * s * g ∧ 0 ≤ t * 2 ∧ t * 2 * s = t * (2 * s)) := by
  intro hs ht htg hj hjs
  have h1 : (t + 1) * (2 * s) ≤ g * (2 * s) := by apply mul_le_mul_of_nonneg_right <;> omega
  have h2 : 0 ≤ t * (2 * s) := by positivity
  have hg : 0 ≤ g := by omega
  have h3 : (j + 1) * g ≤ s * g := by apply mul_le_mul_of_nonneg_right <;> omega
  refine ⟨h2, by nlinarith, by positivity, by nlinarith, by omega, by ring⟩

/-- powers of two -/
def ispow (n : ℤ) : Prop := ∃ k : ℕ, n = 2 ^ k
/-- s and n are powers of two, s ≤ n -/
def halves (n s : ℤ) : Prop := ∃ i j : ℕ, s = 2 ^ i ∧ n = 2 ^ (i + j)

theorem ispow_le (n : ℤ) : n < 4294967296 → (ispow n ↔ (n = 1 ∨ n = 2 ∨ n = 4 ∨ n = 8 ∨ n = 16 ∨ n = 32 ∨ n = 64 ∨ n = 128 ∨
    n = 256 ∨ n = 512 ∨ n = 1024 ∨ n = 2048 ∨ n = 4096 ∨ n = 8192 ∨ n = 16384 ∨ n = 32768 ∨ n = 65536 ∨ n = 131072 ∨
    n = 262144 ∨ n = 524288 ∨ n = 1048576 ∨ n = 2097152 ∨ n = 4194304 ∨ n = 8388608 ∨ n = 16777216 ∨ n = 33554432 ∨
    n = 67108864 ∨ n = 134217728 ∨ n = 268435456 ∨ n = 536870912 ∨ n = 1073741824 ∨ n = 2147483648)) := by
  intro h
  constructor
  · rintro ⟨k, rfl⟩
    have hk : k < 32 := by
      by_contra hc
      have : (2 : ℤ) ^ 32 ≤ 2 ^ k := pow_le_pow_right₀ (by norm_num) (by omega)
      norm_num at this; omega
    interval_cases k <;> simp
  · rintro (h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h|h)
    exacts [⟨0, by simp [h]⟩, ⟨1, by simp [h]⟩, ⟨2, by simp [h]⟩, ⟨3, by simp [h]⟩, ⟨4, by simp [h]⟩, ⟨5, by simp [h]⟩,
      ⟨6, by simp [h]⟩, ⟨7, by simp [h]⟩, ⟨8, by simp [h]⟩, ⟨9, by simp [h]⟩, ⟨10, by simp [h]⟩, ⟨11, by simp [h]⟩,
      ⟨12, by simp [h]⟩, ⟨13, by simp [h]⟩, ⟨14, by simp [h]⟩, ⟨15, by simp [h]⟩, ⟨16, by simp [h]⟩, ⟨17, by simp [h]⟩,
      ⟨18, by simp [h]⟩, ⟨19, by simp [h]⟩, ⟨20, by simp [h]⟩, ⟨21, by simp [h]⟩, ⟨22, by simp [h]⟩, ⟨23, by simp [h]⟩,
      ⟨24, by simp [h]⟩, ⟨25, by simp [h]⟩, ⟨26, by simp [h]⟩, ⟨27, by simp [h]⟩, ⟨28, by simp [h]⟩, ⟨29, by simp [h]⟩,
      ⟨30, by simp [h]⟩, ⟨31, by simp [h]⟩]

theorem halves_init (n : ℤ) : ispow n → n ≥ 2 → (halves n (n / 2) ∧ halves n 1 ∧ n / 2 * 2 = n) := by
  rintro ⟨k, rfl⟩ h
  obtain ⟨m, rfl⟩ : ∃ m, k = m + 1 := by
    cases k with
    | zero => simp at h
    | succ m => exact ⟨m, rfl⟩
  have e : (2 : ℤ) ^ (m + 1) / 2 = 2 ^ m := by rw [pow_succ]; simp
  refine ⟨⟨m, 1, e, by ring⟩, ⟨0, m + 1, by simp, by ring⟩, by rw [e]; ring⟩

theorem halves_down (n s : ℤ) : halves n s → 2 * s ≤ n →
    (s ≥ 1 ∧ n = 2 * s * (n / (2 * s)) ∧ n / (2 * s) ≥ 1 ∧
     (s ≥ 2 → (halves n (s / 2) ∧ 2 * (s / 2) = s ∧ n / (2 * (s / 2)) = 2 * (n / (2 * s)) ∧ 2 * (s / 2) ≤ n)) ∧
     (s < 2 → n = 2 * (n / (2 * s)))) := by
  rintro ⟨i, j, rfl, rfl⟩ h
  have hp : (1 : ℤ) ≤ 2 ^ i := one_le_pow₀ (by norm_num)
  obtain ⟨m, rfl⟩ : ∃ m, j = m + 1 := by
    cases j with
    | zero => simp only [add_zero] at h; omega
    | succ m => exact ⟨m, rfl⟩
  have e : (2 : ℤ) ^ (i + (m + 1)) = 2 * 2 ^ i * 2 ^ m := by rw [pow_add, pow_succ]; ring
  have q : (2 : ℤ) ^ (i + (m + 1)) / (2 * 2 ^ i) = 2 ^ m := by
    rw [e]; exact Int.mul_ediv_cancel_left _ (by positivity)
  rw [q]
  refine ⟨hp, e, one_le_pow₀ (by norm_num), ?_, ?_⟩
  · intro h2
    obtain ⟨u, rfl⟩ : ∃ u, i = u + 1 := by
      cases i with
      | zero => norm_num at h2
      | succ u => exact ⟨u, rfl⟩
    have e2 : (2 : ℤ) ^ (u + 1) / 2 = 2 ^ u := by rw [pow_succ]; simp
    rw [e2]
    have e3 : (2 : ℤ) ^ (u + 1 + (m + 1)) = (2 * 2 ^ u) * (2 * 2 ^ m) := by rw [pow_add, pow_succ, pow_succ]; ring
    refine ⟨⟨u, m + 2, rfl, by ring⟩, by ring, ?_, ?_⟩
    · rw [e3]; exact Int.mul_ediv_cancel_left _ (by positivity)
    · have : (2 : ℤ) ^ (u + 1) ≤ 2 ^ (u + 1 + (m + 1)) := pow_le_pow_right₀ (by norm_num) (by omega)
      have h9 : 2 * (2 : ℤ) ^ u = 2 ^ (u + 1) := by ring
      rw [h9]; exact this
  · intro h2
    have : (2 : ℤ) ^ i = 1 := by omega
    rw [e, this]; ring

theorem halves_up (n s : ℤ) : halves n s → s < n →
    (s ≥ 1 ∧ halves n (2 * s) ∧ 2 * s ≤ n ∧ n = 2 * s * (n / (2 * s)) ∧ n / (2 * s) ≥ 1 ∧ n / s = 2 * (n / (2 * s))) := by
  rintro ⟨i, j, rfl, rfl⟩ h
  have hp : (1 : ℤ) ≤ 2 ^ i := one_le_pow₀ (by norm_num)
  obtain ⟨m, rfl⟩ : ∃ m, j = m + 1 := by
    cases j with
    | zero => simp at h
    | succ m => exact ⟨m, rfl⟩
  have e : (2 : ℤ) ^ (i + (m + 1)) = 2 * 2 ^ i * 2 ^ m := by rw [pow_add, pow_succ]; ring
  have q : (2 : ℤ) ^ (i + (m + 1)) / (2 * 2 ^ i) = 2 ^ m := by
    rw [e]; exact Int.mul_ediv_cancel_left _ (by positivity)
  have q2 : (2 : ℤ) ^ (i + (m + 1)) / (2 ^ i) = 2 * 2 ^ m := by
    rw [pow_add]; rw [Int.mul_ediv_cancel_left _ (by positivity)]; ring
  have hm : (1 : ℤ) ≤ 2 ^ m := one_le_pow₀ (by norm_num)
  rw [q, q2]
  refine ⟨hp, ⟨i + 1, m, by ring, by ring⟩, ?_, e, hm, rfl⟩
  rw [e]; nlinarith

theorem halves_le (n s : ℤ) : halves n s → (s ≤ n ∧ s ≥ 1) := by
  rintro ⟨i, j, rfl, rfl⟩
  exact ⟨pow_le_pow_right₀ (by norm_num) (by omega), one_le_pow₀ (by norm_num)⟩

theorem band_ispow (n : ℤ) : ispow n → band n (n - 1) = 0 := by
  rintro ⟨k, rfl⟩
  unfold band
  have h1 : ((2 : ℤ) ^ k).toNat = 2 ^ k := by
    rw [show ((2 : ℤ) ^ k) = ((2 ^ k : ℕ) : ℤ) by push_cast; rfl, Int.toNat_natCast]
  have h2 : ((2 : ℤ) ^ k - 1).toNat = 2 ^ k - 1 := by
    have : (1 : ℕ) ≤ 2 ^ k := Nat.one_le_two_pow
    rw [show ((2 : ℤ) ^ k - 1) = ((2 ^ k - 1 : ℕ) : ℤ) by push_cast [this]; rfl, Int.toNat_natCast]
  rw [h1, h2, Nat.and_two_pow_sub_one_eq_mod, Nat.mod_self]; rfl

end DV
