import Mathlib

namespace DV

def prime (n : ℤ) : Prop := 0 < n ∧ Nat.Prime n.toNat
def nodiv (v d : ℤ) : Prop := ∀ k : ℤ, 2 ≤ k → k < d → v % k ≠ 0

theorem prime_ge (n : ℤ) : prime n → n ≥ 2 := by
  rintro ⟨h, p⟩; have := p.two_le; omega

theorem prime_two : prime 2 := ⟨by norm_num, Nat.prime_two⟩
theorem prime_three : prime 3 := ⟨by norm_num, Nat.prime_three⟩

theorem prime_even (n : ℤ) : prime n → n > 2 → n % 2 ≠ 0 := by
  rintro ⟨h, p⟩ h2 he
  have h3 : n.toNat % 2 = 0 := by omega
  have := (Nat.Prime.eq_one_or_self_of_dvd p 2 (Nat.dvd_of_mod_eq_zero h3))
  omega

theorem nodiv_two (v : ℤ) : nodiv v 2 := by intro k h1 h2; omega

theorem nodiv_step (v d : ℤ) : nodiv v d → v % d ≠ 0 → nodiv v (d + 1) := by
  intro h hd k h1 h2
  by_cases hk : k = d
  · subst hk; exact hd
  · exact h k h1 (by omega)

theorem nodiv_div (v d : ℤ) : d ≥ 2 → v % d = 0 → nodiv v d → nodiv (v / d) d := by
  intro hd hv h k h1 h2 h3
  apply h k h1 h2
  apply Int.emod_eq_zero_of_dvd
  have e : d * (v / d) = v := Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero hv)
  rw [← e]
  exact Dvd.dvd.mul_left (Int.dvd_of_emod_eq_zero h3) d

theorem prime_of_min (v : ℤ) (hv : v ≥ 2) (h : ∀ k : ℤ, 2 ≤ k → k * k ≤ v → v % k ≠ 0) : prime v := by
  refine ⟨by omega, ?_⟩
  rw [Nat.prime_def_le_sqrt]
  refine ⟨by omega, ?_⟩
  intro m hm hs hdvd
  have h1 : m * m ≤ v.toNat := Nat.le_sqrt.mp hs
  have h2 : ((m : ℤ)) * m ≤ v := by
    have : ((m * m : ℕ) : ℤ) ≤ ((v.toNat : ℕ) : ℤ) := by exact_mod_cast h1
    push_cast at this
    rw [Int.toNat_of_nonneg (by omega)] at this
    exact this
  apply h m (by exact_mod_cast hm) h2
  apply Int.emod_eq_zero_of_dvd
  have : ((m : ℕ) : ℤ) ∣ ((v.toNat : ℕ) : ℤ) := by exact_mod_cast hdvd
  rwa [Int.toNat_of_nonneg (by omega)] at this

theorem prime_least (v d : ℤ) : d ≥ 2 → v ≥ 1 → v % d = 0 → nodiv v d → prime d := by
  intro hd hv h0 h
  apply prime_of_min d hd
  intro k h1 h2 h3
  have hk : k < d := by nlinarith
  apply h k h1 hk
  apply Int.emod_eq_zero_of_dvd
  exact (Int.dvd_of_emod_eq_zero h3).trans (Int.dvd_of_emod_eq_zero h0)

theorem prime_rest (v d : ℤ) : v > 1 → d ≥ 2 → d * d > v → nodiv v d → (prime v ∧ v ≥ d) := by
  intro hv hd h0 h
  constructor
  · apply prime_of_min v (by omega)
    intro k h1 h2
    apply h k h1
    nlinarith
  · by_contra hlt
    exact h v (by omega) (by omega) (Int.emod_self)

theorem sq_gt_of_div (v d : ℤ) : d > 0 → d > v / d → d * d > v := by
  intro h0 h
  have := (Int.ediv_lt_iff_lt_mul h0).mp h
  exact this

theorem prime_dvd_div (p d v : ℤ) : prime p → prime d → p ≠ d → v ≥ 1 → v % d = 0 → v % p = 0 → (v / d) % p = 0 := by
  rintro ⟨hp0, hp⟩ ⟨hd0, hd⟩ hne hv h1 h2
  have e : d * (v / d) = v := Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero h1)
  have hpv : p ∣ d * (v / d) := by rw [e]; exact Int.dvd_of_emod_eq_zero h2
  have hcop : IsCoprime p d := by
    rw [Int.isCoprime_iff_gcd_eq_one]
    have := (Nat.coprime_primes hp hd).mpr (by omega)
    have e1 : ((p.toNat : ℕ) : ℤ) = p := Int.toNat_of_nonneg (by omega)
    have e2 : ((d.toNat : ℕ) : ℤ) = d := Int.toNat_of_nonneg (by omega)
    rw [← e1, ← e2, Int.gcd_natCast_natCast]; exact this
  exact Int.emod_eq_zero_of_dvd (hcop.dvd_of_dvd_mul_left hpv)

theorem dvd_div (n v d : ℤ) : d ≥ 2 → v ≥ 1 → v % d = 0 → n % v = 0 →
    (n % (v / d) = 0 ∧ n % d = 0 ∧ v / d ≥ 1 ∧ v / d < v) := by
  intro hd hv h1 h2
  have e : d * (v / d) = v := Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero h1)
  have hn := Int.dvd_of_emod_eq_zero h2
  refine ⟨Int.emod_eq_zero_of_dvd ((Dvd.intro_left d e).trans hn), Int.emod_eq_zero_of_dvd ((Dvd.intro _ e).trans hn), ?_, ?_⟩
  · by_contra h
    have : v / d ≤ 0 := by omega
    nlinarith
  · have : v / d ≥ 1 := by
      by_contra h
      have : v / d ≤ 0 := by omega
      nlinarith
    nlinarith

theorem prime_dvd_self (p v : ℤ) : prime p → prime v → v % p = 0 → p = v := by
  rintro ⟨hp0, hp⟩ ⟨hv0, hv⟩ h
  have hd : p.toNat ∣ v.toNat := by
    have := Int.dvd_of_emod_eq_zero h
    have e1 : ((p.toNat : ℕ) : ℤ) = p := Int.toNat_of_nonneg (by omega)
    have e2 : ((v.toNat : ℕ) : ℤ) = v := Int.toNat_of_nonneg (by omega)
    rw [← e1, ← e2] at this
    exact_mod_cast this
  have := (Nat.prime_dvd_prime_iff_eq hp hv).mp hd
  omega

theorem prime_not_one (p v : ℤ) : prime p → v = 1 → v % p ≠ 0 := by
  intro hp hv
  have := prime_ge p hp
  rw [hv, Int.emod_eq_of_lt (by norm_num) (by omega)]; norm_num

/-! Miller–Rabin -/
def sprp (n a d s : ℤ) : Prop := pw a d % n = 1 ∨ ∃ r : ℤ, 0 ≤ r ∧ r < s ∧ pw a (d * pow2 r) % n = n - 1
def nosq (n a d r : ℤ) : Prop := ∀ t : ℤ, 0 ≤ t → t < r → pw a (d * pow2 t) % n ≠ n - 1

theorem sprp_one (n a d s : ℤ) : pw a d % n = 1 → sprp n a d s := fun h => Or.inl h
theorem sprp_sq (n a d s r : ℤ) : 0 ≤ r → r < s → pw a (d * pow2 r) % n = n - 1 → sprp n a d s :=
  fun h1 h2 h3 => Or.inr ⟨r, h1, h2, h3⟩
theorem nosq_zero (n a d : ℤ) : nosq n a d 0 := by intro t h1 h2; omega
theorem nosq_step (n a d r : ℤ) : nosq n a d r → pw a (d * pow2 r) % n ≠ n - 1 → nosq n a d (r + 1) := by
  intro h h1 t h2 h3
  by_cases ht : t = r
  · subst ht; exact h1
  · exact h t h2 (by omega)
theorem sprp_elim (n a d s : ℤ) : sprp n a d s → nosq n a d s → pw a d % n = 1 := by
  rintro (h | ⟨r, h1, h2, h3⟩) hn
  · exact h
  · exact absurd h3 (hn r h1 h2)

theorem pw_sq (a e n x : ℤ) : e ≥ 0 → n > 0 → x = pw a e % n → (x * x) % n = pw a (e * 2) % n := by
  intro he hn hx
  subst hx
  unfold pw
  rw [← Int.mul_emod]
  congr 1
  have : (e * 2).toNat = e.toNat + e.toNat := by omega
  rw [this, pow_add]

theorem pw_sq_pow2 (a d r n x : ℤ) : d ≥ 0 → r ≥ 1 → n > 0 → x = pw a (d * pow2 (r - 1)) % n →
    (x * x) % n = pw a (d * pow2 r) % n := by
  intro hd hr hn hx
  have hp := pow2_pos (r - 1) (by omega)
  rw [pw_sq a (d * pow2 (r - 1)) n x (by positivity) hn hx, pow2_succ r hr]
  congr 2; ring

theorem cast_pw (Q : ℕ) (a e : ℤ) : ((pw a e : ℤ) : ZMod Q) = (a : ZMod Q) ^ e.toNat := by
  unfold pw; push_cast; rfl

theorem emod_eq_iff (Q : ℕ) (n x y : ℤ) (hn : n = (Q : ℤ)) : x % n = y % n ↔ ((x : ℤ) : ZMod Q) = ((y : ℤ) : ZMod Q) := by
  subst hn
  exact (ZMod.intCast_eq_intCast_iff x y Q).symm

theorem sprp_prime (n a d s : ℤ) : prime n → n > 2 → n - 1 = d * pow2 s → s ≥ 0 → d ≥ 0 → a > 0 → a < n → sprp n a d s := by
  rintro ⟨hn0, hp⟩ hn2 hds hs hd ha han
  obtain ⟨Q, rfl⟩ : ∃ Q : ℕ, n = Q := ⟨n.toNat, by omega⟩
  have hQ : (Q : ℤ).toNat = Q := by simp
  rw [hQ] at hp
  have := Fact.mk hp
  have ha0 : ((a : ℤ) : ZMod Q) ≠ 0 := by
    intro h
    rw [ZMod.intCast_zmod_eq_zero_iff_dvd] at h
    have := Int.le_of_dvd ha h
    omega
  -- a^(d 2^t) = 1 for t = s; go down
  have key : ∀ t : ℕ, (t : ℤ) ≤ s → (sprp (Q : ℤ) a d s ∨ ((a : ZMod Q)) ^ (d.toNat * 2 ^ (s.toNat - t)) = 1) := by
    intro t
    induction t with
    | zero =>
      intro _
      right
      have hexp : d.toNat * 2 ^ (s.toNat - 0) = Q - 1 := by
        have h1 : ((d.toNat * 2 ^ s.toNat : ℕ) : ℤ) = (Q : ℤ) - 1 := by
          push_cast
          rw [Int.toNat_of_nonneg hd, hds]; rfl
        simp only [Nat.sub_zero]
        omega
      rw [hexp]
      exact ZMod.pow_card_sub_one_eq_one ha0
    | succ t ih =>
      intro ht
      rcases ih (by push_cast at ht; omega) with h | h
      · exact Or.inl h
      · have hst : s.toNat - t = (s.toNat - (t + 1)) + 1 := by push_cast at ht; omega
        rw [hst, pow_succ, ← mul_assoc, pow_mul] at h
        rcases (sq_eq_one_iff.mp h) with h1 | h1
        · exact Or.inr h1
        · left
          right
          refine ⟨s - (t + 1), by push_cast at ht; omega, by omega, ?_⟩
          have hz : ((pw a (d * pow2 (s - (t + 1))) : ℤ) : ZMod Q) = (((Q : ℤ) - 1 : ℤ) : ZMod Q) := by
            rw [cast_pw]
            have e1 : (d * pow2 (s - (t + 1))).toNat = d.toNat * 2 ^ (s.toNat - (t + 1)) := by
              have e2 : (s - ((t : ℤ) + 1)).toNat = s.toNat - (t + 1) := by omega
              unfold pow2
              rw [e2, Int.toNat_mul hd (by positivity)]
              congr 1
            rw [e1, h1]
            push_cast; simp
          have := (emod_eq_iff Q Q _ _ rfl).mpr hz
          rw [this, Int.emod_eq_of_lt (by omega) (by omega)]
  rcases key s.toNat (by omega) with h | h
  · exact h
  · left
    simp only [Nat.sub_self, pow_zero, mul_one] at h
    have hz : ((pw a d : ℤ) : ZMod Q) = ((1 : ℤ) : ZMod Q) := by rw [cast_pw, h]; simp
    have := (emod_eq_iff Q Q _ _ rfl).mpr hz
    rw [this, Int.emod_eq_of_lt (by norm_num) (by omega)]

/-! primitive roots -/
def hasord (q r m : ℤ) : Prop := pw r m % q = 1 % q ∧ ∀ k : ℤ, 0 < k → k < m → pw r k % q ≠ 1 % q
def nogen (q g : ℤ) : Prop := ∀ h : ℤ, 2 ≤ h → h < g → ¬ hasord q h (q - 1)

theorem pw_one_iff (Q : ℕ) (r k : ℤ) : pw r k % (Q : ℤ) = 1 % (Q : ℤ) ↔ ((r : ℤ) : ZMod Q) ^ k.toNat = 1 := by
  rw [emod_eq_iff Q Q _ _ rfl, cast_pw]; simp

theorem hasord_iff (Q : ℕ) (r m : ℤ) (hm : m > 0) : hasord (Q : ℤ) r m ↔ orderOf ((r : ℤ) : ZMod Q) = m.toNat := by
  constructor
  · rintro ⟨h1, h2⟩
    rw [orderOf_eq_iff (by omega)]
    refine ⟨(pw_one_iff Q r m).mp h1, ?_⟩
    intro k hk hk0 h
    apply h2 k (by omega) (by omega)
    rw [pw_one_iff]; simpa using h
  · intro h
    rw [orderOf_eq_iff (by omega)] at h
    refine ⟨(pw_one_iff Q r m).mpr h.1, ?_⟩
    intro k hk hkm hc
    exact h.2 k.toNat (by omega) (by omega) ((pw_one_iff Q r k).mp hc)

theorem nogen_two (q : ℤ) : nogen q 2 := by intro h h1 h2; omega
theorem nogen_step (q g : ℤ) : nogen q g → ¬ hasord q g (q - 1) → nogen q (g + 1) := by
  intro h h1 k h2 h3
  by_cases hk : k = g
  · subst hk; exact h1
  · exact h k h2 (by omega)

/-- a witness that g is no primitive root -/
theorem not_gen (q g p : ℤ) : prime q → prime p → (q - 1) % p = 0 → pw g ((q - 1) / p) % q = 1 → ¬ hasord q g (q - 1) := by
  rintro hq hp hd h1 ⟨_, h2⟩
  have hq2 := prime_ge q hq
  have hp2 := prime_ge p hp
  have e : p * ((q - 1) / p) = q - 1 := Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero hd)
  have hpos : (q - 1) / p > 0 := by
    by_contra h
    have : (q - 1) / p ≤ 0 := by omega
    nlinarith
  apply h2 ((q - 1) / p) hpos (by nlinarith)
  rw [h1, Int.emod_eq_of_lt (by norm_num) (by omega)]

def primroot (q g : ℤ) : Prop := ∀ p : ℤ, prime p → (q - 1) % p = 0 → pw g ((q - 1) / p) % q ≠ 1

theorem is_gen (q g : ℤ) : prime q → q > 2 → g > 0 → g < q → primroot q g → hasord q g (q - 1) := by
  rintro ⟨hq0, hq⟩ hq2 hg hgq h
  obtain ⟨Q, rfl⟩ : ∃ Q : ℕ, q = Q := ⟨q.toNat, by omega⟩
  have hQ : (Q : ℤ).toNat = Q := by simp
  rw [hQ] at hq
  have := Fact.mk hq
  have hg0 : ((g : ℤ) : ZMod Q) ≠ 0 := by
    intro h
    rw [ZMod.intCast_zmod_eq_zero_iff_dvd] at h
    have := Int.le_of_dvd hg h
    omega
  rw [hasord_iff Q g _ (by omega)]
  apply orderOf_eq_of_pow_and_pow_div_prime (by omega)
  · have : ((Q : ℤ) - 1).toNat = Q - 1 := by omega
    rw [this]; exact ZMod.pow_card_sub_one_eq_one hg0
  · intro p hp hpd hc
    have hpe : ((Q : ℤ) - 1) % (p : ℤ) = 0 := by
      apply Int.emod_eq_zero_of_dvd
      have : ((p : ℕ) : ℤ) ∣ ((((Q : ℤ) - 1).toNat : ℕ) : ℤ) := by exact_mod_cast hpd
      rwa [Int.toNat_of_nonneg (by omega)] at this
    have := h p ⟨by exact_mod_cast hp.pos, by simpa using hp⟩ hpe
    apply this
    have h1 : pw g (((Q : ℤ) - 1) / p) % (Q : ℤ) = 1 % (Q : ℤ) := by
      rw [pw_one_iff]
      have e : (((Q : ℤ) - 1) / (p : ℤ)).toNat = ((Q : ℤ) - 1).toNat / p := by
        have e1 : (Q : ℤ) - 1 = ((((Q : ℤ) - 1).toNat : ℕ) : ℤ) := by omega
        rw [e1]; norm_cast
      rw [e]; exact hc
    rw [h1, Int.emod_eq_of_lt (by norm_num) (by omega)]

theorem gen_exists (q : ℤ) : prime q → q > 2 → ¬ nogen q q := by
  rintro ⟨hq0, hq⟩ hq2 hno
  obtain ⟨Q, rfl⟩ : ∃ Q : ℕ, q = Q := ⟨q.toNat, by omega⟩
  have hQ : (Q : ℤ).toNat = Q := by simp
  rw [hQ] at hq
  have := Fact.mk hq
  obtain ⟨g, hg⟩ := IsCyclic.exists_generator (α := (ZMod Q)ˣ)
  have hord : orderOf g = Q - 1 := by
    rw [orderOf_eq_card_of_forall_mem_zpowers hg, Nat.card_eq_fintype_card, ZMod.card_units]
  have hval : (((g : ZMod Q).val : ℤ) : ZMod Q) = (g : ZMod Q) := by
    push_cast; exact ZMod.natCast_zmod_val _
  have hgo : hasord (Q : ℤ) ((g : ZMod Q).val : ℤ) ((Q : ℤ) - 1) := by
    rw [hasord_iff Q _ _ (by omega), hval, orderOf_units, hord]; omega
  apply hno _ _ _ hgo
  · have h0 : (g : ZMod Q).val ≠ 0 := by
      intro h
      have : (g : ZMod Q) = 0 := by rw [← ZMod.natCast_zmod_val (g : ZMod Q), h]; simp
      exact g.ne_zero this
    have h1 : (g : ZMod Q).val ≠ 1 := by
      intro h
      have e : (g : ZMod Q) = 1 := by rw [← ZMod.natCast_zmod_val (g : ZMod Q), h]; simp
      have : g = 1 := Units.ext e
      rw [this, orderOf_one] at hord
      omega
    omega
  · exact_mod_cast ZMod.val_lt _

theorem gen_two : hasord 2 1 1 := by
  constructor
  · simp [pw]
  · intro k h1 h2; omega

theorem root_order (q g m : ℤ) : prime q → hasord q g (q - 1) → m > 0 → (q - 1) % m = 0 →
    hasord q (pw g ((q - 1) / m) % q) m := by
  rintro ⟨hq0, hq⟩ h hm hd
  have hq2 := hq.two_le
  obtain ⟨Q, rfl⟩ : ∃ Q : ℕ, q = Q := ⟨q.toNat, by omega⟩
  have hQ : (Q : ℤ).toNat = Q := by simp
  rw [hQ] at hq hq2
  rw [hasord_iff Q _ _ (by omega)] at h
  rw [hasord_iff Q _ _ hm]
  have hc : (((pw g (((Q : ℤ) - 1) / m) % (Q : ℤ)) : ℤ) : ZMod Q) = (g : ZMod Q) ^ (((Q : ℤ) - 1) / m).toNat := by
    rw [ZMod.intCast_mod, cast_pw]
  rw [hc]
  have e : m * (((Q : ℤ) - 1) / m) = (Q : ℤ) - 1 := Int.mul_ediv_cancel' (Int.dvd_of_emod_eq_zero hd)
  set k := ((Q : ℤ) - 1) / m with hk
  have hkpos : k > 0 := by
    by_contra hcon
    have : k ≤ 0 := by omega
    nlinarith
  have e2 : ((Q : ℤ) - 1).toNat = m.toNat * k.toNat := by
    rw [← e, Int.toNat_mul (by omega) (by omega)]
  rw [orderOf_pow_of_dvd (by omega) (by rw [h, e2]; exact Dvd.intro_left _ rfl), h, e2]
  exact Nat.mul_div_cancel _ (by omega)

theorem mod_one_dvd (q m : ℤ) : m > 1 → (q % m = 1 ↔ (q - 1) % m = 0) := by
  intro hm
  constructor
  · intro h
    rw [Int.sub_emod, h, Int.emod_eq_of_lt (by norm_num) hm]; simp
  · intro h
    have : q % m = ((q - 1) + 1) % m := by ring_nf
    rw [this, Int.add_emod, h, Int.emod_eq_of_lt (by norm_num) hm]; simp [Int.emod_eq_of_lt (by norm_num) hm]

end DV
namespace DV
theorem primroot_def (q g : ℤ) : primroot q g ↔ ∀ p : ℤ, prime p → (q - 1) % p = 0 → pw g ((q - 1) / p) % q ≠ 1 := Iff.rfl
end DV
