import Mathlib

namespace DV

def submod (a b n : ℤ) : ℤ := (a - b) % n
def quot (v m : ℤ) : ℤ := v / m
def rem' (v m : ℤ) : ℤ := v % m
def flat (c s m : ℤ) : ℤ := c * m + s
/-- sum of the first k amounts of o that share a bit with s -/
def cons (o : ℤ → ℤ) (k s : ℤ) : ℤ := ∑ i ∈ Finset.range k.toNat, if band (o i) s ≠ 0 then o i else 0
/-- o 0 .. o (l-1) are 2^0 .. 2^(l-1) in some order -/
def isord (o : ℤ → ℤ) (l : ℤ) : Prop :=
  0 ≤ l ∧ (∀ i : ℤ, 0 ≤ i → i < l → ∃ j : ℤ, 0 ≤ j ∧ j < l ∧ o i = pow2 j) ∧
  ∀ i j : ℤ, 0 ≤ i → i < j → j < l → o i ≠ o j

theorem sm_range (a b n : ℤ) : n ≥ 1 → (0 ≤ submod a b n ∧ submod a b n < n) := by
  intro h; unfold submod
  exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
theorem sm_zero (a n : ℤ) : n ≥ 1 → 0 ≤ a → a < n → submod a 0 n = a := by
  intro h h0 h1; unfold submod; rw [sub_zero]; exact Int.emod_eq_of_lt h0 h1
theorem sm_step (a b c n : ℤ) : submod (submod a b n) c n = submod a (b + c) n := by
  unfold submod
  rw [Int.emod_sub_emod]; congr 1; ring
theorem sm_inv (a b n : ℤ) : n ≥ 1 → 0 ≤ b → b < n → submod a (submod a b n) n = b := by
  intro h h0 h1; unfold submod
  rw [Int.sub_emod_emod, sub_sub_cancel]
  exact Int.emod_eq_of_lt h0 h1
theorem sm_code (a c n : ℤ) : (a - c + n) % n = submod a c n := by
  unfold submod; rw [Int.add_emod_right]
/-- what normalizeShift computes with C++ truncating remainder -/
theorem sm_norm (a b n : ℤ) : n ≥ 1 →
    submod a b n = (if b - a ≥ 0 then (if (b - a) % n = 0 then 0 else n - (b - a) % n) else (-(b - a)) % n) := by
  intro h; unfold submod
  have e : a - b = -(b - a) := by ring
  split_ifs with h1 h2
  · rw [e]; exact Int.emod_eq_zero_of_dvd ((Int.dvd_neg).2 (Int.dvd_of_emod_eq_zero h2))
  · have p0 := Int.emod_nonneg (b - a) (by omega : n ≠ 0)
    have p1 := Int.emod_lt_of_pos (b - a) (by omega : 0 < n)
    have := Int.mul_ediv_add_emod (b - a) n
    have e2 : a - b = (n - (b - a) % n) + n * (-((b - a) / n) - 1) := by linarith
    rw [e2, Int.add_mul_emod_self_left]
    exact Int.emod_eq_of_lt (by omega) (by omega)
  · rw [e]
theorem qr_flat (v m : ℤ) : flat (quot v m) (rem' v m) m = v := by
  unfold flat quot rem'
  have := Int.mul_ediv_add_emod v m
  linarith
theorem qr_rng (v m : ℤ) : m ≥ 1 → v ≥ 0 → (0 ≤ rem' v m ∧ rem' v m < m ∧ quot v m ≥ 0 ∧ quot v m = v / m ∧ rem' v m = v % m) := by
  intro h hv; unfold quot rem'
  exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega), Int.ediv_nonneg hv (by omega), rfl, rfl⟩
theorem flat_qr (c s m : ℤ) : m ≥ 1 → 0 ≤ s → s < m → (quot (flat c s m) m = c ∧ rem' (flat c s m) m = s) := by
  intro h h0 h1; unfold quot rem' flat
  constructor
  · rw [add_comm, Int.add_mul_ediv_right _ _ (by omega), Int.ediv_eq_zero_of_lt h0 h1, zero_add]
  · rw [add_comm, Int.add_mul_emod_self_right]; exact Int.emod_eq_of_lt h0 h1
theorem flat_def (c s m : ℤ) : flat c s m = c * m + s := rfl
theorem flat_rng (c s m k : ℤ) : 0 ≤ c → c < k → 0 ≤ s → s < m →
    (0 ≤ flat c s m ∧ flat c s m < k * m ∧ 0 ≤ c * m ∧ c * m ≤ flat c s m) := by
  intro h0 h1 h2 h3; unfold flat
  have : 0 ≤ c * m := by apply mul_nonneg <;> omega
  refine ⟨by omega, by nlinarith, this, by omega⟩

theorem quot_lt (v m k : ℤ) : m ≥ 1 → 0 ≤ v → v < k * m → quot v m < k := by
  intro h h0 h1; unfold quot
  exact Int.ediv_lt_of_lt_mul (by omega) h1

theorem cons_zero (o : ℤ → ℤ) (s : ℤ) : cons o 0 s = 0 := by simp [cons]
theorem cons_succ (o : ℤ → ℤ) (k s : ℤ) : k ≥ 0 →
    cons o (k + 1) s = cons o k s + (if band (o k) s = 0 then 0 else o k) := by
  intro hk; unfold cons
  have : (k + 1).toNat = k.toNat + 1 := by omega
  rw [this, Finset.sum_range_succ, Int.toNat_of_nonneg hk]
  by_cases h : band (o k) s = 0 <;> simp [h]

theorem isord_get (o : ℤ → ℤ) (l i : ℤ) : isord o l → 0 ≤ i → i < l → (o i ≥ 1 ∧ o i < pow2 l) := by
  rintro ⟨h0, h1, h2⟩ hi hl
  obtain ⟨j, j0, j1, e⟩ := h1 i hi hl
  rw [e]
  have a := pow2_pos j j0
  have b := pow2_lt j l j0 j1
  omega
theorem band_pow2 (j s : ℤ) : 0 ≤ j → 0 ≤ s → band (pow2 j) s = (if s.toNat.testBit j.toNat then pow2 j else 0) := by
  intro hj hs
  unfold band pow2
  have e : ((2 : ℤ) ^ j.toNat).toNat = 2 ^ j.toNat := by
    have : ((2 : ℤ) ^ j.toNat) = ((2 ^ j.toNat : ℕ) : ℤ) := by push_cast; rfl
    rw [this, Int.toNat_natCast]
  rw [e, Nat.and_comm, Nat.and_two_pow]
  split_ifs with h <;> simp [h]
theorem band_le (o : ℤ → ℤ) (l i s : ℤ) : isord o l → 0 ≤ i → i < l → 0 ≤ s → band (o i) s ≠ 0 → o i ≤ s := by
  rintro ⟨h0, h1, h2⟩ hi hl hs hb
  obtain ⟨j, j0, j1, e⟩ := h1 i hi hl
  rw [e] at hb ⊢
  rw [band_pow2 j s j0 hs] at hb
  split_ifs at hb with h
  · have := Nat.ge_two_pow_of_testBit h
    unfold pow2
    have e2 : s = ((s.toNat : ℕ) : ℤ) := (Int.toNat_of_nonneg hs).symm
    rw [e2]
    exact_mod_cast this
  · exact absurd rfl hb
theorem sum_bits (s : ℕ) (l : ℕ) : (∑ j ∈ Finset.range l, if s.testBit j then 2 ^ j else 0) = s % 2 ^ l := by
  induction l with
  | zero => simp [Nat.mod_one]
  | succ l ih =>
    rw [Finset.sum_range_succ, ih, pow_succ, Nat.mod_mul]
    congr 1
    have := Nat.toNat_testBit s l
    by_cases h : s.testBit l
    · simp [h] at this ⊢; rw [← this]
    · simp [h] at this ⊢; exact this.symm
theorem cons_full (o : ℤ → ℤ) (l s : ℤ) : isord o l → 0 ≤ s → s < pow2 l → cons o l s = s := by
  rintro ⟨h0, h1, h2⟩ hs hl
  have hex : ∀ i ∈ Finset.range l.toNat, ∃ j : ℕ, j < l.toNat ∧ o i = pow2 j := by
    intro i hi
    obtain ⟨j, j0, j1, e⟩ := h1 i (by omega) (by have := Finset.mem_range.1 hi; omega)
    exact ⟨j.toNat, by omega, by rw [Int.toNat_of_nonneg j0]; exact e⟩
  choose! p hp using hex
  have inj : Set.InjOn p (Finset.range l.toNat) := by
    intro a ha b hb hab
    by_contra hne
    have ea := (hp a ha).2
    have eb := (hp b hb).2
    rw [hab] at ea
    have la := Finset.mem_range.1 ha
    have lb := Finset.mem_range.1 hb
    rcases lt_or_gt_of_ne hne with h | h
    · exact h2 a b (by omega) (by exact_mod_cast h) (by omega) (ea.trans eb.symm)
    · exact h2 b a (by omega) (by exact_mod_cast h) (by omega) (eb.trans ea.symm)
  have img : (Finset.range l.toNat).image p = Finset.range l.toNat := by
    apply Finset.eq_of_subset_of_card_le
    · intro x hx
      obtain ⟨i, hi, e⟩ := Finset.mem_image.1 hx
      rw [← e]; exact Finset.mem_range.2 (hp i hi).1
    · rw [Finset.card_image_of_injOn inj]
  have e1 : cons o l s = ∑ i ∈ Finset.range l.toNat, (fun j : ℕ => if s.toNat.testBit j then (2 : ℤ) ^ j else 0) (p i) := by
    unfold cons
    apply Finset.sum_congr rfl
    intro i hi
    rw [(hp i hi).2, band_pow2 _ _ (by omega) hs]
    have pos := pow2_pos (p i : ℤ) (by omega)
    by_cases h : s.toNat.testBit (p i)
    · simp [h]; unfold pow2 at *; simp
    · simp [h]
  have e2 := Finset.sum_image (f := fun j : ℕ => if s.toNat.testBit j then (2 : ℤ) ^ j else 0) inj
  rw [e1, ← e2, img]
  have e3 := sum_bits s.toNat l.toNat
  have e4 : s.toNat % 2 ^ l.toNat = s.toNat := by
    apply Nat.mod_eq_of_lt
    unfold pow2 at hl
    have : ((s.toNat : ℕ) : ℤ) < ((2 ^ l.toNat : ℕ) : ℤ) := by rw [Int.toNat_of_nonneg hs]; push_cast; exact hl
    exact_mod_cast this
  rw [e4] at e3
  have : ((s.toNat : ℕ) : ℤ) = s := Int.toNat_of_nonneg hs
  conv_rhs => rw [← this, ← e3]
  push_cast
  rfl
theorem pow2_63 : pow2 63 = 9223372036854775808 := by decide
theorem pow2_62 : pow2 62 = 4611686018427387904 := by decide
def isp2 (n : ℤ) : Prop := ∃ k : ℤ, 0 ≤ k ∧ n = pow2 k
theorem isp2_bits (n b : ℤ) : b ≥ 1 → pow2 (b - 1) ≤ n → n < pow2 b → (isp2 n ↔ n = pow2 (b - 1)) := by
  intro h h0 h1
  constructor
  · rintro ⟨k, hk, e⟩
    rw [e] at h0 h1 ⊢
    rcases lt_trichotomy k (b - 1) with g | g | g
    · have := pow2_lt k (b - 1) hk g
      have := pow2_pos k hk
      omega
    · rw [g]
    · have := pow2_mono b k (by omega) (by omega)
      omega
  · intro e; exact ⟨b - 1, by omega, e⟩
set_option maxRecDepth 10000 in
theorem isp2_def (n : ℤ) : n < 9223372036854775808 → (isp2 n ↔ (n = 1 ∨ n = 2 ∨ n = 4 ∨ n = 8 ∨ n = 16 ∨ n = 32 ∨ n = 64 ∨ n = 128 ∨ n = 256 ∨ n = 512 ∨ n = 1024 ∨ n = 2048 ∨ n = 4096 ∨ n = 8192 ∨ n = 16384 ∨ n = 32768 ∨ n = 65536 ∨ n = 131072 ∨ n = 262144 ∨ n = 524288 ∨ n = 1048576 ∨ n = 2097152 ∨ n = 4194304 ∨ n = 8388608 ∨ n = 16777216 ∨ n = 33554432 ∨ n = 67108864 ∨ n = 134217728 ∨ n = 268435456 ∨ n = 536870912 ∨ n = 1073741824 ∨ n = 2147483648 ∨ n = 4294967296 ∨ n = 8589934592 ∨ n = 17179869184 ∨ n = 34359738368 ∨ n = 68719476736 ∨ n = 137438953472 ∨ n = 274877906944 ∨ n = 549755813888 ∨ n = 1099511627776 ∨ n = 2199023255552 ∨ n = 4398046511104 ∨ n = 8796093022208 ∨ n = 17592186044416 ∨ n = 35184372088832 ∨ n = 70368744177664 ∨ n = 140737488355328 ∨ n = 281474976710656 ∨ n = 562949953421312 ∨ n = 1125899906842624 ∨ n = 2251799813685248 ∨ n = 4503599627370496 ∨ n = 9007199254740992 ∨ n = 18014398509481984 ∨ n = 36028797018963968 ∨ n = 72057594037927936 ∨ n = 144115188075855872 ∨ n = 288230376151711744 ∨ n = 576460752303423488 ∨ n = 1152921504606846976 ∨ n = 2305843009213693952 ∨ n = 4611686018427387904)) := by
  intro h
  constructor
  · rintro ⟨k, hk, e⟩
    have k63 : k < 63 := by
      by_contra hc
      have := pow2_mono 63 k (by omega) (by omega)
      have e2 : pow2 63 = 9223372036854775808 := by decide
      omega
    rw [e]
    interval_cases k <;> simp [pow2]
  · intro hd
    have key : ∀ j : ℤ, 0 ≤ j → n = pow2 j → isp2 n := fun j hj e => ⟨j, hj, e⟩
    rcases hd with h0 | h1 | h2 | h3 | h4 | h5 | h6 | h7 | h8 | h9 | h10 | h11 | h12 | h13 | h14 | h15 | h16 | h17 | h18 | h19 | h20 | h21 | h22 | h23 | h24 | h25 | h26 | h27 | h28 | h29 | h30 | h31 | h32 | h33 | h34 | h35 | h36 | h37 | h38 | h39 | h40 | h41 | h42 | h43 | h44 | h45 | h46 | h47 | h48 | h49 | h50 | h51 | h52 | h53 | h54 | h55 | h56 | h57 | h58 | h59 | h60 | h61 | h62
    · exact key 0 (by norm_num) (by rw [h0]; decide)
    · exact key 1 (by norm_num) (by rw [h1]; decide)
    · exact key 2 (by norm_num) (by rw [h2]; decide)
    · exact key 3 (by norm_num) (by rw [h3]; decide)
    · exact key 4 (by norm_num) (by rw [h4]; decide)
    · exact key 5 (by norm_num) (by rw [h5]; decide)
    · exact key 6 (by norm_num) (by rw [h6]; decide)
    · exact key 7 (by norm_num) (by rw [h7]; decide)
    · exact key 8 (by norm_num) (by rw [h8]; decide)
    · exact key 9 (by norm_num) (by rw [h9]; decide)
    · exact key 10 (by norm_num) (by rw [h10]; decide)
    · exact key 11 (by norm_num) (by rw [h11]; decide)
    · exact key 12 (by norm_num) (by rw [h12]; decide)
    · exact key 13 (by norm_num) (by rw [h13]; decide)
    · exact key 14 (by norm_num) (by rw [h14]; decide)
    · exact key 15 (by norm_num) (by rw [h15]; decide)
    · exact key 16 (by norm_num) (by rw [h16]; decide)
    · exact key 17 (by norm_num) (by rw [h17]; decide)
    · exact key 18 (by norm_num) (by rw [h18]; decide)
    · exact key 19 (by norm_num) (by rw [h19]; decide)
    · exact key 20 (by norm_num) (by rw [h20]; decide)
    · exact key 21 (by norm_num) (by rw [h21]; decide)
    · exact key 22 (by norm_num) (by rw [h22]; decide)
    · exact key 23 (by norm_num) (by rw [h23]; decide)
    · exact key 24 (by norm_num) (by rw [h24]; decide)
    · exact key 25 (by norm_num) (by rw [h25]; decide)
    · exact key 26 (by norm_num) (by rw [h26]; decide)
    · exact key 27 (by norm_num) (by rw [h27]; decide)
    · exact key 28 (by norm_num) (by rw [h28]; decide)
    · exact key 29 (by norm_num) (by rw [h29]; decide)
    · exact key 30 (by norm_num) (by rw [h30]; decide)
    · exact key 31 (by norm_num) (by rw [h31]; decide)
    · exact key 32 (by norm_num) (by rw [h32]; decide)
    · exact key 33 (by norm_num) (by rw [h33]; decide)
    · exact key 34 (by norm_num) (by rw [h34]; decide)
    · exact key 35 (by norm_num) (by rw [h35]; decide)
    · exact key 36 (by norm_num) (by rw [h36]; decide)
    · exact key 37 (by norm_num) (by rw [h37]; decide)
    · exact key 38 (by norm_num) (by rw [h38]; decide)
    · exact key 39 (by norm_num) (by rw [h39]; decide)
    · exact key 40 (by norm_num) (by rw [h40]; decide)
    · exact key 41 (by norm_num) (by rw [h41]; decide)
    · exact key 42 (by norm_num) (by rw [h42]; decide)
    · exact key 43 (by norm_num) (by rw [h43]; decide)
    · exact key 44 (by norm_num) (by rw [h44]; decide)
    · exact key 45 (by norm_num) (by rw [h45]; decide)
    · exact key 46 (by norm_num) (by rw [h46]; decide)
    · exact key 47 (by norm_num) (by rw [h47]; decide)
    · exact key 48 (by norm_num) (by rw [h48]; decide)
    · exact key 49 (by norm_num) (by rw [h49]; decide)
    · exact key 50 (by norm_num) (by rw [h50]; decide)
    · exact key 51 (by norm_num) (by rw [h51]; decide)
    · exact key 52 (by norm_num) (by rw [h52]; decide)
    · exact key 53 (by norm_num) (by rw [h53]; decide)
    · exact key 54 (by norm_num) (by rw [h54]; decide)
    · exact key 55 (by norm_num) (by rw [h55]; decide)
    · exact key 56 (by norm_num) (by rw [h56]; decide)
    · exact key 57 (by norm_num) (by rw [h57]; decide)
    · exact key 58 (by norm_num) (by rw [h58]; decide)
    · exact key 59 (by norm_num) (by rw [h59]; decide)
    · exact key 60 (by norm_num) (by rw [h60]; decide)
    · exact key 61 (by norm_num) (by rw [h61]; decide)
    · exact key 62 (by norm_num) (by rw [h62]; decide)
/-- 1, 2, 4, .. is such an order -/
theorem isord_incr (o : ℤ → ℤ) (l : ℤ) : l ≥ 0 → (∀ i : ℤ, 0 ≤ i → i < l → o i = pow2 i) → isord o l := by
  intro h h1
  refine ⟨h, fun i hi hl => ⟨i, hi, hl, h1 i hi hl⟩, ?_⟩
  intro i j hi hij hj
  rw [h1 i hi (by omega), h1 j (by omega) hj]
  have a := pow2_lt i j hi hij
  have b := pow2_pos i hi
  omega

end DV
