import Mathlib

namespace DV

noncomputable def rm (a b : ℝ) : ℝ := a * b
noncomputable def rp (x : ℝ) (n : ℤ) : ℝ := x ^ n.toNat
/-- sum of c (lo+t) x^t for t < n -/
noncomputable def seg (c : ℤ → ℝ) (x : ℝ) (lo n : ℤ) : ℝ :=
  ∑ t ∈ Finset.range n.toNat, c (lo + t) * x ^ t
/-- T_n(x), with T_{-n} = T_n -/
noncomputable def ch (n : ℤ) (x : ℝ) : ℝ := (Polynomial.Chebyshev.T ℝ n).eval x
/-- sum of c t T_t(x) for t < n over the coefficients of absolute value at least thr -/
noncomputable def sumt (c : ℤ → ℝ) (x thr : ℝ) (n : ℤ) : ℝ :=
  ∑ t ∈ Finset.range n.toNat, (if thr ≤ |c t| then c t * ch t x else 0)

theorem rm_def (a b : ℝ) : rm a b = a * b := rfl
theorem rm_comm (a b : ℝ) : rm a b = rm b a := by unfold rm; ring
theorem rm_one (a : ℝ) : rm 1 a = a ∧ rm a 1 = a := by unfold rm; simp
theorem rm_zero (a : ℝ) : rm 0 a = 0 ∧ rm a 0 = 0 := by unfold rm; simp
theorem rm_neg (a b : ℝ) : rm (-a) b = -rm a b := by unfold rm; ring
theorem rp_zero (x : ℝ) : rp x 0 = 1 := by simp [rp]
theorem rp_one (x : ℝ) : rp x 1 = x := by simp [rp]
theorem rp_add (x : ℝ) (a b : ℤ) : a ≥ 0 → b ≥ 0 → rp x (a + b) = rm (rp x a) (rp x b) := by
  intro ha hb; unfold rp rm
  rw [Int.toNat_add ha hb, pow_add]

theorem seg_zero (c : ℤ → ℝ) (x : ℝ) (lo : ℤ) : seg c x lo 0 = 0 := by simp [seg]
theorem seg_succ (c : ℤ → ℝ) (x : ℝ) (lo n : ℤ) : n ≥ 0 →
    seg c x lo (n + 1) = seg c x lo n + rm (c (lo + n)) (rp x n) := by
  intro h; unfold seg rm rp
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have : ((m : ℤ) + 1).toNat = m + 1 := by omega
  rw [this, Finset.sum_range_succ]; simp
theorem seg_cat (c : ℤ → ℝ) (x : ℝ) (lo n m : ℤ) : n ≥ 0 → m ≥ 0 →
    seg c x lo (n + m) = rm (seg c x (lo + n) m) (rp x n) + seg c x lo n := by
  intro hn hm; unfold seg rm rp
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le hn
  obtain ⟨b, rfl⟩ := Int.eq_ofNat_of_zero_le hm
  have : ((a : ℤ) + b).toNat = a + b := by omega
  rw [this, Finset.sum_range_add, Finset.sum_mul]
  simp only [Int.toNat_natCast]
  rw [add_comm]; congr 1
  apply Finset.sum_congr rfl; intro t _
  push_cast; rw [pow_add, add_assoc]; ring
theorem seg_horner (c : ℤ → ℝ) (x : ℝ) (lo n : ℤ) : n ≥ 0 →
    seg c x lo (n + 1) = rm (seg c x (lo + 1) n) x + c lo := by
  intro h
  have := seg_cat c x lo 1 n (by norm_num) h
  rw [show n + 1 = 1 + n by ring, this]
  simp [rp, seg]
theorem seg_ext (c d : ℤ → ℝ) (x : ℝ) (lo n : ℤ) :
    (∀ t : ℤ, lo ≤ t → t < lo + n → c t = d t) → seg c x lo n = seg d x lo n := by
  intro h; unfold seg
  apply Finset.sum_congr rfl; intro t ht
  rw [Finset.mem_range] at ht
  rw [h (lo + t) (by omega) (by omega)]
theorem seg_trim (c : ℤ → ℝ) (x : ℝ) (n m : ℤ) : 0 ≤ n → n ≤ m →
    (∀ t : ℤ, n ≤ t → t < m → c t = 0) → seg c x 0 m = seg c x 0 n := by
  intro h0 h1 h
  have e := seg_cat c x 0 n (m - n) h0 (by omega)
  rw [show n + (m - n) = m by ring] at e
  rw [e]
  have : seg c x (0 + n) (m - n) = 0 := by
    unfold seg; apply Finset.sum_eq_zero; intro t ht
    rw [Finset.mem_range] at ht
    rw [h (0 + n + t) (by omega) (by omega)]; ring
  rw [this]; simp [rm]
/-- one round of the tree reduction: neighbours combined with y, then y squared -/
theorem seg_pair (a b : ℤ → ℝ) (y : ℝ) (n m : ℤ) : n ≥ 0 → m = (n + 1) / 2 →
    (∀ t : ℤ, 0 ≤ t → t < m → b t = a (2 * t) + (if 2 * t + 1 < n then rm (a (2 * t + 1)) y else 0)) →
    seg b (rm y y) 0 m = seg a y 0 n := by
  intro hn hm h
  have key : ∀ k : ℕ, (k : ℤ) ≤ m → 2 * (k : ℤ) ≤ n → seg b (rm y y) 0 k = seg a y 0 (2 * k) := by
    intro k
    induction k with
    | zero => intros; simp [seg]
    | succ k ih =>
      intro h1 h2
      have := ih (by push_cast at h1; omega) (by push_cast at h2; omega)
      push_cast at h1 h2 ⊢
      rw [seg_succ b _ 0 k (by omega), this, show (2 : ℤ) * (k + 1) = (2 * k + 1) + 1 by ring,
        seg_succ a y 0 (2 * k + 1) (by omega), seg_succ a y 0 (2 * k) (by omega),
        zero_add, zero_add, h k (by omega) (by omega), if_pos (by omega)]
      have e1 : ((2 : ℤ) * k).toNat = 2 * k := by omega
      have e2 : ((2 : ℤ) * k + 1).toNat = 2 * k + 1 := by omega
      have e3 : ((k : ℤ)).toNat = k := by omega
      simp only [rm, rp, zero_add, e1, e2, e3]
      rw [mul_pow, ← pow_add, ← two_mul, pow_succ]; ring
  rcases Int.even_or_odd' n with ⟨c, hc | hc⟩
  · have hmc : m = c := by omega
    obtain ⟨k, hk⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ c by omega)
    have := key k (by omega) (by omega)
    rw [hmc, hc, hk]; exact this
  · have hmc : m = c + 1 := by omega
    obtain ⟨k, hk⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ c by omega)
    have := key k (by omega) (by omega)
    rw [hmc, hc, hk, seg_succ b _ 0 _ (by simp), this]
    rw [seg_succ a y 0 (2 * k) (by omega)]
    rw [zero_add, zero_add, h k (by omega) (by omega), if_neg (by omega)]
    have e1 : ((2 : ℤ) * k).toNat = 2 * k := by omega
    have e3 : ((k : ℤ)).toNat = k := by omega
    simp only [rm, rp, e1, e3]
    rw [mul_pow, ← pow_add, ← two_mul]; ring

theorem ch_zero (x : ℝ) : ch 0 x = 1 := by simp [ch]
theorem ch_one (x : ℝ) : ch 1 x = x := by simp [ch]
theorem ch_abs (n : ℤ) (x : ℝ) : ch |n| x = ch n x := by
  unfold ch
  rcases abs_choice n with h | h <;> rw [h]
  rw [Polynomial.Chebyshev.T_neg]
theorem ch_mul (a b : ℤ) (x : ℝ) :
    rm (ch a x) (ch b x) + rm (ch a x) (ch b x) = ch (a + b) x + ch (if a - b ≥ 0 then a - b else -(a - b)) x := by
  have h := Polynomial.Chebyshev.T_mul_T ℝ a b
  have h2 := congrArg (Polynomial.eval x) h
  simp at h2
  have e : ch (if a - b ≥ 0 then a - b else -(a - b)) x = ch (a - b) x := by
    split_ifs
    · rfl
    · unfold ch; rw [Polynomial.Chebyshev.T_neg]
  rw [e]; unfold rm ch; linarith
theorem sumt_zero (c : ℤ → ℝ) (x thr : ℝ) : sumt c x thr 0 = 0 := by simp [sumt]
theorem sumt_succ (c : ℤ → ℝ) (x thr : ℝ) (n : ℤ) : n ≥ 0 →
    sumt c x thr (n + 1) = sumt c x thr n + (if thr ≤ (if c n ≥ 0 then c n else -(c n)) then rm (c n) (ch n x) else 0) := by
  intro h; unfold sumt rm
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have : ((m : ℤ) + 1).toNat = m + 1 := by omega
  rw [this, Finset.sum_range_succ]
  have e : |c m| = (if c m ≥ 0 then c m else -(c m)) := by
    split_ifs with q
    · exact abs_of_nonneg q
    · exact abs_of_neg (not_le.mp q)
  simp only [Int.toNat_natCast, e]
theorem sumt_ext (c d : ℤ → ℝ) (x thr : ℝ) (n : ℤ) :
    (∀ t : ℤ, 0 ≤ t → t < n → c t = d t) → sumt c x thr n = sumt d x thr n := by
  intro h; unfold sumt
  apply Finset.sum_congr rfl; intro t ht
  rw [Finset.mem_range] at ht
  rw [h t (by omega) (by omega)]
theorem sumt_nothr (c : ℤ → ℝ) (x thr : ℝ) (n : ℤ) : thr ≤ 0 → sumt c x thr n = sumt c x 0 n := by
  intro h; unfold sumt
  apply Finset.sum_congr rfl; intro t _
  rw [if_pos (le_trans h (abs_nonneg _)), if_pos (abs_nonneg _)]
theorem sumt_none (c : ℤ → ℝ) (x thr : ℝ) (n : ℤ) :
    (∀ t : ℤ, 0 ≤ t → t < n → ¬ (thr ≤ (if c t ≥ 0 then c t else -(c t)))) → sumt c x thr n = 0 := by
  intro h; unfold sumt
  apply Finset.sum_eq_zero; intro t ht
  rw [Finset.mem_range] at ht
  have q := h t (by omega) (by omega)
  rw [if_neg]; intro q2; apply q
  split_ifs with q3
  · rwa [abs_of_nonneg q3] at q2
  · rwa [abs_of_neg (not_le.mp q3)] at q2
theorem sumt_upd (c : ℤ → ℝ) (x : ℝ) (n i : ℤ) (v : ℝ) : 0 ≤ i → i < n →
    sumt (Function.update c i v) x 0 n = sumt c x 0 n + rm (v - c i) (ch i x) := by
  intro h0 h1
  obtain ⟨k, rfl⟩ := Int.eq_ofNat_of_zero_le h0
  have hk : k ∈ Finset.range n.toNat := by rw [Finset.mem_range]; omega
  unfold sumt rm
  rw [← Finset.add_sum_erase _ _ hk, ← Finset.add_sum_erase _ (fun t : ℕ => if (0:ℝ) ≤ |c t| then c t * ch t x else 0) hk]
  have e : ∑ t ∈ (Finset.range n.toNat).erase k, (if (0:ℝ) ≤ |Function.update c (k:ℤ) v t| then Function.update c (k:ℤ) v t * ch t x else 0)
      = ∑ t ∈ (Finset.range n.toNat).erase k, (if (0:ℝ) ≤ |c t| then c t * ch t x else 0) := by
    apply Finset.sum_congr rfl; intro t ht
    have : t ≠ k := Finset.ne_of_mem_erase ht
    rw [Function.update_of_ne (by exact_mod_cast this)]
  rw [e]
  simp [abs_nonneg]
  ring
theorem sumt_trim (c : ℤ → ℝ) (x : ℝ) (n m : ℤ) : 0 ≤ n → n ≤ m →
    (∀ t : ℤ, n ≤ t → t < m → c t = 0) → sumt c x 0 m = sumt c x 0 n := by
  intro h0 h1 h
  unfold sumt
  have e : m.toNat = n.toNat + (m.toNat - n.toNat) := by omega
  rw [e, Finset.sum_range_add]
  have : ∑ t ∈ Finset.range (m.toNat - n.toNat), (if (0:ℝ) ≤ |c ((n.toNat + t : ℕ) : ℤ)| then c ((n.toNat + t : ℕ) : ℤ) * ch ((n.toNat + t : ℕ) : ℤ) x else 0) = 0 := by
    apply Finset.sum_eq_zero; intro t ht
    rw [Finset.mem_range] at ht
    rw [h _ (by push_cast; omega) (by push_cast; omega)]; simp
  rw [this, add_zero]
/-- dividing by T_k: what one step moves from p to q -/
theorem div_step (A p x : ℝ) (i k : ℤ) :
    rm (A + rm (2 * p) (ch (i - k) x)) (ch k x) =
    rm A (ch k x) + rm p (ch i x) + rm p (ch (if i - 2 * k ≥ 0 then i - 2 * k else -(i - 2 * k)) x) := by
  have h := ch_mul (i - k) k x
  rw [show i - k + k = i by ring, show i - k - k = i - 2 * k by ring] at h
  unfold rm at *
  have e : 2 * p * ch (i - k) x * ch k x = p * (ch (i - k) x * ch k x + ch (i - k) x * ch k x) := by ring
  rw [add_mul, e, h]; ring
theorem div_last (A p x : ℝ) (k : ℤ) :
    rm (A + rm p (ch 0 x)) (ch k x) = rm A (ch k x) + rm p (ch k x) := by
  unfold rm; rw [ch_zero]; ring
/-- one more chunk of the base-T_k decomposition -/
theorem dec_step (S y q r : ℝ) (n : ℤ) : n ≥ 0 →
    S + rm (rp y n) (rm q y + r) = (S + rm r (rp y n)) + rm (rp y (n + 1)) q := by
  intro h; unfold rm rp
  have : (n + 1).toNat = n.toNat + 1 := by omega
  rw [this, pow_succ]; ring

theorem sqrt_rng (v : ℝ) : v ≥ 0 → 0 ≤ Real.sqrt v ∧ Real.sqrt v ≤ v + 1 := by
  intro h
  refine ⟨Real.sqrt_nonneg _, ?_⟩
  rw [Real.sqrt_le_left (by linarith)]
  nlinarith
theorem ceil_div (a k : ℤ) : k ≥ 1 →
    (-(Int.floor (-((a : ℝ) / (k : ℝ)))) - 1) * k < a ∧ a ≤ -(Int.floor (-((a : ℝ) / (k : ℝ)))) * k := by
  intro h
  have hk : (0 : ℝ) < k := by exact_mod_cast (by omega : 0 < k)
  have e : -(Int.floor (-((a : ℝ) / (k : ℝ)))) = Int.ceil ((a : ℝ) / k) := by rw [Int.floor_neg, neg_neg]
  rw [e]
  have h1 := Int.le_ceil ((a : ℝ) / k)
  have h2 := Int.ceil_lt_add_one ((a : ℝ) / k)
  constructor
  · have : ((⌈(a:ℝ)/k⌉ : ℝ) - 1) * k < a := by
      have : (⌈(a:ℝ)/k⌉ : ℝ) - 1 < (a:ℝ)/k := by linarith
      calc ((⌈(a:ℝ)/k⌉ : ℝ) - 1) * k < (a:ℝ)/k * k := by apply mul_lt_mul_of_pos_right this hk
        _ = a := by field_simp
    exact_mod_cast this
  · have : (a:ℝ) ≤ (⌈(a:ℝ)/k⌉ : ℝ) * k := by
      calc (a:ℝ) = (a:ℝ)/k * k := by field_simp
        _ ≤ _ := by apply mul_le_mul_of_nonneg_right h1 hk.le
    exact_mod_cast this

theorem pow2_16 : pow2 16 = 65536 := by
  have : pow2 16 = (2:ℤ)^16 := rfl
  rw [this]; norm_num
theorem pow2_31 : pow2 31 = 2147483648 := by
  have : pow2 31 = (2:ℤ)^31 := rfl
  rw [this]; norm_num

end DV
