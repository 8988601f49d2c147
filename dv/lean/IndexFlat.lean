import Mathlib

namespace DV

/-- Σ_{i<k} f i * g i -/
def sump (f g : ℤ → ℤ) (k : ℤ) : ℤ := ∑ i ∈ Finset.range k.toNat, f i * g i

theorem sump_zero (f g : ℤ → ℤ) : sump f g 0 = 0 := by simp [sump]
theorem sump_succ (f g : ℤ → ℤ) (k : ℤ) : k ≥ 0 → sump f g (k + 1) = sump f g k + f k * g k := by
  intro hk
  unfold sump
  have : (k + 1).toNat = k.toNat + 1 := by omega
  rw [this, Finset.sum_range_succ, Int.toNat_of_nonneg hk]

/-- strides g are row-major for shape s of rank n -/
def rowmaj (s g : ℤ → ℤ) (n : ℤ) : Prop :=
  (∀ i : ℤ, 0 ≤ i → i < n → s i ≥ 1) ∧ (n ≥ 1 → g (n - 1) = 1) ∧ ∀ i : ℤ, 0 ≤ i → i + 1 < n → g i = g (i + 1) * s (i + 1)
/-- number of elements -/
def total (s g : ℤ → ℤ) (n : ℤ) : ℤ := if n ≥ 1 then g 0 * s 0 else 1
def inrange (x s : ℤ → ℤ) (n : ℤ) : Prop := ∀ i : ℤ, 0 ≤ i → i < n → 0 ≤ x i ∧ x i < s i

theorem rowmaj_pos (s g : ℤ → ℤ) (n i : ℤ) : rowmaj s g n → 0 ≤ i → i < n → (g i ≥ 1 ∧ s i ≥ 1) := by
  rintro ⟨h1, h2, h3⟩ hi hn
  refine ⟨?_, h1 i hi hn⟩
  obtain ⟨d, hd⟩ : ∃ d : ℕ, i = n - 1 - d := ⟨(n - 1 - i).toNat, by omega⟩
  induction d generalizing i with
  | zero => rw [hd]; simp; rw [h2 (by omega)]
  | succ d ih =>
    rw [h3 i hi (by push_cast at hd; omega)]
    have a := ih (i + 1) (by omega) (by push_cast at hd; omega) (by push_cast at hd; omega)
    have b := h1 (i + 1) (by omega) (by push_cast at hd; omega)
    nlinarith

theorem rowmaj_step (s g : ℤ → ℤ) (n i : ℤ) : rowmaj s g n → 0 ≤ i → i + 1 < n → g i = g (i + 1) * s (i + 1) :=
  fun h => h.2.2 i
theorem rowmaj_last (s g : ℤ → ℤ) (n : ℤ) : rowmaj s g n → n ≥ 1 → g (n - 1) = 1 := fun h => h.2.1
theorem total_def (s g : ℤ → ℤ) (n : ℤ) : total s g n = if n ≥ 1 then g 0 * s 0 else 1 := rfl
theorem inrange_get (x s : ℤ → ℤ) (n i : ℤ) : inrange x s n → 0 ≤ i → i < n → 0 ≤ x i ∧ x i < s i := fun h => h i

/-- partial sums stay inside the block -/
theorem sum_bound (x s g : ℤ → ℤ) (n i : ℤ) : rowmaj s g n → inrange x s n → 1 ≤ i → i ≤ n →
    0 ≤ sump x g i ∧ sump x g i ≤ total s g n - g (i - 1) := by
  intro h hx h1 hn
  obtain ⟨d, hd⟩ : ∃ d : ℕ, i = d + 1 := ⟨(i - 1).toNat, by omega⟩
  subst hd
  induction d with
  | zero =>
    simp only [Nat.cast_zero, zero_add, sub_self] at *
    have e := sump_succ x g 0 (by omega)
    rw [sump_zero] at e; simp at e
    rw [e, total_def, if_pos (by omega)]
    have a := rowmaj_pos s g n 0 h (by omega) (by omega)
    have b := hx 0 (by omega) (by omega)
    constructor
    · nlinarith
    · nlinarith
  | succ d ih =>
    push_cast at *
    have ih := ih (by omega) (by omega)
    have e := sump_succ x g ((d : ℤ) + 1) (by omega)
    rw [e]
    have a := rowmaj_pos s g n ((d : ℤ) + 1) h (by omega) (by omega)
    have b := hx ((d : ℤ) + 1) (by omega) (by omega)
    have c := h.2.2 (d : ℤ) (by omega) (by omega)
    simp only [add_sub_cancel_right] at *
    constructor
    · nlinarith [mul_nonneg b.1 (by omega : (0:ℤ) ≤ g ((d : ℤ) + 1))]
    · nlinarith

theorem sum_range (x s g : ℤ → ℤ) (n : ℤ) : rowmaj s g n → inrange x s n → n ≥ 0 →
    0 ≤ sump x g n ∧ sump x g n < total s g n := by
  intro h hx hn
  by_cases h0 : n = 0
  · subst h0; simp [sump_zero, total_def]
  · have a := sum_bound x s g n n h hx (by omega) (by omega)
    have b := h.2.1 (by omega)
    omega

/-- no overflow when evaluating off + Σ x_i g_i left to right in 64 bits -/
def fits64 (z : ℤ) : Prop := -9223372036854775808 ≤ z ∧ z ≤ 9223372036854775807
def noovf (x g : ℤ → ℤ) (off n : ℤ) : Prop :=
  (∀ k : ℤ, 0 ≤ k → k ≤ n → fits64 (off + sump x g k)) ∧ ∀ k : ℤ, 0 ≤ k → k < n → fits64 (x k * g k)
theorem noovf_get (x g : ℤ → ℤ) (off n k : ℤ) : noovf x g off n → 0 ≤ k → k < n →
    -9223372036854775808 ≤ off + sump x g (k + 1) ∧ off + sump x g (k + 1) ≤ 9223372036854775807 ∧
    -9223372036854775808 ≤ x k * g k ∧ x k * g k ≤ 9223372036854775807 := by
  intro h h1 h2
  have a := h.1 (k + 1) (by omega) (by omega)
  have b := h.2 k h1 h2
  unfold fits64 at *
  omega

theorem rowmaj_noovf (x s g : ℤ → ℤ) (off n : ℤ) : rowmaj s g n → inrange x s n → n ≥ 0 → off ≥ 0 →
    off + total s g n ≤ 9223372036854775807 → noovf x g off n := by
  intro h hx hn ho ht
  constructor
  · intro k hk hkn
    by_cases h0 : k = 0
    · subst h0; rw [sump_zero]
      have := sum_range x s g n h hx hn
      unfold fits64; omega
    · have a := sum_bound x s g n k h hx (by omega) hkn
      have b := rowmaj_pos s g n (k - 1) h (by omega) (by omega)
      unfold fits64; omega
  · intro k hk hkn
    have a := sum_bound x s g n (k + 1) h hx (by omega) (by omega)
    have e := sump_succ x g k hk
    have b := rowmaj_pos s g n k h hk hkn
    have c := hx k hk hkn
    have d : 0 ≤ x k * g k := mul_nonneg c.1 (by omega)
    have f : 0 ≤ sump x g k := by
      by_cases h0 : k = 0
      · subst h0; rw [sump_zero]
      · exact (sum_bound x s g n k h hx (by omega) (by omega)).1
    simp only [add_sub_cancel_right] at a
    unfold fits64; omega

/-- tail sums Σ_{k≤i<n} x_i g_i -/
theorem tail_bound (x s g : ℤ → ℤ) (n k : ℤ) : rowmaj s g n → inrange x s n → 0 ≤ k → k < n →
    0 ≤ sump x g n - sump x g (k + 1) ∧ sump x g n - sump x g (k + 1) < g k := by
  intro h hx hk hn
  obtain ⟨d, hd⟩ : ∃ d : ℕ, k = n - 1 - d := ⟨(n - 1 - k).toNat, by omega⟩
  induction d generalizing k with
  | zero =>
    have : k + 1 = n := by simp at hd; omega
    rw [this]
    have b := rowmaj_pos s g n k h hk hn
    omega
  | succ d ih =>
    push_cast at hd
    have i := ih (k + 1) (by omega) (by omega) (by omega)
    have e := sump_succ x g (k + 1) (by omega)
    have a := rowmaj_pos s g n (k + 1) h (by omega) (by omega)
    have b := hx (k + 1) (by omega) (by omega)
    have c := h.2.2 k hk (by omega)
    constructor
    · nlinarith [mul_nonneg b.1 (by omega : (0:ℤ) ≤ g (k + 1))]
    · nlinarith

theorem rowmaj_unique (x y s g : ℤ → ℤ) (n : ℤ) : rowmaj s g n → inrange x s n → inrange y s n →
    sump x g n = sump y g n → ∀ i : ℤ, 0 ≤ i → i < n → x i = y i := by
  intro h hx hy he i hi hn
  have key : ∀ d : ℕ, (d : ℤ) ≤ n → (∀ i : ℤ, 0 ≤ i → i < d → x i = y i) := by
    intro d
    induction d with
    | zero => intro _ i h1 h2; simp at h2; omega
    | succ d ih =>
      intro hd i h1 h2
      push_cast at hd h2
      have ih := ih (by omega)
      by_cases hid : i = d
      · subst hid
        have es : sump x g d = sump y g d := by
          unfold sump
          apply Finset.sum_congr rfl
          intro j hj
          rw [ih j (by omega) (by simp at hj; omega)]
        have ex := sump_succ x g d (by omega)
        have ey := sump_succ y g d (by omega)
        have tx := tail_bound x s g n d h hx (by omega) (by omega)
        have ty := tail_bound y s g n d h hy (by omega) (by omega)
        have hp := (rowmaj_pos s g n d h (by omega) (by omega)).1
        by_contra hne
        rcases lt_or_gt_of_ne hne with hlt | hgt
        · have : (y d - x d) * g d ≥ g d := by nlinarith
          nlinarith
        · have : (x d - y d) * g d ≥ g d := by nlinarith
          nlinarith
      · exact ih i h1 (by omega)
  exact key n.toNat (by omega) i hi (by omega)

/-- row-major strides of a shape: product of the later sizes -/
noncomputable def sufp (s : ℤ → ℤ) (n k : ℤ) : ℤ := ∏ i ∈ Finset.Ico k n, s i
noncomputable def rstride (s : ℤ → ℤ) (n : ℤ) : ℤ → ℤ := fun i => sufp s n (i + 1)
noncomputable def prefp (s : ℤ → ℤ) (k : ℤ) : ℤ := ∏ i ∈ Finset.Ico 0 k, s i
def posshape (s : ℤ → ℤ) (n : ℤ) : Prop := ∀ i : ℤ, 0 ≤ i → i < n → s i ≥ 1

theorem rstride_get (s : ℤ → ℤ) (n i : ℤ) : rstride s n i = sufp s n (i + 1) := rfl
theorem sufp_end (s : ℤ → ℤ) (n : ℤ) : sufp s n n = 1 := by simp [sufp]
theorem sufp_step (s : ℤ → ℤ) (n k : ℤ) : k < n → sufp s n k = s k * sufp s n (k + 1) := by
  intro h
  unfold sufp
  have : Finset.Ico k n = insert k (Finset.Ico (k + 1) n) := by
    ext x; simp; omega
  rw [this, Finset.prod_insert (by simp)]
theorem prefp_zero (s : ℤ → ℤ) : prefp s 0 = 1 := by simp [prefp]
theorem prefp_step (s : ℤ → ℤ) (k : ℤ) : k ≥ 0 → prefp s (k + 1) = prefp s k * s k := by
  intro h
  unfold prefp
  have : Finset.Ico (0:ℤ) (k + 1) = insert k (Finset.Ico 0 k) := by
    ext x; simp; omega
  rw [this, Finset.prod_insert (by simp), mul_comm]
theorem prefp_full (s : ℤ → ℤ) (n : ℤ) : prefp s n = sufp s n 0 := rfl
theorem sufp_pos (s : ℤ → ℤ) (n k : ℤ) : posshape s n → k ≥ 0 → sufp s n k ≥ 1 := by
  intro h hk
  unfold sufp
  have : 0 < ∏ i ∈ Finset.Ico k n, s i := Finset.prod_pos (fun i hi => by
    have := h i (by simp at hi; omega) (by simp at hi; omega); omega)
  omega
theorem prefp_pos (s : ℤ → ℤ) (n k : ℤ) : posshape s n → k ≤ n → prefp s k ≥ 1 := by
  intro h hk
  unfold prefp
  have : 0 < ∏ i ∈ Finset.Ico 0 k, s i := Finset.prod_pos (fun i hi => by
    have := h i (by simp at hi; omega) (by simp at hi; omega); omega)
  omega
theorem prefp_mono (s : ℤ → ℤ) (n k : ℤ) : posshape s n → 0 ≤ k → k ≤ n → prefp s k ≤ prefp s n := by
  intro h hk hn
  obtain ⟨d, hd⟩ : ∃ d : ℕ, n = k + d := ⟨(n - k).toNat, by omega⟩
  subst hd
  induction d with
  | zero => simp
  | succ d ih =>
    push_cast at *
    have ih := ih (fun i h1 h2 => h i h1 (by omega)) (by omega)
    have e := prefp_step s (k + d) (by omega)
    rw [← add_assoc, e]
    have a := prefp_pos s (k + d) (k + d) (fun i h1 h2 => h i h1 (by omega)) (by omega)
    have b := h (k + d) (by omega) (by omega)
    nlinarith
theorem sufp_le (s : ℤ → ℤ) (n k : ℤ) : posshape s n → 0 ≤ k → k ≤ n → sufp s n k ≤ prefp s n := by
  intro h hk hn
  obtain ⟨d, hd⟩ : ∃ d : ℕ, k = d := ⟨k.toNat, by omega⟩
  subst hd
  rw [prefp_full]
  induction d with
  | zero => simp
  | succ d ih =>
    push_cast at *
    have ih := ih (by omega) (by omega)
    have e := sufp_step s n d (by omega)
    have a := sufp_pos s n (d + 1) h (by omega)
    have b := h d (by omega) (by omega)
    nlinarith
theorem rstride_rowmaj (s : ℤ → ℤ) (n : ℤ) : posshape s n → n ≥ 0 → (rowmaj s (rstride s n) n ∧ total s (rstride s n) n = prefp s n) := by
  intro h hn
  refine ⟨⟨h, ?_, ?_⟩, ?_⟩
  · intro h1; simp [rstride, sufp_end]
  · intro i h1 h2
    unfold rstride
    rw [sufp_step s n (i + 1) h2, mul_comm]
  · rw [total_def]
    split_ifs with h1
    · rw [prefp_full, sufp_step s n 0 (by omega), rstride_get, mul_comm]
    · have : n = 0 := by omega
      subst this; simp [prefp_zero]
theorem posshape_get (s : ℤ → ℤ) (n i : ℤ) : posshape s n → 0 ≤ i → i < n → s i ≥ 1 := fun h => h i

end DV
namespace DV
theorem inrange_def (x s : ℤ → ℤ) (n : ℤ) : inrange x s n ↔ ∀ i : ℤ, 0 ≤ i → i < n → 0 ≤ x i ∧ x i < s i := Iff.rfl
end DV
namespace DV
theorem div_lt (q d t : ℤ) : d ≥ 1 → q ≥ 0 → q < d * t → q / d < t ∧ q / d ≥ 0 := by
  intro hd hq h
  exact ⟨Int.ediv_lt_of_lt_mul (by omega) (by rwa [mul_comm]), Int.ediv_nonneg hq (by omega)⟩
theorem div_mod (q d : ℤ) : d ≥ 1 → q = (q / d) * d + q % d ∧ q % d ≥ 0 ∧ q % d < d := by
  intro hd
  have := Int.mul_ediv_add_emod q d
  refine ⟨by rw [mul_comm (q / d) d]; exact this.symm, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
theorem sump_congr (x y g : ℤ → ℤ) (k : ℤ) : (∀ i : ℤ, 0 ≤ i → i < k → x i = y i) → sump x g k = sump y g k := by
  intro h
  unfold sump
  apply Finset.sum_congr rfl
  intro j hj
  rw [h j (by omega) (by simp at hj; omega)]
theorem sump_push (x g : ℤ → ℤ) (k v : ℤ) : k ≥ 0 → sump (Function.update x k v) g (k + 1) = sump x g k + v * g k := by
  intro hk
  rw [sump_succ _ _ _ hk, sump_congr (Function.update x k v) x g k]
  · simp
  · intro i _ hi
    rw [Function.update_of_ne (by omega)]
theorem mul_div (a b : ℤ) : a ≥ 1 → (a * b) / a = b := fun h => Int.mul_ediv_cancel_left b (by omega)
theorem mul_le_pred (a b d : ℤ) : 0 ≤ a → a < b → d ≥ 1 → 0 ≤ a * d ∧ a * d ≤ b * d - d := by
  intro h1 h2 h3
  exact ⟨mul_nonneg h1 (by omega), by nlinarith⟩
end DV
namespace DV
theorem ediv_ediv (a b c : ℤ) : b ≥ 1 → c ≥ 1 → (a / b) / c = a / (c * b) := by
  intro hb _
  rw [Int.ediv_ediv_of_nonneg (by omega), mul_comm]
/-- mixed-radix digits, most significant first -/
theorem digits (x s : ℤ → ℤ) (n f : ℤ) : posshape s n → n ≥ 0 → 0 ≤ f → f < prefp s n →
    (∀ i : ℤ, 0 ≤ i → i < n → x i = (f / sufp s n (i + 1)) % s i) →
    (inrange x s n ∧ sump x (rstride s n) n = f) := by
  intro h hn hf hlt hx
  have hr : inrange x s n := by
    intro i h1 h2
    rw [hx i h1 h2]
    have := h i h1 h2
    exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩
  refine ⟨hr, ?_⟩
  have key : ∀ d : ℕ, (d : ℤ) ≤ n → sump x (rstride s n) d = (f / sufp s n d) * sufp s n d := by
    intro d
    induction d with
    | zero =>
      intro _
      rw [Nat.cast_zero, sump_zero, ← prefp_full, Int.ediv_eq_zero_of_lt hf hlt, zero_mul]
    | succ d ih =>
      intro hd
      push_cast at hd ⊢
      have ih := ih (by omega)
      rw [sump_succ _ _ _ (by omega), ih, rstride_get, hx d (by omega) (by omega)]
      have e := sufp_step s n d (by omega)
      have p := sufp_pos s n (d + 1) h (by omega)
      have q := h d (by omega) (by omega)
      set S := sufp s n ((d : ℤ) + 1)
      rw [e]
      have e2 : f / (s d * S) = (f / S) / s d := by
        rw [Int.ediv_ediv_of_nonneg (by omega), mul_comm]
      rw [e2]
      have e3 := Int.mul_ediv_add_emod (f / S) (s d)
      have : f / S * S = (s ↑d * (f / S / s ↑d) + f / S % s ↑d) * S := by rw [e3]
      rw [this]; ring
  have := key n.toNat (by omega)
  rw [Int.toNat_of_nonneg hn, sufp_end] at this
  simpa using this
/-- bijection of [0,n) -/
def isperm (m : ℤ → ℤ) (n : ℤ) : Prop := Set.BijOn m (Set.Ico 0 n) (Set.Ico 0 n)
theorem isperm_def (m : ℤ → ℤ) (n : ℤ) : isperm m n ↔
    ((∀ i : ℤ, 0 ≤ i → i < n → 0 ≤ m i ∧ m i < n) ∧ ∀ i j : ℤ, 0 ≤ i → i < j → j < n → m i ≠ m j) := by
  constructor
  · rintro ⟨h1, h2, _⟩
    refine ⟨fun i a b => h1 ⟨a, b⟩, fun i j a b c e => ?_⟩
    have := h2 ⟨a, by omega⟩ ⟨by omega, c⟩ e
    omega
  · rintro ⟨h1, h2⟩
    have mt : Set.MapsTo m (Set.Ico 0 n) (Set.Ico 0 n) := fun i hi => h1 i hi.1 hi.2
    have inj : Set.InjOn m (Set.Ico 0 n) := by
      intro i hi j hj e
      rcases lt_trichotomy i j with l | l | l
      · exact absurd e (h2 i j hi.1 l hj.2)
      · exact l
      · exact absurd e.symm (h2 j i hj.1 l hi.2)
    exact ((Set.finite_Ico 0 n).injOn_iff_bijOn_of_mapsTo mt).1 inj
/-- the diagonal packing: the slot found holds (i, j), and no other slot does -/
theorem diag_slot (i j n m c r : ℤ) : n ≥ 1 → m ≥ 1 → m % n = 0 → 0 ≤ i → i < n → 0 ≤ j → j < m →
    r = (j - i) % n → c = (j - (j - i) % n) % m →
    (0 ≤ r ∧ r < n ∧ 0 ≤ c ∧ c < m ∧ c % n = i ∧ (c + r) % m = j) := by
  intro hn hm hd hi hi2 hj hj2 hr hc
  have hdvd : n ∣ m := Int.dvd_of_emod_eq_zero hd
  refine ⟨hr ▸ Int.emod_nonneg _ (by omega), hr ▸ Int.emod_lt_of_pos _ (by omega),
    hc ▸ Int.emod_nonneg _ (by omega), hc ▸ Int.emod_lt_of_pos _ (by omega), ?_, ?_⟩
  · rw [hc, Int.emod_emod_of_dvd _ hdvd, Int.sub_emod, Int.emod_emod_of_dvd _ (dvd_refl n), ← Int.sub_emod]
    simp [Int.emod_eq_of_lt hi hi2]
  · rw [hc, hr, Int.emod_add_emod]
    simp [Int.emod_eq_of_lt hj hj2]
theorem diag_uniq (i j n m c r c2 r2 : ℤ) : n ≥ 1 → m ≥ 1 → m % n = 0 → 0 ≤ r → r < n → 0 ≤ c → c < m →
    c % n = i → (c + r) % m = j → 0 ≤ r2 → r2 < n → 0 ≤ c2 → c2 < m → c2 % n = i → (c2 + r2) % m = j →
    (r = r2 ∧ c = c2) := by
  intro hn hm hd r0 r1 c0 c1 e1 e2 s0 s1 d0 d1 f1 f2
  have hdvd : n ∣ m := Int.dvd_of_emod_eq_zero hd
  have hmod : (c + r) ≡ (c2 + r2) [ZMOD m] := by unfold Int.ModEq; omega
  have hn1 : (c + r) ≡ (c2 + r2) [ZMOD n] := hmod.of_dvd hdvd
  have hc : c ≡ c2 [ZMOD n] := by unfold Int.ModEq; omega
  have hr : r ≡ r2 [ZMOD n] := Int.ModEq.add_left_cancel hc hn1
  have er : r = r2 := by
    have := hr
    unfold Int.ModEq at this
    rwa [Int.emod_eq_of_lt r0 r1, Int.emod_eq_of_lt s0 s1] at this
  subst er
  have hc2 : c ≡ c2 [ZMOD m] := Int.ModEq.add_right_cancel' r hmod
  unfold Int.ModEq at hc2
  rw [Int.emod_eq_of_lt c0 c1, Int.emod_eq_of_lt d0 d1] at hc2
  exact ⟨rfl, hc2⟩
end DV
namespace DV
/-- least natural number that is none of p 0, ..., p (n-1) -/
noncomputable def firstfree (p : ℤ → ℤ) (n : ℤ) : ℤ := ((sInf {d : ℕ | ∀ i : ℤ, 0 ≤ i → i < n → p i ≠ d} : ℕ) : ℤ)
theorem firstfree_def (p : ℤ → ℤ) (n : ℤ) : firstfree p n ≥ 0 ∧ (∀ i : ℤ, 0 ≤ i → i < n → p i ≠ firstfree p n) ∧
    ∀ z : ℤ, 0 ≤ z → z < firstfree p n → ¬ ∀ i : ℤ, 0 ≤ i → i < n → p i ≠ z := by
  have ne : {d : ℕ | ∀ i : ℤ, 0 ≤ i → i < n → p i ≠ d}.Nonempty := by
    have fin : (((Set.Ico (0:ℤ) n).image p).image Int.toNat).Finite := ((Set.finite_Ico 0 n).image p).image _
    obtain ⟨d, hd⟩ := fin.exists_notMem
    refine ⟨d, fun i a b e => hd ⟨p i, ⟨i, ⟨a, b⟩, rfl⟩, by rw [e]; simp⟩⟩
  refine ⟨by unfold firstfree; omega, Nat.sInf_mem ne, fun z h1 h2 h3 => ?_⟩
  have : z.toNat < sInf {d : ℕ | ∀ i : ℤ, 0 ≤ i → i < n → p i ≠ d} := by unfold firstfree at h2; omega
  exact Nat.notMem_of_lt_sInf this (by intro i a b; rw [Int.toNat_of_nonneg h1]; exact h3 i a b)
end DV
