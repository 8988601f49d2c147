import Mathlib
namespace DV
open Classical
noncomputable section
def bicR (hp m pi n : ℤ) : ℤ → ℤ := fun c => hp * ((c * m * pi) % n)
def minv (p n : ℤ) : ℤ := if h : ∃ t : ℤ, 0 ≤ t ∧ t < n ∧ (p % n * t) % n = 1 % n then choose h else 0
def bmm (A B : ℤ → ℤ → ℤ → ℝ) (n b i j : ℤ) : ℝ := ∑ k ∈ Finset.range n.toNat, B b k j * A b i k

theorem bic_def (q m pi n c : ℤ) : bicR q m pi n c = q * ((c * m * pi) % n) := rfl
theorem roty_eq (c m pi n : ℤ) : ((c * m) % n * pi) % n = (c * m * pi) % n := by
  rw [Int.mul_emod, Int.emod_emod, ← Int.mul_emod]
theorem bic_code (c h m p n pi : ℤ) : n ≥ 1 → p ≥ 1 → h ≥ 1 →
    (h * p * (((c * m) % n * pi) % n) = bicR (h * p) m pi n c ∧ (h * p * (((c * m) % n * pi) % n)) % (h * n * p) = bicR (h * p) m pi n c) := by
  intro hn hp hh
  rw [roty_eq]
  unfold bicR
  have e1 := Int.emod_nonneg (c * m * pi) (by omega : n ≠ 0)
  have e2 := Int.emod_lt_of_pos (c * m * pi) (by omega : 0 < n)
  have hhp : 0 < h * p := by positivity
  refine ⟨rfl, Int.emod_eq_of_lt (by positivity) (by nlinarith)⟩
theorem inv_uniq (p n t u : ℤ) : n ≥ 1 → 0 ≤ t → t < n → 0 ≤ u → u < n → (p % n * t) % n = 1 % n → (p % n * u) % n = 1 % n → t = u := by
  intro hn h1 h2 h3 h4 h5 h6
  have a1 : p * t ≡ 1 [ZMOD n] := by
    unfold Int.ModEq; rw [← h5, Int.mul_emod, ← Int.emod_emod, ← Int.mul_emod, Int.mul_emod (p % n), Int.emod_emod, ← Int.mul_emod]; simp [Int.mul_emod]
  have a2 : p * u ≡ 1 [ZMOD n] := by
    unfold Int.ModEq; rw [← h6]; simp [Int.mul_emod]
  have b : t ≡ u [ZMOD n] := by
    calc t = t * 1 := by ring
      _ ≡ t * (p * u) [ZMOD n] := Int.ModEq.mul_left _ a2.symm
      _ = (p * t) * u := by ring
      _ ≡ 1 * u [ZMOD n] := Int.ModEq.mul_right _ a1
      _ = u := by ring
  unfold Int.ModEq at b
  rwa [Int.emod_eq_of_lt h1 h2, Int.emod_eq_of_lt h3 h4] at b
theorem minv_eq (p n t : ℤ) : n ≥ 1 → 0 ≤ t → t < n → (p * t) % n = 1 % n → minv p n = t := by
  intro hn h1 h2 h3'
  have h3 : (p % n * t) % n = 1 % n := by rw [← h3']; simp [Int.mul_emod]
  have h : ∃ t : ℤ, 0 ≤ t ∧ t < n ∧ (p % n * t) % n = 1 % n := ⟨t, h1, h2, h3⟩
  unfold minv
  rw [dif_pos h]
  have hc := choose_spec h
  exact inv_uniq p n _ t hn hc.1 hc.2.1 h1 h2 hc.2.2 h3
theorem bic_rot (c h m p n t : ℤ) : n ≥ 1 → p ≥ 1 → h ≥ 1 → 0 ≤ t → t < n → (p % n * t) % n = 1 % n →
    (bicR (h * p) m t n c ≥ 0 ∧ bicR (h * p) m t n c < h * n * p ∧ bicR (h * p) m t n c % n = (c * (h * m)) % n ∧
     bicR (h * p) m t n c % p = 0 ∧ bicR (h * p) m t n c % h = 0) := by
  intro hn hp hh h1 h2 h3
  unfold bicR
  have e1 := Int.emod_nonneg (c * m * t) (by omega : n ≠ 0)
  have e2 := Int.emod_lt_of_pos (c * m * t) (by omega : 0 < n)
  have hhp : 0 < h * p := by positivity
  refine ⟨by positivity, ?_, ?_, ?_, ?_⟩
  · nlinarith
  · have a : p * t ≡ 1 [ZMOD n] := by unfold Int.ModEq; rw [← h3]; simp [Int.mul_emod]
    have : h * p * ((c * m * t) % n) ≡ c * (h * m) [ZMOD n] := by
      calc h * p * ((c * m * t) % n) ≡ h * p * (c * m * t) [ZMOD n] := Int.ModEq.mul_left _ (Int.mod_modEq _ _)
        _ = (c * (h * m)) * (p * t) := by ring
        _ ≡ (c * (h * m)) * 1 [ZMOD n] := Int.ModEq.mul_left _ a
        _ = c * (h * m) := by ring
    exact this
  · exact Int.emod_eq_zero_of_dvd ⟨h * ((c * m * t) % n), by ring⟩
  · exact Int.emod_eq_zero_of_dvd ⟨p * ((c * m * t) % n), by ring⟩
theorem tri_mod (x y k h n p : ℤ) : x % (h * n * p) = y % (h * n * p) →
    ((k + x) % h = (k + y) % h ∧ (k + x) % n = (k + y) % n ∧ (k + x) % p = (k + y) % p) := by
  intro e
  have e' : k + x ≡ k + y [ZMOD (h * n * p)] := Int.ModEq.add_left k e
  refine ⟨?_, ?_, ?_⟩
  · exact Int.ModEq.of_dvd ⟨n * p, by ring⟩ e'
  · exact Int.ModEq.of_dvd ⟨h * p, by ring⟩ e'
  · exact Int.ModEq.of_dvd ⟨h * n, by ring⟩ e'
theorem add_mod_eq (x y k N : ℤ) : x % N = y % N → (x + k) % N = (y + k) % N := by
  intro e; exact Int.ModEq.add_right k e
theorem mul_bnd (k st p b : ℤ) : 0 ≤ k → k ≤ st → -b ≤ p * st → p * st ≤ b → (-b ≤ p * k ∧ p * k ≤ b) := by
  intro h1 h2 h3 h4
  rcases le_total 0 p with hp | hp
  · constructor <;> nlinarith
  · constructor <;> nlinarith
theorem mul_le_bnd (a b c d : ℤ) : 0 ≤ a → 0 ≤ b → a ≤ c → b ≤ d → (0 ≤ a * b ∧ a * b ≤ c * d) := by
  intro h1 h2 h3 h4
  exact ⟨by positivity, by nlinarith⟩

theorem sum_mul_mod (f : ℤ → ℝ) (n : ℕ) (s M : ℤ) (hn : 0 < n) (hg : Int.gcd M n = 1) :
    ∑ c ∈ Finset.range n, f ((s + (c : ℤ) * M) % n) = ∑ k ∈ Finset.range n, f k := by
  have hn' : (0:ℤ) < n := by exact_mod_cast hn
  let g : ℕ → ℕ := fun c => ((s + (c : ℤ) * M) % n).toNat
  have hg0 : ∀ c : ℕ, ((g c : ℕ) : ℤ) = (s + (c : ℤ) * M) % n := fun c =>
    Int.toNat_of_nonneg (Int.emod_nonneg _ (by omega))
  have inj : Set.InjOn g (Finset.range n : Set ℕ) := by
    intro a ha b hb hab
    simp only [Finset.coe_range, Set.mem_Iio] at ha hb
    have h : (s + (a:ℤ) * M) % n = (s + (b:ℤ) * M) % n := by
      rw [← hg0, ← hg0, hab]
    have h3 : (a:ℤ) * M ≡ (b:ℤ) * M [ZMOD n] := Int.ModEq.add_left_cancel' s h
    have h4 : (a:ℤ) ≡ b [ZMOD n] := by
      have hd := (Int.modEq_iff_dvd.mp h3)
      have : (n:ℤ) ∣ ((b:ℤ) - a) * M := by rwa [sub_mul]
      have hc : IsCoprime (n:ℤ) M := by
        rw [Int.isCoprime_iff_gcd_eq_one, Int.gcd_comm]; exact hg
      exact Int.modEq_iff_dvd.mpr (hc.dvd_of_dvd_mul_right this)
    unfold Int.ModEq at h4
    rw [Int.emod_eq_of_lt (by omega) (by omega), Int.emod_eq_of_lt (by omega) (by omega)] at h4
    exact_mod_cast h4
  have sub : (Finset.range n).image g ⊆ Finset.range n := by
    intro x hx
    simp only [Finset.mem_image, Finset.mem_range] at hx ⊢
    obtain ⟨c, _, rfl⟩ := hx
    have := Int.emod_lt_of_pos (s + (c : ℤ) * M) hn'
    have e := hg0 c
    omega
  have img : (Finset.range n).image g = Finset.range n :=
    Finset.eq_of_subset_of_card_le sub (by rw [Finset.card_image_of_injOn inj])
  have e1 : ∑ k ∈ Finset.range n, f k = ∑ c ∈ Finset.range n, f (g c : ℤ) := by
    conv_lhs => rw [← img]
    rw [Finset.sum_image inj]
  rw [e1]
  apply Finset.sum_congr rfl
  intro c _
  rw [hg0]

theorem tri_correct (A B : ℤ → ℤ → ℤ → ℝ) (V W : ℤ → ℝ) (E : ℤ → ℤ → ℝ) (R : ℤ → ℤ) (Z : ℤ → Prop) (h m n p s : ℤ) :
    h ≥ 1 → m ≥ 1 → n ≥ 1 → p ≥ 1 → gcd (h * m) n = 1 →
    (∀ t : ℤ, V t = A (t % h) (t % m) (t % n)) → (∀ t : ℤ, W t = B (t % h) (t % n) (t % p)) →
    (∀ c : ℤ, 0 ≤ c → c < n → (¬ Z c) ∧ (∀ t : ℤ, E c t = W t) ∧ R c % n = (c * (h * m)) % n ∧ R c % p = 0 ∧ R c % h = 0) →
    bs E R Z V (h * m) s n = bmm A B n (s % h) (s % m) (s % p) := by
  intro hh hm hn hp hg hV hW hR
  obtain ⟨N, rfl⟩ := Int.eq_ofNat_of_zero_le (by omega : 0 ≤ n)
  have hgg : Int.gcd (h * m) N = 1 := by
    have : ((Int.gcd (h * m) N : ℕ) : ℤ) = 1 := hg
    exact_mod_cast this
  unfold bs bmm
  rw [Int.toNat_natCast]
  have hN : 0 < N := by omega
  rw [← sum_mul_mod (fun k => B (s % h) k (s % p) * A (s % h) (s % m) k) N s (h * m) hN hgg]
  apply Finset.sum_congr rfl
  intro c hc
  simp only [Finset.mem_range] at hc
  obtain ⟨z, hE, r1, r2, r3⟩ := hR c (by omega) (by exact_mod_cast hc)
  rw [if_neg z, hE, hW, hV]
  have x1 : (s + R c) % h = s % h := by rw [Int.add_emod, r3]; simp
  have x2 : (s + R c) % p = s % p := by rw [Int.add_emod, r2]; simp
  have x3 : (s + R c) % (N:ℤ) = (s + (c:ℤ) * (h * m)) % (N:ℤ) := by rw [Int.add_emod, r1, ← Int.add_emod]
  have y1 : (s + h * m * (c:ℤ)) % h = s % h := by
    rw [show h * m * (c:ℤ) = (m * c) * h by ring]; exact Int.add_mul_emod_self_right _ _ _
  have y2 : (s + h * m * (c:ℤ)) % m = s % m := by
    rw [show h * m * (c:ℤ) = (h * c) * m by ring]; exact Int.add_mul_emod_self_right _ _ _
  have y3 : (s + h * m * (c:ℤ)) % (N:ℤ) = (s + (c:ℤ) * (h * m)) % (N:ℤ) := by congr 1; ring
  rw [x1, x2, x3, y1, y2, y3]
end
end DV
