import Mathlib

namespace DV

/-- sum of g t for t < n -/
def gs {K : Type*} [AddCommMonoid K] (g : ℤ → K) (n : ℤ) : K := ∑ t ∈ Finset.range n.toNat, g t

section
variable {K : Type*} [CommRing K]
theorem gs_zero (g : ℤ → K) : gs g 0 = 0 := by simp [gs]
theorem gs_succ (g : ℤ → K) (n : ℤ) (h : n ≥ 0) : gs g (n + 1) = gs g n + g n := by
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  have : ((m : ℤ) + 1).toNat = m + 1 := by omega
  unfold gs; rw [this, Finset.sum_range_succ]; simp
theorem gs_ext (g f : ℤ → K) (n : ℤ) (h : ∀ t : ℤ, 0 ≤ t → t < n → g t = f t) : gs g n = gs f n := by
  unfold gs; apply Finset.sum_congr rfl; intro t ht
  rw [Finset.mem_range] at ht; exact h t (by omega) (by omega)
theorem gs_push (g : ℤ → K) (n k : ℤ) (v : K) (h : k ≥ n) : gs (Function.update g k v) n = gs g n := by
  apply gs_ext; intro t _ h2; rw [Function.update_of_ne (by omega)]
theorem gs_upd (g : ℤ → K) (n k : ℤ) (v : K) (h0 : 0 ≤ k) (h1 : k < n) :
    gs (Function.update g k v) n = gs g n + v - g k := by
  have key : ∀ m : ℕ, k < m → gs (Function.update g k v) m = gs g m + v - g k := by
    intro m
    induction m with
    | zero => intro h; exfalso; push_cast at h; omega
    | succ m ih =>
      intro h; push_cast at h ⊢
      rw [gs_succ _ _ (by omega), gs_succ _ _ (by omega)]
      by_cases e : k = m
      · subst e; rw [gs_push _ _ _ _ le_rfl, Function.update_self]; ring
      · rw [ih (by omega), Function.update_of_ne (by omega)]; ring
  have := key n.toNat (by omega)
  rwa [Int.toNat_of_nonneg (by omega)] at this
theorem gs_erase (g f : ℤ → K) (n k : ℤ) (h0 : 0 ≤ k) (h1 : k ≤ n) (ha : ∀ t : ℤ, 0 ≤ t → t < k → f t = g t)
    (hb : ∀ t : ℤ, k ≤ t → t < n → f t = g (t + 1)) : gs f n = gs g (n + 1) - g k := by
  have key : ∀ m : ℕ, k ≤ m → (m : ℤ) ≤ n → gs f m = gs g (m + 1) - g k := by
    intro m
    induction m with
    | zero => intro h h2; have : k = 0 := by push_cast at h; omega
              subst this; rw [gs_succ _ _ (by simp)]; simp [gs]
    | succ m ih =>
      intro h h2; push_cast at h h2 ⊢
      rw [gs_succ f _ (by omega), gs_succ g (m + 1) (by omega)]
      by_cases e : k = m + 1
      · rw [gs_ext f g m (fun t a b => ha t a (by omega)), ha m (by omega) (by omega), gs_succ g m (by omega), e]; ring
      · rw [ih (by omega) (by omega), hb m (by omega) (by omega)]; ring
  have := key n.toNat (by omega) (by omega)
  rwa [Int.toNat_of_nonneg (by omega)] at this
theorem gs_perm (g f : ℤ → K) (p q : ℤ → ℤ) (n : ℤ)
    (hp : ∀ t : ℤ, 0 ≤ t → t < n → 0 ≤ p t ∧ p t < n ∧ q (p t) = t ∧ f t = g (p t))
    (hq : ∀ t : ℤ, 0 ≤ t → t < n → 0 ≤ q t ∧ q t < n ∧ p (q t) = t) : gs f n = gs g n := by
  unfold gs
  refine Finset.sum_nbij' (fun t => (p t).toNat) (fun t => (q t).toNat) ?_ ?_ ?_ ?_ ?_
  · intro t ht; simp only [Finset.mem_range] at *; have := hp t (by omega) (by omega); omega
  · intro t ht; simp only [Finset.mem_range] at *; have := hq t (by omega) (by omega); omega
  · intro t ht; simp only [Finset.mem_range] at *; have := hp t (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1, this.2.2.1]; simp
  · intro t ht; simp only [Finset.mem_range] at *; have := hq t (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1, this.2.2]; simp
  · intro t ht; simp only [Finset.mem_range] at *; have := hp t (by omega) (by omega)
    rw [Int.toNat_of_nonneg this.1, this.2.2.2]
theorem gs_mul (g : ℤ → K) (y : K) (n : ℤ) : gs (fun t => g t * y) n = gs g n * y := by
  unfold gs; rw [Finset.sum_mul]
theorem gs_add (g f : ℤ → K) (n : ℤ) : gs (fun t => g t + f t) n = gs g n + gs f n := by
  unfold gs; rw [Finset.sum_add_distrib]

/-- the part of exponent at least k, divided by y^k -/
def gsuf (c : ℤ → K) (e : ℤ → ℤ) (y : K) (k n : ℤ) : K := gs (fun t => if k ≤ e t then c t * y ^ (e t - k).toNat else 0) n
theorem gsuf_top (c : ℤ → K) (e : ℤ → ℤ) (y : K) (n : ℤ) (h : n ≥ 1) (inc : ∀ t u : ℤ, 0 ≤ t → t < u → u < n → e t < e u) :
    gsuf c e y (e (n - 1)) n = c (n - 1) := by
  unfold gsuf
  rw [show n = (n - 1) + 1 by ring, gs_succ _ _ (by omega), gs_ext _ (fun _ => 0) (n - 1)]
  · simp [gs]
  · intro t a b
    have := inc t (n - 1) a b (by omega)
    rw [if_neg]; simp only [add_sub_cancel_right]; omega
theorem gsuf_miss (c : ℤ → K) (e : ℤ → ℤ) (y : K) (k n : ℤ) (h : ∀ t : ℤ, 0 ≤ t → t < n → e t ≠ k) :
    gsuf c e y k n = gsuf c e y (k + 1) n * y := by
  unfold gsuf; rw [← gs_mul]
  apply gs_ext; intro t a b
  have := h t a b
  by_cases q : k ≤ e t
  · rw [if_pos q, if_pos (by omega)]
    rw [show (e t - k).toNat = (e t - (k + 1)).toNat + 1 by omega, pow_succ]; ring
  · rw [if_neg q, if_neg (by omega)]; ring
theorem gsuf_hit (c : ℤ → K) (e : ℤ → ℤ) (y : K) (k n s : ℤ) (h0 : 0 ≤ s) (h1 : s < n) (he : e s = k)
    (inc : ∀ t u : ℤ, 0 ≤ t → t < u → u < n → e t < e u) : gsuf c e y k n = gsuf c e y (k + 1) n * y + c s := by
  have z := gs_upd (fun t => if k + 1 ≤ e t then c t * y ^ (e t - (k+1)).toNat * y else 0) n s (c s) h0 h1
  have hs : ¬ (k + 1 ≤ e s) := by omega
  simp only [hs, if_false, sub_zero] at z
  have w : gs (fun t => if k + 1 ≤ e t then c t * y ^ (e t - (k+1)).toNat * y else 0) n = gsuf c e y (k + 1) n * y := by
    unfold gsuf; rw [← gs_mul]; apply gs_ext; intro t _ _; split_ifs <;> ring
  rw [w] at z; rw [← z]; unfold gsuf; apply gs_ext; intro t a b
  by_cases ts : t = s
  · subst ts; rw [Function.update_self, if_pos (by omega), he]; simp
  · rw [Function.update_of_ne ts]
    have ne : e t ≠ k := by
      rcases lt_or_gt_of_ne ts with q | q
      · have := inc t s a q h1; omega
      · have := inc s t h0 q b; omega
    by_cases q : k ≤ e t
    · rw [if_pos q, if_pos (by omega), show (e t - k).toNat = (e t - (k + 1)).toNat + 1 by omega, pow_succ]; ring
    · rw [if_neg q, if_neg (by omega)]
theorem gsuf_zero (c : ℤ → K) (e : ℤ → ℤ) (y : K) (n : ℤ) (h : ∀ t : ℤ, 0 ≤ t → t < n → 0 ≤ e t) :
    gsuf c e y 0 n = gs (fun t => c t * y ^ (e t).toNat) n := by
  unfold gsuf; apply gs_ext; intro t a b; rw [if_pos (h t a b)]; simp
end

-- ------------------------------------------------------------- reals
abbrev FMono := ℝ × (ℤ × ℤ)
noncomputable def tmf (mo : FMono) (x : ℝ) : ℝ := mo.1 * x ^ (mo.2.1).toNat
noncomputable def pvf (a : ℤ → FMono) (x : ℝ) (n : ℤ) : ℝ := gs (fun t => tmf (a t) x) n
noncomputable def suff (a : ℤ → FMono) (y : ℝ) (k n : ℤ) : ℝ := gsuf (fun t => (a t).1) (fun t => (a t).2.1) y k n
noncomputable def pvdf (c : ℤ → ℝ) (x : ℝ) (n : ℤ) : ℝ := gs (fun t => c t * x ^ t.toNat) n

theorem pvf_zero (a x) : pvf a x 0 = 0 := gs_zero _
theorem pvf_succ (a x) (n : ℤ) : n ≥ 0 → pvf a x (n + 1) = pvf a x n + rm (a n).1 (rp x (a n).2.1) := fun h => gs_succ _ _ h
theorem pvf_ext (a b : ℤ → FMono) (x : ℝ) (n : ℤ) : (∀ t : ℤ, 0 ≤ t → t < n → a t = b t) → pvf a x n = pvf b x n :=
  fun h => gs_ext _ _ _ (fun t p q => by rw [h t p q])
theorem updc {α β : Type*} (f : α → β) (a : ℤ → α) (k : ℤ) (v : α) :
    (fun t => f (Function.update a k v t)) = Function.update (fun t => f (a t)) k (f v) := by
  funext t; by_cases h : t = k
  · subst h; simp
  · simp [Function.update_of_ne h]
theorem pvf_push (a x) (n k : ℤ) (mo : FMono) : k ≥ n → pvf (Function.update a k mo) x n = pvf a x n := by
  intro h; unfold pvf; rw [updc (fun m => tmf m x)]; exact gs_push _ _ _ _ h
theorem pvf_upd (a x) (n k : ℤ) (mo : FMono) : 0 ≤ k → k < n →
    pvf (Function.update a k mo) x n = pvf a x n + rm mo.1 (rp x mo.2.1) - rm (a k).1 (rp x (a k).2.1) := by
  intro h0 h1; unfold pvf; rw [updc (fun m => tmf m x)]; exact gs_upd _ _ _ _ h0 h1
theorem pvf_erase (a b : ℤ → FMono) (x : ℝ) (n k : ℤ) : 0 ≤ k → k ≤ n → (∀ t : ℤ, 0 ≤ t → t < k → b t = a t) →
    (∀ t : ℤ, k ≤ t → t < n → b t = a (t + 1)) → pvf b x n = pvf a x (n + 1) - rm (a k).1 (rp x (a k).2.1) := by
  intro h0 h1 h2 h3; unfold pvf
  exact gs_erase (fun t => tmf (a t) x) _ n k h0 h1 (fun t p q => by rw [h2 t p q]) (fun t p q => by rw [h3 t p q])
theorem pvf_perm (a b : ℤ → FMono) (p q : ℤ → ℤ) (x : ℝ) (n : ℤ) :
    (∀ t : ℤ, 0 ≤ t → t < n → (0 ≤ p t ∧ p t < n ∧ q (p t) = t ∧ b t = a (p t))) →
    (∀ t : ℤ, 0 ≤ t → t < n → (0 ≤ q t ∧ q t < n ∧ p (q t) = t)) → pvf b x n = pvf a x n := by
  intro h1 h2; unfold pvf
  refine gs_perm _ _ p q n (fun t u v => ?_) h2
  obtain ⟨e1, e2, e3, e4⟩ := h1 t u v
  exact ⟨e1, e2, e3, by rw [e4]⟩
theorem mulf_def (x y : ℝ) : rm x y = x * y := rfl
theorem mulf_dist (x y z : ℝ) : rm (x + y) z = rm x z + rm y z := by unfold rm; ring
theorem mulf_distr (x y z : ℝ) : rm z (x + y) = rm z x + rm z y := by unfold rm; ring
theorem mulf_zero (x : ℝ) : rm 0 x = 0 ∧ rm x 0 = 0 := by unfold rm; simp
theorem mulf_one (x : ℝ) : rm 1 x = x ∧ rm x 1 = x := by unfold rm; simp
theorem mulf_neg (x : ℝ) : rm (-1) x = -x := by unfold rm; ring
theorem mulf_assoc (x y z : ℝ) : rm (rm x y) z = rm y (rm x z) := by unfold rm; ring
theorem mulf_four (x y z w : ℝ) : rm (rm x y) (rm z w) = rm (rm x z) (rm y w) := by unfold rm; ring
theorem mulf_comm (x y : ℝ) : rm x y = rm y x := by unfold rm; ring
theorem powf_zero (x : ℝ) : rp x 0 = 1 := by simp [rp]
theorem powf_one (x : ℝ) : rp x 1 = x := by simp [rp]
theorem powf_add (x : ℝ) (m n : ℤ) : m ≥ 0 → n ≥ 0 → rp x (m + n) = rm (rp x m) (rp x n) := by
  intro ha hb; unfold rp rm; rw [Int.toNat_add ha hb, pow_add]
theorem suff_top (a : ℤ → FMono) (y : ℝ) (n : ℤ) : n ≥ 1 → (∀ t u : ℤ, 0 ≤ t → t < u → u < n → (a t).2.1 < (a u).2.1) →
    suff a y (a (n - 1)).2.1 n = (a (n - 1)).1 := fun h i => gsuf_top _ (fun t => (a t).2.1) y n h i
theorem suff_miss (a : ℤ → FMono) (y : ℝ) (k n : ℤ) : (∀ t : ℤ, 0 ≤ t → t < n → (a t).2.1 ≠ k) →
    suff a y k n = rm (suff a y (k + 1) n) y := fun h => gsuf_miss _ _ y k n h
theorem suff_hit (a : ℤ → FMono) (y : ℝ) (k n s : ℤ) : 0 ≤ s → s < n → (a s).2.1 = k →
    (∀ t u : ℤ, 0 ≤ t → t < u → u < n → (a t).2.1 < (a u).2.1) → suff a y k n = rm (suff a y (k + 1) n) y + (a s).1 :=
  fun h0 h1 h2 i => gsuf_hit (fun t => (a t).1) (fun t => (a t).2.1) y k n s h0 h1 h2 i
theorem suff_zero (a : ℤ → FMono) (y : ℝ) (n : ℤ) : (∀ t : ℤ, 0 ≤ t → t < n → 0 ≤ (a t).2.1) →
    suff a y 0 n = pvf a y n := fun h => gsuf_zero _ _ y n h
theorem pvdf_zero (c x) : pvdf c x 0 = 0 := gs_zero _
theorem pvdf_succ (c : ℤ → ℝ) (x : ℝ) (n : ℤ) : n ≥ 0 → pvdf c x (n + 1) = pvdf c x n + rm (c n) (rp x n) := fun h => gs_succ _ _ h

-- ------------------------------------------------------------- integers modulo 2^64
abbrev Z64 := ZMod (2 ^ 64)
abbrev IMono := (ℤ × ℤ) × (ℤ × ℤ)
def iv (z : Z64) : ℤ := (z.val : ℤ)
theorem iv_cast (z : Z64) : ((iv z : ℤ) : Z64) = z := by unfold iv; simp
theorem emod_iv (v : ℤ) : v % 18446744073709551616 = iv (v : Z64) := by
  unfold iv; rw [ZMod.val_intCast]; norm_num
theorem iv_rng (z : Z64) : 0 ≤ iv z ∧ iv z < 18446744073709551616 := by
  unfold iv; have := ZMod.val_lt z; constructor
  · positivity
  · exact_mod_cast this
def mulm (a b : ℤ) : ℤ := iv ((a : Z64) * (b : Z64))
def powm (x n : ℤ) : ℤ := iv ((x : Z64) ^ n.toNat)
def tmi (mo : IMono) (x : ℤ) : Z64 := ((mo.1.1 : ℤ) : Z64) * (x : Z64) ^ (mo.2.1).toNat
def pvi (a : ℤ → IMono) (x n : ℤ) : ℤ := iv (gs (fun t => tmi (a t) x) n)
def sufi (a : ℤ → IMono) (y k n : ℤ) : ℤ := iv (gsuf (fun t => (((a t).1.1 : ℤ) : Z64)) (fun t => (a t).2.1) (y : Z64) k n)
def pvdi (c : ℤ → ℤ) (x n : ℤ) : ℤ := iv (gs (fun t => ((c t : ℤ) : Z64) * (x : Z64) ^ t.toNat) n)

theorem pvi_range (a x) (n : ℤ) : 0 ≤ pvi a x n ∧ pvi a x n < 18446744073709551616 := iv_rng _
theorem mulm_range (x y : ℤ) : 0 ≤ mulm x y ∧ mulm x y < 18446744073709551616 := iv_rng _
theorem powm_range (x n : ℤ) : 0 ≤ powm x n ∧ powm x n < 18446744073709551616 := iv_rng _
theorem sufi_range (a y k) (n : ℤ) : 0 ≤ sufi a y k n ∧ sufi a y k n < 18446744073709551616 := iv_rng _
theorem pvdi_range (c x) (n : ℤ) : 0 ≤ pvdi c x n ∧ pvdi c x n < 18446744073709551616 := iv_rng _
theorem pvi_zero (a x) : pvi a x 0 = 0 := by unfold pvi; rw [gs_zero]; simp [iv]
macro "z64" : tactic => `(tactic| (rw [emod_iv]; unfold mulm powm; apply congrArg iv; push_cast [iv_cast]))
theorem pvi_succ (a x) (n : ℤ) : n ≥ 0 → pvi a x (n + 1) = (pvi a x n + mulm (a n).1.1 (powm x (a n).2.1)) % 18446744073709551616 := by
  intro h; unfold pvi; z64; exact gs_succ _ _ h
theorem pvi_ext (a b : ℤ → IMono) (x : ℤ) (n : ℤ) : (∀ t : ℤ, 0 ≤ t → t < n → a t = b t) → pvi a x n = pvi b x n :=
  fun h => congrArg iv (gs_ext _ _ _ (fun t p q => by rw [h t p q]))
theorem pvi_push (a x) (n k : ℤ) (mo : IMono) : k ≥ n → pvi (Function.update a k mo) x n = pvi a x n := by
  intro h; unfold pvi; apply congrArg iv; rw [updc (fun m => tmi m x)]; exact gs_push _ _ _ _ h
theorem pvi_upd (a x) (n k : ℤ) (mo : IMono) : 0 ≤ k → k < n →
    pvi (Function.update a k mo) x n = (pvi a x n + mulm mo.1.1 (powm x mo.2.1) - mulm (a k).1.1 (powm x (a k).2.1)) % 18446744073709551616 := by
  intro h0 h1; unfold pvi; z64; rw [updc (fun m => tmi m x)]; exact gs_upd _ _ _ _ h0 h1
theorem pvi_erase (a b : ℤ → IMono) (x : ℤ) (n k : ℤ) : 0 ≤ k → k ≤ n → (∀ t : ℤ, 0 ≤ t → t < k → b t = a t) →
    (∀ t : ℤ, k ≤ t → t < n → b t = a (t + 1)) →
    pvi b x n = (pvi a x (n + 1) - mulm (a k).1.1 (powm x (a k).2.1)) % 18446744073709551616 := by
  intro h0 h1 h2 h3; unfold pvi; z64
  exact gs_erase (fun t => tmi (a t) x) _ n k h0 h1 (fun t p q => by rw [h2 t p q]) (fun t p q => by rw [h3 t p q])
theorem pvi_perm (a b : ℤ → IMono) (p q : ℤ → ℤ) (x : ℤ) (n : ℤ) :
    (∀ t : ℤ, 0 ≤ t → t < n → (0 ≤ p t ∧ p t < n ∧ q (p t) = t ∧ b t = a (p t))) →
    (∀ t : ℤ, 0 ≤ t → t < n → (0 ≤ q t ∧ q t < n ∧ p (q t) = t)) → pvi b x n = pvi a x n := by
  intro h1 h2; unfold pvi; apply congrArg iv
  refine gs_perm _ _ p q n (fun t u v => ?_) h2
  obtain ⟨e1, e2, e3, e4⟩ := h1 t u v
  exact ⟨e1, e2, e3, by rw [e4]⟩
theorem muli_def (x y : ℤ) : mulm x y = (x * y) % 18446744073709551616 := by rw [emod_iv]; unfold mulm; push_cast; rfl
theorem muli_dist (x y z : ℤ) : mulm ((x + y) % 18446744073709551616) z = (mulm x z + mulm y z) % 18446744073709551616 := by
  rw [emod_iv (mulm x z + mulm y z), emod_iv (x + y)]; unfold mulm; apply congrArg iv; push_cast [iv_cast]; ring
theorem muli_distr (x y z : ℤ) : mulm z ((x + y) % 18446744073709551616) = (mulm z x + mulm z y) % 18446744073709551616 := by
  rw [emod_iv (mulm z x + mulm z y), emod_iv (x + y)]; unfold mulm; apply congrArg iv; push_cast [iv_cast]; ring
theorem muli_zero (x : ℤ) : mulm 0 x = 0 ∧ mulm x 0 = 0 := by unfold mulm; simp [iv]
theorem muli_one (x : ℤ) : mulm 1 x = x % 18446744073709551616 ∧ mulm x 1 = x % 18446744073709551616 := by
  constructor <;> (rw [emod_iv]; unfold mulm; apply congrArg iv; push_cast; ring)
theorem muli_neg (x : ℤ) : mulm 18446744073709551615 x = (-x) % 18446744073709551616 := by
  rw [emod_iv]; unfold mulm; apply congrArg iv
  have : ((18446744073709551615 : ℤ) : Z64) = -1 := by rfl
  rw [this]; push_cast; ring
theorem muli_mod (x y : ℤ) : mulm (x % 18446744073709551616) y = mulm x y := by
  rw [emod_iv]; unfold mulm; rw [iv_cast]
theorem muli_assoc (x y z : ℤ) : mulm (mulm x y) z = mulm y (mulm x z) := by
  unfold mulm; apply congrArg iv; simp only [iv_cast]; ring
theorem muli_four (x y z w : ℤ) : mulm (mulm x y) (mulm z w) = mulm (mulm x z) (mulm y w) := by
  unfold mulm; apply congrArg iv; simp only [iv_cast]; ring
theorem muli_comm (x y : ℤ) : mulm x y = mulm y x := by unfold mulm; rw [mul_comm]
theorem powi_zero (x : ℤ) : powm x 0 = 1 := by simp [powm, iv, ZMod.val_one'']
theorem powi_one (x : ℤ) : powm x 1 = x % 18446744073709551616 := by rw [emod_iv]; simp [powm]
theorem powi_add (x : ℤ) (m n : ℤ) : m ≥ 0 → n ≥ 0 → powm x (m + n) = mulm (powm x m) (powm x n) := by
  intro ha hb; unfold powm mulm; apply congrArg iv; rw [iv_cast, iv_cast, Int.toNat_add ha hb, pow_add]
theorem sufi_top (a : ℤ → IMono) (y : ℤ) (n : ℤ) : n ≥ 1 → (∀ t u : ℤ, 0 ≤ t → t < u → u < n → (a t).2.1 < (a u).2.1) →
    sufi a y (a (n - 1)).2.1 n = (a (n - 1)).1.1 % 18446744073709551616 := by
  intro h i; rw [emod_iv]; exact congrArg iv (gsuf_top _ (fun t => (a t).2.1) (y : Z64) n h i)
theorem sufi_miss (a : ℤ → IMono) (y : ℤ) (k n : ℤ) : (∀ t : ℤ, 0 ≤ t → t < n → (a t).2.1 ≠ k) →
    sufi a y k n = mulm (sufi a y (k + 1) n) y := by
  intro h; unfold sufi mulm; apply congrArg iv; rw [iv_cast]; exact gsuf_miss _ _ _ k n h
theorem sufi_hit (a : ℤ → IMono) (y : ℤ) (k n s : ℤ) : 0 ≤ s → s < n → (a s).2.1 = k →
    (∀ t u : ℤ, 0 ≤ t → t < u → u < n → (a t).2.1 < (a u).2.1) →
    sufi a y k n = (mulm (sufi a y (k + 1) n) y + (a s).1.1) % 18446744073709551616 := by
  intro h0 h1 h2 i; rw [emod_iv]; unfold sufi mulm; apply congrArg iv; push_cast [iv_cast]
  exact gsuf_hit (fun t => (((a t).1.1 : ℤ) : Z64)) (fun t => (a t).2.1) (y : Z64) k n s h0 h1 h2 i
theorem sufi_zero (a : ℤ → IMono) (y : ℤ) (n : ℤ) : (∀ t : ℤ, 0 ≤ t → t < n → 0 ≤ (a t).2.1) →
    sufi a y 0 n = pvi a y n := fun h => congrArg iv (gsuf_zero _ _ _ n h)
theorem pvdi_zero (c x) : pvdi c x 0 = 0 := by unfold pvdi; rw [gs_zero]; simp [iv]
theorem pvdi_succ (c : ℤ → ℤ) (x : ℤ) (n : ℤ) : n ≥ 0 →
    pvdi c x (n + 1) = (pvdi c x n + mulm (c n) (powm x n)) % 18446744073709551616 := by
  intro h; unfold pvdi; z64; exact gs_succ _ _ h

-- ------------------------------------------------------------- Chebyshev bases
theorem sumt_sub (c d e : ℤ → ℝ) (x : ℝ) (n m : ℤ) : 0 ≤ m → m ≤ n →
    (∀ t : ℤ, 0 ≤ t → t < n → e t = c t - (if t < m then d t else 0)) → sumt e x 0 n = sumt c x 0 n - sumt d x 0 m := by
  intro h0 h1 h
  have hd : sumt d x 0 m = sumt (fun t => if t < m then d t else 0) x 0 n := by
    unfold sumt
    obtain ⟨p, rfl⟩ := Int.eq_ofNat_of_zero_le h0
    obtain ⟨q, rfl⟩ := Int.eq_ofNat_of_zero_le (le_trans h0 h1)
    simp only [Int.toNat_natCast, abs_nonneg, if_true]
    have hpq : p ≤ q := by omega
    rw [← Finset.sum_range_add_sum_Ico _ hpq]
    rw [Finset.sum_eq_zero (s := Finset.Ico p q)]
    · rw [add_zero]; apply Finset.sum_congr rfl; intro t ht; rw [Finset.mem_range] at ht; rw [if_pos (by omega)]
    · intro t ht; rw [Finset.mem_Ico] at ht; rw [if_neg (by omega)]; ring
  rw [hd]; unfold sumt
  rw [← Finset.sum_sub_distrib]
  apply Finset.sum_congr rfl; intro t ht; rw [Finset.mem_range] at ht
  simp only [abs_nonneg, if_true]
  rw [h t (by omega) (by omega)]; ring

theorem ch_rec (n : ℤ) (x : ℝ) : ch (n + 1) x = 2 * x * ch n x - ch (n - 1) x := by
  unfold ch
  have := Polynomial.Chebyshev.T_add_two ℝ (n - 1)
  rw [show n - 1 + 2 = n + 1 by ring, show n - 1 + 1 = n by ring] at this
  rw [this]; simp
theorem ch_negone (x : ℝ) : ch (-1) x = x := by unfold ch; simp
theorem ch_z (x : ℝ) : ch 0 x = 1 := by unfold ch; simp
theorem ch_o (x : ℝ) : ch 1 x = x := by unfold ch; simp

def clg (c : ℤ → ℝ) (y : ℝ) (n : ℤ) : ℕ → ℝ
  | 0 => 0
  | 1 => 0
  | (j + 2) => c (n - j) + 2 * y * clg c y n (j + 1) - clg c y n j
/-- Clenshaw's d_k for coefficients c_0 .. c_n at y -/
def cld (c : ℤ → ℝ) (y : ℝ) (n k : ℤ) : ℝ := clg c y n (n + 2 - k).toNat
theorem cld_out (c : ℤ → ℝ) (y : ℝ) (n : ℤ) : cld c y n (n + 1) = 0 ∧ cld c y n (n + 2) = 0 := by
  unfold cld; constructor
  · rw [show (n + 2 - (n + 1)).toNat = 1 by omega]; rfl
  · rw [show (n + 2 - (n + 2)).toNat = 0 by omega]; rfl
theorem cld_step (c : ℤ → ℝ) (y : ℝ) (n k : ℤ) : k ≤ n →
    cld c y n k = c k + rm (rm 2 y) (cld c y n (k + 1)) - cld c y n (k + 2) := by
  intro h; unfold cld rm
  obtain ⟨j, hj⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ n - k by omega)
  rw [show (n + 2 - k).toNat = j + 2 by omega, show (n + 2 - (k + 1)).toNat = j + 1 by omega,
    show (n + 2 - (k + 2)).toNat = j by omega]
  rw [clg, show n - (j : ℤ) = k by omega]
theorem clg_sum (c : ℤ → ℝ) (y : ℝ) (n : ℤ) (j : ℕ) :
    ∑ t ∈ Finset.range j, c (n + 1 - j + t) * ch (n + 1 - j + t) y =
      clg c y n (j + 1) * ch (n + 1 - j) y - clg c y n j * ch (n - j) y := by
  induction j with
  | zero => simp [clg]
  | succ j ih =>
    rw [Finset.sum_range_succ']
    have e : ∀ t : ℕ, n + 1 - ((j + 1 : ℕ) : ℤ) + ((t + 1 : ℕ) : ℤ) = n + 1 - j + t := by intro t; push_cast; ring
    simp only [e]
    rw [ih]
    have r := ch_rec (n - j) y
    rw [show n - (j : ℤ) + 1 = n + 1 - j by ring] at r
    rw [r, clg]
    push_cast
    rw [show n + 1 - ((j : ℤ) + 1) + 0 = n - j by ring, show n + 1 - ((j : ℤ) + 1) = n - j by ring,
      show n - ((j : ℤ) + 1) = n - j - 1 by ring]
    ring
theorem clenshaw (c : ℤ → ℝ) (y : ℝ) (n : ℤ) : n ≥ 0 →
    2 * sumt c y 0 (n + 1) = c 0 + cld c y n 0 - cld c y n 2 := by
  intro h
  have s := clg_sum c y n (n + 1).toNat
  have hc : (((n + 1).toNat : ℕ) : ℤ) = n + 1 := Int.toNat_of_nonneg (by omega)
  rw [hc] at s
  have l : sumt c y 0 (n + 1) = clg c y n ((n + 1).toNat + 1) * ch 0 y - clg c y n (n + 1).toNat * ch (-1) y := by
    rw [show n + 1 - (n + 1) = 0 by ring, show n - (n + 1) = -1 by ring] at s
    rw [← s]; unfold sumt; apply Finset.sum_congr rfl; intro t _
    simp
  have st := cld_step c y n 0 h
  unfold rm at st
  rw [l, ch_z, ch_negone]
  have e0 : cld c y n 0 = clg c y n ((n + 1).toNat + 1) := by unfold cld; congr 1; omega
  have e1 : cld c y n (0 + 1) = clg c y n (n + 1).toNat := by unfold cld; congr 1; omega
  rw [e1] at st
  rw [← e0]; rw [zero_add] at st; linarith

/-- one Clenshaw step on Chebyshev coefficients: multiplication by 2 (a x + b) -/
theorem cheb_lin (d e : ℤ → ℝ) (a b x : ℝ) (L : ℤ) : L ≥ 1 →
    e 0 = rm a (if 1 < L then d 1 else 0) + rm (rm b (d 0)) 2 →
    e 1 = rm a (rm (d 0) 2 + (if 2 < L then d 2 else 0)) + rm (rm b (if 1 < L then d 1 else 0)) 2 →
    (∀ m : ℤ, 2 ≤ m → m ≤ L → e m = rm a ((if m - 1 < L then d (m - 1) else 0) + (if m + 1 < L then d (m + 1) else 0)) +
      rm (rm b (if m < L then d m else 0)) 2) →
    sumt e x 0 (L + 1) = rm (rm 2 (rm a x + b)) (sumt d x 0 L) := by
  intro hL h0 h1 hm
  unfold rm at *
  set z : ℤ → ℝ := fun m => if m < L then d m else 0 with hz
  obtain ⟨l, rfl⟩ := Int.eq_ofNat_of_zero_le (show 0 ≤ L by omega)
  have hl : 1 ≤ l := by omega
  -- e in terms of z
  have E : ∀ m : ℕ, m ≤ l → e m = a * ((if m = 0 then 0 else z (m - 1)) + z (m + 1) + (if m = 1 then z 0 else 0)) + 2 * b * z m := by
    intro m hml
    have z0 : z 0 = d 0 := by simp [hz]; omega
    rcases m with _ | _ | m
    · simp only [Nat.cast_zero]; rw [h0]; simp only [hz]; simp; split_ifs <;> first | (exfalso; omega) | ring
    · simp only [Nat.cast_one, zero_add]; rw [h1]; simp only [hz]; norm_num; split_ifs <;> first | (exfalso; omega) | ring
    · push_cast
      rw [hm (m + 1 + 1) (by omega) (by push_cast at hml; omega)]
      simp only [hz]; norm_num; ring
  have S1 : sumt e x 0 (l + 1) = ∑ m ∈ Finset.range (l + 1), e m * ch m x := by
    unfold sumt; rw [show ((l : ℤ) + 1).toNat = l + 1 by omega]; apply Finset.sum_congr rfl; intro t _; simp
  have S2 : sumt d x 0 l = ∑ m ∈ Finset.range l, z m * ch m x := by
    unfold sumt; rw [Int.toNat_natCast]; apply Finset.sum_congr rfl; intro t ht
    rw [Finset.mem_range] at ht; simp [hz, ht]
  rw [S1, S2]
  have zl : ∀ m : ℕ, l ≤ m → z m = 0 := by intro m h; simp [hz]; omega
  have R : ∑ m ∈ Finset.range (l + 1), e m * ch m x = ∑ m ∈ Finset.range (l + 1),
      (a * ((if m = 0 then 0 else z (m - 1)) * ch m x) + a * (z (m + 1) * ch m x) + a * ((if m = 1 then z 0 else 0) * ch m x)
        + 2 * b * (z m * ch m x)) := by
    apply Finset.sum_congr rfl; intro m hmr; rw [Finset.mem_range] at hmr
    rw [E m (by omega)]; ring
  rw [R]; simp only [Finset.sum_add_distrib, ← Finset.mul_sum]
  have A : ∑ m ∈ Finset.range (l + 1), (if m = 0 then 0 else z (m - 1)) * ch m x = ∑ m ∈ Finset.range l, z m * ch (m + 1) x := by
    rw [Finset.sum_range_succ']; simp
  have B : ∑ m ∈ Finset.range (l + 1), z (m + 1) * ch m x = ∑ m ∈ Finset.range l, z m * ch (m - 1) x - z 0 * ch (-1) x := by
    have e1 := Finset.sum_range_succ' (fun m : ℕ => z m * ch (m - 1) x) (l + 1)
    have e2 := Finset.sum_range_succ (fun m : ℕ => z m * ch (m - 1) x) (l + 1)
    have e3 := Finset.sum_range_succ (fun m : ℕ => z m * ch (m - 1) x) l
    rw [zl (l + 1) (by omega)] at e2
    rw [zl l le_rfl] at e3
    have e4 : ∑ m ∈ Finset.range (l + 1), z (m + 1) * ch m x =
        ∑ k ∈ Finset.range (l + 1), (fun m : ℕ => z m * ch (m - 1) x) (k + 1) := by
      apply Finset.sum_congr rfl; intro m _; push_cast; rw [show (m : ℤ) + 1 - 1 = m by ring]
    rw [e4]; simp only [Nat.cast_zero, zero_sub] at e1; linarith
  have Cc : ∑ m ∈ Finset.range (l + 1), (if m = 1 then z 0 else 0) * ch m x = z 0 * ch 1 x := by
    rw [Finset.sum_eq_single 1]
    · simp
    · intro b _ hb; simp [hb]
    · intro h; exfalso; apply h; rw [Finset.mem_range]; omega
  have Dd : ∑ m ∈ Finset.range (l + 1), z m * ch m x = ∑ m ∈ Finset.range l, z m * ch m x := by
    rw [Finset.sum_range_succ, zl l le_rfl]; ring
  rw [A, B, Cc, Dd, ch_negone, ch_o]
  have F : ∑ m ∈ Finset.range l, z m * ch (m + 1) x + ∑ m ∈ Finset.range l, z m * ch (m - 1) x =
      2 * x * ∑ m ∈ Finset.range l, z m * ch m x := by
    rw [← Finset.sum_add_distrib, Finset.mul_sum]; apply Finset.sum_congr rfl; intro m _
    rw [ch_rec]; ring
  linear_combination a * F

/-- strictly increasing non-negative integers below B are at most B many -/
theorem incr_len (e : ℤ → ℤ) (n B : ℤ) (h0 : 0 ≤ B) (hb : ∀ t : ℤ, 0 ≤ t → t < n → 0 ≤ e t ∧ e t < B)
    (inc : ∀ t u : ℤ, 0 ≤ t → t < u → u < n → e t < e u) : n ≤ B := by
  by_contra hc
  have key : ∀ t : ℕ, (t : ℤ) < n → (t : ℤ) ≤ e t := by
    intro t
    induction t with
    | zero => intro h; exact (hb 0 le_rfl (by simpa using h)).1
    | succ t ih =>
      intro h; push_cast at h ⊢
      have := ih (by omega); have := inc t (t + 1) (by omega) (by omega) h; omega
  have := key B.toNat (by omega)
  have h2 := (hb B h0 (by omega)).2
  rw [Int.toNat_of_nonneg h0] at this; omega
theorem incf_len (a : ℤ → FMono) (n B : ℤ) : 0 ≤ B → (∀ t : ℤ, 0 ≤ t → t < n → (0 ≤ (a t).2.1 ∧ (a t).2.1 < B)) →
    (∀ t u : ℤ, 0 ≤ t → t < u → u < n → (a t).2.1 < (a u).2.1) → n ≤ B := fun h0 h1 h2 => incr_len (fun t => (a t).2.1) n B h0 h1 h2
theorem inci_len (a : ℤ → IMono) (n B : ℤ) : 0 ≤ B → (∀ t : ℤ, 0 ≤ t → t < n → (0 ≤ (a t).2.1 ∧ (a t).2.1 < B)) →
    (∀ t u : ℤ, 0 ≤ t → t < u → u < n → (a t).2.1 < (a u).2.1) → n ≤ B := fun h0 h1 h2 => incr_len (fun t => (a t).2.1) n B h0 h1 h2

theorem pvf_one (a x) : (a 0).2.1 = 0 → pvf a x 1 = (a 0).1 := by
  intro h; have := pvf_succ a x 0 le_rfl
  rw [pvf_zero, h, zero_add, zero_add] at this; rw [this]; simp [rm, rp]
theorem pvi_one (a x) : (a 0).2.1 = 0 → pvi a x 1 = (a 0).1.1 % 18446744073709551616 := by
  intro h; have := pvi_succ a x 0 le_rfl
  rw [pvi_zero, h, zero_add, zero_add, powi_zero, (muli_one _).2] at this
  rw [this]; simp
theorem ch_step (n : ℤ) (x : ℝ) : ch (n + 1) x = rm 2 (rm (rp x 1) (ch n x)) - ch (n - 1) x := by
  rw [ch_rec]; simp [rm, rp]; ring
theorem sumt_nsucc (c : ℤ → ℝ) (x : ℝ) (n : ℤ) : n ≥ 0 → sumt c x 0 (n + 1) = sumt c x 0 n + rm (c n) (ch n x) := by
  intro h; unfold sumt rm
  obtain ⟨m, rfl⟩ := Int.eq_ofNat_of_zero_le h
  rw [show ((m : ℤ) + 1).toNat = m + 1 by omega, Finset.sum_range_succ]; simp
theorem sumt_half (c d e : ℤ → ℝ) (x : ℝ) (n m : ℤ) : 0 ≤ m → m ≤ n →
    (∀ t : ℤ, 0 ≤ t → t < n → e t = rm (c t - (if t < m then d t else 0)) (1 / 2)) →
    sumt e x 0 n = (sumt c x 0 n - sumt d x 0 m) / 2 := by
  intro h0 h1 h
  have s := sumt_sub c d (fun t => c t - (if t < m then d t else 0)) x n m h0 h1 (fun t _ _ => rfl)
  rw [← s]; unfold sumt; rw [Finset.sum_div]
  apply Finset.sum_congr rfl; intro t ht; rw [Finset.mem_range] at ht
  simp only [abs_nonneg, if_true]
  rw [h t (by omega) (by omega)]; unfold rm; ring
theorem pvdf_one (c : ℤ → ℝ) (x : ℝ) : pvdf c x 1 = c 0 := by
  have := gs_succ (fun t => c t * x ^ t.toNat) 0 le_rfl
  rw [gs_zero] at this; unfold pvdf; simpa using this
theorem pvdf_two (c : ℤ → ℝ) (x : ℝ) : c 1 = 1 → pvdf c x 2 = c 0 + x := by
  intro h
  have h1 := gs_succ (fun t => c t * x ^ t.toNat) 1 (by norm_num)
  have h0 := pvdf_one c x
  unfold pvdf at *; norm_num at h1; rw [h1, h0, h]; ring
theorem rm_half (x : ℝ) : rm x (1 / 2) = x / 2 := by unfold rm; ring
theorem mul_nonneg_int (m n : ℤ) : m ≥ 0 → n ≥ 0 → m * n ≥ 0 := fun a b => mul_nonneg a b

end DV
