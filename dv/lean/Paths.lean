import Mathlib
namespace DV
open Finset

def plen (P : ℤ → ℤ) (W : ℤ → ℤ → ℤ) (n : ℤ) : ℤ := ∑ i ∈ range n.toNat, W (P i) (P ((i : ℤ) + 1))

/-- a walk of n edges from s to t -/
def walk (O : ℤ → ℤ → Prop) (s t : ℤ) (P : ℤ → ℤ) (n : ℤ) : Prop :=
  0 ≤ n ∧ P 0 = s ∧ P n = t ∧ ∀ i : ℤ, 0 ≤ i → i < n → O (P i) (P (i + 1))

open Classical in
/-- the least length of a walk from s to t that is below M, and M when there is none -/
noncomputable def spl (O : ℤ → ℤ → Prop) (W : ℤ → ℤ → ℤ) (M s t : ℤ) : ℤ :=
  if ∃ P n, walk O s t P n ∧ plen P W n < M then ((sInf {k : ℕ | ∃ P n, walk O s t P n ∧ plen P W n = k} : ℕ) : ℤ) else M

theorem plen_succ (P : ℤ → ℤ) (W : ℤ → ℤ → ℤ) (k : ℕ) : plen P W ((k : ℤ) + 1) = plen P W k + W (P k) (P ((k : ℤ) + 1)) := by
  unfold plen
  have : ((k : ℤ) + 1).toNat = k + 1 := by omega
  rw [this, Finset.sum_range_succ]; simp

theorem plen_nonneg (P : ℤ → ℤ) (W : ℤ → ℤ → ℤ) (n : ℤ) (h : ∀ a b, W a b ≥ 0) : 0 ≤ plen P W n :=
  Finset.sum_nonneg (fun _ _ => h _ _)

theorem walk_ge (O : ℤ → ℤ → Prop) (W : ℤ → ℤ → ℤ) (F : ℤ → ℤ) (M s t : ℤ) (P : ℤ → ℤ) (n : ℤ) (hW : ∀ a b, W a b ≥ 0) (h0 : F s = 0)
    (hr : ∀ a b, O a b → F a < M → W a b < M - F a → F b ≤ F a + W a b) (hw : walk O s t P n) (hl : plen P W n < M) : F t ≤ plen P W n := by
  obtain ⟨hn, hs, ht, ho⟩ := hw
  have key : ∀ k : ℕ, (k : ℤ) ≤ n → plen P W k < M → F (P k) ≤ plen P W k := by
    intro k
    induction k with
    | zero => intro _ _; simp [plen, hs, h0]
    | succ k ih =>
      intro h1 h2
      push_cast at h1 h2 ⊢
      rw [plen_succ] at h2 ⊢
      have w0 := hW (P k) (P ((k : ℤ) + 1))
      have i1 := ih (by omega) (by omega)
      have i2 := hr _ _ (ho k (by omega) (by omega)) (by omega) (by omega)
      omega
  have e : ((n.toNat : ℕ) : ℤ) = n := by omega
  have := key n.toNat (by omega) (by rw [e]; exact hl)
  rw [e, ht] at this
  exact this

theorem tight_le (W : ℤ → ℤ → ℤ) (F : ℤ → ℤ) (P : ℤ → ℤ) (n : ℤ)
    (ht : ∀ i : ℤ, 0 ≤ i → i < n → F (P i) + W (P i) (P (i + 1)) ≤ F (P (i + 1))) (hn : 0 ≤ n) : plen P W n ≤ F (P n) - F (P 0) := by
  have key : ∀ k : ℕ, (k : ℤ) ≤ n → plen P W k ≤ F (P k) - F (P 0) := by
    intro k
    induction k with
    | zero => intro _; simp [plen]
    | succ k ih =>
      intro h1
      push_cast at h1 ⊢
      rw [plen_succ]
      have i1 := ih (by omega)
      have i2 := ht k (by omega) (by omega)
      omega
  have e : ((n.toNat : ℕ) : ℤ) = n := by omega
  have := key n.toNat (by omega)
  rw [e] at this
  exact this

theorem spl_none (O : ℤ → ℤ → Prop) (W : ℤ → ℤ → ℤ) (F : ℤ → ℤ) (M s t : ℤ) :
    (∀ a b, W a b ≥ 0) → F s = 0 → (∀ a b, O a b → F a < M → W a b < M - F a → F b ≤ F a + W a b) → F t = M → spl O W M s t = M := by
  intro hW h0 hr ht
  unfold spl
  rw [if_neg]
  rintro ⟨P, n, hw, hl⟩
  have := walk_ge O W F M s t P n hW h0 hr hw hl
  omega

theorem spl_some (O : ℤ → ℤ → Prop) (W : ℤ → ℤ → ℤ) (F : ℤ → ℤ) (M s t : ℤ) (P : ℤ → ℤ) (n : ℤ) :
    (∀ a b, W a b ≥ 0) → F s = 0 → (∀ a b, O a b → F a < M → W a b < M - F a → F b ≤ F a + W a b) → F t < M → n ≥ 0 → P 0 = s → P n = t →
    (∀ i : ℤ, 0 ≤ i → i < n → O (P i) (P (i + 1))) → (∀ i : ℤ, 0 ≤ i → i < n → F (P i) + W (P i) (P (i + 1)) ≤ F (P (i + 1))) →
    (plen P W n = spl O W M s t ∧ spl O W M s t < M) := by
  intro hW h0 hr ht hn hs hP ho hti
  have hw : walk O s t P n := ⟨hn, hs, hP, ho⟩
  have l1 := tight_le W F P n hti hn
  rw [hs, hP, h0] at l1
  have hl : plen P W n < M := by omega
  have l2 := walk_ge O W F M s t P n hW h0 hr hw hl
  have nn := plen_nonneg P W n hW
  have eq : spl O W M s t = plen P W n := by
    unfold spl
    rw [if_pos ⟨P, n, hw, hl⟩]
    set S := {k : ℕ | ∃ P n, walk O s t P n ∧ plen P W n = k}
    have hm : (plen P W n).toNat ∈ S := ⟨P, n, hw, by omega⟩
    have h1 : sInf S ≤ (plen P W n).toNat := Nat.sInf_le hm
    obtain ⟨Q, k, hq, hk⟩ := Nat.sInf_mem ⟨_, hm⟩
    have h2 := walk_ge O W F M s t Q k hW h0 hr hq (by omega)
    omega
  rw [eq]; exact ⟨rfl, hl⟩

end DV
