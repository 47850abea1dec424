import Mathlib
namespace UC
open Finset

/-- A sum over the b-tuples of elements of D is a sum, over the subsets S of D with at most b elements, of a number that
depends on S and on the data of its elements alone: the tuples whose set of elements is S. -/
theorem t_tuples_by_support (b : ℕ) (D : Finset ℤ) (p : (Fin b → ℤ) → ℝ) :
    ∑ t ∈ Fintype.piFinset (fun _ : Fin b => D), p t
      = ∑ S ∈ D.powerset.filter (fun S => S.card ≤ b), ∑ t ∈ (Fintype.piFinset (fun _ : Fin b => S)).filter (fun t => univ.image t = S), p t := by
  have hm : ∀ t ∈ Fintype.piFinset (fun _ : Fin b => D), univ.image t ∈ D.powerset.filter (fun S => S.card ≤ b) := by
    intro t ht
    rw [mem_filter, mem_powerset]
    constructor
    · intro x hx
      obtain ⟨i, _, rfl⟩ := mem_image.mp hx
      exact (Fintype.mem_piFinset.mp ht) i
    · exact le_trans card_image_le (by simp)
  rw [← sum_fiberwise_of_maps_to hm]
  apply sum_congr rfl
  intro S hS
  have hSD : S ⊆ D := mem_powerset.mp (mem_filter.mp hS).1
  apply sum_congr _ (fun _ _ => rfl)
  ext t
  simp only [mem_filter, Fintype.mem_piFinset]
  constructor
  · rintro ⟨_, h⟩
    refine ⟨fun i => ?_, h⟩
    rw [← h]
    exact mem_image_of_mem _ (mem_univ i)
  · rintro ⟨h1, h2⟩
    exact ⟨fun i => hSD (h1 i), h2⟩

/-- Inclusion-exclusion: two such sums that agree on every set of at most b identities agree on every set. -/
theorem t_small_sets_decide (b : ℕ) (f g : Finset ℤ → ℝ)
    (h : ∀ D : Finset ℤ, D.card ≤ b →
      ∑ S ∈ D.powerset.filter (fun S => S.card ≤ b), f S = ∑ S ∈ D.powerset.filter (fun S => S.card ≤ b), g S) :
    ∀ D : Finset ℤ, ∑ S ∈ D.powerset.filter (fun S => S.card ≤ b), f S = ∑ S ∈ D.powerset.filter (fun S => S.card ≤ b), g S := by
  have key : ∀ n : ℕ, ∀ S : Finset ℤ, S.card = n → n ≤ b → f S = g S := by
    intro n
    induction n using Nat.strong_induction_on with
    | _ n ih =>
      intro S hS hn
      have e := h S (by omega)
      have hall : ∀ u : Finset ℤ → ℝ, ∑ T ∈ S.powerset.filter (fun T => T.card ≤ b), u T = u S + ∑ T ∈ S.powerset.erase S, u T := by
        intro u
        have : S.powerset.filter (fun T => T.card ≤ b) = S.powerset := by
          apply filter_true_of_mem
          intro T hT
          have := card_le_card (mem_powerset.mp hT)
          omega
        rw [this, add_sum_erase _ _ (mem_powerset_self S)]
      rw [hall f, hall g] at e
      have r : ∑ T ∈ S.powerset.erase S, f T = ∑ T ∈ S.powerset.erase S, g T := by
        apply sum_congr rfl
        intro T hT
        have h1 := mem_erase.mp hT
        have h2 : T ⊂ S := lt_of_le_of_ne (mem_powerset.mp h1.2) h1.1
        have h3 := card_lt_card h2
        exact ih T.card (by omega) T rfl (by omega)
      linarith
  intro D
  apply sum_congr rfl
  intro S hS
  exact key S.card S rfl (mem_filter.mp hS).2

/-- The two together: multiple sums over b identities are decided by the sets of at most b identities. -/
theorem t_sums_decided (b : ℕ) (p q : (Fin b → ℤ) → ℝ)
    (h : ∀ D : Finset ℤ, D.card ≤ b → ∑ t ∈ Fintype.piFinset (fun _ : Fin b => D), p t = ∑ t ∈ Fintype.piFinset (fun _ : Fin b => D), q t) :
    ∀ D : Finset ℤ, ∑ t ∈ Fintype.piFinset (fun _ : Fin b => D), p t = ∑ t ∈ Fintype.piFinset (fun _ : Fin b => D), q t := by
  intro D
  rw [t_tuples_by_support, t_tuples_by_support]
  refine t_small_sets_decide b _ _ (fun E hE => ?_) D
  rw [← t_tuples_by_support, ← t_tuples_by_support]
  exact h E hE
end UC
