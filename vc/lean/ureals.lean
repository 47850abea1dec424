import Mathlib
namespace UC
open Matrix
/-- Variables whose coefficients are the rows of P^T L sqrt(D) have the covariance matrix they were built from. -/
theorem t_ureals {n : ℕ} (L V : Matrix (Fin n) (Fin n) ℝ) (d : Fin n → ℝ) (s : Equiv.Perm (Fin n))
    (hd : ∀ k, 0 ≤ d k) (h : (L * diagonal d * Lᵀ).submatrix s s = V) (i j : Fin n) :
    ∑ k, (L (s i) k * Real.sqrt (d k)) * (L (s j) k * Real.sqrt (d k)) = V i j := by
  rw [← h, submatrix_apply, mul_apply]
  apply Finset.sum_congr rfl
  intro k _
  rw [mul_diagonal, transpose_apply]
  have := Real.mul_self_sqrt (hd k)
  linear_combination L (s i) k * L (s j) k * this
/-- The product of transpositions stays in range and is a permutation. -/
theorem t_transpositions {n : ℕ} (ts : List (Fin n × Fin n)) : ∃ s : Equiv.Perm (Fin n), ∀ i, s i = ts.foldl (fun k t => Equiv.swap t.1 t.2 k) i := by
  induction ts with
  | nil => exact ⟨1, fun i => rfl⟩
  | cons t ts ih =>
    obtain ⟨s, hs⟩ := ih
    exact ⟨s * Equiv.swap t.1 t.2, fun i => by rw [List.foldl_cons, ← hs]; rfl⟩
end UC
