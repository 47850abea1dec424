import Mathlib
namespace UC
/-- The specified covariance: E is a linear functional with E 1 = 1 on the algebra of the functions of the independent variables. -/
def cov {A : Type} [CommRing A] [Algebra ℝ A] (E : A →ₗ[ℝ] ℝ) (x y : A) : ℝ := E (x * y) - E x * E y

theorem t_cov_symmetric {A : Type} [CommRing A] [Algebra ℝ A] (E : A →ₗ[ℝ] ℝ) (x y : A) : cov E x y = cov E y x := by
  unfold cov
  rw [mul_comm x y]
  ring

theorem t_cov_bilinear {A : Type} [CommRing A] [Algebra ℝ A] (E : A →ₗ[ℝ] ℝ) (a b : ℝ) (x y z : A) :
    cov E (a • x + b • y) z = a * cov E x z + b * cov E y z := by
  unfold cov
  simp only [add_mul, smul_mul_assoc, map_add, map_smul, smul_eq_mul]
  ring

theorem t_cov_constant {A : Type} [CommRing A] [Algebra ℝ A] (E : A →ₗ[ℝ] ℝ) (h1 : E 1 = 1) (c : ℝ) (x : A) :
    cov E (x + algebraMap ℝ A c) x = cov E x x := by
  unfold cov
  rw [Algebra.algebraMap_eq_smul_one]
  simp only [add_mul, smul_mul_assoc, one_mul, map_add, map_smul, smul_eq_mul, h1]
  ring

/-- Functions of disjoint sets of independent variables: expectation factorises, the covariance is zero. -/
theorem t_cov_independent {A : Type} [CommRing A] [Algebra ℝ A] (E : A →ₗ[ℝ] ℝ) (x y : A) (h : E (x * y) = E x * E y) : cov E x y = 0 := by
  unfold cov
  rw [h]
  ring

/-- First order: the covariance of the linear parts is positive semidefinite, and bounded by the variances. -/
theorem t_cov_first_order (D : Finset ℤ) (f g : ℤ → ℝ) :
    (∑ i ∈ D, f i * g i) ^ 2 ≤ (∑ i ∈ D, f i * f i) * ∑ i ∈ D, g i * g i := by
  have := Finset.sum_mul_sq_le_sq_mul_sq D f g
  simpa [pow_two] using this
end UC
