import Mathlib
namespace UC
noncomputable abbrev P10 (k : ℤ) : ℝ := (10 : ℝ) ^ k
theorem neg_iff (a b : ℝ) (h : 0 < b) : a * b < 0 ↔ a < 0 := by
  constructor
  · intro q
    by_contra r
    have := mul_nonneg (not_lt.mp r) h.le
    linarith
  · intro q
    exact mul_neg_of_neg_of_pos q h
noncomputable def lg (x : ℝ) : ℝ := Real.log x / Real.log 10

theorem t_pos (k : ℤ) : 0 < P10 k := zpow_pos (by norm_num) k
theorem t_zero : P10 0 = 1 := zpow_zero _
theorem t_add (i j : ℤ) : P10 (i + j) = P10 i * P10 j := zpow_add₀ (by norm_num) i j
theorem t_le (s t : ℤ) (h : s ≤ t) : P10 s ≤ P10 t := zpow_le_zpow_right₀ (by norm_num) h
theorem t_succ (s t : ℤ) (h : s = t + 1) : P10 s = 10 * P10 t := by
  rw [h, t_add]
  norm_num [P10]
  ring
theorem t_gap1 (s t : ℤ) (h : s + 1 ≤ t) : 10 * P10 s ≤ P10 t := by
  rw [← t_succ (s + 1) s rfl]
  exact t_le _ _ h
theorem t_gap2 (s t : ℤ) (h : s + 2 ≤ t) : 100 * P10 s ≤ P10 t := by
  have a := t_gap1 (s + 1) t (by omega)
  rw [t_succ (s + 1) s rfl] at a
  linarith
/-- 10^k is an integer for k >= 0, at least 1, and ten times the one before. -/
theorem t_integer (k : ℤ) (h : 0 ≤ k) : ∃ n : ℤ, P10 k = n ∧ n ≥ 1 := by
  obtain ⟨n, rfl⟩ := Int.eq_ofNat_of_zero_le h
  refine ⟨10 ^ n, by simp [P10], ?_⟩
  exact_mod_cast Nat.one_le_pow n 10 (by norm_num)
theorem t_integer_succ (k : ℤ) (_ : 1 ≤ k) (m n : ℤ) (hm : P10 k = m) (hn : P10 (k - 1) = n) : m = 10 * n := by
  have e := t_succ k (k - 1) (by ring)
  rw [hm, hn] at e
  exact_mod_cast e
/-- An integer is at most n - 1, equal to n, or at least n + 1. -/
theorem t_integer_gap (a k : ℤ) (h : 0 ≤ k) : ∃ n : ℤ, P10 k = n ∧
    ((a ≤ n - 1 ∧ (a : ℝ) ≤ P10 k - 1) ∨ (a = n ∧ (a : ℝ) = P10 k) ∨ (a ≥ n + 1 ∧ (a : ℝ) ≥ P10 k + 1)) := by
  obtain ⟨n, hn, _⟩ := t_integer k h
  refine ⟨n, hn, ?_⟩
  rw [hn]
  rcases lt_trichotomy a n with h1 | h1 | h1
  · left
    exact ⟨by omega, by exact_mod_cast (by omega : a ≤ n - 1)⟩
  · right; left
    exact ⟨h1, by rw [h1]⟩
  · right; right
    exact ⟨by omega, by exact_mod_cast (by omega : n + 1 ≤ a)⟩
/-- The terms S(i) = a 10^i: shifts, signs, comparisons. -/
theorem t_shift (a : ℝ) (i u : ℤ) : (a * P10 i) * P10 u = a * P10 (i + u) := by
  rw [t_add]
  ring
theorem t_sign (a : ℝ) (i j : ℤ) : (0 < a * P10 i ↔ 0 < a * P10 j) ∧ (a * P10 i < 0 ↔ a * P10 j < 0) := by
  have p := t_pos i
  have q := t_pos j
  constructor
  · rw [mul_pos_iff_of_pos_right p, mul_pos_iff_of_pos_right q]
  · rw [neg_iff _ _ p, neg_iff _ _ q]
theorem t_cmp_le (A : ℝ) (u : ℤ) : A ≤ 0 ↔ A * P10 u ≤ 0 := by
  have p := t_pos u
  constructor
  · intro h
    nlinarith
  · intro h
    by_contra q
    have := mul_pos (not_le.mp q) p
    linarith
theorem t_cmp_lt (A : ℝ) (u : ℤ) : A < 0 ↔ A * P10 u < 0 := (neg_iff A _ (t_pos u)).symm
theorem t_cmp_eq (A : ℝ) (u : ℤ) : A = 0 ↔ A * P10 u = 0 := by
  have p := (t_pos u).ne'
  constructor
  · intro h
    rw [h, zero_mul]
  · intro h
    exact (mul_eq_zero.mp h).resolve_right p
/-- log10 of positive numbers (exact logarithm): increasing, and k on the powers of ten. -/
theorem t_lg_lt (x : ℝ) (hx : 0 < x) (k : ℤ) : x < P10 k ↔ lg x < k := by
  have p : 0 < Real.log 10 := Real.log_pos (by norm_num)
  unfold lg
  rw [div_lt_iff₀ p, ← Real.log_zpow, Real.log_lt_log_iff hx (t_pos k)]
theorem t_lg_le (x : ℝ) (hx : 0 < x) (k : ℤ) : x ≤ P10 k ↔ lg x ≤ k := by
  have p : 0 < Real.log 10 := Real.log_pos (by norm_num)
  unfold lg
  rw [div_le_iff₀ p, ← Real.log_zpow, Real.log_le_log_iff hx (t_pos k)]
theorem t_lg_mono (x y : ℝ) (hx : 0 < x) (hy : 0 < y) : x < y ↔ lg x < lg y := by
  have p : 0 < Real.log 10 := Real.log_pos (by norm_num)
  unfold lg
  rw [div_lt_div_iff_of_pos_right p, Real.log_lt_log_iff hx hy]
end UC
