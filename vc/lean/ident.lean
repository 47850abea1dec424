-- acos_m1
  exact Real.arccos_neg_one
-- atan2_0m1
  have : (⟨-1, 0⟩ : ℂ) = -1 := by apply Complex.ext <;> simp
  unfold UC.atan2
  rw [this, Complex.arg_neg_one]
-- ax_atan2_0
  have : (⟨-1, 0⟩ : ℂ) = -1 := by apply Complex.ext <;> simp
  unfold UC.atan2
  rw [this, Complex.arg_neg_one]
  exact Real.pi_gt_three
-- ax_atan2_1
  exact Real.pi_gt_three
-- ax_atan_1
  exact Real.pi_gt_three
-- ax_cbrt_1
  exact Real.pi_gt_three
-- ax_cosh_1
  exact Real.pi_gt_three
-- ax_exp2_1
  exact Real.pi_gt_three
-- ax_exp_1
  exact Real.pi_gt_three
-- ax_hypot_2
  exact Real.pi_gt_three
-- ax_log_10_1
  exact Real.pi_gt_three
-- ax_log_1_1
  exact Real.pi_gt_three
-- ax_log_2_1
  exact Real.pi_gt_three
-- ax_log_half_1
  exact Real.pi_gt_three
-- ax_pow_1
  exact Real.pi_gt_three
-- ax_sqrt_2
  exact Real.pi_gt_three
-- ax_atan_0
  rw [Real.arctan_one]
  exact div_pos Real.pi_pos (by norm_num)
-- ax_cbrt_0
  have := UC.cbrt_pow x
  linear_combination this
-- ax_cosh_0
  exact Real.one_le_cosh x
-- ax_exp2_0
  exact Real.rpow_pos_of_pos (by norm_num) x
-- ax_exp_0
  exact Real.exp_pos x
-- ax_hypot_0
  exact Real.sqrt_nonneg _
-- ax_hypot_1
  exact UC.hypot_sq x y
-- ax_log_10_0
  exact Real.log_pos (by norm_num)
-- ax_log_2_0
  exact Real.log_pos (by norm_num)
-- ax_log_1_0
  exact Real.log_one
-- one_log
  exact Real.log_one
-- ax_log_half_0
  exact Real.log_neg (by norm_num) (by norm_num)
-- ax_pow_0
  exact fun h => Real.rpow_pos_of_pos h y
-- ax_sqrt_0
  exact fun h => ⟨Real.sqrt_nonneg x, Real.mul_self_sqrt h⟩
-- ax_sqrt_1
  exact fun h => Real.sqrt_pos.mpr h
-- neg_asin
  rw [Real.arcsin_neg]
  ring
-- neg_asinh
  rw [Real.arsinh_neg]
  ring
-- neg_atan
  rw [Real.arctan_neg]
  ring
-- neg_sin
  rw [Real.sin_neg]
  ring
-- neg_sinh
  rw [Real.sinh_neg]
  ring
-- neg_tan
  rw [Real.tan_neg]
  ring
-- neg_tanh
  rw [Real.tanh_neg]
  ring
-- neg_atanh
  rw [Real.artanh_eq_half_log ⟨by linarith, by linarith⟩, Real.artanh_eq_half_log ⟨h0.le, h1.le⟩]
  rw [Real.log_div (by linarith) (by linarith), Real.log_div (by linarith) (by linarith)]
  rw [show 1 + -x = 1 - x by ring, show 1 - -x = 1 + x by ring]
  ring
-- neg_cos
  exact Real.cos_neg x
-- neg_cosh
  exact Real.cosh_neg x
-- neg_exp
  rw [Real.exp_neg, zpow_neg_one]
-- neg_cbrt
  rcases lt_trichotomy x 0 with h | h | h
  · unfold UC.cbrt
    rw [if_pos (by linarith), if_neg (by linarith)]
    ring
  · subst h
    simp [UC.cbrt]
  · unfold UC.cbrt
    rw [if_neg (by linarith), if_pos (by linarith), neg_neg]
    ring
-- neg_erf
  unfold UC.erf
  have e := intervalIntegral.integral_comp_neg (a := 0) (b := x) (fun t : ℝ => Real.exp (-(t * t)))
  simp only [neg_mul_neg, neg_zero] at e
  rw [e, intervalIntegral.integral_symm]
  ring
-- neg_round
  have h1 : (⌊x + 1 / 2⌋ : ℝ) < x + 1 / 2 := lt_of_le_of_ne (Int.floor_le _) (fun e => h0 ⟨_, e⟩)
  have h2 : x + 1 / 2 < ⌊x + 1 / 2⌋ + 1 := Int.lt_floor_add_one _
  have e : ⌊-x + 1 / 2⌋ = -⌊x + 1 / 2⌋ := Int.floor_eq_iff.mpr ⟨by push_cast; linarith, by push_cast; linarith⟩
  unfold UC.round
  rw [e]
  push_cast
  ring
-- neg_trunc
  unfold UC.trunc
  rcases lt_trichotomy x 0 with h | h | h
  · rw [if_pos (by linarith), if_neg (by linarith), Int.floor_neg]
    push_cast
    ring
  · subst h
    simp
  · rw [if_neg (by linarith), if_pos (by linarith), Int.ceil_neg]
    push_cast
    ring
-- pow_half
  rw [Real.sqrt_eq_rpow]
-- pow_int_0
  exact Real.rpow_zero x
-- pow_int_1
  exact Real.rpow_one x
-- pow_int_3
  exact_mod_cast Real.rpow_natCast x 3
-- pow_int_m1
  exact_mod_cast Real.rpow_intCast x (-1)
-- pow_int_m2
  exact_mod_cast Real.rpow_intCast x (-2)
-- rel_acos_0
  rw [Real.arccos]
  ring
-- rel_cbrt_0
  linear_combination UC.cbrt_pow x
-- rel_coshexp_0
  have ee : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
  rw [Real.cosh_eq]
  linear_combination ee
-- rel_sinhexp_0
  have ee : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
  rw [Real.cosh_eq]
  linear_combination ee
-- rel_tanhexp_2
  have ee : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
  rw [Real.cosh_eq]
  linear_combination ee
-- rel_coshexp_1
  have ee : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
  rw [Real.sinh_eq]
  linear_combination -ee
-- rel_sinhexp_1
  have ee : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
  rw [Real.sinh_eq]
  linear_combination -ee
-- rel_tanhexp_3
  have ee : Real.exp x * Real.exp (-x) = 1 := by rw [← Real.exp_add]; simp
  rw [Real.sinh_eq]
  linear_combination -ee
-- rel_coshexp_2
  linear_combination Real.cosh_sq x
-- rel_sinhexp_2
  linear_combination Real.cosh_sq x
-- rel_sinhcosh_0
  linear_combination Real.cosh_sq x
-- rel_tanh_2
  linear_combination Real.cosh_sq x
-- rel_tanhexp_4
  linear_combination Real.cosh_sq x
-- rel_erfc_0
  unfold UC.erfc
  ring
-- rel_expm1_0
  unfold UC.expm1
  ring
-- rel_fmod_0
  unfold UC.fmod
  rw [zpow_neg_one, ← div_eq_mul_inv]
  ring
-- rel_remainder_0
  unfold UC.remainder
  rw [zpow_neg_one, ← div_eq_mul_inv]
  ring
-- rel_hypot_0
  linear_combination UC.hypot_sq x y
-- rel_hypot_sqrt_1
  linear_combination UC.hypot_sq x y
-- rel_hypot_sqrt_0
  rw [Real.sq_sqrt (by positivity)]
  ring
-- rel_hypot_sqrt_2
  unfold UC.hypot
  rw [pow_two, pow_two]
  ring
-- rel_log10_0
  have h : Real.log 10 ≠ 0 := (Real.log_pos (by norm_num)).ne'
  unfold UC.log10
  field_simp
  ring
-- rel_log2_0
  have h : Real.log 2 ≠ 0 := (Real.log_pos (by norm_num)).ne'
  unfold UC.log2
  field_simp
  ring
-- rel_log1p_0
  unfold UC.log1p
  ring
-- rel_pow_neg2_0
  obtain ⟨k, hk⟩ := h1
  have e : (-2 : ℝ) + y = ((k - 2 : ℤ) : ℝ) := by rw [← hk]; push_cast; ring
  rw [e, ← hk, Real.rpow_intCast, Real.rpow_intCast, zpow_sub₀ h0.ne]
  have := h0.ne
  field_simp
  try ring
-- rel_pow_neg_0
  obtain ⟨k, hk⟩ := h1
  have e : (-1 : ℝ) + y = ((k - 1 : ℤ) : ℝ) := by rw [← hk]; push_cast; ring
  rw [e, ← hk, Real.rpow_intCast, Real.rpow_intCast, zpow_sub₀ h0.ne]
  have := h0.ne
  field_simp
  try ring
-- rel_pow_pos2_0
  have e : x ^ y = x ^ ((-2 : ℝ) + y) * x ^ 2 := by
    rw [← Real.rpow_natCast x 2, ← Real.rpow_add h0]
    congr 1
    push_cast
    ring
  linear_combination e
-- rel_pow_pos_0
  have e : x ^ y = x ^ ((-1 : ℝ) + y) * x := by
    have := Real.rpow_add h0 ((-1 : ℝ) + y) 1
    rw [Real.rpow_one] at this
    rw [← this]
    congr 1
    ring
  linear_combination e
-- rel_sincos_0
  linear_combination Real.sin_sq_add_cos_sq x
-- rel_tan_2
  linear_combination Real.sin_sq_add_cos_sq x
-- rel_sqrt_0
  rw [Real.sq_sqrt h0]
  ring
-- rel_sqrt_scale_0
  rw [Real.sq_sqrt h0]
  ring
-- rel_sqrt_inv_0
  rw [Real.sq_sqrt h0.le]
  ring
-- rel_sqrt_inv_1
  rw [zpow_neg_one, Real.sq_sqrt (inv_nonneg.mpr h0.le), mul_inv_cancel₀ h0.ne']
  ring
-- rel_sqrt_inv_2
  rw [zpow_neg_one, ← Real.sqrt_mul h0.le, mul_inv_cancel₀ h0.ne', Real.sqrt_one]
  ring
-- rel_sqrt_scale_1
  rw [Real.sq_sqrt (by linarith)]
  ring
-- rel_sqrt_scale_2
  have e : Real.sqrt 4 = 2 := by
    rw [show (4 : ℝ) = 2 ^ 2 by norm_num]
    exact Real.sqrt_sq (by norm_num)
  rw [Real.sqrt_mul (by norm_num), e]
  ring
-- rel_tan_0
  rw [Real.tan_mul_cos h0]
  ring
-- rel_tan_1
  linear_combination (Real.tan x * Real.cos x + Real.sin x) * Real.tan_mul_cos h0 + Real.sin_sq_add_cos_sq x
-- rel_tanh_0
  have c := (Real.cosh_pos x).ne'
  have e : Real.tanh x * Real.cosh x = Real.sinh x := by rw [Real.tanh_eq_sinh_div_cosh]; field_simp
  linear_combination e
-- rel_tanhexp_0
  have c := (Real.cosh_pos x).ne'
  have e : Real.tanh x * Real.cosh x = Real.sinh x := by rw [Real.tanh_eq_sinh_div_cosh]; field_simp
  linear_combination e
-- rel_tanh_1
  have c := (Real.cosh_pos x).ne'
  have e : Real.tanh x * Real.cosh x = Real.sinh x := by rw [Real.tanh_eq_sinh_div_cosh]; field_simp
  linear_combination Real.cosh_sq x - (Real.tanh x * Real.cosh x + Real.sinh x) * e
-- rel_tanhexp_1
  have c := (Real.cosh_pos x).ne'
  have e : Real.tanh x * Real.cosh x = Real.sinh x := by rw [Real.tanh_eq_sinh_div_cosh]; field_simp
  linear_combination Real.cosh_sq x - (Real.tanh x * Real.cosh x + Real.sinh x) * e
-- zero_asin
  simp
-- zero_asinh
  simp
-- zero_atan
  simp
-- zero_atanh
  simp
-- zero_cos
  simp
-- zero_cosh
  simp
-- zero_exp
  simp
-- zero_sin
  simp
-- zero_sinh
  simp
-- zero_tan
  simp
-- zero_tanh
  simp
-- zero_cbrt
  simp [UC.cbrt]
-- zero_erf
  simp [UC.erf]
-- zero_exp2
  simp [UC.exp2]
-- zero_round
  unfold UC.round
  norm_num
-- zero_trunc
  simp [UC.trunc]
