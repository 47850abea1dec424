-- fmod_dx
  simpa using UC.fmod_deriv (fun z => z) (fun _ => y) 1 0 x (hasDerivAt_id x) (hasDerivAt_const x y) h0 h1
-- fmod_dy
  simpa using UC.fmod_deriv (fun _ => x) (fun z => z) 0 1 y (hasDerivAt_const y x) (hasDerivAt_id y) h0 h1
-- fmod_dxx
  exact hasDerivAt_const _ _
-- fmod_dyy
  have e := UC.trunc_const (fun z => x / z) y (continuousAt_const.div continuousAt_id h0) h1
  refine (hasDerivAt_const y (-(UC.trunc (x / y)))).congr_of_eventuallyEq ?_
  filter_upwards [e] with z hz
  simp only [hz]
-- fmod_dxy
  exact hasDerivAt_const _ _
-- remainder_dx
  simpa using UC.remainder_deriv (fun z => z) (fun _ => y) 1 0 x (hasDerivAt_id x) (hasDerivAt_const x y) h0 h1
-- remainder_dy
  simpa using UC.remainder_deriv (fun _ => x) (fun z => z) 0 1 y (hasDerivAt_const y x) (hasDerivAt_id y) h0 h1
-- remainder_dxx
  exact hasDerivAt_const _ _
-- remainder_dyy
  have e := UC.floor_const (fun z => x / z + 1 / 2) y ((continuousAt_const.div continuousAt_id h0).add continuousAt_const) h1
  refine (hasDerivAt_const y (-(UC.round (x / y)))).congr_of_eventuallyEq ?_
  filter_upwards [e] with z hz
  simp only [UC.round, hz]
-- remainder_dxy
  exact hasDerivAt_const _ _
-- fmax_dx
  rcases lt_or_gt_of_ne h0 with h | h
  · rw [if_neg (not_lt.mpr h.le)]
    refine (hasDerivAt_const x y).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_le.mpr hz)]
  · rw [if_pos h]
    refine (hasDerivAt_id x).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (le_of_lt hz)]; rfl
-- fmax_dy
  rcases lt_or_gt_of_ne h0 with h | h
  · rw [if_neg (not_lt.mpr h.le)]
    refine (hasDerivAt_id y).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_neg (not_le.mpr hz)]; rfl
  · rw [if_pos h]
    refine (hasDerivAt_const y x).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_pos (le_of_lt hz)]
-- fmax_dxx
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const x (0 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
  · refine (hasDerivAt_const x (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
-- fmax_dyy
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const y (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
  · refine (hasDerivAt_const y (0 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
-- fmax_dxy
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const y (0 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
  · refine (hasDerivAt_const y (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
-- fmin_dx
  rcases lt_or_gt_of_ne h0 with h | h
  · rw [if_pos h]
    refine (hasDerivAt_id x).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_pos (le_of_lt hz)]; rfl
  · rw [if_neg (not_lt.mpr h.le)]
    refine (hasDerivAt_const x y).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_neg (not_le.mpr hz)]
-- fmin_dy
  rcases lt_or_gt_of_ne h0 with h | h
  · rw [if_pos h]
    refine (hasDerivAt_const y x).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (le_of_lt hz)]
  · rw [if_neg (not_lt.mpr h.le)]
    refine (hasDerivAt_id y).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_le.mpr hz)]; rfl
-- fmin_dxx
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const x (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
  · refine (hasDerivAt_const x (0 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
-- fmin_dyy
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const y (0 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
  · refine (hasDerivAt_const y (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
-- fmin_dxy
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const y (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
  · refine (hasDerivAt_const y (0 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
-- hypot_dx
  exact UC.hypot_dx x y h0
-- hypot_dy
  exact UC.hypot_dy x y h0
-- hypot_dxx
  have p := UC.hypot_pos x y h0
  have q := UC.hypot_sq x y
  refine HasDerivAt.congr_deriv ((hasDerivAt_id x).div (UC.hypot_dx x y h0) p.ne') ?_
  try simp only [id]
  field_simp
  nlinarith [q]
-- hypot_dyy
  have p := UC.hypot_pos x y h0
  have q := UC.hypot_sq x y
  refine HasDerivAt.congr_deriv ((hasDerivAt_id y).div (UC.hypot_dy x y h0) p.ne') ?_
  try simp only [id]
  field_simp
  nlinarith [q]
-- hypot_dxy
  have p := UC.hypot_pos x y h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_const y x).div (UC.hypot_dy x y h0) p.ne') ?_
  field_simp
  ring
-- atan2_dx
  exact UC.atan2_dx x y h0
-- atan2_dy
  exact UC.atan2_dy x y h0
-- atan2_dxx
  have p := UC.sq_pos x y h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x y).div (((hasDerivAt_id x).mul (hasDerivAt_id x)).add (hasDerivAt_const x (y * y))) p.ne') ?_
  try simp only [id, Pi.add_apply, Pi.mul_apply]
  field_simp
  ring
-- atan2_dyy
  have p := UC.sq_pos x y h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_const y (-x)).div ((hasDerivAt_const y (x * x)).add ((hasDerivAt_id y).mul (hasDerivAt_id y))) p.ne') ?_
  try simp only [id, Pi.add_apply, Pi.mul_apply]
  field_simp
  ring
-- atan2_dxy
  have p := UC.sq_pos x y h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_id y).div ((hasDerivAt_const y (x * x)).add ((hasDerivAt_id y).mul (hasDerivAt_id y))) p.ne') ?_
  try simp only [id, Pi.add_apply, Pi.mul_apply]
  field_simp
  ring
-- pow_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_rpow_const (x := x) (p := y) (Or.inl (ne_of_gt h0))) ?_
  rw [Real.rpow_sub h0, Real.rpow_one]; ring
-- pow_dy
  exact (Real.hasStrictDerivAt_const_rpow h0 y).hasDerivAt
-- pow_dxx
  have d := (Real.hasDerivAt_rpow_const (x := x) (p := y) (Or.inl (ne_of_gt h0))).const_mul y
  refine HasDerivAt.congr_deriv (d.div (hasDerivAt_id x) (ne_of_gt h0)) ?_
  try simp only [id]
  rw [Real.rpow_sub h0, Real.rpow_one]
  have : x ≠ 0 := ne_of_gt h0
  field_simp
  try ring
-- pow_dyy
  exact (Real.hasStrictDerivAt_const_rpow h0 y).hasDerivAt.mul_const _
-- pow_dxy
  refine HasDerivAt.congr_deriv (((hasDerivAt_id y).mul (Real.hasStrictDerivAt_const_rpow h0 y).hasDerivAt).div_const x) ?_
  try simp only [id]
  ring
-- pow1_dx
  obtain ⟨k, rfl⟩ := h1
  have hx : x ≠ 0 := ne_of_lt h0
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_rpow_const (x := x) (p := (k : ℝ)) (Or.inl hx)) ?_
  rw [Real.rpow_sub_one hx]; ring
-- pow1_dxx
  obtain ⟨k, rfl⟩ := h1
  have hx : x ≠ 0 := ne_of_lt h0
  have d := (Real.hasDerivAt_rpow_const (x := x) (p := (k : ℝ)) (Or.inl hx)).const_mul (k : ℝ)
  refine HasDerivAt.congr_deriv (d.div (hasDerivAt_id x) hx) ?_
  try simp only [id]
  rw [Real.rpow_sub_one hx]
  field_simp
  try ring
-- pow2_v
  subst h0 h1; norm_num
-- pow2_dx
  subst h0 h1
  simpa using hasDerivAt_const (0 : ℝ) (1 : ℝ)
-- pow2_dxx
  subst h0 h1
  simpa using hasDerivAt_const (0 : ℝ) (0 : ℝ)
-- pow3_v
  subst h0 h1; norm_num
-- pow3_dx
  subst h0 h1
  simp only [Real.rpow_one]
  exact hasDerivAt_id' (0 : ℝ)
-- pow3_dxx
  subst h0 h1
  simpa using hasDerivAt_const (0 : ℝ) (1 : ℝ)
-- pow4_v
  subst h0 h1; norm_num
-- pow4_dx
  subst h0 h1
  simpa using hasDerivAt_pow 2 (0 : ℝ)
-- pow4_dxx
  subst h0 h1
  have e : (2 : ℝ) - 1 = 1 := by norm_num
  simp only [e, Real.rpow_one]
  simpa using (hasDerivAt_id (0 : ℝ)).const_mul 2
-- pow5_v
  subst h0
  exact Real.zero_rpow (by linarith)
-- pow5_dx
  subst h0
  have d := Real.hasDerivAt_rpow_const (x := 0) (p := y) (Or.inr (by linarith))
  rwa [Real.zero_rpow (by linarith : y - 1 ≠ 0 ), mul_zero] at d
-- pow5_dxx
  subst h0
  have d := (Real.hasDerivAt_rpow_const (x := 0) (p := y - 1) (Or.inr (by linarith))).const_mul y
  rwa [Real.zero_rpow (by linarith : y - 1 - 1 ≠ 0), mul_zero, mul_zero] at d
-- abs_dx
  rcases lt_or_gt_of_ne h0 with h | h
  · rw [if_neg (not_lt.mpr h.le)]
    refine (hasDerivAt_neg x).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_le.mpr hz)]
  · rw [if_pos h]
    refine (hasDerivAt_id x).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (le_of_lt hz)]; rfl
-- abs_dxx
  rcases lt_or_gt_of_ne h0 with h | h
  · refine (hasDerivAt_const x (-1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Iio_mem_nhds h] with z hz
    rw [if_neg (not_lt.mpr (le_of_lt hz))]
  · refine (hasDerivAt_const x (1 : ℝ)).congr_of_eventuallyEq ?_
    filter_upwards [Ioi_mem_nhds h] with z hz
    rw [if_pos (Set.mem_Ioi.mp hz)]
-- exp_dx
  exact Real.hasDerivAt_exp x
-- exp_dxx
  exact Real.hasDerivAt_exp x
-- exp2_dx
  refine HasDerivAt.congr_deriv ((Real.hasStrictDerivAt_const_rpow (by norm_num : (0 : ℝ) < 2) x).hasDerivAt) ?_
  unfold UC.exp2; ring
-- exp2_dxx
  refine HasDerivAt.congr_deriv (((Real.hasStrictDerivAt_const_rpow (by norm_num : (0 : ℝ) < 2) x).hasDerivAt).const_mul (Real.log 2)) ?_
  unfold UC.exp2; ring
-- expm1_dx
  exact (Real.hasDerivAt_exp x).sub_const 1
-- expm1_dxx
  exact Real.hasDerivAt_exp x
-- log_dx
  simpa using Real.hasDerivAt_log (ne_of_gt h0)
-- log_dxx
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div (hasDerivAt_id x) (ne_of_gt h0)) ?_
  try simp only [id]
  field_simp
  try ring
-- log10_dx
  refine HasDerivAt.congr_deriv ((Real.hasDerivAt_log (ne_of_gt h0)).div_const (Real.log 10)) ?_
  rw [one_div, mul_inv]; ring
-- log10_dxx
  have l : Real.log 10 ≠ 0 := (Real.log_pos (by norm_num)).ne'
  have hx : x ≠ 0 := ne_of_gt h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div ((hasDerivAt_id x).mul_const (Real.log 10)) (mul_ne_zero hx l)) ?_
  try simp only [id]
  field_simp
  try ring
-- log2_dx
  refine HasDerivAt.congr_deriv ((Real.hasDerivAt_log (ne_of_gt h0)).div_const (Real.log 2)) ?_
  rw [one_div, mul_inv]; ring
-- log2_dxx
  have l : Real.log 2 ≠ 0 := (Real.log_pos (by norm_num)).ne'
  have hx : x ≠ 0 := ne_of_gt h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div ((hasDerivAt_id x).mul_const (Real.log 2)) (mul_ne_zero hx l)) ?_
  try simp only [id]
  field_simp
  try ring
-- log1p_dx
  have hx : 1 + x ≠ 0 := by linarith [h0] |> fun q => ne_of_gt q
  exact ((hasDerivAt_id x).const_add 1).log hx
-- log1p_dxx
  have hx : 1 + x ≠ 0 := UC.ne_of_pos (by linarith)
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div ((hasDerivAt_id x).const_add 1) hx) ?_
  try simp only [id]
  field_simp
  try ring
-- sqrt_dx
  simpa using Real.hasDerivAt_sqrt (ne_of_gt h0)
-- sqrt_dxx
  have p : 0 < Real.sqrt x := Real.sqrt_pos.mpr h0
  have q : Real.sqrt x * Real.sqrt x = x := Real.mul_self_sqrt (le_of_lt h0)
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div ((Real.hasDerivAt_sqrt (ne_of_gt h0)).const_mul 2) (by positivity)) ?_
  have hx : x ≠ 0 := ne_of_gt h0
  field_simp
  nlinarith [q]
-- cbrt_dx
  exact UC.cbrt_deriv x h0
-- cbrt_dxx
  have p := UC.cbrt_ne x h0
  have q := UC.cbrt_pow x
  have d := UC.cbrt_deriv x h0
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div ((d.mul d).const_mul 3) (mul_ne_zero (by norm_num) (mul_ne_zero p p))) ?_
  try simp only [Pi.mul_apply]
  field_simp
  linear_combination (18 : ℝ) * q
-- sin_dx
  exact Real.hasDerivAt_sin x
-- sin_dxx
  exact Real.hasDerivAt_cos x
-- cos_dx
  exact Real.hasDerivAt_cos x
-- cos_dxx
  exact (Real.hasDerivAt_sin x).neg
-- tan_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_tan h0) ?_
  rw [pow_two]
-- tan_dxx
  have d := Real.hasDerivAt_cos x
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div (d.mul d) (mul_ne_zero h0 h0)) ?_
  try simp only [Pi.mul_apply]
  field_simp
  try ring
-- asin_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_arcsin (ne_of_gt h0) (ne_of_lt h1)) ?_
  rw [pow_two]
-- asin_dxx
  exact UC.inv_sqrt_deriv (fun z => 1 - z * z) (-2 * x) x _ (UC.one_sub_sq x) (by nlinarith) (by ring)
-- acos_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_arccos (ne_of_gt h0) (ne_of_lt h1)) ?_
  rw [pow_two]; ring
-- acos_dxx
  have := (UC.inv_sqrt_deriv (fun z => 1 - z * z) (-2 * x) x x (UC.one_sub_sq x) (by nlinarith) (by ring)).neg
  have e : (fun z : ℝ => (-1 : ℝ) / Real.sqrt (1 - z * z)) = -fun z => 1 / Real.sqrt (1 - z * z) := by
    funext z; simp only [Pi.neg_apply]; ring
  rw [e]
  exact this.congr_deriv (by ring)
-- atan_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_arctan x) ?_
  rw [pow_two]
-- atan_dxx
  have p : 1 + x * x ≠ 0 := UC.ne_of_pos (by nlinarith [mul_self_nonneg x])
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div (((hasDerivAt_id x).mul (hasDerivAt_id x)).const_add 1) p) ?_
  try simp only [id, Pi.mul_apply]
  field_simp
  try ring
-- sinh_dx
  exact Real.hasDerivAt_sinh x
-- sinh_dxx
  exact Real.hasDerivAt_cosh x
-- cosh_dx
  exact Real.hasDerivAt_cosh x
-- cosh_dxx
  exact Real.hasDerivAt_sinh x
-- tanh_dx
  have p : Real.cosh x ≠ 0 := (Real.cosh_pos x).ne'
  have e : Real.tanh = fun z => Real.sinh z / Real.cosh z := funext Real.tanh_eq_sinh_div_cosh
  have q := Real.cosh_sq x
  rw [e]
  refine HasDerivAt.congr_deriv ((Real.hasDerivAt_sinh x).div (Real.hasDerivAt_cosh x) p) ?_
  field_simp
  nlinarith [q]
-- tanh_dxx
  have p : Real.cosh x ≠ 0 := (Real.cosh_pos x).ne'
  have d := Real.hasDerivAt_cosh x
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div (d.mul d) (mul_ne_zero p p)) ?_
  try simp only [Pi.mul_apply]
  field_simp
  try ring
-- asinh_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_arsinh x) ?_
  rw [one_div, pow_two, add_comm]
-- asinh_dxx
  exact UC.inv_sqrt_deriv (fun z => z * z + 1) (2 * x) x _ (UC.sq_add_one x) (by nlinarith [mul_self_nonneg x]) (by ring)
-- acosh_dx
  refine HasDerivAt.congr_deriv (Real.hasDerivAt_arcosh (Set.mem_Ioi.mpr h0)) ?_
  rw [one_div, pow_two]
-- acosh_dxx
  exact UC.inv_sqrt_deriv (fun z => z * z - 1) (2 * x) x _ (UC.sq_sub_one x) (by nlinarith) (by ring)
-- atanh_dx
  exact UC.artanh_deriv x h0 h1
-- atanh_dxx
  have p : 1 - x * x ≠ 0 := UC.ne_of_pos (by nlinarith)
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div (UC.one_sub_sq x) p) ?_
  field_simp
  try ring
-- erf_dx
  exact UC.erf_deriv x
-- erf_dxx
  have d := (((hasDerivAt_id x).mul (hasDerivAt_id x)).neg.exp).const_mul (2 / Real.sqrt Real.pi)
  refine HasDerivAt.congr_deriv (d) ?_
  try simp only [id, Pi.mul_apply, Pi.neg_apply]
  ring
-- erfc_dx
  exact (UC.erf_deriv x).const_sub 1
-- erfc_dxx
  have d := ((((hasDerivAt_id x).mul (hasDerivAt_id x)).neg.exp).const_mul (2 / Real.sqrt Real.pi)).neg
  refine HasDerivAt.congr_deriv (d) ?_
  try simp only [id, Pi.mul_apply, Pi.neg_apply]
  ring
