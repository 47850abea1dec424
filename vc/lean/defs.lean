import Mathlib
set_option linter.all false
noncomputable section
namespace UC
/-- The functions of <cmath> that Mathlib does not have. -/
def exp2 (x : ℝ) : ℝ := (2 : ℝ) ^ x
def expm1 (x : ℝ) : ℝ := Real.exp x - 1
def log10 (x : ℝ) : ℝ := Real.log x / Real.log 10
def log2 (x : ℝ) : ℝ := Real.log x / Real.log 2
def log1p (x : ℝ) : ℝ := Real.log (1 + x)
def cbrt (x : ℝ) : ℝ := if 0 ≤ x then x ^ (1 / 3 : ℝ) else -((-x) ^ (1 / 3 : ℝ))
def erf (x : ℝ) : ℝ := 2 / Real.sqrt Real.pi * ∫ t in (0 : ℝ)..x, Real.exp (-(t * t))
def erfc (x : ℝ) : ℝ := 1 - erf x
def hypot (x y : ℝ) : ℝ := Real.sqrt (x * x + y * y)
def atan2 (x y : ℝ) : ℝ := Complex.arg (⟨y, x⟩ : ℂ)
def trunc (x : ℝ) : ℝ := if 0 ≤ x then (⌊x⌋ : ℝ) else (⌈x⌉ : ℝ)
def round (x : ℝ) : ℝ := (⌊x + 1 / 2⌋ : ℝ)
def fmod (x y : ℝ) : ℝ := x - y * trunc (x / y)
def remainder (x y : ℝ) : ℝ := x - y * round (x / y)

theorem cbrt_pow (x : ℝ) : cbrt x ^ 3 = x := by
  unfold cbrt
  split_ifs with h
  · rw [← Real.rpow_natCast, ← Real.rpow_mul h]; norm_num
  · have h' : 0 ≤ -x := by linarith
    have : ((-x) ^ (1 / 3 : ℝ)) ^ 3 = -x := by rw [← Real.rpow_natCast, ← Real.rpow_mul h']; norm_num
    linear_combination -this

theorem cbrt_ne (x : ℝ) (h : x ≠ 0) : cbrt x ≠ 0 := by
  intro h0; apply h; rw [← cbrt_pow x, h0]; norm_num

theorem third (t : ℝ) (h : 0 < t) : (1 / 3 : ℝ) * t ^ ((1 / 3 : ℝ) - 1) = 1 / (3 * (t ^ (1 / 3 : ℝ) * t ^ (1 / 3 : ℝ))) := by
  have e : t ^ ((1 / 3 : ℝ) - 1) * (t ^ (1 / 3 : ℝ) * t ^ (1 / 3 : ℝ)) = 1 := by
    rw [← Real.rpow_add h, ← Real.rpow_add h]; norm_num
  have p : 0 < t ^ (1 / 3 : ℝ) := Real.rpow_pos_of_pos h _
  field_simp
  rw [pow_two]
  linarith [e]

theorem cbrt_deriv (x : ℝ) (h : x ≠ 0) : HasDerivAt cbrt (1 / (3 * (cbrt x * cbrt x))) x := by
  rcases lt_or_gt_of_ne h with h1 | h1
  · have e : cbrt =ᶠ[nhds x] fun z => -((-z) ^ (1 / 3 : ℝ)) := by
      filter_upwards [Iio_mem_nhds h1] with z hz
      unfold cbrt; rw [if_neg (by simpa using hz)]
    have hx : -x ≠ 0 := neg_ne_zero.mpr h
    have d := ((Real.hasDerivAt_rpow_const (p := (1 / 3 : ℝ)) (Or.inl hx)).comp x (hasDerivAt_neg x)).neg
    have d2 : HasDerivAt (fun z : ℝ => -((-z) ^ (1 / 3 : ℝ))) (1 / (3 * (cbrt x * cbrt x))) x := by
      refine HasDerivAt.congr_deriv (d) ?_
      have hc : cbrt x = -((-x) ^ (1 / 3 : ℝ)) := by unfold cbrt; rw [if_neg (by linarith)]
      have := third (-x) (by linarith)
      rw [hc, neg_mul_neg, ← this]; ring
    exact d2.congr_of_eventuallyEq e
  · have e : cbrt =ᶠ[nhds x] fun z => z ^ (1 / 3 : ℝ) := by
      filter_upwards [Ioi_mem_nhds h1] with z hz
      unfold cbrt; rw [if_pos (le_of_lt hz)]
    have d := Real.hasDerivAt_rpow_const (x := x) (p := (1 / 3 : ℝ)) (Or.inl h)
    have d2 : HasDerivAt (fun z : ℝ => z ^ (1 / 3 : ℝ)) (1 / (3 * (cbrt x * cbrt x))) x := by
      refine HasDerivAt.congr_deriv (d) ?_
      have hc : cbrt x = x ^ (1 / 3 : ℝ) := by unfold cbrt; rw [if_pos (by linarith)]
      rw [hc, ← third x h1]
    exact d2.congr_of_eventuallyEq e

theorem hypot_sq (x y : ℝ) : hypot x y * hypot x y = x * x + y * y := Real.mul_self_sqrt (add_nonneg (mul_self_nonneg _) (mul_self_nonneg _))
theorem hypot_pos (x y : ℝ) (h : x ≠ 0 ∨ y ≠ 0) : 0 < hypot x y := by
  apply Real.sqrt_pos.mpr
  rcases h with h | h
  · have := mul_self_pos.mpr h; nlinarith [mul_self_nonneg y]
  · have := mul_self_pos.mpr h; nlinarith [mul_self_nonneg x]

/-- Away from the integers, the floor is locally constant. -/
theorem floor_const (f : ℝ → ℝ) (x : ℝ) (hf : ContinuousAt f x) (h : ¬ ∃ k : ℤ, (k : ℝ) = f x) : ∀ᶠ z in nhds x, ⌊f z⌋ = ⌊f x⌋ := by
  have h1 : (⌊f x⌋ : ℝ) < f x := lt_of_le_of_ne (Int.floor_le _) (fun e => h ⟨_, e⟩)
  have h2 : f x < ⌊f x⌋ + 1 := Int.lt_floor_add_one _
  filter_upwards [hf.eventually (Ioo_mem_nhds h1 h2)] with z hz
  exact Int.floor_eq_iff.mpr ⟨hz.1.le, hz.2⟩

theorem trunc_const (f : ℝ → ℝ) (x : ℝ) (hf : ContinuousAt f x) (h : ¬ ∃ k : ℤ, (k : ℝ) = f x) : ∀ᶠ z in nhds x, trunc (f z) = trunc (f x) := by
  have h1 : (⌊f x⌋ : ℝ) < f x := lt_of_le_of_ne (Int.floor_le _) (fun e => h ⟨_, e⟩)
  have h2 : f x < ⌊f x⌋ + 1 := Int.lt_floor_add_one _
  filter_upwards [hf.eventually (Ioo_mem_nhds h1 h2)] with z hz
  have e1 : ⌊f z⌋ = ⌊f x⌋ := Int.floor_eq_iff.mpr ⟨hz.1.le, hz.2⟩
  have e2 : ⌈f z⌉ = ⌊f x⌋ + 1 := Int.ceil_eq_iff.mpr ⟨by push_cast; linarith [hz.1], by push_cast; linarith [hz.2]⟩
  have e3 : ⌈f x⌉ = ⌊f x⌋ + 1 := Int.ceil_eq_iff.mpr ⟨by push_cast; linarith, by push_cast; linarith⟩
  have s : 0 ≤ f z ↔ 0 ≤ f x := by
    constructor
    · intro hz0
      have : 0 ≤ ⌊f z⌋ := Int.floor_nonneg.mpr hz0
      rw [e1] at this
      exact Int.floor_nonneg.mp this
    · intro hx0
      have : 0 ≤ ⌊f x⌋ := Int.floor_nonneg.mpr hx0
      rw [← e1] at this
      exact Int.floor_nonneg.mp this
  unfold trunc
  by_cases hx0 : 0 ≤ f x
  · rw [if_pos (s.mpr hx0), if_pos hx0, e1]
  · rw [if_neg (fun q => hx0 (s.mp q)), if_neg hx0, e2, e3]

theorem fmod_deriv (f : ℝ → ℝ) (g : ℝ → ℝ) (a b x : ℝ) (hf : HasDerivAt f a x) (hg : HasDerivAt g b x) (h0 : g x ≠ 0)
    (h : ¬ ∃ k : ℤ, (k : ℝ) = f x / g x) : HasDerivAt (fun z => fmod (f z) (g z)) (a - b * trunc (f x / g x)) x := by
  have hc : ContinuousAt (fun z => f z / g z) x := hf.continuousAt.div hg.continuousAt h0
  have e := trunc_const (fun z => f z / g z) x hc h
  refine HasDerivAt.congr_of_eventuallyEq (hf.sub (hg.mul_const (trunc (f x / g x)))) ?_
  filter_upwards [e] with z hz
  simp only [fmod, hz, Pi.sub_apply]

theorem remainder_deriv (f : ℝ → ℝ) (g : ℝ → ℝ) (a b x : ℝ) (hf : HasDerivAt f a x) (hg : HasDerivAt g b x) (h0 : g x ≠ 0)
    (h : ¬ ∃ k : ℤ, (k : ℝ) = f x / g x + 1 / 2) : HasDerivAt (fun z => remainder (f z) (g z)) (a - b * round (f x / g x)) x := by
  have hc : ContinuousAt (fun z => f z / g z + 1 / 2) x := (hf.continuousAt.div hg.continuousAt h0).add continuousAt_const
  have e := floor_const (fun z => f z / g z + 1 / 2) x hc h
  refine HasDerivAt.congr_of_eventuallyEq (hf.sub (hg.mul_const (round (f x / g x)))) ?_
  filter_upwards [e] with z hz
  simp only [remainder, round, hz, Pi.sub_apply]

theorem ne_of_pos {a : ℝ} (h : 0 < a) : a ≠ 0 := ne_of_gt h

theorem sq_pos (x y : ℝ) (h : x ≠ 0 ∨ y > 0) : 0 < x * x + y * y := by
  rcases h with h | h
  · have := mul_self_pos.mpr h; nlinarith [mul_self_nonneg y]
  · nlinarith [mul_self_nonneg x]

theorem hypot_dx (x y : ℝ) (h : x ≠ 0 ∨ y ≠ 0) : HasDerivAt (fun x => hypot x y) (x / hypot x y) x := by
  have p := hypot_pos x y h
  have q := hypot_sq x y
  have n : x * x + y * y ≠ 0 := by rw [← q]; positivity
  have d := (((hasDerivAt_id x).mul (hasDerivAt_id x)).add_const (y * y)).sqrt n
  refine HasDerivAt.congr_deriv (d) ?_
  try simp only [id, Pi.mul_apply]
  unfold hypot
  ring

theorem hypot_dy (x y : ℝ) (h : x ≠ 0 ∨ y ≠ 0) : HasDerivAt (fun y => hypot x y) (y / hypot x y) y := by
  have p := hypot_pos x y h
  have q := hypot_sq x y
  have n : x * x + y * y ≠ 0 := by rw [← q]; positivity
  have d := (((hasDerivAt_id y).mul (hasDerivAt_id y)).const_add (x * x)).sqrt n
  refine HasDerivAt.congr_deriv (d) ?_
  try simp only [id, Pi.mul_apply]
  unfold hypot
  ring

theorem one_sub_sq (x : ℝ) : HasDerivAt (fun z : ℝ => 1 - z * z) (-2 * x) x := by
  refine HasDerivAt.congr_deriv (((hasDerivAt_id x).mul (hasDerivAt_id x)).const_sub 1) ?_
  try simp only [id]; ring
theorem sq_add_one (x : ℝ) : HasDerivAt (fun z : ℝ => z * z + 1) (2 * x) x := by
  refine HasDerivAt.congr_deriv (((hasDerivAt_id x).mul (hasDerivAt_id x)).add_const 1) ?_
  try simp only [id]; ring
theorem sq_sub_one (x : ℝ) : HasDerivAt (fun z : ℝ => z * z - 1) (2 * x) x := by
  refine HasDerivAt.congr_deriv (((hasDerivAt_id x).mul (hasDerivAt_id x)).sub_const 1) ?_
  try simp only [id]; ring

theorem inv_sqrt_deriv (f : ℝ → ℝ) (a x b : ℝ) (hf : HasDerivAt f a x) (hp : 0 < f x) (hb : b = -a / 2) :
    HasDerivAt (fun z => 1 / Real.sqrt (f z)) (b / (Real.sqrt (f x) * f x)) x := by
  have p : 0 < Real.sqrt (f x) := Real.sqrt_pos.mpr hp
  have q : Real.sqrt (f x) * Real.sqrt (f x) = f x := Real.mul_self_sqrt hp.le
  refine HasDerivAt.congr_deriv ((hasDerivAt_const x (1 : ℝ)).div (hf.sqrt hp.ne') p.ne') ?_
  rw [hb]
  field_simp
  rw [Real.sq_sqrt hp.le]
  ring

theorem artanh_deriv (x : ℝ) (h0 : x > -1) (h1 : x < 1) : HasDerivAt Real.artanh (1 / (1 - x * x)) x := by
  have e : Real.artanh =ᶠ[nhds x] fun z => (Real.log (1 + z) - Real.log (1 - z)) / 2 := by
    filter_upwards [Ioo_mem_nhds h0 h1] with z hz
    rw [Real.artanh_eq_half_log ⟨hz.1.le, hz.2.le⟩, Real.log_div (by linarith [hz.1] |> fun (q : 0 < 1 + z) => q.ne') (by linarith [hz.2] |> fun (q : 0 < 1 - z) => q.ne')]
    ring
  have p : 1 + x ≠ 0 := ne_of_pos (by linarith)
  have q : 1 - x ≠ 0 := ne_of_pos (by linarith)
  have r : 1 - x * x ≠ 0 := ne_of_pos (by nlinarith)
  have d := ((((hasDerivAt_id x).const_add 1).log p).sub (((hasDerivAt_id x).const_sub 1).log q)).div_const 2
  refine HasDerivAt.congr_of_eventuallyEq ?_ e
  refine HasDerivAt.congr_deriv (d) ?_
  have w : 1 - x * x = (1 + x) * (1 - x) := by ring
  try simp only [id]
  rw [w]
  field_simp
  ring

theorem erf_deriv (x : ℝ) : HasDerivAt erf (2 / Real.sqrt Real.pi * Real.exp (-(x * x))) x := by
  have c : Continuous fun t : ℝ => Real.exp (-(t * t)) := by fun_prop
  exact (intervalIntegral.integral_hasDerivAt_right (c.intervalIntegrable _ _) c.stronglyMeasurable.stronglyMeasurableAtFilter c.continuousAt).const_mul _

theorem arg_deriv (f : ℝ → ℂ) (f' : ℂ) (t : ℝ) (hf : HasDerivAt f f' t) (h : f t ∈ Complex.slitPlane) :
    HasDerivAt (fun s => Complex.arg (f s)) (f' / f t).im t := by
  have d := hf.clog_real h
  have e := Complex.imCLM.hasFDerivAt.comp_hasDerivAt t d
  have k : (fun s => Complex.arg (f s)) = ⇑Complex.imCLM ∘ fun t => Complex.log (f t) := by funext s; simp [Complex.log_im]
  rw [k]
  exact e

theorem atan2_slit (x y : ℝ) (h : x ≠ 0 ∨ y > 0) : (⟨y, x⟩ : ℂ) ∈ Complex.slitPlane := by
  rcases h with h | h
  · exact Or.inr h
  · exact Or.inl h

theorem atan2_dx (x y : ℝ) (h : x ≠ 0 ∨ y > 0) : HasDerivAt (fun x => atan2 x y) (y / (x * x + y * y)) x := by
  have f : HasDerivAt (fun s : ℝ => (⟨y, s⟩ : ℂ)) Complex.I x := by
    have d := ((Complex.ofRealCLM.hasDerivAt (x := x)).const_mul Complex.I).const_add (y : ℂ)
    have e : (fun s : ℝ => (⟨y, s⟩ : ℂ)) = fun s => (y : ℂ) + Complex.I * Complex.ofRealCLM s := by funext s; apply Complex.ext <;> simp
    rw [e]
    exact d.congr_deriv (by simp)
  refine HasDerivAt.congr_deriv (arg_deriv _ _ x f (atan2_slit x y h)) ?_
  have p := sq_pos x y h
  simp [Complex.div_im, Complex.normSq_mk]
  try ring

theorem atan2_dy (x y : ℝ) (h : x ≠ 0 ∨ y > 0) : HasDerivAt (fun y => atan2 x y) (-x / (x * x + y * y)) y := by
  have f : HasDerivAt (fun s : ℝ => (⟨s, x⟩ : ℂ)) 1 y := by
    have d := (Complex.ofRealCLM.hasDerivAt (x := y)).add_const (Complex.I * x)
    have e : (fun s : ℝ => (⟨s, x⟩ : ℂ)) = fun s => Complex.ofRealCLM s + Complex.I * x := by funext s; apply Complex.ext <;> simp
    rw [e]
    exact d.congr_deriv (by simp)
  refine HasDerivAt.congr_deriv (arg_deriv _ _ y f (atan2_slit x y h)) ?_
  have p := sq_pos x y h
  simp [Complex.div_im, Complex.normSq_mk]
  try ring
end UC
