/-
The real-analysis facts that the rules of the verifier (vc/terms.py, vc/core.py) and the
contracts (contracts/numeric.py, contracts/ranges.py) rely on.  No axioms beyond Mathlib's.
-/
import Mathlib

open Finset Real Filter Topology

namespace OccuProb

variable {ι : Type*}

/-! ### Probability distributions (C01, C02, C07, C14) -/

/-- Weights that are non-negative with a positive sum give a distribution. -/
theorem prob_sum_one (s : Finset ι) (z : ι → ℝ) (h : 0 < ∑ a ∈ s, z a) :
    ∑ a ∈ s, z a / ∑ b ∈ s, z b = 1 := by
  rw [← Finset.sum_div]
  exact div_self h.ne'

theorem prob_nonneg (s : Finset ι) (z : ι → ℝ) (hz : ∀ a ∈ s, 0 ≤ z a) {a : ι} (ha : a ∈ s) :
    0 ≤ z a / ∑ b ∈ s, z b :=
  div_nonneg (hz a ha) (Finset.sum_nonneg hz)

theorem prob_le_one (s : Finset ι) (p : ι → ℝ) (hp : ∀ a ∈ s, 0 ≤ p a)
    (h1 : ∑ a ∈ s, p a = 1) {a : ι} (ha : a ∈ s) : p a ≤ 1 := by
  rw [← h1]; exact Finset.single_le_sum hp ha

/-- The total is positive as soon as one weight is. -/
theorem sum_pos_of_one_pos (s : Finset ι) (z : ι → ℝ) (hz : ∀ a ∈ s, 0 ≤ z a)
    {a : ι} (ha : a ∈ s) (h : 0 < z a) : 0 < ∑ b ∈ s, z b :=
  lt_of_lt_of_le h (Finset.single_le_sum hz ha)

/-- A factor common to all minima cancels. -/
theorem prob_common_factor (s : Finset ι) (z : ι → ℝ) {c : ℝ} (hc : c ≠ 0) (a : ι) :
    (c * z a) / ∑ b ∈ s, c * z b = z a / ∑ b ∈ s, z b := by
  rw [← Finset.mul_sum]; exact mul_div_mul_left _ _ hc

/-- Moving all the energies by the same amount is such a factor (C03). -/
theorem boltzmann_shift (β E c : ℝ) : exp (-(β * (E + c))) = exp (-(β * c)) * exp (-(β * E)) := by
  rw [← exp_add]; ring_nf

/-- The reference energy moves with the energies, so relative energies do not change (C03). -/
theorem min_shift (s : Finset ι) (hs : s.Nonempty) (E : ι → ℝ) (c : ℝ) :
    s.inf' hs (fun a => E a + c) = s.inf' hs E + c := by
  obtain ⟨m, hm, he⟩ := s.exists_mem_eq_inf' hs E
  apply le_antisymm
  · rw [he]; exact Finset.inf'_le _ hm
  · exact Finset.le_inf' hs _ fun a ha => by
      have := Finset.inf'_le E ha
      linarith

theorem min_le (s : Finset ι) (hs : s.Nonempty) (E : ι → ℝ) {a : ι} (ha : a ∈ s) :
    0 ≤ E a - s.inf' hs E := sub_nonneg.mpr (Finset.inf'_le E ha)

theorem min_attained (s : Finset ι) (hs : s.Nonempty) (E : ι → ℝ) :
    ∃ a ∈ s, E a - s.inf' hs E = 0 := by
  obtain ⟨m, hm, he⟩ := s.exists_mem_eq_inf' hs E
  exact ⟨m, hm, by rw [he, sub_self]⟩

/-- Sums and products over the minima do not depend on their order (C14). -/
theorem sum_relabel {n : ℕ} (p : Equiv.Perm (Fin n)) (f : Fin n → ℝ) :
    ∑ a, f (p a) = ∑ a, f a := Equiv.sum_comp p f

theorem prod_relabel {n : ℕ} (p : Equiv.Perm (Fin n)) (f : Fin n → ℝ) :
    ∏ a, f (p a) = ∏ a, f a := Equiv.prod_comp p f

/-- Rules of the term algebra for sums and products over an index range of unknown size. -/
theorem sum_const_range (n : ℕ) (c : ℝ) : ∑ _i ∈ range n, c = n * c := by simp

theorem prod_const_range (n : ℕ) (c : ℝ) : ∏ _i ∈ range n, c = c ^ n := by simp

theorem sum_swap (n m : ℕ) (f : ℕ → ℕ → ℝ) :
    ∑ i ∈ range n, ∑ j ∈ range m, f i j = ∑ j ∈ range m, ∑ i ∈ range n, f i j := Finset.sum_comm

theorem sum_indicator (n : ℕ) (c : ℕ → Prop) [DecidablePred c] (f : ℕ → ℝ) :
    ∑ i ∈ range n, (if c i then f i else 0) = ∑ i ∈ (range n).filter c, f i :=
  (Finset.sum_filter _ _).symm

theorem prod_pow_range (n k : ℕ) (f : ℕ → ℝ) :
    ∏ i ∈ range n, f i ^ k = (∏ i ∈ range n, f i) ^ k := Finset.prod_pow _ _ _

theorem prod_mul_range (n : ℕ) (f g : ℕ → ℝ) :
    ∏ i ∈ range n, f i * g i = (∏ i ∈ range n, f i) * ∏ i ∈ range n, g i :=
  Finset.prod_mul_distrib

/-- Inductive step behind the summaries of loops that accumulate a sum or a product. -/
theorem accumulate_sum (n : ℕ) (s0 : ℝ) (f s : ℕ → ℝ) (h0 : s 0 = s0)
    (hs : ∀ i < n, s (i + 1) = s i + f i) : s n = s0 + ∑ i ∈ range n, f i := by
  induction n with
  | zero => simpa using h0
  | succ k ih =>
    rw [hs k (Nat.lt_succ_self k), ih fun i hi => hs i (Nat.lt_succ_of_lt hi), sum_range_succ]
    ring

theorem accumulate_prod (n : ℕ) (s0 : ℝ) (f s : ℕ → ℝ) (h0 : s 0 = s0)
    (hs : ∀ i < n, s (i + 1) = s i * f i) : s n = s0 * ∏ i ∈ range n, f i := by
  induction n with
  | zero => simpa using h0
  | succ k ih =>
    rw [hs k (Nat.lt_succ_self k), ih fun i hi => hs i (Nat.lt_succ_of_lt hi), prod_range_succ]
    ring

/-! ### Ensemble averages (C12) -/

theorem average_const (s : Finset ι) (p : ι → ℝ) (h1 : ∑ a ∈ s, p a = 1) (c : ℝ) :
    ∑ a ∈ s, p a * c = c := by
  rw [← Finset.sum_mul, h1, one_mul]

theorem average_bounds (s : Finset ι) (p o : ι → ℝ) (hp : ∀ a ∈ s, 0 ≤ p a)
    (h1 : ∑ a ∈ s, p a = 1) {l u : ℝ} (hl : ∀ a ∈ s, l ≤ o a) (hu : ∀ a ∈ s, o a ≤ u) :
    l ≤ ∑ a ∈ s, p a * o a ∧ ∑ a ∈ s, p a * o a ≤ u := by
  constructor
  · calc l = ∑ a ∈ s, p a * l := (average_const s p h1 l).symm
      _ ≤ _ := Finset.sum_le_sum fun a ha => mul_le_mul_of_nonneg_left (hl a ha) (hp a ha)
  · calc ∑ a ∈ s, p a * o a ≤ ∑ a ∈ s, p a * u :=
          Finset.sum_le_sum fun a ha => mul_le_mul_of_nonneg_left (hu a ha) (hp a ha)
      _ = u := average_const s p h1 u

theorem average_linear (s : Finset ι) (p o q : ι → ℝ) (x y : ℝ) :
    ∑ a ∈ s, p a * (x * o a + y * q a) = x * ∑ a ∈ s, p a * o a + y * ∑ a ∈ s, p a * q a := by
  rw [Finset.mul_sum, Finset.mul_sum, ← Finset.sum_add_distrib]
  exact Finset.sum_congr rfl fun a _ => by ring

/-! ### Fluctuations (C10, C11) -/

/-- `<W²> - <W>²` is the average squared deviation ... -/
theorem variance_eq (s : Finset ι) (p w : ι → ℝ) (h1 : ∑ a ∈ s, p a = 1) :
    ∑ a ∈ s, p a * w a ^ 2 - (∑ a ∈ s, p a * w a) ^ 2
      = ∑ a ∈ s, p a * (w a - ∑ b ∈ s, p b * w b) ^ 2 := by
  set m := ∑ b ∈ s, p b * w b with hm
  have : ∀ a ∈ s, p a * (w a - m) ^ 2 = p a * w a ^ 2 - 2 * m * (p a * w a) + m ^ 2 * p a := by
    intro a _; ring
  rw [Finset.sum_congr rfl this, Finset.sum_add_distrib, Finset.sum_sub_distrib,
    ← Finset.mul_sum, ← Finset.mul_sum, h1, ← hm]
  ring

/-- ... hence not negative. -/
theorem variance_nonneg (s : Finset ι) (p w : ι → ℝ) (hp : ∀ a ∈ s, 0 ≤ p a)
    (h1 : ∑ a ∈ s, p a = 1) :
    0 ≤ ∑ a ∈ s, p a * w a ^ 2 - (∑ a ∈ s, p a * w a) ^ 2 := by
  rw [variance_eq s p w h1]
  exact Finset.sum_nonneg fun a ha => mul_nonneg (hp a ha) (sq_nonneg _)

/-- First derivative of the logarithm of a sum of positive weights `exp (L a)`. -/
theorem logsum_deriv (s : Finset ι) (hs : s.Nonempty) (L L' : ι → ℝ → ℝ) (t : ℝ)
    (h : ∀ a ∈ s, HasDerivAt (L a) (L' a t) t) :
    HasDerivAt (fun u => log (∑ a ∈ s, exp (L a u)))
      ((∑ a ∈ s, exp (L a t) * L' a t) / ∑ a ∈ s, exp (L a t)) t := by
  have hZ : 0 < ∑ a ∈ s, exp (L a t) := Finset.sum_pos (fun a _ => exp_pos _) hs
  have hd : HasDerivAt (fun u => ∑ a ∈ s, exp (L a u)) (∑ a ∈ s, exp (L a t) * L' a t) t :=
    HasDerivAt.fun_sum fun a ha => (h a ha).exp
  exact hd.log hZ.ne'

/-- Second derivative: the average of `L''` plus the variance of `L'` (C10). -/
theorem logsum_second_deriv (s : Finset ι) (hs : s.Nonempty) (L L' L'' : ι → ℝ → ℝ) (t : ℝ)
    (h : ∀ a ∈ s, HasDerivAt (L a) (L' a t) t)
    (h' : ∀ a ∈ s, HasDerivAt (L' a) (L'' a t) t) :
    HasDerivAt (fun u => (∑ a ∈ s, exp (L a u) * L' a u) / ∑ a ∈ s, exp (L a u))
      ((∑ a ∈ s, (exp (L a t) / ∑ b ∈ s, exp (L b t)) * L'' a t)
        + (∑ a ∈ s, (exp (L a t) / ∑ b ∈ s, exp (L b t)) * L' a t ^ 2)
        - (∑ a ∈ s, (exp (L a t) / ∑ b ∈ s, exp (L b t)) * L' a t) ^ 2) t := by
  have hZ : 0 < ∑ a ∈ s, exp (L a t) := Finset.sum_pos (fun a _ => exp_pos _) hs
  have hd : HasDerivAt (fun u => ∑ a ∈ s, exp (L a u)) (∑ a ∈ s, exp (L a t) * L' a t) t :=
    HasDerivAt.fun_sum fun a ha => (h a ha).exp
  have hn : HasDerivAt (fun u => ∑ a ∈ s, exp (L a u) * L' a u)
      (∑ a ∈ s, (exp (L a t) * L' a t * L' a t + exp (L a t) * L'' a t)) t :=
    HasDerivAt.fun_sum fun a ha => ((h a ha).exp).mul (h' a ha)
  have hq := hn.div hd hZ.ne'
  refine hq.congr_deriv ?_
  have e1 : ∀ f : ι → ℝ, ∑ a ∈ s, (exp (L a t) / ∑ b ∈ s, exp (L b t)) * f a
      = (∑ a ∈ s, exp (L a t) * f a) / ∑ b ∈ s, exp (L b t) := by
    intro f
    rw [Finset.sum_div]
    exact Finset.sum_congr rfl fun a _ => by ring
  rw [e1, e1, e1, Finset.sum_add_distrib]
  have e2 : ∑ a ∈ s, exp (L a t) * L' a t * L' a t = ∑ a ∈ s, exp (L a t) * L' a t ^ 2 :=
    Finset.sum_congr rfl fun a _ => by ring
  rw [e2]
  field_simp
  ring

/-! ### The contributions (C02, C04, C05, C06, C09) -/

/-- Electronic: `ln Z = ln g - β E`. -/
theorem electronic_w (g E β : ℝ) : HasDerivAt (fun b => log g - b * E) (-E) β := by
  have := ((hasDerivAt_id β).mul_const E).const_sub (log g)
  simpa using this

/-- A power of β: `ln β^(-k) = -k ln β`; first and second logarithmic derivatives. -/
theorem power_w (k β : ℝ) (hβ : β ≠ 0) : β * deriv (fun b => -k * log b) β = -k := by
  have h : HasDerivAt (fun b => -k * log b) (-k * β⁻¹) β := (hasDerivAt_log hβ).const_mul (-k)
  rw [h.deriv]; field_simp

theorem power_v (k β : ℝ) (hβ : β ≠ 0) :
    HasDerivAt (fun b => -k * b⁻¹) (k / β ^ 2) β := by
  have h := (hasDerivAt_inv hβ).const_mul (-k)
  refine h.congr_deriv ?_
  field_simp

/-- One quantum mode: `ln (1/(2 sinh (c β)))`. -/
theorem mode_w (c β : ℝ) (h : 0 < c * β) :
    HasDerivAt (fun b => -log (2 * sinh (c * b))) (-(c * cosh (c * β) / sinh (c * β))) β := by
  have hs : 0 < sinh (c * β) := sinh_pos_iff.mpr h
  have h1 : HasDerivAt (fun b : ℝ => c * b) c β := by simpa using (hasDerivAt_id β).const_mul c
  have h2 : HasDerivAt (fun b => 2 * sinh (c * b)) (2 * (cosh (c * β) * c)) β :=
    (h1.sinh).const_mul 2
  have h3 := (h2.log (by positivity)).neg
  refine h3.congr_deriv ?_
  field_simp

theorem mode_v (c β : ℝ) (h : 0 < c * β) :
    HasDerivAt (fun b => -(c * cosh (c * b) / sinh (c * b))) ((c / sinh (c * β)) ^ 2) β := by
  have hs : 0 < sinh (c * β) := sinh_pos_iff.mpr h
  have h1 : HasDerivAt (fun b : ℝ => c * b) c β := by simpa using (hasDerivAt_id β).const_mul c
  have h2 : HasDerivAt (fun b => c * cosh (c * b)) (c * (sinh (c * β) * c)) β :=
    (h1.cosh).const_mul c
  have h3 := (h2.div h1.sinh hs.ne').neg
  refine h3.congr_deriv ?_
  have hc := cosh_sq (c * β)
  field_simp
  nlinarith [hc]

/-- The two documented forms of the weight of a mode agree. -/
theorem mode_weight (x : ℝ) : 1 / (2 * sinh x) = exp (-x) / (1 - exp (-2 * x)) := by
  have h : 2 * sinh x = exp x * (1 - exp (-2 * x)) := by
    rw [sinh_eq, mul_sub, ← exp_add]; ring_nf
  rw [h, one_div, mul_inv, ← exp_neg, div_eq_mul_inv]

/-- The heat capacity of a mode lies between 0 and 1 (C11). -/
theorem csch_sq_bound (x : ℝ) (hx : 0 < x) : 0 < (x / sinh x) ^ 2 ∧ (x / sinh x) ^ 2 < 1 := by
  have hs : x < sinh x := self_lt_sinh_iff.mpr hx
  have h0 : 0 < x / sinh x := div_pos hx (hx.trans hs)
  have h1 : x / sinh x < 1 := (div_lt_one (hx.trans hs)).mpr hs
  exact ⟨by positivity, by nlinarith⟩

/-- The geometric mean to the power `-D` is the inverse product (C04, C22). -/
theorem gmean_pow (s : Finset ι) (ν : ι → ℝ) (hν : ∀ i ∈ s, 0 < ν i) (hs : s.Nonempty) :
    (exp ((∑ i ∈ s, log (ν i)) / s.card)) ^ (-(s.card : ℝ)) = (∏ i ∈ s, ν i)⁻¹ := by
  have hc : (s.card : ℝ) ≠ 0 := by exact_mod_cast hs.card_ne_zero
  rw [← exp_mul, div_mul_eq_mul_div, mul_neg, neg_div, mul_div_cancel_right₀ _ hc, exp_neg,
    exp_sum]
  congr 1
  exact Finset.prod_congr rfl fun i hi => exp_log (hν i hi)

/-- Products of exponentials and of scaled factors. -/
theorem prod_exp (s : Finset ι) (f : ι → ℝ) : ∏ i ∈ s, exp (f i) = exp (∑ i ∈ s, f i) :=
  (exp_sum s f).symm

theorem prod_scaled (s : Finset ι) (f : ι → ℝ) (c : ℝ) :
    ∏ i ∈ s, c * f i = c ^ s.card * ∏ i ∈ s, f i := by
  rw [Finset.prod_mul_distrib, Finset.prod_const]

/-- The root of a product is the product of the roots. -/
theorem sqrt_prod3 (x y z : ℝ) (hx : 0 ≤ x) (hy : 0 ≤ y) :
    sqrt (x * y * z) = sqrt x * sqrt y * sqrt z := by
  rw [sqrt_mul (mul_nonneg hx hy), sqrt_mul hx]

/-! ### The limit T → 0, that is β → ∞ (C08) -/

theorem boltzmann_limit {E : ℝ} (hE : 0 < E) : Tendsto (fun β => exp (-(β * E))) atTop (𝓝 0) := by
  have : Tendsto (fun β : ℝ => β * E) atTop atTop := tendsto_id.atTop_mul_const hE
  exact tendsto_exp_neg_atTop_nhds_zero.comp this

/-- A weight `g exp(-β E)` tends to `g` on the minima of lowest energy and to 0 elsewhere. -/
theorem weight_limit (g E : ℝ) (hE : 0 ≤ E) :
    Tendsto (fun β => g * exp (-(β * E))) atTop (𝓝 (if E = 0 then g else 0)) := by
  by_cases h : E = 0
  · simp [h]
  · have := (boltzmann_limit (lt_of_le_of_ne hE (Ne.symm h))).const_mul g
    simpa [h] using this

/-- The probabilities tend to the shares among the minima of lowest energy. -/
theorem prob_limit (s : Finset ι) (g E : ι → ℝ) (hE : ∀ a ∈ s, 0 ≤ E a)
    (hg : ∀ a ∈ s, 0 < g a) {m : ι} (hm : m ∈ s) (h0 : E m = 0) (a : ι) (ha : a ∈ s) :
    Tendsto (fun β => g a * exp (-(β * E a)) / ∑ b ∈ s, g b * exp (-(β * E b))) atTop
      (𝓝 ((if E a = 0 then g a else 0) / ∑ b ∈ s, if E b = 0 then g b else 0)) := by
  have hpos : 0 < ∑ b ∈ s, if E b = 0 then g b else 0 := by
    refine sum_pos_of_one_pos s _ (fun b hb => ?_) hm ?_
    · by_cases h : E b = 0 <;> simp [h, (hg b hb).le]
    · simpa [h0] using hg m hm
  exact (weight_limit (g a) (E a) (hE a ha)).div
    (tendsto_finsetSum s fun b hb => weight_limit (g b) (E b) (hE b hb)) hpos.ne'

/-- `β E exp(-β E)` and `(β E)² exp(-β E)` vanish: no electronic heat capacity at 0 K. -/
theorem electronic_heat_limit {E : ℝ} (hE : 0 < E) (k : ℕ) :
    Tendsto (fun β => (β * E) ^ k * exp (-(β * E))) atTop (𝓝 0) := by
  have : Tendsto (fun β : ℝ => β * E) atTop atTop := tendsto_id.atTop_mul_const hE
  exact (tendsto_pow_mul_exp_neg_atTop_nhds_zero k).comp this

/-- `x < 2 sinh x` growth bound used for the limit of the quantum heat capacity. -/
theorem quantum_heat_limit : Tendsto (fun x : ℝ => (x / sinh x) ^ 2) atTop (𝓝 0) := by
  have h1 : Tendsto (fun x : ℝ => x ^ 1 * exp (-x)) atTop (𝓝 0) :=
    tendsto_pow_mul_exp_neg_atTop_nhds_zero 1
  have h2 : Tendsto (fun x : ℝ => 4 * (x ^ 1 * exp (-x))) atTop (𝓝 0) := by
    simpa using h1.const_mul 4
  have h3 : Tendsto (fun x : ℝ => x / sinh x) atTop (𝓝 0) := by
    refine squeeze_zero' (f := fun x => x / sinh x) (g := fun x => 4 * (x ^ 1 * exp (-x))) ?_ ?_ h2
    · filter_upwards [eventually_gt_atTop 0] with x hx
      exact (div_pos hx (sinh_pos_iff.mpr hx)).le
    · filter_upwards [eventually_gt_atTop 1] with x hx
      have hx0 : 0 < x := by linarith
      have hs : exp x / 4 ≤ sinh x := by
        rw [sinh_eq]
        have a1 : 2 ≤ exp x := by have := add_one_le_exp x; linarith
        have a2 : exp (-x) ≤ 1 := exp_le_one_iff.mpr (by linarith)
        linarith
      have he : 0 < exp x / 4 := by positivity
      calc x / sinh x ≤ x / (exp x / 4) := div_le_div_of_nonneg_left hx0.le he hs
        _ = 4 * (x ^ 1 * exp (-x)) := by rw [exp_neg]; field_simp
  simpa using h3.pow 2

/-! ### Range of the quantum contribution (C23) -/

/-- `x` exceeds `ln (2 sinh x)` (where positive) by at most `arsinh (1/2)`. -/
theorem exponent_budget (x : ℝ) (hx : 0 < x) :
    x - max (log (2 * sinh x)) 0 ≤ arsinh (1 / 2) := by
  have hs : 0 < 2 * sinh x := by have := sinh_pos_iff.mpr hx; positivity
  by_cases h : 2 * sinh x ≤ 1
  · have : x ≤ arsinh (1 / 2) := by
      rw [← arsinh_sinh x]; exact arsinh_le_arsinh.mpr (by linarith)
    have := le_max_right (log (2 * sinh x)) 0
    linarith
  · push Not at h
    have ha : arsinh (1 / 2) ≤ x := by
      rw [← arsinh_sinh x]; exact arsinh_le_arsinh.mpr (by linarith)
    -- exp x / (2 sinh x) decreases in x; at arsinh (1/2) it equals exp (arsinh (1/2))
    have hl : x - log (2 * sinh x) ≤ arsinh (1 / 2) := by
      set y := arsinh (1 / 2) with hy
      have hsy : 2 * sinh y = 1 := by rw [hy, sinh_arsinh]; norm_num
      have key : exp (x - y) ≤ 2 * sinh x := by
        have e1 : 2 * sinh x = exp (x - y) * exp y - exp (-(x - y)) * exp (-y) := by
          rw [sinh_eq, ← exp_add, ← exp_add]; ring_nf
        have e2 : exp y - exp (-y) = 1 := by rw [← hsy, sinh_eq]; ring
        have e3 : exp (-(x - y)) ≤ exp (x - y) := exp_le_exp.mpr (by linarith)
        have e4 : 0 < exp (-y) := exp_pos _
        rw [e1]
        nlinarith
      have := (le_log_iff_exp_le hs).mpr key
      linarith
    have := le_max_left (log (2 * sinh x)) 0
    linarith

/-- A weight never exceeds its exponential bound, nor the sum its largest term times N. -/
theorem sum_le_card_mul (s : Finset ι) (z : ι → ℝ) {u : ℝ} (h : ∀ a ∈ s, z a ≤ u) :
    ∑ a ∈ s, z a ≤ s.card * u := by
  simpa [nsmul_eq_mul] using Finset.sum_le_card_nsmul s z u h

end OccuProb

#print axioms OccuProb.logsum_second_deriv
#print axioms OccuProb.variance_nonneg
#print axioms OccuProb.csch_sq_bound
#print axioms OccuProb.mode_v
#print axioms OccuProb.gmean_pow
#print axioms OccuProb.prob_limit
#print axioms OccuProb.electronic_heat_limit
#print axioms OccuProb.quantum_heat_limit
#print axioms OccuProb.exponent_budget
#print axioms OccuProb.average_bounds
