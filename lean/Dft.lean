/-
Lemmas about the discrete Fourier transform that carry the contracts of `spec/syn.py` and `spec/reverb.py`
(stated with `fft`/`ifft`) to the words of properties C06, C12 and C14.

`ZMod.dft` is, by `ZMod.dft_apply`, k ↦ Σ j, exp(-2πi j k / n) • x j, the definition of `numpy.fft.fft`; its inverse
(`ZMod.invDFT_apply`) is that of `numpy.fft.ifft`.  Index arithmetic in `ZMod n` is circular index arithmetic.
Machine floats are taken to be exact numbers, as everywhere else.  No axioms beyond those of Mathlib, no `sorry`.
-/
import Mathlib.Analysis.Fourier.ZMod
open ZMod Complex Finset
open scoped ComplexConjugate

namespace Rfsed
variable {n : ℕ} [NeZero n]
set_option linter.unusedSectionVars false

/-- `np.exp(-1j * (2 * np.pi * signed(k, n) * m / n))`, the phase factor of `spec.reverb.response` and `spec.syn.delay`:
`ZMod.valMinAbs` is `signed` -/
noncomputable def phase (m k : ZMod n) : ℂ := stdAddChar (-(m * k))

theorem phase_signed (m : ℤ) (k : ZMod n) :
    phase (m : ZMod n) k = exp (-I * (2 * Real.pi * (k.valMinAbs : ℂ) * m / n)) := by
  have h : (-((m : ZMod n) * k)) = ((-(m * k.valMinAbs) : ℤ) : ZMod n) := by
    push_cast [coe_valMinAbs]; ring
  rw [phase, h, stdAddChar_coe]
  congr 1; push_cast; ring

/-- the same factor with the frequency counted from 0 (`spec.syn.delay`) -/
theorem phase_unsigned (m : ℤ) (k : ZMod n) :
    phase (m : ZMod n) k = exp (-I * (2 * Real.pi * (k.val : ℂ) * m / n)) := by
  have h : (-((m : ZMod n) * k)) = ((-(m * (k.val : ℤ)) : ℤ) : ZMod n) := by
    push_cast [natCast_zmod_val]; ring
  rw [phase, h, stdAddChar_coe]
  congr 1; push_cast; ring

/-- `signed`: the number of a frequency counted from -n/2 -/
theorem signed_def (k : ZMod n) : k.valMinAbs = if k.val ≤ n / 2 then (k.val : ℤ) else (k.val : ℤ) - n :=
  valMinAbs_def_pos k

/-! ### shifts -/

theorem dft_shift (x : ZMod n → ℂ) (m k : ZMod n) : dft (fun j => x (j - m)) k = phase m k * dft x k := by
  simp only [dft_apply, phase, smul_eq_mul, mul_sum]
  rw [← Equiv.sum_comp (Equiv.addRight m)]
  refine sum_congr rfl fun j _ => ?_
  simp only [Equiv.coe_addRight, add_sub_cancel_right]
  rw [← mul_assoc, ← AddChar.map_add_eq_mul]
  congr 2; ring

/-- C14: multiplying the spectrum by the phase factor moves every sample circularly by m and changes no amplitude -/
theorem ifft_phase (x : ZMod n → ℂ) (m : ZMod n) :
    dft.symm (fun k => dft x k * phase m k) = fun j => x (j - m) := by
  rw [LinearEquiv.symm_apply_eq]
  funext k
  rw [dft_shift, mul_comm]

/-- C06: the response 1 + r exp(-i w lag) adds r times the trace, circularly delayed -/
theorem resonance (D : ZMod n → ℂ) (r : ℂ) (m : ZMod n) :
    dft.symm (fun k => dft D k * (1 + r * phase m k)) = fun j => D j + r * D (j - m) := by
  rw [LinearEquiv.symm_apply_eq]
  funext k
  have : (fun j => D j + r * D (j - m)) = D + r • (fun j => D (j - m)) := by
    funext j; simp
  rw [this, map_add, _root_.map_smul]
  simp only [Pi.add_apply, Pi.smul_apply, smul_eq_mul, dft_shift]
  ring

/-- C06: without a trough (r = 0) the filtered trace is the trace -/
theorem resonance_none (D : ZMod n → ℂ) (m : ZMod n) :
    dft.symm (fun k => dft D k * (1 + 0 * phase m k)) = D := by
  rw [resonance]; simp

/-! ### correlation -/

theorem conj_dft (y : ZMod n → ℂ) (k : ZMod n) : conj (dft y k) = ∑ j, stdAddChar (j * k) * conj (y j) := by
  simp only [dft_apply, map_sum, smul_eq_mul, map_mul]
  refine sum_congr rfl fun j _ => ?_
  rw [AddChar.map_neg_eq_conj, Complex.conj_conj]

/-- C14: the correlation of two traces at lag k is the circular sum of x[i+k] * y[i] -/
theorem correlation (x y : ZMod n → ℂ) :
    dft.symm (fun k => dft x k * conj (dft y k)) = fun l => ∑ i, x (i + l) * conj (y i) := by
  rw [LinearEquiv.symm_apply_eq]
  funext k
  rw [conj_dft, dft_apply (fun l => ∑ i, x (i + l) * conj (y i)), mul_sum]
  simp only [smul_eq_mul, mul_sum]
  rw [sum_comm]
  refine sum_congr rfl fun j _ => ?_
  rw [dft_apply, sum_mul, ← Equiv.sum_comp (Equiv.addLeft j)]
  refine sum_congr rfl fun l _ => ?_
  simp only [Equiv.coe_addLeft, smul_eq_mul]
  have : (stdAddChar (-((j + l) * k)) : ℂ) * stdAddChar (j * k) = stdAddChar (-(l * k)) := by
    rw [← AddChar.map_add_eq_mul]; congr 1; ring
  calc _ = (stdAddChar (-((j + l) * k)) * stdAddChar (j * k)) * (x (j + l) * conj (y j)) := by ring
    _ = _ := by rw [this]

/-! ### real filters -/

/-- a spectrum whose negative frequencies mirror the positive ones -/
def Mirrored (G : ZMod n → ℂ) : Prop := ∀ k, G (-k) = conj (G k)

theorem dft_real (x : ZMod n → ℝ) : Mirrored (dft fun j => (x j : ℂ)) := by
  intro k
  rw [conj_dft, dft_apply]
  refine sum_congr rfl fun j _ => ?_
  simp

theorem mirrored_mul {G H : ZMod n → ℂ} (hG : Mirrored G) (hH : Mirrored H) : Mirrored fun k => G k * H k := by
  intro k; simp [hG k, hH k]

theorem mirrored_real_even (g : ZMod n → ℝ) (h : ∀ k, g (-k) = g k) : Mirrored fun k => (g k : ℂ) := by
  intro k; simp [h k]

/-- C14: filtering with a mirrored response keeps a real trace real -/
theorem ifft_real {X : ZMod n → ℂ} (h : Mirrored X) (j : ZMod n) : conj (dft.symm X j) = dft.symm X j := by
  rw [invDFT_apply]
  simp only [smul_eq_mul, map_mul, map_sum, map_inv₀, map_natCast]
  congr 1
  rw [← Equiv.sum_comp (Equiv.neg (ZMod n))]
  refine sum_congr rfl fun k _ => ?_
  simp only [Equiv.neg_apply, neg_mul]
  rw [AddChar.map_neg_eq_conj, Complex.conj_conj, h k, Complex.conj_conj]

theorem ifft_re {X : ZMod n → ℂ} (h : Mirrored X) (j : ZMod n) : ((dft.symm X j).re : ℂ) = dft.symm X j :=
  Complex.conj_eq_iff_re.mp (ifft_real h j)

/-- C14: the Gaussian response `exp(-w^2 / (4 a^2)) / dt`, w = 2 pi signed(k) / (n dt) -/
noncomputable def gauss (n : ℕ) (dt a : ℝ) (k : ZMod n) : ℝ :=
  Real.exp (-(2 * Real.pi * k.valMinAbs / (n * dt)) ^ 2 / (4 * a ^ 2)) / dt

/-- C14: its negative frequencies mirror the positive ones -/
theorem gauss_even (dt a : ℝ) (k : ZMod n) : gauss n dt a (-k) = gauss n dt a k := by
  have h : (((-k).valMinAbs : ℤ) : ℝ) ^ 2 = ((k.valMinAbs : ℤ) : ℝ) ^ 2 := by
    have h2 : (-k).valMinAbs ^ 2 = k.valMinAbs ^ 2 := by
      rw [← Int.natAbs_sq (-k).valMinAbs, natAbs_valMinAbs_neg, Int.natAbs_sq]
    exact_mod_cast h2
  simp only [gauss, div_pow, mul_pow, h]

theorem gauss_zero (dt a : ℝ) : gauss n dt a 0 = 1 / dt := by
  simp [gauss]

/-- `spec.syn.lowpass` -/
noncomputable def lowpass (G : ZMod n → ℂ) (dt : ℝ) (x : ZMod n → ℝ) (j : ZMod n) : ℝ :=
  (dft.symm (fun k => dft (fun j => (x j : ℂ)) k * G k * dt) j).re

theorem lowpass_mirrored {G : ZMod n → ℂ} (hG : Mirrored G) (dt : ℝ) (x : ZMod n → ℝ) :
    Mirrored fun k => dft (fun j => (x j : ℂ)) k * G k * dt := by
  intro k; simp [dft_real x k, hG k]

theorem lowpass_coe {G : ZMod n → ℂ} (hG : Mirrored G) (dt : ℝ) (x : ZMod n → ℝ) (j : ZMod n) :
    (lowpass G dt x j : ℂ) = dft.symm (fun k => dft (fun j => (x j : ℂ)) k * G k * dt) j :=
  ifft_re (lowpass_mirrored hG dt x) j

theorem dft_lowpass {G : ZMod n → ℂ} (hG : Mirrored G) (dt : ℝ) (x : ZMod n → ℝ) :
    dft (fun j => (lowpass G dt x j : ℂ)) = fun k => dft (fun j => (x j : ℂ)) k * G k * dt := by
  have : (fun j => (lowpass G dt x j : ℂ)) = dft.symm (fun k => dft (fun j => (x j : ℂ)) k * G k * dt) := by
    funext j; exact lowpass_coe hG dt x j
  rw [this, LinearEquiv.apply_symm_apply]

/-- C14: filtering is linear -/
theorem lowpass_linear (G : ZMod n → ℂ) (dt c : ℝ) (x y : ZMod n → ℝ) (j : ZMod n) :
    lowpass G dt (fun j => x j + c * y j) j = lowpass G dt x j + c * lowpass G dt y j := by
  have e : (fun j => ((x j + c * y j : ℝ) : ℂ)) = (fun j => (x j : ℂ)) + (c : ℂ) • (fun j => (y j : ℂ)) := by
    funext j; simp
  have h : (fun k => dft (fun j => ((x j + c * y j : ℝ) : ℂ)) k * G k * dt)
      = (fun k => dft (fun j => (x j : ℂ)) k * G k * dt) + (c : ℂ) • (fun k => dft (fun j => (y j : ℂ)) k * G k * dt) := by
    rw [e, map_add, _root_.map_smul]
    funext k
    simp only [Pi.add_apply, Pi.smul_apply, smul_eq_mul]
    ring
  simp only [lowpass]
  rw [h, map_add, _root_.map_smul]
  simp

/-- C14: the gain at zero frequency is dt * G 0, that is 1 for the Gaussian response -/
theorem lowpass_sum {G : ZMod n → ℂ} (hG : Mirrored G) (dt : ℝ) (x : ZMod n → ℝ) :
    ((∑ j, lowpass G dt x j : ℝ) : ℂ) = (∑ j, (x j : ℂ)) * G 0 * dt := by
  have h := congrFun (dft_lowpass hG dt x) 0
  simp only [dft_apply] at h
  simpa using h

theorem gauss_gain (dt a : ℝ) (hdt : dt ≠ 0) (x : ZMod n → ℝ) :
    ∑ j, lowpass (fun k => (gauss n dt a k : ℂ)) dt x j = ∑ j, x j := by
  have h := lowpass_sum (mirrored_real_even (gauss n dt a) (gauss_even dt a)) dt x
  rw [gauss_zero] at h
  have h2 : ((∑ j, x j : ℝ) : ℂ) = (∑ j, (x j : ℂ)) * ((1 / dt : ℝ) : ℂ) * dt := by
    push_cast
    have : (dt : ℂ) ≠ 0 := by exact_mod_cast hdt
    field_simp
  exact_mod_cast h.trans h2.symm

/-- `spec.syn.delay`: every sample moves circularly by m, amplitudes unchanged, for every m -/
theorem delay_eq (x : ZMod n → ℝ) (m j : ZMod n) :
    (dft.symm (fun k => dft (fun j => (x j : ℂ)) k * phase m k) j).re = x (j - m) := by
  rw [ifft_phase]; simp

/-- C06 for the real trace D and strength r: `filteredrf = np.real(ifft(fft(D) * R))` -/
theorem resonance_real (D : ZMod n → ℝ) (r : ℝ) (m j : ZMod n) :
    (dft.symm (fun k => dft (fun j => (D j : ℂ)) k * (1 + (r : ℂ) * phase m k)) j).re = D j + r * D (j - m) := by
  rw [resonance]; simp

/-! ### one step of the iterative deconvolution (C12) -/

/-- `spec.syn.correlation` of real traces -/
noncomputable def corr (x y : ZMod n → ℝ) (l : ZMod n) : ℝ :=
  (dft.symm (fun k => dft (fun j => (x j : ℂ)) k * conj (dft (fun j => (y j : ℂ)) k)) l).re

theorem corr_eq (x y : ZMod n → ℝ) (l : ZMod n) : corr x y l = ∑ i, x (i + l) * y i := by
  simp only [corr, correlation]
  have : (∑ i, (x (i + l) : ℂ) * conj (y i : ℂ)) = ((∑ i, x (i + l) * y i : ℝ) : ℂ) := by
    push_cast; simp
  rw [this, ofReal_re]

/-- `spec.syn.predicted` with the spectrum W of the unfiltered denominator w -/
noncomputable def predicted (G : ZMod n → ℂ) (dt : ℝ) (w p : ZMod n → ℝ) : ZMod n → ℝ :=
  lowpass (dft fun j => (w j : ℂ)) dt (lowpass G dt p)

theorem predicted_add (G : ZMod n → ℂ) (dt c : ℝ) (w p q : ZMod n → ℝ) (j : ZMod n) :
    predicted G dt w (fun j => p j + c * q j) j = predicted G dt w p j + c * predicted G dt w q j := by
  have : lowpass G dt (fun j => p j + c * q j) = fun j => lowpass G dt p j + c * lowpass G dt q j := by
    funext j; exact lowpass_linear G dt c p q j
  rw [predicted, this, lowpass_linear]; rfl

/-- a unit spike at i predicts dt times the filtered denominator, circularly delayed by i -/
theorem predicted_spike {G : ZMod n → ℂ} (hG : Mirrored G) (dt : ℝ) (w : ZMod n → ℝ) (i j : ZMod n) :
    predicted G dt w (fun l => if l = i then 1 else 0) j = dt * lowpass G dt w (j - i) := by
  have hW := dft_real w
  have hd : ∀ k, dft (fun l => (((if l = i then 1 else 0 : ℝ)) : ℂ)) k = phase i k := by
    intro k
    rw [dft_apply, Finset.sum_eq_single i]
    · simp [phase]
    · intro b _ hb; simp [hb]
    · intro h; exact absurd (Finset.mem_univ i) h
  have key : (predicted G dt w (fun l => if l = i then 1 else 0) j : ℂ) = (dt * lowpass G dt w (j - i) : ℝ) := by
    rw [predicted, lowpass_coe hW]
    rw [dft_lowpass hG]
    push_cast
    rw [lowpass_coe hG]
    have hs := congrFun (ifft_phase (dft.symm (fun k => dft (fun j => (w j : ℂ)) k * G k * dt)) i) j
    simp only [LinearEquiv.apply_symm_apply] at hs
    rw [← hs]
    have : (fun k => dft (fun l => (((if l = i then 1 else 0 : ℝ)) : ℂ)) k * G k * dt * dft (fun j => (w j : ℂ)) k * dt)
        = (dt : ℂ) • (fun k => dft (fun j => (w j : ℂ)) k * G k * dt * phase i k) := by
      funext k
      simp only [hd, Pi.smul_apply, smul_eq_mul]
      ring
    rw [this, _root_.map_smul]
    simp
  exact_mod_cast key

/-- C12: adding the spike `c[i]/dt` at i, with c the correlation of the residual r = u - predicted p and the filtered
denominator divided by its power, lowers the power of the residual by corr(i)^2 / power: the misfit never increases -/
theorem spike_lowers {G : ZMod n → ℂ} (hG : Mirrored G) {dt : ℝ} (hdt : dt ≠ 0) (u w p : ZMod n → ℝ) (i : ZMod n)
    (hw : ∑ j, lowpass G dt w j ^ 2 ≠ 0) :
    let wf := lowpass G dt w
    let r := fun j => u j - predicted G dt w p j
    let amp := corr r wf i / (∑ j, wf j ^ 2) / dt
    ∑ j, (u j - predicted G dt w (fun l => p l + amp * (if l = i then 1 else 0)) j) ^ 2
      = ∑ j, r j ^ 2 - corr r wf i ^ 2 / ∑ j, wf j ^ 2 := by
  intro wf r amp
  set S := ∑ j, wf j ^ 2 with hS
  set c := corr r wf i with hc
  have hr : ∀ j, u j - predicted G dt w (fun l => p l + amp * (if l = i then 1 else 0)) j = r j - c / S * wf (j - i) := by
    intro j
    rw [predicted_add, predicted_spike hG]
    have ha : amp * dt = c / S := by
      simp only [amp, ← hc, ← hS]
      field_simp
    have : amp * (dt * lowpass G dt w (j - i)) = c / S * wf (j - i) := by
      rw [← mul_assoc, ha]
    rw [this]
    simp only [r]
    ring
  have h1 : ∑ j, wf (j - i) ^ 2 = S := by
    rw [hS, ← Equiv.sum_comp (Equiv.addRight i)]
    simp
  have h2 : ∑ j, r j * wf (j - i) = c := by
    rw [hc, corr_eq, ← Equiv.sum_comp (Equiv.addRight i)]
    simp
  simp only [hr]
  calc ∑ j, (r j - c / S * wf (j - i)) ^ 2
      = ∑ j, (r j ^ 2 - 2 * (c / S) * (r j * wf (j - i)) + (c / S) ^ 2 * wf (j - i) ^ 2) := by
        refine sum_congr rfl fun j _ => ?_; ring
    _ = ∑ j, r j ^ 2 - 2 * (c / S) * c + (c / S) ^ 2 * S := by
        rw [sum_add_distrib, sum_sub_distrib, ← mul_sum, ← mul_sum, h1, h2]
    _ = _ := by
        have : S ≠ 0 := hw
        field_simp
        ring

theorem misfit_never_increases {G : ZMod n → ℂ} (hG : Mirrored G) {dt : ℝ} (hdt : dt ≠ 0) (u w p : ZMod n → ℝ) (i : ZMod n)
    (hw : ∑ j, lowpass G dt w j ^ 2 ≠ 0) {power : ℝ} (hp : 0 < power) :
    let wf := lowpass G dt w
    let r := fun j => u j - predicted G dt w p j
    let amp := corr r wf i / (∑ j, wf j ^ 2) / dt
    (∑ j, (u j - predicted G dt w (fun l => p l + amp * (if l = i then 1 else 0)) j) ^ 2) / power ≤ (∑ j, r j ^ 2) / power := by
  intro wf r amp
  have h := spike_lowers hG hdt u w p i hw
  simp only at h
  have h0 : 0 ≤ corr r wf i ^ 2 / ∑ j, wf j ^ 2 :=
    div_nonneg (sq_nonneg _) (Finset.sum_nonneg fun j _ => sq_nonneg _)
  apply div_le_div_of_nonneg_right _ hp.le
  rw [h]
  exact sub_le_self _ h0

end Rfsed
