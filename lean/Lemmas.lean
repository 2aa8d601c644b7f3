import Mathlib

/-! Mathematical lemmas behind the term rules of `tvc` and behind the final step of the
normalization argument.  Checked by Lean against Mathlib; nothing here mentions the code:
the code is connected to these statements by the contracts in /verif/contracts. -/

open Matrix Kronecker BigOperators ComplexOrder

set_option linter.unusedSectionVars false

namespace TVC

variable {R : Type*} {D E : Type*} [Fintype D] [DecidableEq D] [Fintype E] [DecidableEq E]

/-- Rule `pairs`: multiplying neighbours pairwise (left to right, the odd one kept) does not change an ordered product. -/
def pairs [Mul R] : List R → List R
  | [] => []
  | [a] => [a]
  | a :: b :: l => (a * b) :: pairs l

theorem pairs_prod [Monoid R] : ∀ l : List R, (pairs l).prod = l.prod
  | [] => rfl
  | [a] => rfl
  | a :: b :: l => by simp [pairs, pairs_prod l, mul_assoc]

/-- Rule `first/last`: unfolding an ordered product at either end, and cutting it anywhere. -/
theorem prod_unfold_left [Monoid R] (a : R) (l : List R) : (a :: l).prod = a * l.prod := by simp

theorem prod_unfold_right [Monoid R] (a : R) (l : List R) : (l ++ [a]).prod = l.prod * a := by simp

theorem prod_split [Monoid R] (n : ℕ) (l : List R) : (l.take n).prod * (l.drop n).prod = l.prod := by
  rw [← List.prod_append, List.take_append_drop]

/-- Rule `recurrence`: running products with the removed magnitudes kept in a log scale. -/
theorem log_recurrence [CommRing R] [Algebra ℝ R] (f : ℕ → Matrix D D R) (X : ℕ → Matrix D D R) (L : ℕ → ℝ)
    (h : ∀ k, Real.exp (L (k + 1)) • X (k + 1) = Real.exp (L k) • (X k * f k)) (n : ℕ) :
    Real.exp (L n) • X n = (Real.exp (L 0) • X 0) * ((List.range n).map f).prod := by
  induction n with
  | zero => simp
  | succ n ih => rw [h, List.range_succ, List.map_append, List.prod_append, ← mul_assoc, ← ih]; simp

/-- Rule `transpose`: an ordered product read from the other side. -/
theorem transpose_prod [CommSemiring R] (l : List (Matrix D D R)) :
    l.prodᵀ = (l.map Matrix.transpose).reverse.prod := Matrix.transpose_list_prod l

/-- Summing an ordered product over all sequences gives the ordered product of the sums. -/
theorem sum_prod_ofFn [Semiring R] {K : Type*} [Fintype K] : ∀ {n : ℕ} (M : Fin n → K → R),
    ∑ x : Fin n → K, (List.ofFn fun t => M t (x t)).prod = (List.ofFn fun t => ∑ k, M t k).prod
  | 0, M => by simp
  | n + 1, M => by
    rw [← (Fin.consEquiv (fun _ => K)).sum_comp, Fintype.sum_prod_type, List.ofFn_succ, List.prod_cons, ← sum_prod_ofFn, Finset.sum_mul_sum]
    refine Finset.sum_congr rfl fun k _ => Finset.sum_congr rfl fun x _ => ?_
    simp [Fin.consEquiv, List.ofFn_succ]

/-- Kronecker products of ordered products. -/
theorem kron_prod [CommSemiring R] : ∀ {n : ℕ} (A : Fin n → Matrix D D R) (B : Fin n → Matrix E E R),
    (List.ofFn A).prod ⊗ₖ (List.ofFn B).prod = (List.ofFn fun t => A t ⊗ₖ B t).prod
  | 0, A, B => by simp
  | n + 1, A, B => by
    rw [List.ofFn_succ, List.ofFn_succ, List.ofFn_succ, List.prod_cons, List.prod_cons, List.prod_cons, ← kron_prod, Matrix.mul_kronecker_mul]

/-- amplitude of a sequence -/
noncomputable def amp {n : ℕ} {K : Type*} (l r : D → ℂ) (A : Fin n → K → Matrix D D ℂ) (x : Fin n → K) : ℂ :=
  ∑ a, ∑ b, l a * (List.ofFn fun t => A t (x t)).prod a b * r b

/-- C01: the squared amplitudes of all sequences of length n sum to the transfer contraction
(which the contracts of get_log_norm show to be exp(log Z)). -/
theorem born_sum {n : ℕ} {K : Type*} [Fintype K] (l r : D → ℂ) (A : Fin n → K → Matrix D D ℂ) :
    ∑ x : Fin n → K, amp l r A x * star (amp l r A x) =
      ∑ a, ∑ a', ∑ b, ∑ b', l a * star (l a') *
        (List.ofFn fun t => ∑ k, A t k ⊗ₖ (A t k).map star).prod (a, a') (b, b') * (r b * star (r b')) := by
  have hs : ∀ x : Fin n → K, (List.ofFn fun t => (A t (x t)).map (star : ℂ → ℂ)).prod = ((List.ofFn fun t => A t (x t)).prod).map star := by
    intro x
    have := map_list_prod ((starRingEnd ℂ).mapMatrix (m := D)) (List.ofFn fun t => A t (x t))
    rw [List.map_ofFn] at this
    exact this.symm
  rw [← sum_prod_ofFn (fun t k => A t k ⊗ₖ (A t k).map star)]
  simp_rw [← kron_prod, hs, Matrix.sum_apply, Finset.mul_sum, Finset.sum_mul]
  have e : ∀ x : Fin n → K, amp l r A x * star (amp l r A x) =
      ∑ a, ∑ a', ∑ b, ∑ b', l a * star (l a') *
        ((List.ofFn fun t => A t (x t)).prod ⊗ₖ ((List.ofFn fun t => A t (x t)).prod).map star) (a, a') (b, b') * (r b * star (r b')) := by
    intro x
    unfold amp
    rw [star_sum, Finset.sum_mul_sum]
    refine Finset.sum_congr rfl fun a _ => Finset.sum_congr rfl fun a' _ => ?_
    rw [star_sum, Finset.sum_mul_sum]
    refine Finset.sum_congr rfl fun b _ => Finset.sum_congr rfl fun b' _ => ?_
    simp [Matrix.kroneckerMap_apply]
    ring
  simp_rw [e]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun a _ => ?_
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun a' _ => ?_
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun b _ => ?_
  rw [Finset.sum_comm]

/-- C01: probabilities exp(log|ψ|² - log Z) sum to one when Z is the sum of the squared amplitudes. -/
theorem probabilities_sum {ι : Type*} [Fintype ι] (p : ι → ℝ) (z : ℝ) (hz : z = ∑ i, p i) (h0 : z ≠ 0) :
    ∑ i, p i / z = 1 := by
  rw [← Finset.sum_div, ← hz, div_self h0]

/-- C07: marginalizing an embedded site over a discrete domain inserts Lambda. -/
theorem embedded_site {K d : Type*} [Fintype K] [Fintype d] (φ : K → d → ℂ) (A : d → Matrix D D ℂ) :
    ∑ k, (∑ x, φ k x • A x) ⊗ₖ (∑ y, φ k y • A y).map star =
      ∑ x, ∑ y, (∑ k, φ k x * star (φ k y)) • (A x ⊗ₖ (A y).map star) := by
  ext ⟨a, a'⟩ ⟨b, b'⟩
  simp only [Matrix.sum_apply, Matrix.kroneckerMap_apply, Matrix.smul_apply, Matrix.map_apply, smul_eq_mul]
  have e : ∀ k, (∑ x, φ k x * A x a b) * star (∑ y, φ k y * A y a' b') =
      ∑ x, ∑ y, φ k x * star (φ k y) * (A x a b * star (A y a' b')) := by
    intro k
    rw [star_sum, Finset.sum_mul_sum]
    refine Finset.sum_congr rfl fun x _ => Finset.sum_congr rfl fun y _ => ?_
    rw [star_mul']
    ring
  simp_rw [e, Finset.sum_mul]
  rw [Finset.sum_comm]
  refine Finset.sum_congr rfl fun x _ => ?_
  rw [Finset.sum_comm]

/-- Rule `psd`: a positive semidefinite matrix with zero trace vanishes. -/
theorem psd_trace_zero (M : Matrix D D ℂ) (h : M.PosSemidef) (t : M.trace = 0) : M = 0 :=
  h.trace_eq_zero_iff.mp t

/-- Rule `psd`: density matrices stay positive semidefinite when a site is absorbed. -/
theorem psd_step {K : Type*} [Fintype K] (A : K → Matrix D D ℂ) (M : Matrix D D ℂ) (h : M.PosSemidef) :
    (∑ k, (A k)ᴴ * M * A k).PosSemidef := by
  refine Matrix.posSemidef_sum _ fun k _ => ?_
  simpa using h.conjTranspose_mul_mul_same (A k)

/-- Rule `binomial`: unit norm of the trigonometric embedding. -/
theorem trig_unit (m : ℕ) (x : ℝ) :
    ∑ j ∈ Finset.range (m + 1), (Real.sqrt (m.choose j) * Real.cos x ^ (m - j) * Real.sin x ^ j) ^ 2 = 1 := by
  have h := add_pow (Real.sin x ^ 2) (Real.cos x ^ 2) m
  rw [Real.sin_sq_add_cos_sq, one_pow] at h
  rw [h]
  refine Finset.sum_congr rfl fun j _ => ?_
  rw [mul_pow, mul_pow, Real.sq_sqrt (by positivity)]
  ring

/-- binary patterns of length L are in bijection with 0 .. 2^L-1; 0 and 2^L-1 are the two constant ones -/
def digits (L : ℕ) (h : Fin (2 ^ L)) : Fin L → Fin 2 := fun j => ⟨h / 2 ^ (L - 1 - j) % 2, Nat.mod_lt _ (by norm_num)⟩

theorem digits_injective (L : ℕ) : Function.Injective (digits L) := by
  intro a b hab
  apply Fin.ext
  apply Nat.eq_of_testBit_eq
  intro i
  by_cases hi : i < L
  · have h := congrFun hab ⟨L - 1 - i, by omega⟩
    have h2 := congrArg Fin.val h
    simp only [digits] at h2
    have e : L - 1 - (L - 1 - i) = i := by omega
    rw [e] at h2
    simp only [Nat.testBit_eq_decide_div_mod_eq, h2]
  · have hp : 2 ^ L ≤ 2 ^ i := Nat.pow_le_pow_right (by norm_num) (by omega)
    rw [Nat.testBit_lt_two_pow (lt_of_lt_of_le a.2 hp), Nat.testBit_lt_two_pow (lt_of_lt_of_le b.2 hp)]

theorem digits_bijective (L : ℕ) : Function.Bijective (digits L) :=
  (Fintype.bijective_iff_injective_and_card _).2 ⟨digits_injective L, by simp⟩

theorem digits_zero (L : ℕ) (j : Fin L) : digits L ⟨0, by positivity⟩ j = 0 := by
  simp [digits]

theorem digits_last (L : ℕ) (j : Fin L) : digits L ⟨2 ^ L - 1, Nat.sub_lt (by positivity) one_pos⟩ j = 1 := by
  have h : (2 ^ L - 1).testBit (L - 1 - j) = true := by
    rw [Nat.testBit_two_pow_sub_one]
    have := j.2
    simp; omega
  rw [Nat.testBit_eq_decide_div_mod_eq] at h
  apply Fin.ext
  simpa [digits] using h

/-- C12: regrouping an ordered product of pairs: (L0 R0)(L1 R1)...(Lk Rk) = L0 (R0 L1) ... (R(k-1) Lk) Rk -/
theorem regroup [Monoid R] (L Q : ℕ → R) (k : ℕ) :
    ((List.range (k + 1)).map fun s => L s * Q s).prod =
      L 0 * ((List.range k).map fun s => Q s * L (s + 1)).prod * Q k := by
  induction k with
  | zero => simp
  | succ k ih =>
    rw [List.range_succ, List.map_append, List.prod_append, ih, List.range_succ (n := k), List.map_append, List.prod_append]
    simp [mul_assoc]

/-- C12: factors multiplied onto the cores come out of the ordered product ... -/
theorem scale_prod {A : Type*} [CommSemiring R] [Semiring A] [Algebra R A] (c : ℕ → R) (M : ℕ → A) (k : ℕ) :
    ((List.range k).map fun s => c s • M s).prod = (∏ s ∈ Finset.range k, c s) • ((List.range k).map M).prod := by
  induction k with
  | zero => simp
  | succ k ih =>
    rw [List.range_succ, List.map_append, List.prod_append, ih, List.map_append, List.prod_append, Finset.prod_range_succ]
    simp [smul_smul, mul_comm]

/-- ... and do not change it when their logarithms sum to zero. -/
theorem factors_one (c : ℕ → ℝ) (k : ℕ) (h : ∀ s, 0 < c s) (z : ∑ s ∈ Finset.range k, Real.log (c s) = 0) :
    ∏ s ∈ Finset.range k, c s = 1 := by
  have := Real.log_prod (s := Finset.range k) (f := c) (fun s _ => (h s).ne')
  rw [z] at this
  have p : 0 < ∏ s ∈ Finset.range k, c s := Finset.prod_pos fun s _ => h s
  rcases Real.log_eq_zero.mp this with h0 | h1 | h2
  · linarith
  · exact h1
  · linarith

end TVC
