/-
The identities behind the rewriting rules of pyvc/terms.py, over the real numbers.

Check with:  lean lemmas/Rules.lean
-/
import Mathlib.LinearAlgebra.Matrix.NonsingularInverse
import Mathlib.LinearAlgebra.Matrix.SchurComplement
import Mathlib.LinearAlgebra.Matrix.PosDef
import Mathlib.Analysis.Matrix.PosDef
import Mathlib.LinearAlgebra.Matrix.Hadamard
import Mathlib.Data.Real.Basic
import Mathlib.Analysis.SpecialFunctions.Log.Basic

open Matrix

set_option linter.all false

namespace Rules

variable {l m n k : Type*} [Fintype l] [Fintype m] [Fintype n] [Fintype k]
variable [DecidableEq l] [DecidableEq m] [DecidableEq n] [DecidableEq k]

/-! Selections.  A selection `S` (of the rows of a mask) and the transpose of an embedding `E` (of a block) are
matrices `Sel f` with injective `f`. -/

/-- The matrix that picks row `f i` of its right factor. -/
def Sel (f : m → n) : Matrix m n ℝ := of fun i j => if f i = j then 1 else 0

/-- Selecting rows. -/
theorem sel_mul (f : m → n) (A : Matrix n k ℝ) : Sel f * A = A.submatrix f id := by
  ext i j
  simp [Sel, Matrix.mul_apply]

/-- `S S' = 1`, `E' E = 1`. -/
theorem sel_mul_transpose (f : m → n) (hf : Function.Injective f) : Sel f * (Sel f)ᵀ = 1 := by
  rw [sel_mul]
  ext i j
  simp only [Sel, submatrix_apply, transpose_apply, of_apply, id, Matrix.one_apply]
  by_cases h : i = j
  · simp [h]
  · have : ¬ f j = f i := fun e => h (hf e.symm)
    simp [h, this]

/-- `E_i' E_j = 0` for disjoint blocks. -/
theorem sel_mul_transpose_disjoint (f : m → n) (g : k → n) (h : ∀ i j, f i ≠ g j) : Sel f * (Sel g)ᵀ = 0 := by
  rw [sel_mul]
  ext i j
  have : ¬ g j = f i := fun e => h i j e.symm
  simp [Sel, this]

/-- Compositions of selections (or embeddings) are selections (embeddings). -/
theorem sel_mul_sel (f : m → n) (g : n → k) : Sel f * Sel g = Sel (g ∘ f) := by
  rw [sel_mul]
  ext i j
  simp [Sel]

/-- A mask of a block: `S E = E' S'` if both sides select the same rows. -/
theorem sel_exchange (s : m → n) (e : k → n) (e' : l → m) (s' : l → k)
    (hs : Function.Injective s) (he : Function.Injective e)
    (comm : ∀ i, s (e' i) = e (s' i))
    (pull : ∀ i j, s i = e j → ∃ a, e' a = i ∧ s' a = j) (he' : Function.Injective e') :
    Sel s * (Sel e)ᵀ = (Sel e')ᵀ * Sel s' := by
  ext i j
  rw [sel_mul]
  simp only [Sel, submatrix_apply, transpose_apply, of_apply, id, Matrix.mul_apply]
  by_cases h : e j = s i
  · obtain ⟨a, ha, hb⟩ := pull i j h.symm
    rw [if_pos h, Finset.sum_eq_single a]
    · simp [ha, hb]
    · intro b _ hba
      have : e' b ≠ i := fun q => hba (he' (q.trans ha.symm))
      simp [this]
    · simp
  · rw [if_neg h]
    symm
    apply Finset.sum_eq_zero
    intro a _
    by_cases h1 : e' a = i
    · have : s' a ≠ j := by
        intro h2
        apply h
        rw [← h2, ← comm, h1]
      simp [this]
    · simp [h1]

/-- `E' D(v) = D(E' v) E'`. -/
theorem sel_diagonal (f : m → n) (v : n → ℝ) : Sel f * diagonal v = diagonal (v ∘ f) * Sel f := by
  ext i j
  rw [sel_mul]
  simp only [submatrix_apply, id, diagonal_mul, Sel, of_apply, Function.comp, diagonal_apply]
  by_cases h : f i = j <;> simp [h]

/-- `D(E v) = E D(v) E'`. -/
theorem diagonal_embed (f : m → n) (hf : Function.Injective f) (v : m → ℝ) :
    diagonal ((Sel f)ᵀ *ᵥ v) = (Sel f)ᵀ * diagonal v * Sel f := by
  ext i j
  simp only [mul_apply, diagonal_apply, transpose_apply, Sel, of_apply, mulVec, dotProduct]
  by_cases h : i = j
  · subst h
    simp only [if_true]
    apply Finset.sum_congr rfl
    intro a _
    by_cases h1 : f a = i
    · simp [h1]
    · simp [h1]
  · rw [if_neg h]
    symm
    apply Finset.sum_eq_zero
    intro a _
    by_cases h1 : f a = j
    · have h2 : ¬ f a = i := fun e => h (e.symm.trans h1)
      have : ∀ b, (if f b = i then (1 : ℝ) else 0) * (if b = a then v b else 0) = 0 := by
        intro b
        by_cases hb : b = a
        · subst hb; simp [h2]
        · simp [hb]
      simp [this]
    · simp [h1]

/-- Rows of the kernel matrix of selected inputs are selected rows. -/
theorem kernel_sel {X Y : Type*} (K : X → Y → ℝ) (f : m → n) (x : n → X) (y : k → Y) :
    (of fun i j => K ((x ∘ f) i) (y j) : Matrix m k ℝ) = Sel f * of fun i j => K (x i) (y j) := by
  rw [sel_mul]
  ext i j
  simp

/-! Elementwise products. -/

/-- `(u v') ∘ X = D(u) X D(v)`. -/
theorem rank_one_hadamard (u : m → ℝ) (v : n → ℝ) (X : Matrix m n ℝ) :
    (vecMulVec u v) ⊙ X = diagonal u * X * diagonal v := by
  ext i j
  simp [hadamard, vecMulVec, diagonal_mul, mul_diagonal]
  ring

/-- `(D(u) X) ∘ Y = D(u) (X ∘ Y)`. -/
theorem diagonal_hadamard (u : m → ℝ) (X Y : Matrix m n ℝ) :
    (diagonal u * X) ⊙ Y = diagonal u * (X ⊙ Y) := by
  ext i j
  simp [hadamard, diagonal_mul, mul_assoc]

/-- `u' (X ∘ Y) = diag(X' D(u) Y)'`. -/
theorem vec_hadamard (u : m → ℝ) (X Y : Matrix m n ℝ) (j : n) :
    (u ᵥ* (X ⊙ Y)) j = (Xᵀ * diagonal u * Y) j j := by
  rw [mul_apply]
  simp only [vecMul, dotProduct, hadamard, of_apply, mul_diagonal, transpose_apply]
  apply Finset.sum_congr rfl
  intro i _
  ring

/-- `diag(X Y')` of columns is the elementwise product. -/
theorem diag_outer (u v : m → ℝ) (i : m) : (vecMulVec u v) i i = u i * v i := by
  simp [vecMulVec]

/-- `1' (a ∘ b) = a' b`. -/
theorem sum_hadamard (a b : m → ℝ) : (1 : m → ℝ) ⬝ᵥ (a * b) = a ⬝ᵥ b := by
  simp [dotProduct]

/-- `diag(E X E') = E diag(X)` row by row: inside of the block. -/
theorem diag_sel (f : m → n) (X : Matrix n n ℝ) (i : m) : (Sel f * X * (Sel f)ᵀ) i i = X (f i) (f i) := by
  rw [sel_mul]
  simp [mul_apply, Sel]

/-! Inverses and Cholesky factors. -/

/-- `L'^-1 L^-1 = P^-1`. -/
theorem chol_inv (L P : Matrix n n ℝ) (h : L * Lᵀ = P) : (Lᵀ)⁻¹ * L⁻¹ = P⁻¹ := by
  rw [← h, Matrix.mul_inv_rev]

/-- `L^-1 P L'^-1 = 1`. -/
theorem chol_whiten (L P : Matrix n n ℝ) (h : L * Lᵀ = P) (hL : IsUnit L.det) : L⁻¹ * P * (Lᵀ)⁻¹ = 1 := by
  have hT : IsUnit (Lᵀ).det := by rwa [det_transpose]
  rw [← h, ← mul_assoc, nonsing_inv_mul L hL, one_mul, mul_nonsing_inv (Lᵀ) hT]

/-- `P P^-1 = 1`, `P^-1 P = 1`. -/
theorem mul_inv (P : Matrix n n ℝ) (h : P.PosDef) : P * P⁻¹ = 1 ∧ P⁻¹ * P = 1 := by
  have : IsUnit P.det := (isUnit_iff_isUnit_det P).1 h.isUnit
  exact ⟨mul_nonsing_inv P this, nonsing_inv_mul P this⟩

/-- The inverse of a congruence. -/
theorem congruence_inv (L A : Matrix n n ℝ) : (L * A * Lᵀ)⁻¹ = (Lᵀ)⁻¹ * A⁻¹ * L⁻¹ := by
  rw [Matrix.mul_inv_rev, Matrix.mul_inv_rev, ← mul_assoc]

/-- The inverse of a block-diagonal matrix. -/
theorem blocks_inv (A : Matrix m m ℝ) (B : Matrix n n ℝ) (hA : IsUnit A.det) (hB : IsUnit B.det) :
    (fromBlocks A 0 0 B)⁻¹ = fromBlocks A⁻¹ 0 0 B⁻¹ := by
  apply inv_eq_right_inv
  rw [fromBlocks_multiply]
  simp [mul_nonsing_inv _ hA, mul_nonsing_inv _ hB]

/-- The inverse of a diagonal matrix. -/
theorem diagonal_inv (v : n → ℝ) (h : ∀ i, v i ≠ 0) : (diagonal v)⁻¹ = diagonal (fun i => (v i)⁻¹) := by
  apply inv_eq_right_inv
  rw [diagonal_mul_diagonal]
  ext i j
  by_cases e : i = j
  · subst e; simp [h i]
  · simp [e]

/-- The identity of Woodbury (`w.lowrank_inv`), in the form with `K^-1` as the middle factor. -/
theorem woodbury (N : Matrix n n ℝ) (U : Matrix n k ℝ) (K : Matrix k k ℝ)
    (hN : IsUnit N) (hK : IsUnit K) (hM : IsUnit (K + Uᵀ * N⁻¹ * U)) :
    (N + U * K⁻¹ * Uᵀ)⁻¹ = N⁻¹ - N⁻¹ * U * (K + Uᵀ * N⁻¹ * U)⁻¹ * Uᵀ * N⁻¹ := by
  have hK' : IsUnit K.det := (isUnit_iff_isUnit_det K).1 hK
  have hKi : (K⁻¹)⁻¹ = K := nonsing_inv_nonsing_inv K hK'
  have hKu : IsUnit K⁻¹ := (isUnit_nonsing_inv_iff).2 hK
  have := add_mul_mul_inv_eq_sub N U K⁻¹ Uᵀ hN hKu (by rwa [hKi])
  rwa [hKi] at this

/-! Determinants. -/

/-- `logdet(P) = 2 logdet(L)`. -/
theorem chol_logdet (L P : Matrix n n ℝ) (h : L * Lᵀ = P) : Real.log P.det = 2 * Real.log L.det := by
  rw [← h, det_mul, det_transpose, ← pow_two, Real.log_pow]
  norm_num

/-- `logdet(A B) = logdet(A) + logdet(B)`. -/
theorem logdet_mul (A B : Matrix n n ℝ) (hA : A.det ≠ 0) (hB : B.det ≠ 0) :
    Real.log (A * B).det = Real.log A.det + Real.log B.det := by
  rw [det_mul, Real.log_mul hA hB]

/-- `logdet` of a block-diagonal matrix. -/
theorem logdet_blocks (A : Matrix m m ℝ) (B : Matrix n n ℝ) (hA : A.det ≠ 0) (hB : B.det ≠ 0) :
    Real.log (fromBlocks A 0 0 B).det = Real.log A.det + Real.log B.det := by
  rw [det_fromBlocks_zero₂₁, Real.log_mul hA hB]

/-- `logdet(c A) = n log(c) + logdet(A)`. -/
theorem logdet_smul (c : ℝ) (hc : c ≠ 0) (A : Matrix n n ℝ) (hA : A.det ≠ 0) :
    Real.log (c • A).det = Fintype.card n * Real.log c + Real.log A.det := by
  rw [det_smul, Real.log_mul (pow_ne_zero _ hc) hA, Real.log_pow]

/-- `logdet(A^-1) = -logdet(A)`. -/
theorem logdet_inv (A : Matrix n n ℝ) : Real.log (A⁻¹).det = - Real.log A.det := by
  rw [det_nonsing_inv, Ring.inverse_eq_inv', Real.log_inv]

/-- The matrix determinant lemma (`w.lowrank_logdet`). -/
theorem lowrank_logdet (N : Matrix n n ℝ) (U : Matrix n k ℝ) (K : Matrix k k ℝ)
    (hN : N.det ≠ 0) (hK : K.det ≠ 0) (hM : (K + Uᵀ * N⁻¹ * U).det ≠ 0) :
    Real.log (N + U * K⁻¹ * Uᵀ).det
      = Real.log N.det - Real.log K.det + Real.log (K + Uᵀ * N⁻¹ * U).det := by
  have hNu : IsUnit N.det := hN.isUnit
  have hKu : IsUnit K.det := hK.isUnit
  have e1 : (N + U * K⁻¹ * Uᵀ).det = N.det * (1 + (K⁻¹ * Uᵀ) * N⁻¹ * U).det := by
    have := det_add_mul U (K⁻¹ * Uᵀ) hNu
    rw [← Matrix.mul_assoc] at this
    exact this
  have e2 : (1 + (K⁻¹ * Uᵀ) * N⁻¹ * U) = K⁻¹ * (K + Uᵀ * N⁻¹ * U) := by
    rw [Matrix.mul_add, nonsing_inv_mul K hKu]
    simp only [Matrix.mul_assoc]
  have hKi : (K⁻¹).det ≠ 0 := by
    rw [det_nonsing_inv, Ring.inverse_eq_inv']
    exact inv_ne_zero hK
  rw [e1, e2, det_mul, Real.log_mul hN (mul_ne_zero hKi hM), Real.log_mul hKi hM, logdet_inv]
  ring

/-! Traces. -/

/-- Rotation. -/
theorem trace_rotate (A : Matrix m n ℝ) (B : Matrix n m ℝ) : (A * B).trace = (B * A).trace := trace_mul_comm A B

/-- Transposition. -/
theorem trace_transpose' (A : Matrix n n ℝ) : (Aᵀ).trace = A.trace := trace_transpose A

/-- The trace is the sum of the diagonal: `tr(X) = 1' diag(X)`. -/
theorem trace_diag (A : Matrix n n ℝ) : A.trace = (1 : n → ℝ) ⬝ᵥ A.diag := by
  simp [Matrix.trace, dotProduct]

/-- `1' X 1` of an elementwise product is a trace. -/
theorem sum_hadamard_trace (X Y : Matrix m n ℝ) : (∑ i, ∑ j, (X ⊙ Y) i j) = (X * Yᵀ).trace := by
  simp [Matrix.trace, mul_apply, hadamard]

/-! Square roots. -/

/-- Roots commute with the inverse of what they are a root of. -/
theorem root_inv (R P : Matrix n n ℝ) (h : R * R = P) : R⁻¹ * R⁻¹ = P⁻¹ := by
  rw [← h, Matrix.mul_inv_rev]

/-- Positive definite matrices stay positive definite when something positive semidefinite is added. -/
theorem posdef_add (P Q : Matrix n n ℝ) (hP : P.PosDef) (hQ : Q.PosSemidef) : (P + Q).PosDef :=
  hP.add_posSemidef hQ

end Rules
