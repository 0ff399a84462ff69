import Mathlib
/-! The lattice behind the PIS algorithm (Harase, Matsumoto, Saito): the lemmas
about output series that the contracts of C14 use.  A series is the sequence of
its coefficients: position m holds the coefficient of t^(-m). -/
namespace VF
abbrev F2 := ZMod 2
abbrev Ser (v : ℕ) := ℤ → (Fin v → F2)

variable {S : Type} [AddCommGroup S] [Module F2 S] {v : ℕ}

/-- multiplication by t^j -/
def shift (j : ℤ) : Ser v →ₗ[F2] Ser v where
  toFun w m := w (m + j)
  map_add' _ _ := rfl
  map_smul' _ _ := rfl
@[simp] theorem shift_apply (j : ℤ) (w : Ser v) (m : ℤ) : shift j w m = w (m + j) := rfl

/-- the vector of a lattice object: state s, count c, leading coefficient x -/
def vec (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s : S) (c : ℤ) (x : Fin v → F2) : Ser v :=
  fun m => if m < c then 0 else if m = c then x else o ((f ^ (m - c).toNat) s)

/-- span over GF(2)[t] -/
def spn {ι : Type} (W : ι → Ser v) : Submodule F2 (Ser v) :=
  Submodule.span F2 {y | ∃ i, ∃ j : ℕ, y = shift (j : ℤ) (W i)}

/-- unit vectors and the output series of a state -/
def gens (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S) : Option (Fin v) → Ser v
  | some i => vec f o 0 0 (Pi.single i 1)
  | none => vec f o s0 0 0

/-- the lattice of a state -/
def lat (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S) : Submodule F2 (Ser v) := spn (gens f o s0)

theorem vec_step (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s : S) (c : ℤ) :
    vec f o s c 0 = vec f o (f s) (c + 1) (o (f s)) := by
  funext m
  unfold vec
  rcases lt_trichotomy m c with h | h | h
  · simp [h, show m < c + 1 by omega]
  · simp [h]
  · rcases eq_or_ne m (c + 1) with h1 | h1
    · subst h1; simp
    · have h2 : ¬ m < c := by omega
      have h3 : m ≠ c := by omega
      have h4 : ¬ m < c + 1 := by omega
      simp only [h2, h3, h4, h1, if_false]
      have : (m - c).toNat = (m - (c + 1)).toNat + 1 := by omega
      rw [this, pow_succ]; rfl

theorem vec_add (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s1 s2 : S) (c1 c2 : ℤ) (x1 x2 : Fin v → F2) :
    vec f o (s1 + s2) c1 (x1 + x2) = vec f o s1 c1 x1 + shift (c2 - c1) (vec f o s2 c2 x2) := by
  funext m
  simp only [Pi.add_apply, shift_apply]
  unfold vec
  have e1 : (m + (c2 - c1) < c2) ↔ m < c1 := by omega
  have e2 : (m + (c2 - c1) = c2) ↔ m = c1 := by omega
  have e3 : m + (c2 - c1) - c2 = m - c1 := by omega
  simp only [e1, e2, e3]
  split_ifs <;> simp

theorem shift_shift (i j : ℤ) (w : Ser v) : shift i (shift j w) = shift (i + j) w := by
  funext m; simp only [shift_apply]; congr 1; ring

theorem spn_shift {ι : Type} (W : ι → Ser v) (j : ℕ) {y : Ser v} (h : y ∈ spn W) : shift (j : ℤ) y ∈ spn W := by
  unfold spn at *
  induction h using Submodule.span_induction with
  | mem y hy =>
    obtain ⟨i, k, rfl⟩ := hy
    refine Submodule.subset_span ⟨i, j + k, ?_⟩
    rw [shift_shift]; push_cast; rfl
  | zero => simp
  | add a b _ _ ha hb => rw [map_add]; exact Submodule.add_mem _ ha hb
  | smul r a _ ha => rw [map_smul]; exact Submodule.smul_mem _ _ ha

theorem spn_mem {ι : Type} (W : ι → Ser v) (i : ι) : W i ∈ spn W := by
  refine Submodule.subset_span ⟨i, 0, ?_⟩
  funext m; simp

theorem spn_le {ι κ : Type} (W : ι → Ser v) (V : κ → Ser v) (h : ∀ i, W i ∈ spn V) : spn W ≤ spn V := by
  unfold spn
  rw [Submodule.span_le]
  rintro y ⟨i, j, rfl⟩
  exact spn_shift V j (h i)

/-- adding a multiple of another vector keeps the span -/
theorem spn_update {ι : Type} [DecidableEq ι] (W : ι → Ser v) (i k : ι) (hik : i ≠ k) (j : ℕ) :
    spn (Function.update W i (W i + shift (j : ℤ) (W k))) = spn W := by
  apply le_antisymm
  · apply spn_le
    intro l
    by_cases h : l = i
    · subst h; simp only [Function.update_self]
      exact Submodule.add_mem _ (spn_mem W l) (spn_shift W j (spn_mem W k))
    · rw [Function.update_of_ne h]; exact spn_mem W l
  · apply spn_le
    intro l
    set V := Function.update W i (W i + shift (j : ℤ) (W k)) with hV
    have hk : W k ∈ spn V := by
      have := spn_mem V k
      rwa [hV, Function.update_of_ne hik.symm] at this
    by_cases h : l = i
    · subst h
      have h1 := spn_mem V l
      rw [hV, Function.update_self] at h1
      have h2 := Submodule.sub_mem _ h1 (spn_shift V j hk)
      rwa [add_sub_cancel_right] at h2
    · have := spn_mem V l
      rwa [hV, Function.update_of_ne h] at this

/-- the span depends on the set of vectors only -/
theorem spn_reindex {ι κ : Type} (W : ι → Ser v) (e : κ ≃ ι) : spn (W ∘ e) = spn W := by
  apply le_antisymm
  · exact spn_le _ _ (fun i => spn_mem W (e i))
  · refine spn_le _ _ (fun i => ?_)
    have := spn_mem (W ∘ e) (e.symm i)
    simpa using this

/-- a zero vector can be dropped -/
theorem spn_drop {n : ℕ} (W : Fin (n + 1) → Ser v) (h : W (Fin.last n) = 0) :
    spn W = spn (fun i : Fin n => W i.castSucc) := by
  apply le_antisymm
  · refine spn_le _ _ (fun i => ?_)
    refine Fin.lastCases ?_ (fun i => ?_) i
    · rw [h]; exact Submodule.zero_mem _
    · exact spn_mem (fun i : Fin n => W i.castSucc) i
  · exact spn_le _ _ (fun i => spn_mem W i.castSucc)

/-- forgetting the last bit -/
def proj (v : ℕ) : (Fin (v + 1) → F2) →ₗ[F2] (Fin v → F2) where
  toFun x i := x i.castSucc
  map_add' _ _ := rfl
  map_smul' _ _ := rfl
def projS (v : ℕ) : Ser (v + 1) →ₗ[F2] Ser v where
  toFun w m := proj v (w m)
  map_add' _ _ := rfl
  map_smul' _ _ := rfl

theorem vec_proj (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin (v + 1) → F2)) (s : S) (c : ℤ) (x : Fin (v + 1) → F2) :
    projS v (vec f o s c x) = vec f (proj v ∘ₗ o) s c (proj v x) := by
  funext m
  show proj v (vec f o s c x m) = _
  unfold vec
  split_ifs <;> simp

theorem spn_proj {ι : Type} (W : ι → Ser (v + 1)) : spn (fun i => projS v (W i)) = (spn W).map (projS v) := by
  unfold spn
  rw [Submodule.map_span]
  congr 1
  ext y
  constructor
  · rintro ⟨i, j, rfl⟩; exact ⟨_, ⟨i, j, rfl⟩, rfl⟩
  · rintro ⟨_, ⟨i, j, rfl⟩, rfl⟩; exact ⟨i, j, rfl⟩

theorem vec_zero_zero (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (c : ℤ) : vec f o (0 : S) c 0 = 0 := by
  funext m; unfold vec; split_ifs <;> simp

theorem proj_single_last : proj v (Pi.single (Fin.last v) 1) = 0 := by
  funext k; show (Pi.single (Fin.last v) 1 : Fin (v + 1) → F2) k.castSucc = 0
  rw [Pi.single_eq_of_ne]; exact (Fin.castSucc_lt_last k).ne

theorem proj_single (i : Fin v) : proj v (Pi.single i.castSucc 1) = Pi.single i 1 := by
  funext k; show (Pi.single i.castSucc 1 : Fin (v + 1) → F2) k.castSucc = _
  by_cases h : k = i
  · subst h; simp
  · rw [Pi.single_eq_of_ne h, Pi.single_eq_of_ne]; simpa using h

theorem lat_proj (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin (v + 1) → F2)) (s0 : S) :
    (lat f o s0).map (projS v) = lat f (proj v ∘ₗ o) s0 := by
  unfold lat
  rw [← spn_proj]
  apply le_antisymm
  · refine spn_le _ _ (fun i => ?_)
    rcases i with _ | i
    · have := spn_mem (gens f (proj v ∘ₗ o) s0) none
      simp only [gens] at this ⊢
      rw [vec_proj, map_zero]; exact this
    · simp only [gens]
      rw [vec_proj]
      refine Fin.lastCases ?_ (fun i => ?_) i
      · rw [proj_single_last, vec_zero_zero]; exact Submodule.zero_mem _
      · rw [proj_single]; exact spn_mem (gens f (proj v ∘ₗ o) s0) (some i)
  · refine spn_le _ _ (fun i => ?_)
    rcases i with _ | i
    · have := spn_mem (fun i => projS v (gens f o s0 i)) none
      simp only [gens] at this ⊢
      rw [vec_proj, map_zero] at this; exact this
    · have := spn_mem (fun i => projS v (gens f o s0 i)) (some i.castSucc)
      simp only [gens] at this ⊢
      rw [vec_proj, proj_single] at this; exact this

/-- truncation: a generating family of the (v+1)-bit lattice gives one of the v-bit lattice -/
theorem trunc {ι : Type} (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin (v + 1) → F2)) (s0 : S) (s : ι → S) (c : ι → ℤ) (x : ι → Fin (v + 1) → F2)
    (h : spn (fun i => vec f o (s i) (c i) (x i)) = lat f o s0) :
    spn (fun i => vec f (proj v ∘ₗ o) (s i) (c i) (proj v (x i))) = lat f (proj v ∘ₗ o) s0 := by
  rw [← lat_proj, ← h, ← spn_proj]
  congr 1; funext i; rw [vec_proj]

/-- a state of dimension n whose next n outputs vanish has no output at all -/
theorem vec_zero [Module.Finite F2 S] (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s : S) (c : ℤ)
    (h : ∀ j : ℕ, j < Module.finrank F2 S → o ((f ^ (j + 1)) s) = 0) : vec f o s c 0 = 0 := by
  have all : ∀ j : ℕ, o ((f ^ (j + 1)) s) = 0 := by
    intro j
    induction j using Nat.strong_induction_on with
    | _ j ih =>
      set n := Module.finrank F2 S with hn
      by_cases hj : j < n
      · exact h j hj
      · have hch := LinearMap.aeval_self_charpoly f
        have hm := LinearMap.charpoly_monic f
        have hd := LinearMap.charpoly_natDegree f
        rw [Polynomial.aeval_eq_sum_range, Finset.sum_range_succ, hd, ← hn] at hch
        have hlc : f.charpoly.coeff n = 1 := by rw [hn, ← hd]; exact hm.coeff_natDegree
        rw [hlc, one_smul] at hch
        have hfn : f ^ n = - ∑ i ∈ Finset.range n, f.charpoly.coeff i • f ^ i := by
          rw [eq_neg_iff_add_eq_zero, add_comm]; exact hch
        have e : f ^ (j + 1) = f ^ n * f ^ (j + 1 - n) := by rw [← pow_add]; congr 1; omega
        rw [e, hfn, neg_mul, Finset.sum_mul]
        simp only [LinearMap.neg_apply, LinearMap.sum_apply, map_neg, map_sum, neg_eq_zero]
        apply Finset.sum_eq_zero
        intro i hi
        have hi := Finset.mem_range.mp hi
        rw [smul_mul_assoc, ← pow_add, LinearMap.smul_apply, map_smul]
        have : i + (j + 1 - n) = (i + (j + 1 - n) - 1) + 1 := by omega
        rw [this, ih _ (by omega), smul_zero]
  funext m
  unfold vec
  split_ifs with h1 h2
  · rfl
  · rfl
  · have : (m - c).toNat = ((m - c).toNat - 1) + 1 := by omega
    rw [this, all]; rfl

/-- states reachable from s0 -/
def orb (f : S →ₗ[F2] S) (s0 : S) : Submodule F2 S := Submodule.span F2 {y | ∃ j : ℕ, y = (f ^ j) s0}

/-- every k-tuple of outputs is attained from a state of the orbit's span -/
def full (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S) (k : ℕ) : Prop :=
  ∀ T : ℕ → (Fin v → F2), ∃ s ∈ orb f s0, ∀ j < k, o ((f ^ (j + 1)) s) = T j

theorem lat_tail (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S) {y : Ser v} (h : y ∈ lat f o s0) :
    ∃ s ∈ orb f s0, ∀ j : ℕ, y ((j : ℤ) + 1) = o ((f ^ (j + 1)) s) := by
  unfold lat spn at h
  induction h using Submodule.span_induction with
  | mem y hy =>
    obtain ⟨i, k, rfl⟩ := hy
    rcases i with _ | i
    · refine ⟨(f ^ k) s0, Submodule.subset_span ⟨k, rfl⟩, fun j => ?_⟩
      simp only [shift_apply, gens, vec]
      rw [if_neg (by omega), if_neg (by omega)]
      have : ((j : ℤ) + 1 + k - 0).toNat = (j + 1) + k := by omega
      rw [this, pow_add]; rfl
    · refine ⟨0, Submodule.zero_mem _, fun j => ?_⟩
      simp only [shift_apply, gens, vec]
      rw [if_neg (by omega), if_neg (by omega)]
      simp
  | zero => exact ⟨0, Submodule.zero_mem _, fun j => by simp⟩
  | add a b _ _ ha hb =>
    obtain ⟨s, hs, h1⟩ := ha
    obtain ⟨r, hr, h2⟩ := hb
    exact ⟨s + r, Submodule.add_mem _ hs hr, fun j => by rw [Pi.add_apply, h1, h2]; simp⟩
  | smul c a _ ha =>
    obtain ⟨s, hs, h1⟩ := ha
    exact ⟨c • s, Submodule.smul_mem _ _ hs, fun j => by rw [Pi.smul_apply, h1]; simp⟩

/-- a constant at position -j -/
theorem lat_const (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S) (x : Fin v → F2) :
    vec f o 0 0 x ∈ lat f o s0 := by
  have : vec f o (0 : S) 0 x = ∑ i, x i • vec f o (0 : S) 0 (Pi.single i 1) := by
    funext m
    rw [Finset.sum_apply]
    simp only [Pi.smul_apply, vec]
    split_ifs
    · simp
    · funext k; rw [Finset.sum_apply]; simp [Pi.single_apply]
    · simp
  rw [this]
  refine Submodule.sum_mem _ (fun i _ => Submodule.smul_mem _ _ ?_)
  exact spn_mem (gens f o s0) (some i)

/-- the output series of every state of the orbit's span is in the lattice -/
theorem lat_orb (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S) {s : S} (h : s ∈ orb f s0) : vec f o s 0 0 ∈ lat f o s0 := by
  unfold orb at h
  have lin : ∀ a b : S, vec f o (a + b) 0 0 = vec f o a 0 0 + vec f o b 0 0 := by
    intro a b; funext m; rw [Pi.add_apply]; unfold vec; split_ifs <;> simp
  have sm : ∀ (r : F2) (a : S), vec f o (r • a) 0 0 = r • vec f o a 0 0 := by
    intro r a; funext m; rw [Pi.smul_apply]; unfold vec; split_ifs <;> simp
  induction h using Submodule.span_induction with
  | mem y hy =>
    obtain ⟨j, rfl⟩ := hy
    induction j with
    | zero =>
      exact spn_mem (gens f o s0) none
    | succ j ih =>
      -- t * vec (f^j s0) = constant + vec (f^(j+1) s0)
      have e : vec f o ((f ^ (j + 1)) s0) 0 0 = shift ((1 : ℕ) : ℤ) (vec f o ((f ^ j) s0) 0 0) - vec f o 0 0 (o ((f ^ (j + 1)) s0)) := by
        funext m
        rw [Pi.sub_apply, shift_apply]
        unfold vec
        push_cast
        rcases lt_trichotomy m 0 with h | h | h
        · rw [if_pos h, if_pos h]
          rcases eq_or_ne m (-1) with h1 | h1
          · subst h1; simp
          · rw [if_pos (by omega)]; simp
        · subst h; simp [pow_succ']
        · rw [if_neg (by omega), if_neg (by omega), if_neg (by omega), if_neg (by omega), if_neg (by omega), if_neg (by omega)]
          have : (m + 1 - 0).toNat = (m - 0).toNat + 1 := by omega
          rw [this, pow_succ (f) (m - 0).toNat, pow_succ' f j]
          simp
      rw [e]
      exact Submodule.sub_mem _ (spn_shift _ 1 ih) (lat_const f o s0 _)
  | zero => rw [vec_zero_zero]; exact Submodule.zero_mem _
  | add a b _ _ ha hb => rw [lin]; exact Submodule.add_mem _ ha hb
  | smul r a _ ha => rw [sm]; exact Submodule.smul_mem _ _ ha

/-- leading coefficients in triangular form -/
def tri (x : Fin v → Fin v → F2) : Prop := ∀ i, x i i = 1 ∧ ∀ m, i < m → x i m = 0

theorem tri_li (x : Fin v → Fin v → F2) (h : tri x) : LinearIndependent F2 x := by
  let M : Matrix (Fin v) (Fin v) F2 := Matrix.of x
  have hdet : M.det = 1 := by
    rw [Matrix.det_of_isLowerTriangular M]
    · exact Finset.prod_eq_one (fun i _ => (h i).1)
    · intro i j hij; exact (h i).2 j (by simpa using hij)
  have : IsUnit M := (Matrix.isUnit_iff_isUnit_det M).mpr (by rw [hdet]; exact isUnit_one)
  exact Matrix.linearIndependent_rows_iff_isUnit.mpr this

theorem tri_span (x : Fin v → Fin v → F2) (h : tri x) (d : Fin v → F2) : ∃ b : Fin v → F2, d = ∑ i, b i • x i := by
  have hs : Submodule.span F2 (Set.range x) = ⊤ := by
    apply LinearIndependent.span_eq_top_of_card_eq_finrank' (tri_li x h); simp
  have : d ∈ Submodule.span F2 (Set.range x) := by rw [hs]; trivial
  obtain ⟨b, hb⟩ := (Submodule.mem_span_range_iff_exists_fun F2).mp this
  exact ⟨b, hb.symm⟩

variable (f : S →ₗ[F2] S) (o : S →ₗ[F2] (Fin v → F2)) (s0 : S)

/-- counts of a reduced basis bound the dimension from below -/
theorem full_of_le (s : Fin v → S) (c : Fin v → ℕ) (x : Fin v → Fin v → F2) (ht : tri x)
    (hs : spn (fun i => vec f o (s i) (c i) (x i)) = lat f o s0) (k : ℕ) (hk : ∀ i, k ≤ c i) : full f o s0 k := by
  intro T
  have key : ∃ y ∈ lat f o s0, (∀ m : ℤ, m ≤ 0 → y m = 0) ∧ ∀ j < k, y ((j : ℤ) + 1) = T j := by
    induction k with
    | zero => exact ⟨0, Submodule.zero_mem _, fun _ _ => rfl, fun j hj => absurd hj (by omega)⟩
    | succ k ih =>
      obtain ⟨y, hy, h0, h1⟩ := ih (fun i => by have := hk i; omega)
      obtain ⟨b, hb⟩ := tri_span x ht (T k - y ((k : ℤ) + 1))
      let z : Ser v := ∑ i, b i • shift (((c i - (k + 1) : ℕ)) : ℤ) (vec f o (s i) (c i) (x i))
      have hz : z ∈ lat f o s0 := by
        rw [← hs]
        exact Submodule.sum_mem _ (fun i _ => Submodule.smul_mem _ _ (spn_shift _ _ (spn_mem (fun i => vec f o (s i) (c i) (x i)) i)))
      have zlow : ∀ m : ℤ, m < (k : ℤ) + 1 → z m = 0 := by
        intro m hm
        simp only [z, Finset.sum_apply, Pi.smul_apply, shift_apply]
        apply Finset.sum_eq_zero
        intro i _
        unfold vec
        have := hk i
        rw [if_pos (by omega), smul_zero]
      have zk : z ((k : ℤ) + 1) = T k - y ((k : ℤ) + 1) := by
        rw [hb]
        simp only [z, Finset.sum_apply, Pi.smul_apply, shift_apply]
        apply Finset.sum_congr rfl
        intro i _
        unfold vec
        have := hk i
        rw [if_neg (by omega), if_pos (by omega)]
      refine ⟨y + z, Submodule.add_mem _ hy hz, fun m hm => ?_, fun j hj => ?_⟩
      · rw [Pi.add_apply, h0 m hm, zlow m (by omega), add_zero]
      · rcases Nat.lt_succ_iff_lt_or_eq.mp hj with h | h
        · rw [Pi.add_apply, h1 j h, zlow _ (by omega), add_zero]
        · subst h; rw [Pi.add_apply, zk]; abel
  obtain ⟨y, hy, _, h1⟩ := key
  obtain ⟨st, hst, h2⟩ := lat_tail f o s0 hy
  exact ⟨st, hst, fun j hj => by rw [← h2, h1 j hj]⟩

theorem coef (s : Fin v → S) (c : Fin v → ℕ) (x : Fin v → Fin v → F2) (β : Fin v × ℕ →₀ F2) (N : ℤ)
    (low : ∀ p, β p ≠ 0 → N ≤ (c p.1 : ℤ) - p.2) :
    (β.sum fun p a => a • shift (p.2 : ℤ) (vec f o (s p.1) (c p.1) (x p.1))) N
      = ∑ i, (if N ≤ c i then β (i, ((c i : ℤ) - N).toNat) else 0) • x i := by
  rw [Finsupp.sum, Finset.sum_apply]
  have h1 : ∀ p ∈ β.support, (β p • shift (p.2 : ℤ) (vec f o (s p.1) (c p.1) (x p.1))) N
      = ∑ i, if p = (i, ((c i : ℤ) - N).toNat) then (if N ≤ c i then β (i, ((c i : ℤ) - N).toNat) else 0) • x i else 0 := by
    intro p hp
    have hl := low p (Finsupp.mem_support_iff.mp hp)
    rw [Finset.sum_eq_single p.1]
    · simp only [Pi.smul_apply, shift_apply, vec]
      by_cases he : N = (c p.1 : ℤ) - p.2
      · have e : p = (p.1, ((c p.1 : ℤ) - N).toNat) := by
          have : ((c p.1 : ℤ) - N).toNat = p.2 := by omega
          rw [this]
        rw [if_neg (by omega), if_pos (by omega), if_pos e, if_pos (by omega), ← e]
      · rw [if_pos (by omega), if_neg, smul_zero]
        intro e
        have : p.2 = ((c p.1 : ℤ) - N).toNat := congrArg Prod.snd e
        omega
    · intro i _ hi
      rw [if_neg]
      intro e; exact hi (congrArg Prod.fst e).symm
    · intro h; exact absurd (Finset.mem_univ _) h
  rw [Finset.sum_congr rfl h1, Finset.sum_comm]
  apply Finset.sum_congr rfl
  intro i _
  rw [Finset.sum_ite_eq' β.support]
  split_ifs with h2 h3 h3
  · rfl
  · rfl
  · rw [Finsupp.notMem_support_iff.mp h2, zero_smul]
  · rw [zero_smul]

theorem spn_repr (s : Fin v → S) (c : Fin v → ℕ) (x : Fin v → Fin v → F2) {y : Ser v}
    (h : y ∈ spn (fun i => vec f o (s i) (c i) (x i))) :
    ∃ β : Fin v × ℕ →₀ F2, y = β.sum fun p a => a • shift (p.2 : ℤ) (vec f o (s p.1) (c p.1) (x p.1)) := by
  unfold spn at h
  have e : {y : Ser v | ∃ i, ∃ j : ℕ, y = shift (j : ℤ) (vec f o (s i) (c i) (x i))}
      = Set.range (fun p : Fin v × ℕ => shift (p.2 : ℤ) (vec f o (s p.1) (c p.1) (x p.1))) := by
    ext y; constructor
    · rintro ⟨i, j, rfl⟩; exact ⟨(i, j), rfl⟩
    · rintro ⟨p, rfl⟩; exact ⟨p.1, p.2, rfl⟩
  rw [e] at h
  obtain ⟨β, hβ⟩ := (Finsupp.mem_span_range_iff_exists_finsupp).mp h
  exact ⟨β, hβ.symm⟩

/-- counts of a reduced basis bound the dimension from above -/
theorem le_of_full (s : Fin v → S) (c : Fin v → ℕ) (x : Fin v → Fin v → F2) (ht : tri x)
    (hs : spn (fun i => vec f o (s i) (c i) (x i)) = lat f o s0) (k : ℕ) (hf : full f o s0 k) (i0 : Fin v) : k ≤ c i0 := by
  by_contra hk
  push Not at hk
  set M : ℤ := (c i0 : ℤ) + 1 with hM
  obtain ⟨st, hst, ho⟩ := hf (fun j => if j = c i0 then x i0 else 0)
  have hy : vec f o st 0 0 ∈ lat f o s0 := lat_orb f o s0 hst
  have ylow : ∀ m : ℤ, m < M → vec f o st 0 0 m = 0 := by
    intro m hm
    unfold vec
    split_ifs with h1 h2
    · rfl
    · rfl
    · have e : (m - 0).toNat = (m.toNat - 1) + 1 := by omega
      rw [e, ho _ (by omega), if_neg (by omega)]
  have yM : vec f o st 0 0 M = x i0 := by
    unfold vec
    rw [if_neg (by omega), if_neg (by omega)]
    have e : (M - 0).toNat = c i0 + 1 := by omega
    rw [e, ho _ hk, if_pos rfl]
  rw [← hs] at hy
  obtain ⟨β, hβ⟩ := spn_repr f o s c x hy
  have li := tri_li x ht
  have zero_of (b : Fin v → F2) (h : ∑ i, b i • x i = 0) : ∀ i, b i = 0 := Fintype.linearIndependent_iff.mp li b h
  have low : ∀ p, β p ≠ 0 → M ≤ (c p.1 : ℤ) - p.2 := by
    by_contra hc
    push Not at hc
    obtain ⟨p0, hp0, hlt0⟩ := hc
    obtain ⟨q, hq, hmin⟩ := Finset.exists_min_image β.support (fun p => (c p.1 : ℤ) - p.2) ⟨p0, Finsupp.mem_support_iff.mpr hp0⟩
    have hq0 := Finsupp.mem_support_iff.mp hq
    have hqM : (c q.1 : ℤ) - q.2 < M := lt_of_le_of_lt (hmin p0 (Finsupp.mem_support_iff.mpr hp0)) hlt0
    have hc := coef f o s c x β ((c q.1 : ℤ) - q.2) (fun p hp => hmin p (Finsupp.mem_support_iff.mpr hp))
    rw [← hβ, ylow _ hqM] at hc
    have := zero_of _ hc.symm q.1
    rw [if_pos (by omega)] at this
    have e : ((c q.1 : ℤ) - ((c q.1 : ℤ) - q.2)).toNat = q.2 := by omega
    rw [e] at this
    exact hq0 this
  have hc := coef f o s c x β M low
  rw [← hβ, yM] at hc
  have h0 : ∑ i, ((if M ≤ c i then β (i, ((c i : ℤ) - M).toNat) else 0) - (if i = i0 then 1 else 0)) • x i = 0 := by
    simp only [sub_smul, Finset.sum_sub_distrib]
    rw [← hc]
    simp
  have := zero_of _ h0 i0
  rw [if_neg (by omega), if_pos rfl] at this
  simp at this

/-- the dimension of equidistribution is the smallest count of a reduced basis -/
theorem dimension (s : Fin v → S) (c : Fin v → ℕ) (x : Fin v → Fin v → F2) (ht : tri x)
    (hs : spn (fun i => vec f o (s i) (c i) (x i)) = lat f o s0) (k : ℕ) : full f o s0 k ↔ ∀ i, k ≤ c i :=
  ⟨fun h i => le_of_full f o s0 s c x ht hs k h i, full_of_le f o s0 s c x ht hs k⟩

/-- k(v) * v is at most the dimension of the state space -/
theorem bound [Module.Finite F2 S] (k : ℕ) (h : full f o s0 k) : k * v ≤ Module.finrank F2 S := by
  let g : S →ₗ[F2] (Fin k → Fin v → F2) := LinearMap.pi (fun j => o ∘ₗ (f ^ ((j : ℕ) + 1)))
  have hsurj : Function.Surjective g := by
    intro T
    obtain ⟨s, _, hs⟩ := h (fun j => if hj : j < k then T ⟨j, hj⟩ else 0)
    refine ⟨s, ?_⟩
    funext j
    show o ((f ^ ((j : ℕ) + 1)) s) = T j
    rw [hs j j.2, dif_pos j.2]
  have := LinearMap.finrank_le_finrank_of_surjective (f := g) hsurj
  simpa [Module.finrank_pi_fintype] using this
end VF
