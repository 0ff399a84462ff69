import Mathlib
/-! Lemmas about polynomials in a linear operator over GF(2) that C24 uses.
`act A f s` is what annihilate leaves: the sum of c_i A^i s (C13). -/
open Polynomial
namespace VF
variable {V : Type*} [AddCommGroup V] [Module (ZMod 2) V]
noncomputable def act (A : V →ₗ[ZMod 2] V) (f : (ZMod 2)[X]) (s : V) : V := aeval A f s

theorem act_sum (A : V →ₗ[ZMod 2] V) (f : (ZMod 2)[X]) (s : V) :
    act A f s = ∑ i ∈ Finset.range (f.natDegree + 1), f.coeff i • (A ^ i) s := by
  simp [act, aeval_eq_sum_range]

theorem act_mul (A : V →ₗ[ZMod 2] V) (f g : (ZMod 2)[X]) (s : V) : act A (f * g) s = act A f (act A g s) := by
  simp [act, map_mul, Module.End.mul_apply]

theorem act_comm (A : V →ₗ[ZMod 2] V) (f g : (ZMod 2)[X]) (s : V) : act A (f * g) s = act A g (act A f s) := by
  rw [mul_comm, act_mul]

theorem two_self (x : V) : x + x = 0 := by
  have h : (2 : ZMod 2) = 0 := by decide
  rw [← two_smul (ZMod 2) x, h, zero_smul]

/-- the factor kills the projection onto its component -/
theorem act_proj (A : V →ₗ[ZMod 2] V) (P Q b : (ZMod 2)[X]) (c : V) (h : ∀ s, act A (P * Q) s = 0) :
    act A P (act A (b * Q) c) = 0 := by
  have : act A P (act A (b * Q) c) = act A (P * Q) (act A b c) := by
    rw [← act_mul, ← act_mul]; congr 1; ring
  rw [this, h]

/-- the two projections add up to the state itself -/
theorem act_split (A : V →ₗ[ZMod 2] V) (P Q a b : (ZMod 2)[X]) (c : V) (h : a * P + b * Q = 1) :
    act A (a * P) c + act A (b * Q) c = c := by
  have : act A (a * P + b * Q) c = c := by rw [h]; simp [act]
  unfold act at *
  rw [map_add, LinearMap.add_apply] at this; exact this

/-- b*(X+1) + a*P = 1 and P kills z: then y = b(A) z is fixed by y ↦ A y + z -/
theorem act_fix (A : V →ₗ[ZMod 2] V) (P a b : (ZMod 2)[X]) (z : V) (h : a * P + b * (X + 1) = 1) (hz : act A P z = 0) :
    A (act A b z) + z = act A b z := by
  have h1 : act A (a * P) z = 0 := by rw [act_mul, hz]; simp [act]
  have h2 : act A (b * (X + 1)) z = z := by
    have := act_split A P (X + 1) a b z h
    rw [h1, zero_add] at this; exact this
  have h3 : act A (b * (X + 1)) z = A (act A b z) + act A b z := by
    rw [act_comm]; simp [act, LinearMap.add_apply]
  rw [h3] at h2
  calc A (act A b z) + z = A (act A b z) + (A (act A b z) + act A b z) := by rw [h2]
    _ = (A (act A b z) + A (act A b z)) + act A b z := by rw [add_assoc]
    _ = act A b z := by rw [two_self, zero_add]

/-- the fixed point inside the component is unique -/
theorem act_fix_unique (A : V →ₗ[ZMod 2] V) (P a b : (ZMod 2)[X]) (z y y' : V) (h : a * P + b * (X + 1) = 1)
    (hy : act A P y = 0) (hy' : act A P y' = 0) (e : A y + z = y) (e' : A y' + z = y') : y = y' := by
  have key : ∀ x, act A P x = 0 → A x + z = x → x = act A b z := by
    intro x hx ex
    have hz : z = A x + x := by
      have h0 := two_self (A x)
      calc z = (A x + A x) + z := by rw [h0, zero_add]
        _ = A x + (A x + z) := by rw [add_assoc]
        _ = A x + x := by rw [ex]
    have h2 := act_split A P (X + 1) a b x h
    rw [act_mul A a P, hx] at h2
    have h0 : act A a (0 : V) = 0 := by simp [act]
    rw [h0, zero_add, act_mul] at h2
    rw [← h2, hz]; simp [act, LinearMap.add_apply]
  rw [key y hy e, key y' hy' e']
end VF
