import Mathlib
/-! Lemmas about polynomials over GF(2) that the contracts of C08 and C10 assume.
Names match the schemas in props/C10.py and props/C08.py. -/
open Polynomial
namespace VF
abbrev P := (ZMod 2)[X]

/-- t ≡ X^(2^m) + X  (mod p) -/
def CONGX (t : P) (m : ℕ) (p : P) : Prop := p ∣ t - (X ^ 2 ^ m - X)
/-- t ≡ X^(2^m)  (mod p) -/
def CONG (t : P) (m : ℕ) (p : P) : Prop := p ∣ t - X ^ 2 ^ m
/-- no irreducible factor of degree at most m -/
def NF (m : ℕ) (p : P) : Prop := ∀ g : P, Irreducible g → g ∣ p → m < g.natDegree

theorem neg_eq (a : P) : -a = a := by
  have h : (2 : P) = 0 := by
    have : ((2 : ℕ) : P) = 0 := by exact_mod_cast (CharP.cast_eq_zero P 2)
    simpa using this
  have : a + a = 0 := by rw [← two_mul, h, zero_mul]
  exact (neg_eq_of_add_eq_zero_left this)

theorem sub_eq (a b : P) : a - b = a + b := by rw [sub_eq_add_neg, neg_eq]

theorem cong_start (p : P) : CONG (X ^ 2) 1 p := by simp [CONG]

theorem cong_start0 (p : P) : CONG X 0 p := by simp [CONG]

theorem congx_of_cong (t : P) (m : ℕ) (p : P) (h : CONG t m p) : CONGX (X + t) m p := by
  unfold CONGX; unfold CONG at h
  have : X + t - (X ^ 2 ^ m - X) = (t - X ^ 2 ^ m) + (X - -X) := by ring
  rw [this, neg_eq, sub_self, add_zero]; exact h

theorem cong_dvd (t : P) (m : ℕ) (p q : P) (h : CONG t m p) (hq : q ∣ p) : CONG t m q := hq.trans h
theorem congx_dvd (t : P) (m : ℕ) (p q : P) (h : CONGX t m p) (hq : q ∣ p) : CONGX t m q := hq.trans h

theorem cong_sq (t : P) (m : ℕ) (p : P) (h : CONG t m p) : CONG (t * t) (m + 1) p := by
  unfold CONG at *
  have : t * t - X ^ 2 ^ (m + 1) = (t - X ^ 2 ^ m) * (t + X ^ 2 ^ m) := by ring
  rw [this]; exact h.mul_right _

theorem cong_mod (t : P) (m : ℕ) (p : P) (h : CONG t m p) : CONG (t % p) m p := by
  unfold CONG at *
  have e : t % p = t - p * (t / p) := by
    have := EuclideanDomain.div_add_mod t p
    rw [eq_sub_iff_add_eq, add_comm]; exact this
  rw [e]
  have : t - p * (t / p) - X ^ 2 ^ m = (t - X ^ 2 ^ m) - p * (t / p) := by ring
  rw [this]; exact dvd_sub h (dvd_mul_right _ _)

/-- reduction modulo a multiple of p -/
theorem congx_mod (t : P) (m : ℕ) (p : P) (h : CONGX t m p) : CONGX (t % p) m p := by
  unfold CONGX at *
  have e : t % p = t - p * (t / p) := by
    have := EuclideanDomain.div_add_mod t p
    rw [eq_sub_iff_add_eq, add_comm]; exact this
  rw [e]
  have : t - p * (t / p) - (X ^ 2 ^ m - X) = (t - (X ^ 2 ^ m - X)) - p * (t / p) := by ring
  rw [this]; exact dvd_sub h (dvd_mul_right _ _)

/-- the key fact: an irreducible factor g of p divides t iff deg g divides m -/
theorem congx_irr (t : P) (m : ℕ) (p g : P) (h : CONGX t m p) (hi : Irreducible g) (hg : g ∣ p) :
    g ∣ t ↔ g.natDegree ∣ m := by
  have hk := hi.natDegree_dvd_iff_dvd_X_pow_card_pow_sub_X (n := m)
  have hc : Nat.card (ZMod 2) = 2 := by simp
  rw [hc] at hk
  rw [hk]
  have hd : g ∣ t - (X ^ 2 ^ m - X) := hg.trans h
  constructor
  · intro ht
    have := dvd_sub ht hd
    simpa using this
  · intro hx
    have := dvd_add hd hx
    simpa using this

theorem nf_start (p : P) : NF 0 p := fun _ hg _ => Irreducible.natDegree_pos hg
theorem nf_dvd (m : ℕ) (p q : P) (h : NF m p) (hq : q ∣ p) : NF m q := fun g hg hd => h g hg (hd.trans hq)
theorem nf_step (m : ℕ) (p t : P) (h : NF m p) (hc : CONGX t (m + 1) p) (h1 : gcd p t = 1 ∨ IsCoprime p t) : NF (m + 1) p := by
  intro g hg hd
  have h0 := h g hg hd
  by_contra hlt
  have he : g.natDegree = m + 1 := by omega
  have ht : g ∣ t := (congx_irr t (m + 1) p g hc hg hd).2 (by rw [he])
  have hu : IsUnit g := by
    rcases h1 with h1 | h1
    · have : g ∣ gcd p t := dvd_gcd hd ht
      rw [h1] at this; exact isUnit_of_dvd_one this
    · exact h1.isUnit_of_dvd' hd ht
  exact hg.not_isUnit hu
theorem nf_deg (m : ℕ) (p : P) (h : NF m p) (hp : 1 ≤ p.natDegree) : m < p.natDegree := by
  obtain ⟨g, hg, hd⟩ := exists_irreducible_of_natDegree_pos (f := p) hp
  exact (h g hg hd).trans_le (natDegree_le_of_dvd hd (by rintro rfl; simp at hp))
/-- cofactor: a proper factor g leaves a factor of degree at most deg p - deg g -/
theorem nf_cofactor (m : ℕ) (p g : P) (h : NF m p) (hp : p ≠ 0) (hg : g ∣ p) (hlt : g.natDegree < p.natDegree) :
    m < p.natDegree - g.natDegree := by
  obtain ⟨c, rfl⟩ := hg
  have hg0 : g ≠ 0 := left_ne_zero_of_mul hp
  have hc0 : c ≠ 0 := right_ne_zero_of_mul hp
  rw [natDegree_mul hg0 hc0] at *
  have := nf_deg m c (nf_dvd m _ c h (dvd_mul_left _ _)) (by omega)
  omega
theorem same_degree (p g : P) (hp : p ≠ 0) (hg : g ∣ p) (he : g.natDegree = p.natDegree) : g = p := by
  obtain ⟨c, rfl⟩ := hg
  have hg0 : g ≠ 0 := left_ne_zero_of_mul hp
  have hc0 : c ≠ 0 := right_ne_zero_of_mul hp
  rw [natDegree_mul hg0 hc0] at he
  have h0 : c.natDegree = 0 := by omega
  obtain ⟨a, ha⟩ := natDegree_eq_zero.1 h0
  have : a = 1 := by
    have hne : a ≠ 0 := by rintro rfl; simp at ha; exact hc0 ha.symm
    have key : ∀ b : ZMod 2, b ≠ 0 → b = 1 := by decide
    exact key a hne
  rw [← ha, this]; simp
theorem div_facts (p a : P) (hp : p ≠ 0) (ha : a ∣ p) :
    p / a ∣ p ∧ (p / a).natDegree = p.natDegree - a.natDegree ∧ p / a ≠ 0 ∧ a * (p / a) = p := by
  have h : a * (p / a) = p := EuclideanDomain.mul_div_cancel' (by rintro rfl; exact hp (zero_dvd_iff.1 ha)) ha
  have ha0 : a ≠ 0 := by rintro rfl; exact hp (zero_dvd_iff.1 ha)
  have hq0 : p / a ≠ 0 := by intro h0; rw [h0, mul_zero] at h; exact hp h.symm
  refine ⟨⟨a, by rw [mul_comm]; exact h.symm⟩, ?_, hq0, h⟩
  have := natDegree_mul ha0 hq0
  rw [h] at this; omega
theorem irr_div (p a g : P) (hp : p ≠ 0) (ha : a ∣ p) (hg : Irreducible g) : g ∣ p ↔ g ∣ a ∨ g ∣ p / a := by
  have h := (div_facts p a hp ha).2.2.2
  conv_lhs => rw [← h]
  exact (hg.prime).dvd_mul
/-- LCM(x,y) = x*y/gcd(x,y): divisibility and degree -/
theorem lcm_facts (x y : P) (hx : x ≠ 0) (hy : y ≠ 0) (d : P) (hd : d = EuclideanDomain.gcd x y) :
    x ∣ x * y / d ∧ y ∣ x * y / d ∧ (x * y / d).natDegree = x.natDegree + y.natDegree - d.natDegree := by
  subst hd
  have hne : EuclideanDomain.gcd x y ≠ 0 := by
    intro h; rw [EuclideanDomain.gcd_eq_zero_iff] at h; exact hx h.1
  have hxy : x * y ≠ 0 := mul_ne_zero hx hy
  have hdx := EuclideanDomain.gcd_dvd_left x y
  have hdy := EuclideanDomain.gcd_dvd_right x y
  refine ⟨?_, ?_, ?_⟩
  · rw [EuclideanDomain.mul_div_assoc _ hdy]; exact dvd_mul_right _ _
  · rw [mul_comm, EuclideanDomain.mul_div_assoc _ hdx]; exact dvd_mul_right _ _
  · have := (div_facts (x * y) _ hxy (hdx.mul_right y)).2.1
    rw [this, natDegree_mul hx hy]
end VF
