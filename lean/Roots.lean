import Mathlib.NumberTheory.LegendreSymbol.JacobiSymbol
open NumberTheorySymbols
/- Facts about square roots modulo primes used by engine/theory.py.  `legendreSym p a` is the Jacobi symbol (Jacobi.lean). -/

theorem z_iff (x y : ℤ) (p : ℕ) : (x - y) % p = 0 ↔ (x : ZMod p) = y := by
  rw [← Int.dvd_iff_emod_eq_zero, ← ZMod.intCast_zmod_eq_zero_iff_dvd]
  push_cast
  exact sub_eq_zero

theorem euler_one (a : ℤ) (p : ℕ) [hp : Fact p.Prime] (h : jacobiSym a p = 1) : (a : ZMod p) ^ (p / 2) = 1 := by
  rw [← jacobiSym.legendreSym.to_jacobiSym] at h
  rw [← legendreSym.eq_pow, h]
  simp

theorem powz (a : ℤ) (p e : ℕ) : ((a ^ e % (p : ℤ) : ℤ) : ZMod p) = (a : ZMod p) ^ e := by
  have := ZMod.intCast_mod (a ^ e) p
  push_cast at this ⊢
  exact this

/-- p = 4e - 1: the e-th power of a residue is a root -/
theorem root3 (a : ℤ) (p e : ℕ) (hp : p.Prime) (he : 4 * e = p + 1) (h : jacobiSym a p = 1) :
    ((a ^ e % p) * (a ^ e % p) - a) % p = 0 := by
  have := Fact.mk hp
  rw [z_iff]
  push_cast
  rw [← pow_add, show e + e = p / 2 + 1 by omega, pow_succ, euler_one a p h, one_mul]

/-- 4e = p - 1: the e-th power of a residue is 1 or p - 1 -/
theorem quarter (a : ℤ) (p e : ℕ) (hp : p.Prime) (he : 4 * e + 1 = p) (h : jacobiSym a p = 1) :
    a ^ e % p = 1 ∨ a ^ e % p = p - 1 := by
  have := Fact.mk hp
  have p2 := hp.two_le
  have h1 : ((a : ZMod p) ^ e) * ((a : ZMod p) ^ e) = 1 := by
    rw [← pow_add, show e + e = p / 2 by omega, euler_one a p h]
  rcases mul_self_eq_one_iff.1 h1 with h2 | h2
  · left
    have h3 : (a ^ e - 1) % (p : ℤ) = 0 := by rw [z_iff]; push_cast; exact h2
    have h5 : a ^ e % (p : ℤ) = 1 % p := Int.emod_eq_emod_iff_emod_sub_eq_zero.2 h3
    rw [h5]; exact Int.emod_eq_of_lt (by omega) (by omega)
  · right
    have h3 : (a ^ e - (p - 1)) % (p : ℤ) = 0 := by rw [z_iff]; push_cast; rw [h2]; simp
    have h5 : a ^ e % (p : ℤ) = (p - 1) % p := Int.emod_eq_emod_iff_emod_sub_eq_zero.2 h3
    rw [h5]; exact Int.emod_eq_of_lt (by omega) (by omega)

/-- 2f = e + 1: the square of the f-th power is a times the e-th power -/
theorem half_step (a : ℤ) (p e f : ℕ) (hf : 2 * f = e + 1) (h : a ^ e % (p : ℤ) = 1) :
    ((a ^ f % p) * (a ^ f % p) - a) % p = 0 := by
  rw [z_iff]
  push_cast
  have h1 := powz a p e
  rw [h] at h1
  push_cast at h1
  rw [← pow_add, show f + f = e + 1 by omega, pow_succ, ← h1]
  simp

/-- p = 5 modulo 8 and a^((p-1)/4) = -1: 2 a (4 a)^((p-5)/8) is a root -/
theorem root5 (a c : ℤ) (p e f : ℕ) (hp : p.Prime) (h5 : p % 8 = 5) (he : 4 * e + 1 = p) (hf : 2 * f + 1 = e)
    (hc : (c - 4 * a) % p = 0) (h : a ^ e % (p : ℤ) = p - 1) :
    (4 * a * a * (c ^ f % p) * (c ^ f % p) - a) % p = 0 := by
  have := Fact.mk hp
  rw [z_iff] at *
  have h1 := powz a p e
  rw [h] at h1
  push_cast at *
  simp at h1
  have h2 : (2 : ZMod p) ^ (p / 2) = -1 := by
    have := legendreSym.eq_pow p 2
    rw [jacobiSym.legendreSym.to_jacobiSym, jacobiSym.at_two (hp.odd_of_ne_two (by omega)), ZMod.χ₈_nat_eq_if_mod_eight] at this
    rw [if_neg (by omega), if_neg (by omega)] at this
    push_cast at this
    exact this.symm
  rw [hc]
  have h3 : (4 : ZMod p) * a * a * (4 * a) ^ f * (4 * a) ^ f = a * (a ^ e * 2 ^ (p / 2)) := by
    rw [show p / 2 = 2 * (2 * f + 1) by omega, ← hf, show (2 : ZMod p) ^ (2 * (2 * f + 1)) = 4 ^ (2 * f + 1) by rw [pow_mul]; norm_num]
    rw [mul_pow]
    ring
  rw [h3, h2, ← h1]
  ring
