import Mathlib.NumberTheory.LegendreSymbol.JacobiSymbol
open NumberTheorySymbols

theorem jac_values (a : ℤ) (n : ℕ) : jacobiSym a n = 0 ∨ jacobiSym a n = 1 ∨ jacobiSym a n = -1 :=
  jacobiSym.trichotomy a n

theorem jac_mod (a : ℤ) (n : ℕ) : jacobiSym a n = jacobiSym (a % n) n := jacobiSym.mod_left a n

theorem jac_modulus_one (a : ℤ) : jacobiSym a 1 = 1 := jacobiSym.one_right a

theorem jac_one (n : ℕ) : jacobiSym 1 n = 1 := jacobiSym.one_left n

theorem jac_zero (n : ℕ) (h : 1 < n) : jacobiSym 0 n = 0 := jacobiSym.zero_left h

theorem jac_mul (a b : ℤ) (n : ℕ) : jacobiSym (a * b) n = jacobiSym a n * jacobiSym b n := jacobiSym.mul_left a b n

theorem jac_two (n : ℕ) (h : Odd n) : jacobiSym 2 n = if n % 8 = 1 ∨ n % 8 = 7 then 1 else -1 := by
  rw [jacobiSym.at_two h, ZMod.χ₈_nat_eq_if_mod_eight]
  obtain ⟨k, rfl⟩ := h
  simp

theorem jac_minus_one (n : ℕ) (h : Odd n) : jacobiSym (-1) n = if n % 4 = 1 then 1 else -1 := by
  rw [jacobiSym.at_neg_one h, ZMod.χ₄_nat_eq_if_mod_four]
  obtain ⟨k, rfl⟩ := h
  simp

theorem jac_swap (a n : ℕ) (ha : Odd a) (hn : Odd n) :
    jacobiSym a n = if a % 4 = 3 ∧ n % 4 = 3 then - jacobiSym n a else jacobiSym n a := by
  split_ifs with h
  · exact jacobiSym.quadratic_reciprocity_three_mod_four h.1 h.2
  · obtain ⟨k, rfl⟩ := ha
    obtain ⟨l, rfl⟩ := hn
    have : (2 * k + 1) % 4 = 1 ∨ (2 * l + 1) % 4 = 1 := by omega
    rcases this with h1 | h1
    · exact jacobiSym.quadratic_reciprocity_one_mod_four h1 ⟨l, rfl⟩
    · exact (jacobiSym.quadratic_reciprocity_one_mod_four h1 ⟨k, rfl⟩).symm

/-- the symbol of a prime: 0 for multiples, 1 for squares, -1 otherwise -/
theorem jac_zero_iff (a : ℤ) (p : ℕ) (hp : p.Prime) : jacobiSym a p = 0 ↔ (p : ℤ) ∣ a := by
  have := Fact.mk hp
  rw [← jacobiSym.legendreSym.to_jacobiSym, legendreSym.eq_zero_iff, ZMod.intCast_zmod_eq_zero_iff_dvd]

theorem jac_one_iff (a : ℤ) (p : ℕ) (hp : p.Prime) (h : ¬ (p : ℤ) ∣ a) :
    jacobiSym a p = 1 ↔ ∃ x : ℤ, (p : ℤ) ∣ x ^ 2 - a := by
  have := Fact.mk hp
  have h0 : (a : ZMod p) ≠ 0 := by rwa [Ne, ZMod.intCast_zmod_eq_zero_iff_dvd]
  rw [← jacobiSym.legendreSym.to_jacobiSym, legendreSym.eq_one_iff p h0]
  constructor
  · rintro ⟨y, hy⟩
    obtain ⟨x, rfl⟩ := ZMod.intCast_surjective y
    refine ⟨x, ?_⟩
    rw [← ZMod.intCast_zmod_eq_zero_iff_dvd]
    push_cast
    rw [hy]; ring
  · rintro ⟨x, hx⟩
    rw [← ZMod.intCast_zmod_eq_zero_iff_dvd] at hx
    push_cast at hx
    exact ⟨x, by linear_combination -hx⟩

/-- Euler's criterion -/
theorem jac_euler (a : ℤ) (p : ℕ) (hp : p.Prime) : (p : ℤ) ∣ a ^ (p / 2) - jacobiSym a p := by
  have := Fact.mk hp
  rw [← jacobiSym.legendreSym.to_jacobiSym, ← ZMod.intCast_zmod_eq_zero_iff_dvd]
  push_cast
  rw [legendreSym.eq_pow, sub_self]

theorem gcd_prime (x : ℤ) (p : ℕ) (hp : p.Prime) : Int.gcd x p = if (p : ℤ) ∣ x then p else 1 := by
  split_ifs with h
  · rw [Int.gcd_comm]; exact Nat.gcd_eq_left (Int.natCast_dvd.mp h)
  · rw [Int.gcd_comm]; exact Int.isCoprime_iff_gcd_eq_one.mp ((Nat.prime_iff_prime_int.mp hp).coprime_iff_not_dvd.mpr h)
