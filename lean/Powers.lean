import Mathlib.Data.Int.ModEq
/- Facts about powers modulo m used by engine/theory.py. -/

theorem congr_iff (a b m : Int) : (a - b) % m = 0 ↔ a ≡ b [ZMOD m] := by
  rw [Int.modEq_iff_dvd, ← Int.dvd_iff_emod_eq_zero, ← Int.dvd_neg, neg_sub]

theorem power_reduced (b m : Int) (e : Nat) (h : 1 ≤ m) : 0 ≤ b ^ e % m ∧ b ^ e % m < m :=
  ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ (by omega)⟩

theorem one_power (b m : Int) (e : Nat) (h : (b - 1) % m = 0) : (b ^ e % m - 1) % m = 0 := by
  rw [congr_iff] at *
  have := h.pow e
  rw [one_pow] at this
  exact (Int.mod_modEq _ _).trans this

theorem inverse_power (b c m : Int) (e : Nat) (h : (b * c - 1) % m = 0) :
    ((b ^ e % m) * (c ^ e % m) - 1) % m = 0 := by
  rw [congr_iff] at *
  have := h.pow e
  rw [one_pow, mul_pow] at this
  exact ((Int.mod_modEq _ _).mul (Int.mod_modEq _ _)).trans this
