import Mathlib.Data.Int.ModEq
/- Facts about powers used by engine/theory.py (ORDERS). -/

theorem pow_next (b m : Int) (e : Nat) : (b ^ e % m) * b % m = b ^ (e + 1) % m := by
  rw [pow_succ]
  exact Int.ModEq.mul_right b (Int.mod_modEq _ _)
