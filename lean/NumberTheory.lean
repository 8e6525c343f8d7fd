/- Facts about gcd and lcm of integers used by engine/theory.py (Int.gcd, Int.lcm of the Lean library). -/

theorem gcd_swap (a b : Int) : Int.gcd a b = Int.gcd b a := Int.gcd_comm a b

theorem gcd_zero (a : Int) : Int.gcd a 0 = a.natAbs := by simp

theorem gcd_one (a : Int) : Int.gcd a 1 = 1 := by simp

theorem gcd_same (a : Int) : Int.gcd a a = a.natAbs := by simp

theorem gcd_sign (a c b d : Int) (h : a = c ∨ a = -c) (k : b = d ∨ b = -d) : Int.gcd a b = Int.gcd c d := by
  rcases h with rfl | rfl <;> rcases k with rfl | rfl <;> simp

theorem gcd_step (c q b : Int) : Int.gcd (c + q * b) b = Int.gcd c b := by simp

theorem gcd_positive (a b : Int) (h : a ≠ 0) : 1 ≤ Int.gcd a b := Int.gcd_pos_of_ne_zero_left b h

theorem gcd_bound (a b : Int) (h : a ≠ 0) : Int.gcd a b ≤ a.natAbs :=
  Nat.gcd_le_left b.natAbs (by omega)

theorem lcm_product (a b : Int) (_ : Int.gcd a b ≠ 0) : (a * b).natAbs / Int.gcd a b = Int.lcm a b := by
  simp [Int.lcm, Int.gcd, Int.natAbs_mul, Nat.lcm]

theorem lcm_zero (a b : Int) (h : Int.gcd a b = 0) : Int.lcm a b = 0 := by
  have := Int.gcd_eq_zero_iff.mp h
  simp [this]
