import Mathlib.Data.Nat.Bitwise
import Mathlib.Tactic
/- Facts about powers of two and bits used by engine/theory.py (all for natural numbers: the facts carry x ≥ 0). -/

def Pow2 (x : Nat) : Prop := ∃ k, x = 2 ^ k

theorem pow2_pos (x : Nat) (h : Pow2 x) : 1 ≤ x := by
  obtain ⟨k, rfl⟩ := h; exact Nat.one_le_two_pow

theorem pow2_even (x : Nat) (h : Pow2 x) : x = 1 ∨ x % 2 = 0 := by
  obtain ⟨k, rfl⟩ := h
  rcases k with _ | k
  · left; rfl
  · right; rw [pow_succ]; omega

theorem pow2_one : Pow2 1 := ⟨0, rfl⟩

theorem pow2_double (x y : Nat) (h : x = 2 * y) : Pow2 x ↔ Pow2 y ∨ x = 1 := by
  constructor
  · rintro ⟨k, hk⟩
    rcases k with _ | k
    · right; simpa using hk
    · left; refine ⟨k, ?_⟩; rw [pow_succ] at hk; omega
  · rintro (⟨k, hk⟩ | h1)
    · exact ⟨k + 1, by rw [pow_succ]; omega⟩
    · omega

theorem pow2_half (y : Nat) (h : Pow2 y) (c : Nat) (hc : c = 2 ∨ c = 4) (hy : c ≤ y) : Pow2 (y / c) ∧ c * (y / c) = y := by
  obtain ⟨k, rfl⟩ := h
  rcases hc with rfl | rfl
  · rcases k with _ | k
    · simp at hy
    · rw [pow_succ]; exact ⟨⟨k, by omega⟩, by omega⟩
  · rcases k with _ | _ | k
    · simp at hy
    · simp at hy
    · rw [pow_succ, pow_succ]; exact ⟨⟨k, by omega⟩, by omega⟩

theorem hi_zero (x i : Nat) (h : x < 2 * i) : x / (2 * i) = 0 := Nat.div_eq_of_lt h

theorem hi_one (x i : Nat) (h : 2 * i ≤ x) (h2 : x < 4 * i) : x / (2 * i) = 1 := by
  apply Nat.div_eq_of_lt_le <;> omega

theorem hi_unit (x : Nat) : 2 * (x / (2 * 1)) + x % 2 = x := by omega

theorem hi_step (x a b : Nat) (h : a = 2 * b) (hb : Pow2 b) :
    x / (2 * b) = 2 * (x / (2 * a)) + (if x &&& a = 0 then 0 else 1) := by
  obtain ⟨k, rfl⟩ := hb
  have ha : a = 2 ^ (k + 1) := by rw [pow_succ]; omega
  have h1 : x / (2 * 2 ^ k) = x / 2 ^ (k + 1) := by rw [pow_succ, mul_comm]
  have h2 : x / (2 * a) = x / 2 ^ (k + 1) / 2 := by rw [ha, Nat.div_div_eq_div_mul, mul_comm]
  have h3 : (x &&& a = 0) ↔ x / 2 ^ (k + 1) % 2 = 0 := by
    rw [ha, Nat.and_two_pow, Nat.testBit_eq_decide_div_mod_eq]
    have := Nat.mod_two_eq_zero_or_one (x / 2 ^ (k + 1))
    rcases this with h | h <;> simp [h]
  rw [h1, h2]
  by_cases hz : x &&& a = 0
  · rw [if_pos hz]; have := h3.mp hz; omega
  · rw [if_neg hz]
    have : ¬ x / 2 ^ (k + 1) % 2 = 0 := fun h => hz (h3.mpr h)
    omega

theorem hi_last (x : Nat) : x = 2 * (x / (2 * 1)) + (if x &&& 1 = 0 then 0 else 1) := by
  rw [Nat.and_one_is_mod]
  rcases Nat.mod_two_eq_zero_or_one x with h | h <;> simp [h] <;> omega
