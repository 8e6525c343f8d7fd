import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Data.ZMod.Basic
/- Facts about Miller-Rabin used by engine/theory.py (WITNESS). -/

theorem z_iff (x y : ℤ) (p : ℕ) : (x - y) % p = 0 ↔ (x : ZMod p) = y := by
  rw [← Int.dvd_iff_emod_eq_zero, ← ZMod.intCast_zmod_eq_zero_iff_dvd]
  push_cast
  exact sub_eq_zero

theorem small_eq (x : ℤ) (p : ℕ) (hp : p.Prime) (h : (x : ZMod p) = 1) : x % p = 1 := by
  have p2 := hp.two_le
  have h3 : (x - 1) % (p : ℤ) = 0 := by rw [z_iff]; push_cast; exact h
  have h5 : x % (p : ℤ) = 1 % p := Int.emod_eq_emod_iff_emod_sub_eq_zero.2 h3
  rw [h5]; exact Int.emod_eq_of_lt (by omega) (by omega)

/-- a reduced square root of 1 modulo a prime is 1 or -1 -/
theorem sqrt_one (b : ℤ) (p : ℕ) (hp : p.Prime) (h0 : 0 ≤ b) (h1 : b < p) (h : b * b % p = 1) : b = 1 ∨ b = p - 1 := by
  have := Fact.mk hp
  have p2 := hp.two_le
  have hz : (b * b - 1) % (p : ℤ) = 0 := by
    rw [Int.sub_emod, h]
    simp [Int.emod_eq_of_lt (show (0 : ℤ) ≤ 1 by omega) (show (1 : ℤ) < p by omega)]
  have hz2 : (b : ZMod p) * b = 1 := by
    have := (z_iff (b * b) 1 p).1 hz
    push_cast at this; exact this
  rcases mul_self_eq_one_iff.1 hz2 with h2 | h2
  · left
    have := small_eq b p hp h2
    rwa [Int.emod_eq_of_lt h0 h1] at this
  · right
    have h3 : (b - (p - 1)) % (p : ℤ) = 0 := by rw [z_iff]; push_cast; simp [h2]
    have h5 : b % (p : ℤ) = (p - 1) % p := Int.emod_eq_emod_iff_emod_sub_eq_zero.2 h3
    rwa [Int.emod_eq_of_lt h0 h1, Int.emod_eq_of_lt (by omega) (by omega)] at h5

/-- Fermat's little theorem -/
theorem fermat (b : ℤ) (p e : ℕ) (hp : p.Prime) (hb : b % p ≠ 0) (he : (e : ℤ) = p - 1) : b ^ e % p = 1 := by
  have := Fact.mk hp
  have p2 := hp.two_le
  have he' : e = p - 1 := by omega
  apply small_eq _ p hp
  push_cast
  rw [he']
  apply ZMod.pow_card_sub_one_eq_one
  intro h
  apply hb
  have := (ZMod.intCast_zmod_eq_zero_iff_dvd b p).1 h
  exact Int.emod_eq_zero_of_dvd this

/-- the same in two steps -/
theorem fermat_nested (c : ℤ) (p e f : ℕ) (hp : p.Prime) (hc : c % p ≠ 0) (he : (e : ℤ) * f = p - 1) :
    (c ^ f % p) ^ e % p = 1 := by
  have h : (c ^ f % (p : ℤ)) ^ e % p = c ^ (e * f) % p := by
    rw [mul_comm e f, pow_mul]
    exact (Int.ModEq.pow e (Int.mod_modEq _ _))
  rw [h]
  exact fermat c p (e * f) hp hc (by push_cast; exact he)

theorem power_two (b m : ℤ) : b ^ 2 % m = b * b % m := by rw [sq]

/-- b^(2f) = (b^2)^f -/
theorem square_power (b c m : ℤ) (e f : ℕ) (h : (b * b - c) % m = 0) (he : e = 2 * f) : b ^ e % m = c ^ f % m := by
  rw [he, pow_mul, sq]
  exact (Int.ModEq.pow f (Int.emod_emod_of_dvd (b * b) (dvd_refl m) |> fun _ => Int.emod_eq_emod_iff_emod_sub_eq_zero.2 h))
