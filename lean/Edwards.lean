import Mathlib.Algebra.Field.Basic
import Mathlib.Tactic.LinearCombination
import Mathlib.Tactic.FieldSimp
import Mathlib.Tactic.Ring
/- Completeness of the Edwards addition law (Bernstein-Lange): with a = s^2 and d no square the denominators never vanish. -/

theorem edwards_key {K : Type*} [Field K] (s d x1 y1 x2 y2 e : K) (hd : ∀ t : K, t ^ 2 ≠ d) (h2 : (2 : K) ≠ 0)
    (h1 : s ^ 2 * x1 ^ 2 + y1 ^ 2 = 1 + d * x1 ^ 2 * y1 ^ 2)
    (k2 : s ^ 2 * x2 ^ 2 + y2 ^ 2 = 1 + d * x2 ^ 2 * y2 ^ 2) (he : e = d * x1 * x2 * y1 * y2) (hee : e ^ 2 = 1) (hs : s ≠ 0) : False := by
  have hx1 : x1 ≠ 0 := by rintro rfl; simp [he] at hee
  have hy1 : y1 ≠ 0 := by rintro rfl; simp [he] at hee
  have hx2 : x2 ≠ 0 := by rintro rfl; simp [he] at hee
  have hy2 : y2 ≠ 0 := by rintro rfl; simp [he] at hee
  have key : ∀ c : K, c ^ 2 = 1 → (s * x1 + c * e * y1) ^ 2 = d * (x1 * y1 * (s * x2 + c * y2)) ^ 2 := by
    intro c hc
    have a1 : (s * x1 + c * e * y1) ^ 2 = s ^ 2 * x1 ^ 2 + y1 ^ 2 + 2 * c * e * s * x1 * y1 := by
      linear_combination (e ^ 2 * y1 ^ 2) * hc + y1 ^ 2 * hee
    have a2 : d * (x1 * y1 * (s * x2 + c * y2)) ^ 2 = d * x1 ^ 2 * y1 ^ 2 * (s ^ 2 * x2 ^ 2 + y2 ^ 2) + 2 * c * e * s * x1 * y1 := by
      rw [he]; linear_combination (d * x1 ^ 2 * y1 ^ 2 * y2 ^ 2) * hc
    have a3 : e ^ 2 = d * x1 ^ 2 * y1 ^ 2 * (d * x2 ^ 2 * y2 ^ 2) := by rw [he]; ring
    rw [a1, a2, h1, k2]
    linear_combination (-1 : K) * hee + a3
  have nz : ∀ c : K, c ^ 2 = 1 → s * x2 + c * y2 = 0 := by
    intro c hc
    by_contra h
    refine hd ((s * x1 + c * e * y1) / (x1 * y1 * (s * x2 + c * y2))) ?_
    rw [div_pow, key c hc]
    field_simp
  have p := nz 1 (by ring)
  have m := nz (-1) (by ring)
  have : 2 * (s * x2) = 0 := by linear_combination p + m
  simp_all

theorem edwards_complete {K : Type*} [Field K] (s d x1 y1 x2 y2 : K) (hd : ∀ t : K, t ^ 2 ≠ d) (h2 : (2 : K) ≠ 0) (hs : s ≠ 0)
    (h1 : s ^ 2 * x1 ^ 2 + y1 ^ 2 = 1 + d * x1 ^ 2 * y1 ^ 2)
    (k2 : s ^ 2 * x2 ^ 2 + y2 ^ 2 = 1 + d * x2 ^ 2 * y2 ^ 2) :
    1 + d * x1 * x2 * y1 * y2 ≠ 0 ∧ 1 - d * x1 * x2 * y1 * y2 ≠ 0 := by
  constructor <;> intro h <;> refine edwards_key s d x1 y1 x2 y2 _ hd h2 h1 k2 rfl ?_ hs
  · linear_combination (d * x1 * x2 * y1 * y2 - 1) * h
  · linear_combination (-1 - d * x1 * x2 * y1 * y2) * h
