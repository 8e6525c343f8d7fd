/- Every list of n digits below b is the base-b digit list of exactly one number below b^n,
   most significant digit first:  l[i] = N / b^(n-1-i) % b. -/

def value (b : Nat) : List Nat → Nat
  | [] => 0
  | d :: l => d * b ^ l.length + value b l

theorem value_lt (b : Nat) (l : List Nat) (h : ∀ d ∈ l, d < b) : value b l < b ^ l.length := by
  induction l with
  | nil => simp [value]
  | cons d l ih =>
    have h1 := ih (fun x hx => h x (List.mem_cons_of_mem _ hx))
    have h2 : d < b := h d (List.mem_cons_self ..)
    simp only [value, List.length_cons, Nat.pow_succ]
    have : d * b ^ l.length + b ^ l.length ≤ b ^ l.length * b := by
      rw [Nat.mul_comm (b ^ l.length) b, ← Nat.succ_mul]
      exact Nat.mul_le_mul_right _ h2
    omega

theorem digit_of_value (b : Nat) (hb : 0 < b) (l : List Nat) (h : ∀ d ∈ l, d < b) (i : Nat) (hi : i < l.length) :
    value b l / b ^ (l.length - 1 - i) % b = l[i] := by
  induction l generalizing i with
  | nil => simp at hi
  | cons d l ih =>
    have hl : ∀ x ∈ l, x < b := fun x hx => h x (List.mem_cons_of_mem _ hx)
    have h1 := value_lt b l hl
    have h2 : d < b := h d (List.mem_cons_self ..)
    cases i with
    | zero =>
      simp only [value, List.length_cons, Nat.add_sub_cancel, Nat.sub_zero, List.getElem_cons_zero]
      have hp : 0 < b ^ l.length := Nat.pow_pos hb
      rw [Nat.mul_comm, Nat.mul_add_div hp, Nat.div_eq_of_lt h1, Nat.add_zero, Nat.mod_eq_of_lt h2]
    | succ j =>
      have hj : j < l.length := by simpa using hi
      have e : (d :: l).length - 1 - (j + 1) = l.length - 1 - j := by simp; omega
      rw [e, List.getElem_cons_succ, ← ih hl j hj]
      simp only [value]
      have hk : l.length = (l.length - 1 - j) + (j + 1) := by omega
      have hp : 0 < b ^ (l.length - 1 - j) := Nat.pow_pos hb
      have : d * b ^ l.length = b ^ (l.length - 1 - j) * (b * (d * b ^ j)) := by
        conv => lhs; rw [hk, Nat.pow_add, Nat.pow_succ]
        simp only [Nat.mul_comm, Nat.mul_left_comm, Nat.mul_assoc]
      rw [this, Nat.mul_add_div hp, Nat.mul_add_mod]

theorem value_inj (b : Nat) (n : Nat) (N M : Nat) (hN : N < b ^ n) (hM : M < b ^ n)
    (h : ∀ i, i < n → N / b ^ (n - 1 - i) % b = M / b ^ (n - 1 - i) % b) : N = M := by
  induction n generalizing N M with
  | zero => simp at hN hM; omega
  | succ n ih =>
    have h0 := h n (Nat.lt_succ_self n)
    simp at h0
    have q : N / b = M / b := by
      apply ih
      · rw [Nat.pow_succ] at hN; exact Nat.div_lt_of_lt_mul (by rw [Nat.mul_comm]; exact hN)
      · rw [Nat.pow_succ] at hM; exact Nat.div_lt_of_lt_mul (by rw [Nat.mul_comm]; exact hM)
      · intro i hi
        have := h i (by omega)
        have e : n + 1 - 1 - i = (n - 1 - i) + 1 := by omega
        rw [e, Nat.pow_succ, Nat.mul_comm, ← Nat.div_div_eq_div_mul, ← Nat.div_div_eq_div_mul] at this
        exact this
    rw [← Nat.div_add_mod N b, ← Nat.div_add_mod M b, q, h0]
