import Mathlib.FieldTheory.Finite.Basic
import Mathlib.Data.Nat.ChineseRemainder

/-- m^(1 + k*j*(p-1)) = m modulo a prime p -/
theorem fermat_step {p : ℕ} (hp : p.Prime) (m t : ℕ) : m ^ (1 + t * (p - 1)) ≡ m [MOD p] := by
  haveI := Fact.mk hp
  rw [← ZMod.natCast_eq_natCast_iff]
  push_cast
  by_cases h : (m : ZMod p) = 0
  · rw [h, zero_pow (by omega)]
  · rw [pow_add, pow_one, mul_comm t, pow_mul, ZMod.pow_card_sub_one_eq_one h, one_pow, mul_one]

/-- what C25's contracts give (n = p*q, p and q distinct primes, e*d = 1 modulo (p-1)*(q-1), results are powers modulo n)
    makes decryption the inverse of encryption, and verification the inverse of signing -/
theorem rsa_roundtrip {p q : ℕ} (hp : p.Prime) (hq : q.Prime) (hne : p ≠ q) {e d k m : ℕ}
    (h : e * d = 1 + k * ((p - 1) * (q - 1))) (hm : m < p * q) :
    (m ^ e % (p * q)) ^ d % (p * q) = m := by
  rw [← Nat.pow_mod, ← pow_mul, h]
  have c : Nat.Coprime p q := (Nat.coprime_primes hp hq).2 hne
  have a : m ^ (1 + k * ((p - 1) * (q - 1))) ≡ m [MOD p] := by
    have := fermat_step hp m (k * (q - 1)); convert this using 2; ring
  have b : m ^ (1 + k * ((p - 1) * (q - 1))) ≡ m [MOD q] := by
    have := fermat_step hq m (k * (p - 1)); convert this using 2; ring
  have := (Nat.modEq_and_modEq_iff_modEq_mul c).1 ⟨a, b⟩
  have r : m ^ (1 + k * ((p - 1) * (q - 1))) % (p * q) = m % (p * q) := this
  rw [r, Nat.mod_eq_of_lt hm]
#print axioms rsa_roundtrip
