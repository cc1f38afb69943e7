import Mathlib
/-! The lemma library of pyvc over the integers.  Generated by tools/mklean.py from pyvc/lemmas.py and lean/proofs.txt. -/
set_option linter.all false
namespace PyVC
def pow2 (k : ℤ) : ℤ := 2 ^ k.toNat
def shl (x k : ℤ) : ℤ := x * 2 ^ k.toNat
def shr (x k : ℤ) : ℤ := x / 2 ^ k.toNat
def mod2 (x k : ℤ) : ℤ := x % 2 ^ k.toNat
def bit (x i : ℤ) : Prop := x.testBit i.toNat = true
def band (x y : ℤ) : ℤ := Int.land x y
def bor (x y : ℤ) : ℤ := Int.lor x y
def bxor (x y : ℤ) : ℤ := Int.xor x y
def fdiv (x y : ℤ) : ℤ := Int.fdiv x y
def fmod (x y : ℤ) : ℤ := Int.fmod x y
def blen (x : ℤ) : ℤ := (Nat.size x.natAbs : ℤ)


theorem P_pos (n : ℕ) : (0:ℤ) < 2^n := by positivity
theorem P_ge (n : ℕ) : (1:ℤ) ≤ 2^n := P_pos n
theorem dm_unique (x P q r : ℤ) (h0 : 0 ≤ r) (h1 : r < P) (h : x = r + P * q) : x / P = q ∧ x % P = r :=
  (Int.ediv_emod_unique (by omega)).2 ⟨h.symm, h0, h1⟩
theorem P_split (a b : ℤ) (h0 : 0 ≤ a) (h1 : a ≤ b) : (2:ℤ)^b.toNat = 2^a.toNat * 2^(b-a).toNat := by
  rw [← pow_add]; congr 1; omega
theorem P_split' (a b : ℤ) (h1 : a ≤ b) : ∃ e : ℤ, (2:ℤ)^b.toNat = 2^a.toNat * e :=
  pow_dvd_pow 2 (Int.toNat_le_toNat h1)
theorem P_add (a b : ℤ) (h0 : 0 ≤ a) (h1 : 0 ≤ b) : (2:ℤ)^(a+b).toNat = 2^a.toNat * 2^b.toNat := by
  rw [← pow_add]; congr 1; omega
theorem dm (x P : ℤ) (h : 0 < P) : ∃ q r : ℤ, x / P = q ∧ x % P = r ∧ 0 ≤ r ∧ r < P ∧ x = r + P * q :=
  ⟨x / P, x % P, rfl, rfl, Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ h, by rw [Int.emod_def]; ring⟩
theorem mod_div (x J K : ℤ) (hJ : 0 < J) (hK : 0 < K) : (x / J) % K = (x % (J * K)) / J := by
  obtain ⟨q, r, -, h2, h3, h4, h5⟩ := dm x (J*K) (by positivity)
  obtain ⟨q1, r1, e1, -, g3, g4, g5⟩ := dm r J hJ
  have hq0 : 0 ≤ q1 := by rw [← e1]; exact Int.ediv_nonneg h3 hJ.le
  have hqK : q1 < K := by rw [← e1]; exact Int.ediv_lt_of_lt_mul hJ (by linarith [mul_comm J K])
  have a1 : x / J = q1 + K * q := (dm_unique x J (q1 + K*q) r1 g3 g4 (by rw [h5, g5]; ring)).1
  rw [h2, e1, a1]
  exact (dm_unique (q1 + K*q) K q q1 hq0 hqK rfl).2
theorem tb_iff (x : ℤ) (i : ℕ) : x.testBit i = true ↔ x / 2^i % 2 = 1 := by
  induction i generalizing x with
  | zero =>
    rw [← Int.bit_decomp x, Int.testBit_bit_zero, Int.bit_val]
    cases Int.bodd x <;> simp <;> omega
  | succ n ih =>
    have h : x / 2^(n+1) = (Int.div2 x) / 2^n := by
      rw [Int.div2_val, Int.ediv_ediv_of_nonneg (by norm_num), pow_succ']
    rw [h, ← ih]
    have h2 : x.testBit (n+1) = (Int.div2 x).testBit n := by
      conv_lhs => rw [← Int.bit_decomp x]
      exact Int.testBit_bit_succ ..
    rw [h2]


theorem pow2_pos (k : ℤ) : ((pow2 k) ≥ (1 : ℤ)) := by
  exact P_ge _


theorem pow2_nonpos (k : ℤ) (h0 : (k ≤ (0 : ℤ))) : ((pow2 k) = (1 : ℤ)) := by
  simp [pow2, Int.toNat_of_nonpos h0]


theorem pow2_gt (k : ℤ) : (k < (pow2 k)) := by
  have h : k.toNat < 2 ^ k.toNat := Nat.lt_two_pow_self
  have h2 : ((k.toNat : ℕ) : ℤ) < (2 : ℤ) ^ k.toNat := by exact_mod_cast h
  unfold pow2; have := Int.self_le_toNat k; omega


theorem pow2_ge2 (k : ℤ) (h0 : (k ≥ (1 : ℤ))) : ((pow2 k) ≥ (2 : ℤ)) := by
  have : k.toNat = (k.toNat - 1) + 1 := by omega
  unfold pow2; rw [this, pow_succ]; have := P_ge (k.toNat - 1); omega


theorem pow2_step (a c : ℤ) (h0 : (a ≥ (0 : ℤ))) (h1 : (c ≥ (0 : ℤ))) : ((pow2 (a + c)) = ((pow2 a) * (pow2 c))) := by
  exact P_add a c h0 h1


theorem pow2_mono (a b : ℤ) (h0 : (a ≥ (0 : ℤ))) (h1 : (a < b)) : (((2 : ℤ) * (pow2 a)) ≤ (pow2 b)) := by
  have : b.toNat = (b.toNat - a.toNat - 1) + a.toNat + 1 := by omega
  unfold pow2; rw [this, pow_succ, pow_add]
  have h2 := P_ge (b.toNat - a.toNat - 1); have h3 := P_pos a.toNat; nlinarith


theorem pow2_inj (a b : ℤ) (h0 : (a = b)) : ((pow2 a) = (pow2 b)) := by
  rw [h0]


theorem shl_pow2 (a b : ℤ) (h0 : (a ≥ (0 : ℤ))) (h1 : (b ≥ (0 : ℤ))) : ((shl (pow2 a) b) = (pow2 (a + b))) := by
  exact (P_add a b h0 h1).symm


theorem mod2_range (x k : ℤ) : (((mod2 x k) ≥ (0 : ℤ)) ∧ ((mod2 x k) < (pow2 k))) := by
  exact ⟨Int.emod_nonneg _ (P_pos _).ne', Int.emod_lt_of_pos _ (P_pos _)⟩


theorem mod2_id (x k : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) : ((mod2 x k) = x) := by
  exact Int.emod_eq_of_lt h0 h1


theorem mod2_hi (x k : ℤ) (h0 : ((pow2 k) ≤ x)) (h1 : (x < ((2 : ℤ) * (pow2 k)))) : ((mod2 x k) = (x - (pow2 k))) := by
  unfold pow2 at *; exact (dm_unique x _ 1 _ (by omega) (by omega) (by ring)).2


theorem mod2_hi2 (x k : ℤ) (h0 : (((2 : ℤ) * (pow2 k)) ≤ x)) (h1 : (x < ((3 : ℤ) * (pow2 k)))) : ((mod2 x k) = (x - ((2 : ℤ) * (pow2 k)))) := by
  unfold pow2 at *; exact (dm_unique x _ 2 _ (by omega) (by omega) (by ring)).2


theorem mod2_lo (x k : ℤ) (h0 : ((-(pow2 k)) ≤ x)) (h1 : (x < (0 : ℤ))) : ((mod2 x k) = (x + (pow2 k))) := by
  unfold pow2 at *; exact (dm_unique x _ (-1) _ (by omega) (by omega) (by ring)).2


theorem mod2_lo2 (x k : ℤ) (h0 : (((-2 : ℤ) * (pow2 k)) ≤ x)) (h1 : (x < (-(pow2 k)))) : ((mod2 x k) = (x + ((2 : ℤ) * (pow2 k)))) := by
  unfold pow2 at *; exact (dm_unique x _ (-2) _ (by omega) (by omega) (by ring)).2


theorem mod2_decomp (x k : ℤ) : (x = ((shl (shr x k) k) + (mod2 x k))) := by
  unfold shl shr mod2; rw [Int.emod_def]; ring


theorem mod2_drop_mod (c x j r k : ℤ) (h0 : (k ≤ j)) : ((mod2 ((c * (mod2 x j)) + r) k) = (mod2 ((c * x) + r) k)) := by
  obtain ⟨e, he⟩ := P_split' k j h0
  unfold mod2; rw [Int.emod_def x, he]
  have : c * (x - 2 ^ k.toNat * e * (x / (2 ^ k.toNat * e))) + r = (c*x + r) + 2 ^ k.toNat * (-(c * e * (x / (2 ^ k.toNat * e)))) := by ring
  rw [this, Int.add_mul_emod_self_left]


theorem mod2_drop_pow (c j r k : ℤ) (h0 : (k ≤ j)) : ((mod2 ((c * (pow2 j)) + r) k) = (mod2 r k)) := by
  obtain ⟨e, he⟩ := P_split' k j h0
  unfold mod2 pow2; rw [he]
  have : c * (2 ^ k.toNat * e) + r = r + 2 ^ k.toNat * (c * e) := by ring
  rw [this, Int.add_mul_emod_self_left]


theorem mod2_drop_shl (c y j r k : ℤ) (h0 : (k ≤ j)) : ((mod2 ((c * (shl y j)) + r) k) = (mod2 r k)) := by
  obtain ⟨e, he⟩ := P_split' k j h0
  unfold mod2 shl; rw [he]
  have : c * (y * (2 ^ k.toNat * e)) + r = r + 2 ^ k.toNat * (c * y * e) := by ring
  rw [this, Int.add_mul_emod_self_left]


theorem mod2_drop_mul (c x j b r k : ℤ) (h0 : (k ≤ j)) : ((mod2 ((c * ((mod2 x j) * b)) + r) k) = (mod2 ((c * (x * b)) + r) k)) := by
  obtain ⟨e, he⟩ := P_split' k j h0
  unfold mod2; rw [Int.emod_def x, he]
  have : c * ((x - 2 ^ k.toNat * e * (x / (2 ^ k.toNat * e))) * b) + r = (c*(x*b) + r) + 2 ^ k.toNat * (-(c * e * b * (x / (2 ^ k.toNat * e)))) := by ring
  rw [this, Int.add_mul_emod_self_left]


theorem mod2_shl (x j k : ℤ) (h0 : (j ≥ (0 : ℤ))) (h1 : (j ≤ k)) : ((mod2 (shl x j) k) = (shl (mod2 x (k - j)) j)) := by
  unfold mod2 shl; rw [P_split j k h0 h1, mul_comm x, Int.mul_emod_mul_of_pos _ _ (P_pos _), mul_comm]


theorem mod2_shr (x j k : ℤ) (h0 : (j ≥ (0 : ℤ))) (h1 : (k ≥ (0 : ℤ))) : ((mod2 (shr x j) k) = (shr (mod2 x (j + k)) j)) := by
  unfold mod2 shr; rw [P_add j k h0 h1]; exact mod_div _ _ _ (P_pos _) (P_pos _)


theorem mod2_cong (x y k : ℤ) (h0 : (x = y)) : ((mod2 x k) = (mod2 y k)) := by
  rw [h0]


theorem shr_nonneg (x k : ℤ) (h0 : (x ≥ (0 : ℤ))) : (((shr x k) ≥ (0 : ℤ)) ∧ ((shr x k) ≤ x)) := by
  exact ⟨Int.ediv_nonneg h0 (P_pos _).le, Int.ediv_le_self _ h0⟩


theorem shr_neg (x k : ℤ) (h0 : (x < (0 : ℤ))) : ((x ≤ (shr x k)) ∧ ((shr x k) ≤ (-1 : ℤ))) := by
  refine ⟨?_, ?_⟩
  · exact (Int.le_ediv_iff_mul_le (P_pos _)).2 (by nlinarith [P_ge k.toNat])
  · have := Int.ediv_neg_of_neg_of_pos h0 (P_pos k.toNat); unfold shr; omega


theorem shr_zero (x k : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) : ((shr x k) = (0 : ℤ)) := by
  exact Int.ediv_eq_zero_of_lt h0 h1


theorem shr_one (x k : ℤ) (h0 : ((pow2 k) ≤ x)) (h1 : (x < ((2 : ℤ) * (pow2 k)))) : ((shr x k) = (1 : ℤ)) := by
  unfold pow2 at *; exact (dm_unique x _ 1 (x - 2 ^ k.toNat) (by omega) (by omega) (by ring)).1


theorem shr_m1 (x k : ℤ) (h0 : ((-(pow2 k)) ≤ x)) (h1 : (x < (0 : ℤ))) : ((shr x k) = (-1 : ℤ)) := by
  unfold pow2 at *; exact (dm_unique x _ (-1) (x + 2 ^ k.toNat) (by omega) (by omega) (by ring)).1


theorem shr_id (x k : ℤ) (h0 : (k ≤ (0 : ℤ))) : ((shr x k) = x) := by
  simp [shr, Int.toNat_of_nonpos h0]


theorem shr_lt (x m k : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (k ≤ m)) (h2 : (x < (pow2 m))) : ((shr x k) < (pow2 (m - k))) := by
  unfold shr pow2 at *; rw [Int.ediv_lt_iff_lt_mul (P_pos _)]
  rw [P_split k m h0 h1, mul_comm] at h2; exact h2


theorem shr_ge (x m k : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (k ≤ m)) (h2 : ((-(pow2 m)) ≤ x)) : ((-(pow2 (m - k))) ≤ (shr x k)) := by
  unfold shr pow2 at *; rw [Int.le_ediv_iff_mul_le (P_pos _)]
  rw [P_split k m h0 h1] at h2; linarith [mul_comm ((2:ℤ)^k.toNat) (2^(m-k).toNat)]


theorem shr_shr (x a b : ℤ) (h0 : (a ≥ (0 : ℤ))) (h1 : (b ≥ (0 : ℤ))) : ((shr (shr x a) b) = (shr x (a + b))) := by
  unfold shr; rw [Int.ediv_ediv_of_nonneg (P_pos _).le, P_add a b h0 h1]


theorem shr_drop_shl (c y j r k : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (k ≤ j)) : ((shr ((c * (shl y j)) + r) k) = ((c * (shl y (j - k))) + (shr r k))) := by
  unfold shr shl; rw [P_split k j h0 h1]
  have : c * (y * (2 ^ k.toNat * 2 ^ (j - k).toNat)) + r = r + 2 ^ k.toNat * (c * (y * 2 ^ (j - k).toNat)) := by ring
  rw [this, Int.add_mul_ediv_left _ _ (P_pos _).ne']; ring


theorem shr_drop_pow (c j r k : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (k ≤ j)) : ((shr ((c * (pow2 j)) + r) k) = ((c * (pow2 (j - k))) + (shr r k))) := by
  unfold shr pow2; rw [P_split k j h0 h1]
  have : c * (2 ^ k.toNat * 2 ^ (j - k).toNat) + r = r + 2 ^ k.toNat * (c * 2 ^ (j - k).toNat) := by ring
  rw [this, Int.add_mul_ediv_left _ _ (P_pos _).ne']; ring


theorem shr_shl (x j k : ℤ) (h0 : (j ≥ (0 : ℤ))) (h1 : (j ≤ k)) : ((shr (shl x j) k) = (shr x (k - j))) := by
  unfold shr shl; rw [P_split j k h0 h1, mul_comm x]; exact Int.mul_ediv_mul_of_pos _ _ (P_pos _)


theorem shr_mono (x y k : ℤ) (h0 : (x ≤ y)) : ((shr x k) ≤ (shr y k)) := by
  exact Int.ediv_le_ediv (P_pos _) h0


theorem shr_mod2 (x a b : ℤ) (h0 : (b ≥ (0 : ℤ))) (h1 : (b ≤ a)) : ((shr (mod2 x a) b) = (mod2 (shr x b) (a - b))) := by
  unfold shr mod2; rw [P_split b a h0 h1]; exact (mod_div _ _ _ (P_pos _) (P_pos _)).symm


theorem shl_zero (x k : ℤ) (h0 : (x = (0 : ℤ))) : ((shl x k) = (0 : ℤ)) := by
  simp [shl, h0]


theorem shl_id (x k : ℤ) (h0 : (k ≤ (0 : ℤ))) : ((shl x k) = x) := by
  simp [shl, Int.toNat_of_nonpos h0]


theorem shl_one (x k : ℤ) (h0 : (k = (1 : ℤ))) : ((shl x k) = ((2 : ℤ) * x)) := by
  subst h0; simp [shl]; ring


theorem shl_nonneg (x k : ℤ) (h0 : (x ≥ (0 : ℤ))) : (x ≤ (shl x k)) := by
  unfold shl; nlinarith [P_ge k.toNat]


theorem shl_neg (x k : ℤ) (h0 : (x < (0 : ℤ))) : ((shl x k) ≤ x) := by
  unfold shl; nlinarith [P_ge k.toNat]


theorem shl_lt (x m k : ℤ) (h0 : (m ≥ (0 : ℤ))) (h1 : (k ≥ (0 : ℤ))) (h2 : (x < (pow2 m))) : (((shl x k) + (pow2 k)) ≤ (pow2 (m + k))) := by
  unfold shl pow2 at *; rw [P_add m k h0 h1]; nlinarith [P_pos k.toNat]


theorem shl_ge (x m k : ℤ) (h0 : (m ≥ (0 : ℤ))) (h1 : (k ≥ (0 : ℤ))) (h2 : ((-(pow2 m)) ≤ x)) : ((-(pow2 (m + k))) ≤ (shl x k)) := by
  unfold shl pow2 at *; rw [P_add m k h0 h1]; nlinarith [P_pos k.toNat]


theorem shl_mono (x y k : ℤ) (h0 : (x < y)) : (((shl x k) + (pow2 k)) ≤ (shl y k)) := by
  unfold shl pow2 at *; nlinarith [P_pos k.toNat]


theorem shl_shl (x a b : ℤ) (h0 : (a ≥ (0 : ℤ))) (h1 : (b ≥ (0 : ℤ))) : ((shl (shl x a) b) = (shl x (a + b))) := by
  unfold shl; rw [P_add a b h0 h1]; ring


theorem shl_step (x a c : ℤ) (h0 : (a ≥ (0 : ℤ))) (h1 : (c ≥ (0 : ℤ))) : ((shl x (a + c)) = ((shl x a) * (pow2 c))) := by
  unfold shl pow2; rw [P_add a c h0 h1]; ring


theorem shl_split (c x r k : ℤ) : ((shl ((c * x) + r) k) = ((c * (shl x k)) + (shl r k))) := by
  unfold shl; ring


theorem shl_mask (x k n : ℤ) (h0 : (x = ((pow2 k) - (1 : ℤ)))) (h1 : (k ≥ (0 : ℤ))) (h2 : (n ≥ (0 : ℤ))) : ((shl x n) = ((pow2 (n + k)) - (pow2 n))) := by
  unfold shl pow2 at *; rw [P_add n k h2 h1, h0]; ring


theorem shl_cong (x y k : ℤ) (h0 : (x = y)) : ((shl x k) = (shl y k)) := by
  rw [h0]


theorem bit_def (x i : ℤ) : ((bit x i) ↔ ((mod2 (shr x i) (1 : ℤ)) = (1 : ℤ))) := by
  unfold bit mod2 shr; rw [tb_iff]; norm_num


theorem bit_zero (x : ℤ) : ((bit x (0 : ℤ)) ↔ ((mod2 x (1 : ℤ)) = (1 : ℤ))) := by
  unfold bit mod2; rw [tb_iff]; norm_num


theorem bit_top (x k : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < ((2 : ℤ) * (pow2 k)))) : ((bit x k) ↔ (x ≥ (pow2 k))) := by
  unfold bit pow2 at *; rw [tb_iff]
  by_cases h : (2:ℤ)^k.toNat ≤ x
  · rw [(dm_unique x _ 1 (x - 2 ^ k.toNat) (by omega) (by omega) (by ring)).1]; simp [h]
  · rw [Int.ediv_eq_zero_of_lt h0 (by omega)]; simp; omega


theorem bit_small (x k i : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) (h2 : (k ≤ i)) : (¬ (bit x i)) := by
  unfold bit pow2 at *; rw [tb_iff]
  have : (2:ℤ)^k.toNat ≤ 2^i.toNat := pow_le_pow_right₀ (by norm_num) (Int.toNat_le_toNat h2)
  rw [Int.ediv_eq_zero_of_lt h0 (by omega)]; simp


theorem bit_small_neg (x k i : ℤ) (h0 : ((-(pow2 k)) ≤ x)) (h1 : (x < (0 : ℤ))) (h2 : (k ≤ i)) : (bit x i) := by
  unfold bit pow2 at *; rw [tb_iff]
  have : (2:ℤ)^k.toNat ≤ 2^i.toNat := pow_le_pow_right₀ (by norm_num) (Int.toNat_le_toNat h2)
  rw [(dm_unique x _ (-1) (x + 2 ^ i.toNat) (by omega) (by omega) (by ring)).1]; norm_num


theorem bit_mod2 (x k i : ℤ) (h0 : (i ≥ (0 : ℤ))) : ((bit (mod2 x k) i) ↔ ((i < k) ∧ (bit x i))) := by
  by_cases h : i < k
  · have hh : (mod2 x k) / 2 ^ i.toNat = (x / 2^i.toNat) % 2^(k-i).toNat := by
      unfold mod2; rw [P_split i k h0 h.le]; exact (mod_div _ _ _ (P_pos _) (P_pos _)).symm
    unfold bit; rw [tb_iff, tb_iff, hh, Int.emod_emod_of_dvd]
    · simp [h]
    · exact dvd_pow_self 2 (by omega)
  · have := bit_small (mod2 x k) k i (mod2_range x k).1 (mod2_range x k).2 (by omega)
    simp [h, this]


theorem bit_shr (x k i : ℤ) (h0 : (i ≥ (0 : ℤ))) (h1 : (k ≥ (0 : ℤ))) : ((bit (shr x k) i) ↔ (bit x (i + k))) := by
  unfold bit shr; rw [tb_iff, tb_iff, Int.ediv_ediv_of_nonneg (P_pos _).le, add_comm i k, P_add k i h1 h0]


theorem bit_shl (x k i : ℤ) (h0 : (i ≥ (0 : ℤ))) (h1 : (k ≥ (0 : ℤ))) : ((bit (shl x k) i) ↔ ((k ≤ i) ∧ (bit x (i - k)))) := by
  unfold bit; rw [tb_iff, tb_iff]
  by_cases h : k ≤ i
  · have := shr_shl x k i h1 h; unfold shr at this; rw [this]; simp [h]
  · have e : shl x k / 2 ^ i.toNat = x * 2^(k-i).toNat := by
      unfold shl; rw [P_split i k h0 (by omega), mul_left_comm]; exact Int.mul_ediv_cancel_left _ (P_pos _).ne'
    have e2 : (k-i).toNat = (k-i).toNat - 1 + 1 := by omega
    rw [e, e2, pow_succ, ← mul_assoc]; simp [h]


theorem bit_band (x y i : ℤ) : ((bit (band x y) i) ↔ ((bit x i) ∧ (bit y i))) := by
  simp [bit, band, Int.testBit_land]


theorem bit_bor (x y i : ℤ) : ((bit (bor x y) i) ↔ ((bit x i) ∨ (bit y i))) := by
  simp [bit, bor, Int.testBit_lor]


theorem bit_bxor (x y i : ℤ) : ((bit (bxor x y) i) ↔ (¬ ((bit x i) ↔ (bit y i)))) := by
  simp only [bit, bxor, Int.testBit_lxor]; cases x.testBit i.toNat <;> cases y.testBit i.toNat <;> simp


theorem bit_not (x i : ℤ) : ((bit ((-x) - (1 : ℤ)) i) ↔ (¬ (bit x i))) := by
  unfold bit; rw [tb_iff, tb_iff]
  obtain ⟨q, r, e, -, h2, h3, h4⟩ := dm x (2^i.toNat) (P_pos _)
  rw [(dm_unique (-x-1) (2^i.toNat) (-q-1) (2^i.toNat - 1 - r) (by omega) (by omega) (by rw [h4]; ring)).1, e]; omega


theorem bit_one (j : ℤ) (h : 0 ≤ j) : bit 1 j ↔ j = 0 := by
  by_cases e : j = 0
  · subst e; unfold bit; rw [tb_iff]; norm_num
  · have := bit_small 1 1 j (by norm_num) (by norm_num [pow2]) (by omega); simp [e, this]
theorem bit_m1 (j : ℤ) : bit (-1) j := by
  unfold bit; rw [tb_iff, (dm_unique (-1) (2^j.toNat) (-1) (2^j.toNat - 1) (by have := P_ge j.toNat; omega) (by omega) (by ring)).1]; norm_num
theorem mask_mod (k : ℤ) : pow2 k - 1 = mod2 (-1) k := by
  unfold pow2 mod2
  exact ((dm_unique (-1) (2^k.toNat) (-1) (2^k.toNat - 1) (by have := P_ge k.toNat; omega) (by omega) (by ring)).2).symm
theorem bit_nat (x : ℤ) (n : ℕ) : bit x n ↔ x.testBit n = true := by simp [bit]


theorem bit_pow2 (k i : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (i ≥ (0 : ℤ))) : ((bit (pow2 k) i) ↔ (i = k)) := by
  have : pow2 k = shl 1 k := by simp [pow2, shl]
  rw [this, bit_shl _ _ _ h1 h0]
  by_cases e : k ≤ i
  · rw [bit_one _ (by omega)]; omega
  · omega


theorem bit_mask (k i : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (i ≥ (0 : ℤ))) : ((bit ((pow2 k) - (1 : ℤ)) i) ↔ (i < k)) := by
  rw [mask_mod, bit_mod2 _ _ _ h1]; simp [bit_m1]


theorem bit_join_lo (x y k i : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) (h2 : (i ≥ (0 : ℤ))) (h3 : (i < k)) : ((bit (x + (shl y k)) i) ↔ (bit x i)) := by
  have e : mod2 (x + shl y k) k = x := (dm_unique _ _ y x h0 h1 (by unfold shl pow2; ring)).2
  have := bit_mod2 (x + shl y k) k i h2
  rw [e] at this; rw [this]; simp [h3]


theorem bit_join_hi (x y k i : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) (h2 : (k ≥ (0 : ℤ))) (h3 : (k ≤ i)) : ((bit (x + (shl y k)) i) ↔ (bit y (i - k))) := by
  have e : shr (x + shl y k) k = y := (dm_unique _ _ y x h0 h1 (by unfold shl pow2; ring)).1
  have := bit_shr (x + shl y k) k (i-k) (by omega) h2
  rw [e] at this; rw [this]; simp


theorem eq_of_dvd (d : ℤ) (h : ∀ n : ℕ, (2:ℤ)^n ∣ d) : d = 0 := by
  have h1 : d.natAbs < 2^d.natAbs := Nat.lt_two_pow_self
  exact Int.eq_zero_of_abs_lt_dvd (h d.natAbs) (by rw [Int.abs_eq_natAbs]; exact_mod_cast h1)
theorem ext (x y : ℤ) (h : ∀ i : ℤ, 0 ≤ i → (bit x i ↔ bit y i)) : x = y := by
  have key : ∀ n : ℕ, x % 2^n = y % 2^n := by
    intro n
    induction n with
    | zero => simp
    | succ n ih =>
      have hb := h n (by omega)
      rw [bit_nat, bit_nat, tb_iff, tb_iff] at hb
      have hx := Int.emod_def x (2^n); have hy := Int.emod_def y (2^n)
      have st : ∀ z : ℤ, z % 2^(n+1) = z % 2^n + 2^n * (z / 2^n % 2) := by
        intro z
        obtain ⟨q, r, e, e2, h2, h3, h4⟩ := dm z (2^n) (P_pos _)
        have := P_pos n
        rw [e, e2]
        rcases Int.emod_two_eq_zero_or_one q with hq | hq
        · exact (dm_unique z _ (q/2) _ (by rw [hq]; omega) (by rw [hq, pow_succ]; omega) (by
            rw [hq, h4, pow_succ]; have : q = 2 * (q/2) := by omega
            generalize q / 2 = t at *; subst this; ring)).2
        · exact (dm_unique z _ (q/2) _ (by rw [hq]; omega) (by rw [hq, pow_succ]; omega) (by
            rw [hq, h4, pow_succ]; have : q = 2 * (q/2) + 1 := by omega
            generalize q / 2 = t at *; subst this; ring)).2
      rw [st x, st y, ih]
      have : x / 2^n % 2 = y / 2^n % 2 := by omega
      rw [this]
  have : x - y = 0 := eq_of_dvd _ (fun n => Int.dvd_of_emod_eq_zero (Int.emod_eq_emod_iff_emod_sub_eq_zero.1 (key n)))
  omega
theorem land_lor (n : ℕ) : ∀ x y : ℤ, (2:ℤ)^n ∣ x + y - Int.land x y - Int.lor x y := by
  induction n with
  | zero => intro x y; simp
  | succ n ih =>
    intro x y
    rw [← Int.bit_decomp x, ← Int.bit_decomp y, Int.land_bit, Int.lor_bit]
    have := ih x.div2 y.div2
    simp only [Int.bit_val]
    have e : 2 * x.div2 + (bif x.bodd then 1 else 0) + (2 * y.div2 + (bif y.bodd then 1 else 0)) - (2 * Int.land x.div2 y.div2 + (bif (x.bodd && y.bodd) then 1 else 0)) - (2 * Int.lor x.div2 y.div2 + (bif (x.bodd || y.bodd) then 1 else 0)) = 2 * (x.div2 + y.div2 - Int.land x.div2 y.div2 - Int.lor x.div2 y.div2) := by
      cases x.bodd <;> cases y.bodd <;> simp <;> ring
    rw [e, pow_succ']; exact mul_dvd_mul_left 2 this
theorem land_xor (n : ℕ) : ∀ x y : ℤ, (2:ℤ)^n ∣ x + y - 2 * Int.land x y - Int.xor x y := by
  induction n with
  | zero => intro x y; simp
  | succ n ih =>
    intro x y
    rw [← Int.bit_decomp x, ← Int.bit_decomp y, Int.land_bit, Int.lxor_bit]
    have := ih x.div2 y.div2
    simp only [Int.bit_val]
    have e : 2 * x.div2 + (bif x.bodd then 1 else 0) + (2 * y.div2 + (bif y.bodd then 1 else 0)) - 2 * (2 * Int.land x.div2 y.div2 + (bif (x.bodd && y.bodd) then 1 else 0)) - (2 * Int.xor x.div2 y.div2 + (bif (x.bodd ^^ y.bodd) then 1 else 0)) = 2 * (x.div2 + y.div2 - 2 * Int.land x.div2 y.div2 - Int.xor x.div2 y.div2) := by
      cases x.bodd <;> cases y.bodd <;> simp <;> ring
    rw [e, pow_succ']; exact mul_dvd_mul_left 2 this
theorem nn (x : ℤ) (h : 0 ≤ x) (y : ℤ) : 0 ≤ Int.land x y := by
  obtain ⟨a, rfl⟩ := Int.eq_ofNat_of_zero_le h
  cases y <;> exact Int.natCast_nonneg _
theorem shr_band (x y k : ℤ) (hk : 0 ≤ k) : shr (band x y) k = band (shr x k) (shr y k) := by
  apply ext; intro i hi; rw [bit_shr _ _ _ hi hk, bit_band, bit_band, bit_shr _ _ _ hi hk, bit_shr _ _ _ hi hk]
theorem shr_bor (x y k : ℤ) (hk : 0 ≤ k) : shr (bor x y) k = bor (shr x k) (shr y k) := by
  apply ext; intro i hi; rw [bit_shr _ _ _ hi hk, bit_bor, bit_bor, bit_shr _ _ _ hi hk, bit_shr _ _ _ hi hk]
theorem shr_bxor (x y k : ℤ) (hk : 0 ≤ k) : shr (bxor x y) k = bxor (shr x k) (shr y k) := by
  apply ext; intro i hi; rw [bit_shr _ _ _ hi hk, bit_bxor, bit_bxor, bit_shr _ _ _ hi hk, bit_shr _ _ _ hi hk]
theorem small_iff (x k : ℤ) : (-(pow2 k) ≤ x ∧ x < pow2 k) ↔ (shr x k = 0 ∨ shr x k = -1) := by
  constructor
  · rintro ⟨h0, h1⟩
    by_cases h : 0 ≤ x
    · exact Or.inl (shr_zero x k h h1)
    · exact Or.inr (shr_m1 x k h0 (by omega))
  · obtain ⟨q, r, e, -, h2, h3, h4⟩ := dm x (2^k.toNat) (P_pos _)
    unfold shr pow2; rw [e]
    rintro (h | h) <;> subst h <;> constructor <;> linarith
theorem pow2_toNat (k : ℤ) : pow2 k = pow2 (k.toNat : ℤ) := by simp only [pow2, Int.toNat_natCast]
theorem mod2_toNat (x k : ℤ) : mod2 x k = mod2 x (k.toNat : ℤ) := by simp only [mod2, Int.toNat_natCast]
theorem shl_toNat (x k : ℤ) : shl x k = shl x (k.toNat : ℤ) := by simp only [shl, Int.toNat_natCast]
theorem shr_toNat (x k : ℤ) : shr x k = shr x (k.toNat : ℤ) := by simp only [shr, Int.toNat_natCast]


theorem bit_ext (x y : ℤ) (h0 : x ≠ y) : ∃ i : ℤ, 0 ≤ i ∧ ¬ ((bit x i) ↔ (bit y i)) := by
  by_contra hc
  push Not at hc
  exact h0 (ext x y (fun i hi => by have := hc i hi; tauto))


theorem bit_odd (x : ℤ) : ((mod2 (((2 : ℤ) * x) + (1 : ℤ)) (1 : ℤ)) = (1 : ℤ)) := by
  unfold mod2; norm_num


theorem bor_band (x y : ℤ) : ((bor x y) = ((x + y) - (band x y))) := by
  have := eq_of_dvd _ (fun n => land_lor n x y); unfold bor band; omega


theorem bxor_band (x y : ℤ) : ((bxor x y) = ((x + y) - ((2 : ℤ) * (band x y)))) := by
  have := eq_of_dvd _ (fun n => land_xor n x y); unfold bxor band; omega


theorem band_comm (x y : ℤ) : ((band x y) = (band y x)) := by
  apply ext; intro i hi; rw [bit_band, bit_band]; tauto


theorem band_not (x y : ℤ) : ((band x ((-1 : ℤ) - y)) = (x - (band x y))) := by
  have e : bor (band x y) (band x (-1 - y)) = x := by
    apply ext; intro i hi
    have := bit_not y i
    rw [bit_bor, bit_band, bit_band, show (-1 - y : ℤ) = -y - 1 by ring, this]; tauto
  have z : band (band x y) (band x (-1 - y)) = 0 := by
    apply ext; intro i hi
    have := bit_not y i
    have h0 := bit_small 0 0 i (by norm_num) (by norm_num [pow2]) hi
    rw [bit_band, bit_band, bit_band, show (-1 - y : ℤ) = -y - 1 by ring, this]; tauto
  have := bor_band (band x y) (band x (-1 - y)); rw [e, z] at this; omega


theorem band_le (x y : ℤ) (h0 : (x ≥ (0 : ℤ))) : (((band x y) ≥ (0 : ℤ)) ∧ ((band x y) ≤ x)) := by
  have h1 := nn x h0 y; have h2 := nn x h0 (-1 - y); have h3 := band_not x y
  unfold band at *; omega


theorem bitw_range (x y k : ℤ) (h0 : ((-(pow2 k)) ≤ x)) (h1 : (x < (pow2 k))) (h2 : ((-(pow2 k)) ≤ y)) (h3 : (y < (pow2 k))) : (((-(pow2 k)) ≤ (band x y)) ∧ ((band x y) < (pow2 k)) ∧ ((-(pow2 k)) ≤ (bor x y)) ∧ ((bor x y) < (pow2 k)) ∧ ((-(pow2 k)) ≤ (bxor x y)) ∧ ((bxor x y) < (pow2 k))) := by
  have b0 : ∀ z, band 0 z = 0 := fun z => by have := band_le 0 z (le_refl _); omega
  have b1 : band (-1) 0 = 0 := by rw [band_comm, b0]
  have b2 : band (-1) (-1) = -1 := by decide
  have hx := (small_iff x k).1 ⟨h0, h1⟩; have hy := (small_iff y k).1 ⟨h2, h3⟩
  have ha : shr (band x y) k = 0 ∨ shr (band x y) k = -1 := by
    rw [shr_toNat, shr_band _ _ _ (by omega), ← shr_toNat, ← shr_toNat]
    rcases hx with h | h <;> rcases hy with g | g <;> rw [h, g] <;> simp [b0, b1, b2, bor_band, bxor_band]
  have hb : shr (bor x y) k = 0 ∨ shr (bor x y) k = -1 := by
    rw [shr_toNat, shr_bor _ _ _ (by omega), ← shr_toNat, ← shr_toNat]
    rcases hx with h | h <;> rcases hy with g | g <;> rw [h, g] <;> simp [b0, b1, b2, bor_band, bxor_band]
  have hc : shr (bxor x y) k = 0 ∨ shr (bxor x y) k = -1 := by
    rw [shr_toNat, shr_bxor _ _ _ (by omega), ← shr_toNat, ← shr_toNat]
    rcases hx with h | h <;> rcases hy with g | g <;> rw [h, g] <;> simp [b0, b1, b2, bor_band, bxor_band]
  have a := (small_iff _ k).2 ha; have b := (small_iff _ k).2 hb; have c := (small_iff _ k).2 hc
  exact ⟨a.1, a.2, b.1, b.2, c.1, c.2⟩


theorem band_sign (x y : ℤ) : (((band x y) < (0 : ℤ)) ↔ ((x < (0 : ℤ)) ∧ (y < (0 : ℤ)))) := by
  unfold band; cases x <;> cases y <;> simp [Int.land] <;> omega


theorem band_disj (x y k : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) : ((band x (shl y k)) = (0 : ℤ)) := by
  apply ext; intro i hi
  have h2 := bit_small 0 0 i (by norm_num) (by norm_num [pow2]) hi
  rw [bit_band, shl_toNat, bit_shl _ _ _ hi (by omega)]
  rw [pow2_toNat] at h1
  by_cases e : (k.toNat : ℤ) ≤ i
  · have := bit_small x _ i h0 h1 e; tauto
  · tauto


theorem band_mask (x y k : ℤ) (h0 : (y = ((pow2 k) - (1 : ℤ)))) : ((band x y) = (mod2 x k)) := by
  subst h0; apply ext; intro i hi
  rw [pow2_toNat, mod2_toNat, bit_band, bit_mask _ _ (by omega) hi, bit_mod2 _ _ _ hi]; tauto


theorem band_nmask (x y k : ℤ) (h0 : (y = (-(pow2 k)))) : ((band x y) = (x - (mod2 x k))) := by
  subst h0
  have := band_not x (pow2 k - 1); rw [band_mask x _ k rfl] at this
  rw [← this]; congr 1; ring


theorem band_pow2 (x k : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (bit x k)) : ((band x (pow2 k)) = (pow2 k)) := by
  apply ext; intro i hi
  rw [bit_band, bit_pow2 _ _ h0 hi]
  constructor
  · tauto
  · rintro rfl; exact ⟨h1, rfl⟩


theorem band_pow2_0 (x k : ℤ) (h0 : (k ≥ (0 : ℤ))) (h1 : (¬ (bit x k))) : ((band x (pow2 k)) = (0 : ℤ)) := by
  apply ext; intro i hi
  have h2 := bit_small 0 0 i (by norm_num) (by norm_num [pow2]) hi
  rw [bit_band, bit_pow2 _ _ h0 hi]
  constructor
  · rintro ⟨a, rfl⟩; exact absurd a h1
  · tauto


theorem band_compl (x y k : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < (pow2 k))) : ((band x (((pow2 k) - (1 : ℤ)) - y)) = (x - (band x y))) := by
  rw [← band_not]; apply ext; intro i hi
  rw [bit_band, bit_band]
  have hk : pow2 k = pow2 (k.toNat : ℤ) := pow2_toNat k
  by_cases e : i < (k.toNat : ℤ)
  · have a := bit_mod2 (pow2 k - 1 - y) k.toNat i hi
    have b := bit_mod2 (-1 - y) k.toNat i hi
    have c : mod2 (pow2 k - 1 - y) k.toNat = mod2 (-1 - y) k.toNat := by
      rw [hk]; have := mod2_drop_pow 1 k.toNat (-1 - y) k.toNat (le_refl _)
      rw [← this]; congr 1; ring
    rw [c] at a; tauto
  · have := bit_small x k.toNat i h0 (by rw [← hk]; exact h1) (by omega); tauto


theorem mod2_band (x y k : ℤ) : ((mod2 (band x y) k) = (band (mod2 x k) (mod2 y k))) := by
  apply ext; intro i hi
  rw [mod2_toNat, mod2_toNat x, mod2_toNat y, bit_mod2 _ _ _ hi, bit_band, bit_band, bit_mod2 _ _ _ hi, bit_mod2 _ _ _ hi]; tauto


theorem fpos (x y : ℤ) (h : 0 < y) : fdiv x y = x / y ∧ fmod x y = x % y :=
  ⟨Int.fdiv_eq_ediv_of_nonneg _ h.le, Int.fmod_eq_emod_of_nonneg _ h.le⟩
theorem funiq (x y q r : ℤ) (h : 0 < y) (h0 : 0 ≤ r) (h1 : r < y) (e : x = r + y * q) : fdiv x y = q ∧ fmod x y = r := by
  rw [(fpos x y h).1, (fpos x y h).2]; exact dm_unique x y q r h0 h1 e


theorem fdiv_fmod (x y : ℤ) (h0 : (y ≠ (0 : ℤ))) : (x = ((y * (fdiv x y)) + (fmod x y))) := by
  have := Int.fmod_def x y; unfold fdiv fmod; linarith


theorem fdiv_flip (x y : ℤ) (h0 : (y ≠ (0 : ℤ))) : (((fdiv x y) = (fdiv (-x) (-y))) ∧ ((fmod x y) = (-(fmod (-x) (-y))))) := by
  have e : fdiv x y = fdiv (-x) (-y) := (Int.neg_fdiv_neg x y).symm
  refine ⟨e, ?_⟩
  have a := fdiv_fmod x y h0; have b := fdiv_fmod (-x) (-y) (by omega)
  rw [← e] at b; linarith


theorem fmod_pos (x y : ℤ) (h0 : (y > (0 : ℤ))) : (((fmod x y) ≥ (0 : ℤ)) ∧ ((fmod x y) < y)) := by
  rw [(fpos x y h0).2]; exact ⟨Int.emod_nonneg _ (by omega), Int.emod_lt_of_pos _ h0⟩


theorem fmod_neg (x y : ℤ) (h0 : (y < (0 : ℤ))) : ((y < (fmod x y)) ∧ ((fmod x y) ≤ (0 : ℤ))) := by
  have := (fdiv_flip x y (by omega)).2; have := fmod_pos (-x) (-y) (by omega); omega


theorem fdiv_nonneg (x y : ℤ) (h0 : (y > (0 : ℤ))) (h1 : (x ≥ (0 : ℤ))) : (((fdiv x y) ≥ (0 : ℤ)) ∧ ((fdiv x y) ≤ x)) := by
  rw [(fpos x y h0).1]; exact ⟨Int.ediv_nonneg h1 h0.le, Int.ediv_le_self _ h1⟩


theorem fdiv_neg (x y : ℤ) (h0 : (y > (0 : ℤ))) (h1 : (x < (0 : ℤ))) : ((x ≤ (fdiv x y)) ∧ ((fdiv x y) ≤ (-1 : ℤ))) := by
  rw [(fpos x y h0).1]
  refine ⟨(Int.le_ediv_iff_mul_le h0).2 (by nlinarith), ?_⟩
  have := Int.ediv_neg_of_neg_of_pos h1 h0; omega


theorem fdiv_small (x y : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (x < y)) : (((fdiv x y) = (0 : ℤ)) ∧ ((fmod x y) = x)) := by
  exact funiq x y 0 x (by omega) h0 h1 (by ring)


theorem fdiv_small1 (x y : ℤ) (h0 : (y > (0 : ℤ))) (h1 : (y ≤ x)) (h2 : (x < ((2 : ℤ) * y))) : (((fdiv x y) = (1 : ℤ)) ∧ ((fmod x y) = (x - y))) := by
  exact funiq x y 1 _ h0 (by omega) (by omega) (by ring)


theorem fdiv_smalln (x y : ℤ) (h0 : ((-y) ≤ x)) (h1 : (x < (0 : ℤ))) : (((fdiv x y) = (-1 : ℤ)) ∧ ((fmod x y) = (x + y))) := by
  exact funiq x y (-1) _ (by omega) (by omega) (by omega) (by ring)


theorem fdiv_one (x : ℤ) : (((fdiv x (1 : ℤ)) = x) ∧ ((fdiv x (-1 : ℤ)) = (-x)) ∧ ((fmod x (1 : ℤ)) = (0 : ℤ)) ∧ ((fmod x (-1 : ℤ)) = (0 : ℤ))) := by
  have a := funiq x 1 x 0 (by norm_num) (by norm_num) (by norm_num) (by ring)
  have b := fdiv_flip x (-1) (by norm_num)
  have c := funiq (-x) 1 (-x) 0 (by norm_num) (by norm_num) (by norm_num) (by ring)
  norm_num at b
  rw [b.1, b.2, c.1, c.2, a.1, a.2]; simp


theorem fdiv_pow2 (x y k : ℤ) (h0 : (y = (pow2 k))) : (((fdiv x y) = (shr x k)) ∧ ((fmod x y) = (mod2 x k))) := by
  subst h0; exact fpos x _ (P_pos _)


theorem mul_pow2 (x y k : ℤ) (h0 : (y = (pow2 k))) : ((x * y) = (shl x k)) := by
  subst h0; rfl


theorem mul_nonneg (x y : ℤ) (h0 : (x ≥ (0 : ℤ))) (h1 : (y ≥ (0 : ℤ))) : ((x * y) ≥ (0 : ℤ)) := by
  positivity


theorem mul_zero (x y : ℤ) (h0 : (x = (0 : ℤ))) : ((x * y) = (0 : ℤ)) := by
  subst h0; simp


theorem mul_one (x y : ℤ) (h0 : (x = (1 : ℤ))) : ((x * y) = y) := by
  subst h0; simp


theorem mul_pos (x y : ℤ) (h0 : (x ≥ (1 : ℤ))) (h1 : (y ≥ (0 : ℤ))) : (y ≤ (x * y)) := by
  nlinarith


theorem mul_mono (x z y : ℤ) (h0 : (x < z)) (h1 : (y ≥ (0 : ℤ))) : (((x * y) + y) ≤ (z * y)) := by
  nlinarith


theorem fmod_drop (c y r : ℤ) (h0 : (y ≠ (0 : ℤ))) : (((fmod ((c * y) + r) y) = (fmod r y)) ∧ ((fdiv ((c * y) + r) y) = (c + (fdiv r y)))) := by
  have aux : ∀ y : ℤ, 0 < y → ∀ c r : ℤ, fmod (c * y + r) y = fmod r y ∧ fdiv (c * y + r) y = c + fdiv r y := by
    intro y h c r
    have a := fdiv_fmod r y h.ne'; have b := fmod_pos r y h
    have u := funiq (c * y + r) y (c + fdiv r y) (fmod r y) h b.1 b.2 (by linear_combination a)
    exact ⟨u.2, u.1⟩
  rcases lt_or_gt_of_ne h0 with h | h
  · have a := fdiv_flip (c * y + r) y h0; have b := fdiv_flip r y h0
    have u := aux (-y) (by omega) c (-r)
    have e : -(c * y + r) = c * (-y) + (-r) := by ring
    rw [a.1, a.2, b.1, b.2, e, u.1, u.2]; exact ⟨rfl, rfl⟩
  · exact aux y h c r


theorem fmod_fmod (x y : ℤ) (h0 : (y ≠ (0 : ℤ))) : ((fmod (fmod x y) y) = (fmod x y)) := by
  have a := fdiv_fmod x y h0
  have e : fmod x y = (-(fdiv x y)) * y + x := by linear_combination -a
  have := (fmod_drop (-(fdiv x y)) y x h0).1
  rw [← e] at this; exact this


theorem fmod_negate (x y : ℤ) (h0 : (y > (0 : ℤ))) (h1 : ((fmod x y) ≠ (0 : ℤ))) : ((fmod (-x) y) = (y - (fmod x y))) := by
  have a := fdiv_fmod x y h0.ne'; have b := fmod_pos x y h0
  exact (funiq (-x) y (-(fdiv x y) - 1) _ h0 (by omega) (by omega) (by linear_combination -a)).2


theorem fmod_negate0 (x y : ℤ) (h0 : (y > (0 : ℤ))) (h1 : ((fmod x y) = (0 : ℤ))) : ((fmod (-x) y) = (0 : ℤ)) := by
  have a := fdiv_fmod x y h0.ne'
  exact (funiq (-x) y (-(fdiv x y)) 0 h0 (by omega) (by omega) (by rw [h1] at a; linear_combination -a)).2


theorem mul_split (p c x r : ℤ) : ((p * ((c * x) + r)) = ((c * (p * x)) + (p * r))) := by
  ring


theorem blen_nonneg (x : ℤ) : ((blen x) ≥ (0 : ℤ)) := by
  unfold blen; omega


theorem blen_lt (x : ℤ) : ((x < (pow2 (blen x))) ∧ ((-x) < (pow2 (blen x)))) := by
  have h : x.natAbs < 2 ^ Nat.size x.natAbs := Nat.lt_size_self _
  have h2 : (x.natAbs : ℤ) < 2 ^ Nat.size x.natAbs := by exact_mod_cast h
  unfold blen pow2; simp only [Int.toNat_natCast]; omega


theorem blen_ge (x : ℤ) (h0 : (x ≠ (0 : ℤ))) : (((pow2 ((blen x) - (1 : ℤ))) ≤ x) ∨ ((pow2 ((blen x) - (1 : ℤ))) ≤ (-x))) := by
  have hp : 0 < Nat.size x.natAbs := Nat.size_pos.2 (by omega)
  have h : 2 ^ (Nat.size x.natAbs - 1) ≤ x.natAbs := Nat.lt_size.1 (by omega)
  have h2 : (2:ℤ) ^ (Nat.size x.natAbs - 1) ≤ (x.natAbs : ℤ) := by exact_mod_cast h
  have e : (blen x - 1).toNat = Nat.size x.natAbs - 1 := by unfold blen; omega
  unfold pow2; rw [e]; omega


theorem blen_zero (x : ℤ) (h0 : (x = (0 : ℤ))) : ((blen x) = (0 : ℤ)) := by
  subst h0; simp [blen]

end PyVC
