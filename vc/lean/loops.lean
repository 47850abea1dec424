import Mathlib
namespace UC
open Finset

/-- The keys of an ordered container from c on, and the first of them (⊤: the end). -/
noncomputable def first (D : Finset ℤ) : WithTop ℤ := D.min
noncomputable def from_ (D : Finset ℤ) (c : ℤ) : Finset ℤ := D.filter (fun k => c ≤ k)

/-- A run of a loop: at the position p with the state s; an iteration at the key c moves to the first key after c. -/
inductive Run {S : Type} (D : Finset ℤ) (body : ℤ → S → S) : WithTop ℤ → S → S → Prop
  | stop (s : S) : Run D body ⊤ s s
  | step (c : ℤ) (s r : S) : Run D body (first (from_ D (c + 1))) (body c s) r → Run D body c s r

/-- By induction over the keys: the loop performs exactly the iterations of its keys, in increasing order, and ends. -/
theorem t_frontier {S : Type} (D : Finset ℤ) (body : ℤ → S → S) :
    ∀ (n : ℕ) (E : Finset ℤ) (s : S), E.card = n → (∀ k ∈ D, (∃ m ∈ E, m ≤ k) → k ∈ E) → E ⊆ D →
      Run D body (first E) s ((E.sort (· ≤ ·)).foldl (fun t c => body c t) s) := by
  intro n
  induction n with
  | zero =>
    intro E s hE _ _
    rw [card_eq_zero.mp hE]
    simpa [first] using Run.stop s
  | succ n ih =>
    intro E s hE hup hED
    have ne : E.Nonempty := card_pos.mp (by omega)
    have hm := E.min'_mem ne
    have e1 : first E = ((E.min' ne : ℤ) : WithTop ℤ) := (coe_min' ne).symm
    have hcons : E.sort (· ≤ ·) = E.min' ne :: (E.erase (E.min' ne)).sort (· ≤ ·) := by
      have h := sort_cons (r := (· ≤ ·)) (a := E.min' ne) (s := E.erase (E.min' ne)) (fun b hb => E.min'_le b (mem_of_mem_erase hb)) (notMem_erase _ _)
      rw [← h, cons_eq_insert, insert_erase hm]
    have hfrom : from_ D (E.min' ne + 1) = E.erase (E.min' ne) := by
      ext k
      simp only [from_, mem_filter, mem_erase]
      constructor
      · rintro ⟨hk, h⟩
        exact ⟨by omega, hup k hk ⟨_, hm, by omega⟩⟩
      · rintro ⟨h1, h2⟩
        have := E.min'_le k h2
        exact ⟨hED h2, by omega⟩
    rw [e1, hcons, List.foldl_cons]
    apply Run.step
    rw [hfrom]
    apply ih
    · rw [card_erase_of_mem hm]
      omega
    · intro k hk ⟨m, hmE, hmk⟩
      have h1 := mem_erase.mp hmE
      have h2 := E.min'_le m h1.2
      refine mem_erase.mpr ⟨by omega, hup k hk ⟨m, h1.2, hmk⟩⟩
    · exact (erase_subset _ _).trans hED

theorem t_loop {S : Type} (D : Finset ℤ) (body : ℤ → S → S) (s : S) :
    Run D body (first D) s ((D.sort (· ≤ ·)).foldl (fun t c => body c t) s) :=
  t_frontier D body D.card D s rfl (fun _ hk _ => hk) (Finset.Subset.refl D)

/-- Accumulation: iterations that add e c leave the sum over the keys. -/
theorem t_sum (D : Finset ℤ) (e : ℤ → ℝ) (a : ℝ) : (D.sort (· ≤ ·)).foldl (fun t c => t + e c) a = a + ∑ c ∈ D, e c := by
  have h : ∀ (l : List ℤ) (a : ℝ), l.foldl (fun t c => t + e c) a = a + (l.map e).sum := by
    intro l
    induction l with
    | nil => intro a; simp
    | cons x l ih =>
      intro a
      rw [List.foldl_cons, ih, List.map_cons, List.sum_cons]
      ring
  rw [h]
  congr 1
  rw [← sum_map_toList D e]
  exact ((sort_perm_toList (r := (· ≤ ·)) D).map e).sum_eq

/-- Pointwise update: iterations that set the entry of their own key leave each key with its own entry. -/
theorem t_update {V : Type} (D : Finset ℤ) (v : ℤ → V) (m : ℤ → V) (k : ℤ) :
    (D.sort (· ≤ ·)).foldl (fun t c => Function.update t c (v c)) m k = if k ∈ D then v k else m k := by
  have h : ∀ (l : List ℤ) (m : ℤ → V), l.foldl (fun t c => Function.update t c (v c)) m k = if k ∈ l then v k else m k := by
    intro l
    induction l with
    | nil => intro m; simp
    | cons x l ih =>
      intro m
      rw [List.foldl_cons, ih]
      by_cases h1 : k ∈ l
      · simp [h1]
      · by_cases h2 : k = x
        · subst h2; simp [h1]
        · simp [h1, h2]
  rw [h]
  simp
end UC
