import NetConfig
set_option linter.all false
set_option autoImplicit false
open Rs Rs.NetConfig
namespace C14

theorem splitOn_none (c : Char) (y : Str) (h : c ∉ y) : splitOn c y = [y] := by
  induction y with
  | nil => rfl
  | cons a t ih =>
    simp at h
    rw [splitOn, if_neg (fun e => h.1 e.symm), ih h.2]
theorem splitOn_mid (c : Char) (x y : Str) (h : c ∉ x) : splitOn c (x ++ c :: y) = x :: splitOn c y := by
  induction x with
  | nil => simp [splitOn]
  | cons a t ih =>
    simp at h
    rw [List.cons_append, splitOn, if_neg (fun e => h.1 e.symm), ih h.2]
theorem splitOn_ne (c : Char) (s : Str) : splitOn c s ≠ [] := by
  cases s with
  | nil => simp [splitOn]
  | cons a t => rw [splitOn]; split
                · simp
                · split <;> simp
theorem splitOn_head (c : Char) (s x : Str) (l : List Str) (h : splitOn c s = x :: l) :
    c ∉ x ∧ ((l = [] ∧ s = x) ∨ ∃ y, s = x ++ c :: y ∧ splitOn c y = l) := by
  induction s generalizing x with
  | nil => simp [splitOn] at h; obtain ⟨rfl, rfl⟩ := h; simp
  | cons a t ih =>
    rw [splitOn] at h
    by_cases e : a = c
    · rw [if_pos e] at h
      simp only [List.cons.injEq] at h
      obtain ⟨rfl, rfl⟩ := h
      exact ⟨by simp, Or.inr ⟨t, by simp [e], rfl⟩⟩
    · rw [if_neg e] at h
      cases hs : splitOn c t with
      | nil => exact absurd hs (splitOn_ne c t)
      | cons y ys =>
        rw [hs] at h
        simp only [List.cons.injEq] at h
        obtain ⟨rfl, rfl⟩ := h
        obtain ⟨h1, h2⟩ := ih y hs
        refine ⟨by simp [h1, Ne.symm e], ?_⟩
        rcases h2 with ⟨h3, rfl⟩ | ⟨z, rfl, h3⟩
        · exact Or.inl ⟨h3, rfl⟩
        · exact Or.inr ⟨z, rfl, h3⟩

/-- Parsing accepts exactly `host ":" port` with no further separator and a port in range, and keeps both. -/
theorem from_str_iff (s : Str) (a : Address) :
    addr_from_str s = .ok a ↔ ∃ p, s = a.hostname ++ ':' :: p ∧ ':' ∉ a.hostname ∧ ':' ∉ p ∧ parseUInt 65536 p = .ok a.port := by
  unfold addr_from_str
  simp only [show Char.ofNat 58 = ':' from rfl]
  constructor
  · intro h
    by_cases hl : (splitOn ':' s).length = 2
    · obtain ⟨x, y, hxy⟩ : ∃ x y, splitOn ':' s = [x, y] := List.length_eq_two.1 hl
      rw [hxy] at h
      simp [idx] at h
      cases hp : parseUInt 65536 y with
      | error e => rw [hp] at h; simp at h
      | ok v =>
        rw [hp] at h
        simp at h
        subst h
        obtain ⟨h1, h2⟩ := splitOn_head _ _ _ _ hxy
        rcases h2 with ⟨h2, _⟩ | ⟨z, rfl, h3⟩
        · simp at h2
        · obtain ⟨h4, h5⟩ := splitOn_head _ _ _ _ h3
          rcases h5 with ⟨_, rfl⟩ | ⟨w, _, h6⟩
          · exact ⟨z, rfl, h1, h4, hp⟩
          · exact absurd h6 (splitOn_ne _ _)
    · simp [hl] at h
  · rintro ⟨p, rfl, h1, h2, h3⟩
    rw [splitOn_mid _ _ _ h1, splitOn_none _ _ h2]
    simp [idx, h3]

theorem parse_cases (b : ℕ) (s : Str) : parseUInt b s = .error .err ∨ ∃ v, v < b ∧ parseUInt b s = .ok v := by
  unfold parseUInt
  generalize stripPlus s = t
  by_cases h : t = []
  · left; simp [h]
  · cases hd : digits? t 0 with
    | none => left; simp [h, hd]
    | some v =>
      by_cases hv : v < b
      · right; exact ⟨v, hv, by simp [h, hd, hv]⟩
      · left; simp [h, hd, hv]

/-- Everything else is an error, never a panic. -/
theorem from_str_total (s : Str) : (∃ a, addr_from_str s = .ok a) ∨ addr_from_str s = .error .err := by
  unfold addr_from_str
  by_cases hl : (splitOn (Char.ofNat 58) s).length = 2
  · obtain ⟨x, y, hxy⟩ : ∃ x y, splitOn (Char.ofNat 58) s = [x, y] := List.length_eq_two.1 hl
    rw [hxy]
    simp [idx]
    rcases parse_cases 65536 y with h | ⟨v, _, h⟩
    · right; rw [h]; rfl
    · left; exact ⟨_, by rw [h]; rfl⟩
  · right; simp [hl]

theorem digits_append (x : Str) (c : Char) (a : ℕ) (hc : c.isDigit = true) :
    digits? (x ++ [c]) a = (digits? x a).map (fun v => 10 * v + (c.toNat - '0'.toNat)) := by
  induction x generalizing a with
  | nil => simp [digits?, hc]
  | cons d t ih =>
    simp only [List.cons_append, digits?]
    split
    · exact ih _
    · rfl

theorem digitChar_facts (d : ℕ) (h : d < 10) : (Nat.digitChar d).isDigit = true ∧ (Nat.digitChar d).toNat - '0'.toNat = d ∧ Nat.digitChar d ≠ ':' ∧ Nat.digitChar d ≠ '+' := by
  interval_cases d <;> decide

theorem toDigits_rec (n : ℕ) : Nat.toDigits 10 n = if n < 10 then [Nat.digitChar n] else Nat.toDigits 10 (n / 10) ++ [Nat.digitChar (n % 10)] := by
  rw [Nat.toDigits_eq_if (by norm_num)]

theorem print_facts (n : ℕ) : digits? (Nat.toDigits 10 n) 0 = some n ∧ (∀ c ∈ Nat.toDigits 10 n, c ≠ ':' ∧ c ≠ '+') ∧ Nat.toDigits 10 n ≠ [] := by
  induction n using Nat.strong_induction_on with
  | _ n ih =>
    rw [toDigits_rec]
    by_cases h : n < 10
    · obtain ⟨h1, h2, h3, h4⟩ := digitChar_facts n h
      rw [if_pos h]
      refine ⟨by simp only [digits?, h1, if_true, h2]; simp, by simp [h3, h4], by simp⟩
    · rw [if_neg h]
      obtain ⟨i1, i2, i3⟩ := ih (n / 10) (by omega)
      obtain ⟨h1, h2, h3, h4⟩ := digitChar_facts (n % 10) (by omega)
      refine ⟨?_, ?_, by simp⟩
      · rw [digits_append _ _ _ h1, i1, h2]; simp; omega
      · intro c hc
        simp at hc
        rcases hc with hc | rfl
        · exact i2 c hc
        · exact ⟨h3, h4⟩

theorem parse_print (n b : ℕ) (h : n < b) : parseUInt b (Nat.toDigits 10 n) = .ok n := by
  obtain ⟨h1, h2, h3⟩ := print_facts n
  unfold parseUInt
  cases hd : Nat.toDigits 10 n with
  | nil => exact absurd hd h3
  | cons c cs =>
    have hc : c ≠ '+' := (h2 c (by simp [hd])).2
    rw [hd] at h1
    have e : stripPlus (c :: cs) = c :: cs := by
      unfold stripPlus
      split
      · rename_i r heq; simp at heq; exact absurd heq.1 hc
      · rfl
    simp only [e]
    rw [if_neg (by simp), h1]
    simp [h]

/-- Printing an accepted address and parsing the text gives the address back. -/
theorem print_parse (s : Str) (a : Address) (h : addr_from_str s = .ok a) :
    ∃ t, addr_fmt a [] = .ok ((), t) ∧ addr_from_str t = .ok a := by
  obtain ⟨p, rfl, h1, h2, h3⟩ := (from_str_iff _ _).1 h
  have hb : a.port < 65536 := by
    rcases parse_cases 65536 p with h | ⟨v, hv, h⟩ <;> rw [h] at h3
    · simp at h3
    · simp at h3; omega
  refine ⟨a.hostname ++ ':' :: Nat.toDigits 10 a.port, by simp [addr_fmt, Disp.disp], (from_str_iff _ _).2 ⟨Nat.toDigits 10 a.port, ?_, h1, ?_, parse_print _ _ hb⟩⟩
  · rfl
  · intro hc; exact ((print_facts a.port).2.1 _ hc).1 rfl

/-- The configuration keeps all it is built from; certificates are those of the files, in order. -/
theorem try_from_spec (Fs : Str → M (List ℕ)) (v : NetworkConfigFile) (c : NetworkConfig) (h : cfg_try_from Fs v = .ok c) :
    c.parties = v.parties ∧ c.my_id = v.my_id ∧ c.bind_addr = v.bind_addr ∧ c.timeout = v.timeout ∧ c.connect_timeout = v.connect_timeout ∧
    c.flush_timeout = v.flush_timeout ∧ c.max_frame_length = v.max_frame_length ∧
    (v.tls = none → c.tls = none) ∧
    ∀ f, v.tls = some f → ∃ k cs, Fs f.key = .ok k ∧ f.certs.mapM Fs = .ok cs ∧ c.tls = some ⟨k, cs⟩ := by
  unfold cfg_try_from at h
  cases ht : v.tls with
  | none => simp [ht] at h; subst h; simp
  | some f =>
    simp only [ht] at h
    cases hk : Fs f.key with
    | error e => simp [hk] at h
    | ok k =>
      have e : (fun cert_path => (Fs cert_path >>= fun t => (pure t : M (List ℕ)))) = Fs := by
        funext x; cases Fs x <;> rfl
      have e' : f.certs.mapM (fun cert_path => (Fs cert_path >>= fun t => (pure t : M (List ℕ)))) = f.certs.mapM Fs := by rw [e]
      simp only [hk, ok_bind] at h
      rw [e'] at h
      cases hc : f.certs.mapM Fs with
      | error e => simp [hc] at h
      | ok cs =>
        simp [hc] at h
        subst h
        simp [hk, hc]

/-- The builder sets exactly the field it names and `build` keeps all of them. -/
theorem builder_spec (i : ℕ) (b : Str) (p : List NetworkParty) (s : NetworkConfigBuilder) (t : TlsConfig) (x : ℕ) :
    b_build (cfg_builder i b p) = ⟨p, i, b, none, none, none, none, none⟩ ∧
    b_build (b_tls_config s t) = { b_build s with tls := some t } ∧
    b_build (b_timeout s x) = { b_build s with timeout := some x } ∧
    b_build (b_connect_timeout s x) = { b_build s with connect_timeout := some x } ∧
    b_build (b_flush_timeout s x) = { b_build s with flush_timeout := some x } ∧
    b_build (b_max_frame_length s x) = { b_build s with max_frame_length := some x } := ⟨rfl, rfl, rfl, rfl, rfl, rfl⟩
theorem ctor_spec (h : Str) (p : ℕ) (a : Address) (k : List ℕ) (cs : List (List ℕ)) :
    addr_new h p = ⟨h, p⟩ ∧ party_new p a = ⟨p, a⟩ ∧ tls_new k cs = ⟨k, cs⟩ := ⟨rfl, rfl, rfl⟩
end C14
