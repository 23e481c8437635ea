------------------------------- MODULE RefOps -------------------------------
(* Reference semantics: OptionalReference, PairView, in_out, out and maps   *)
(* whose mapped type is a reference.  The state is <<cells, refs>>: the     *)
(* values of NC cells outside the library, and which cell each reference    *)
(* names (Null: none).  Rebinding a reference changes refs and no cell;     *)
(* writing through one changes exactly the named cell and no reference.     *)
EXTENDS Common
Null == -1
NC == 3
Cells == 0..(NC - 1)
Targets == Cells \cup {Null}
Put(c, i, v) == [c EXCEPT ![i + 1] = v]
At(c, i) == c[i + 1]
Cmp3(x, y) == <<B01(x = y), B01(x # y), B01(x < y), B01(x > y), B01(x <= y), B01(x >= y)>>
(* no value orders before every value, as with std::optional *)
Key(c, r) == IF r = Null THEN -1 ELSE At(c, r)
(* ---- optional references: refs = <<a, b>>; the calls are made on a ------- *)
Reads == {"rd_val", "rd_cval", "rd_star", "rd_cstar", "rd_arrow", "rd_carrow"}
Writes == {"wr_val", "wr_star", "wr_arrow"}
ORef(s, op) ==
    LET f == op[1]  c == s[1]  a == s[2][1]  b == s[2][2]
        Bind(x) == <<c, <<x, b>>>>
        ByName == {"ct_dflt", "ct_null", "ct_ptr", "ct_ref", "ct_uptr", "ct_copy", "ct_move"}
    IN
    CASE f \in {"ct_dflt", "ct_null", "as_null", "reset"} -> Ok(<<>>, Bind(Null))
      [] f \in {"ct_ptr", "ct_uptr"} -> Ok(<<>>, Bind(op[2]))
      [] f = "ct_ref" -> Ok(<<>>, Bind(op[2]))
      [] f \in {"ct_copy", "as_copy", "as_move"} -> Ok(<<>>, Bind(b))                  \* rebinds, never writes
      [] f = "ct_move" -> Ok(<<>>, Bind(b))
      [] f = "as_self" -> Ok(<<>>, s)
      [] f = "swap" -> Ok(<<>>, <<c, <<b, a>>>>)
      [] f = "emplace" -> Ok(<<op[2]>>, Bind(op[2]))                                   \* returns the reference now named
      [] f = "has" -> Ok(<<B01(a # Null), B01(a # Null)>>, s)
      [] f \in Reads -> IF a = Null THEN Err("empty") ELSE Ok(<<a, At(c, a)>>, s)       \* identity and value
      [] f \in Writes -> IF a = Null THEN Err("empty") ELSE Ok(<<>>, <<Put(c, a, op[2]), s[2]>>)
      [] f = "vor" -> Ok(<<IF a = Null THEN op[2] ELSE a>>, s)
      [] f = "wr_vor" -> Ok(<<>>, <<Put(c, IF a = Null THEN op[2] ELSE a, op[3]), s[2]>>)
      [] f = "cmp" -> Ok(Cmp3(Key(c, a), Key(c, b)), s)
      [] f = "cmp_null" -> Ok(Cmp3(Key(c, a), -1) \o Cmp3(-1, Key(c, a)), s)
      [] f = "cmp_val" -> Ok(Cmp3(Key(c, a), op[2]) \o Cmp3(op[2], Key(c, a)), s)
(* ---- pair views: refs = <<i, j>>, both bound ------------------------------ *)
PView(s, op) ==
    LET f == op[1]  c == s[1]  i == s[2][1]  j == s[2][2]
    IN
    CASE f = "ids" -> Ok(<<i, j, i, j, i, j, i, j, i, j>>, s)                           \* first/second, const, get, std::get, structured binding
      [] f = "wr1" -> Ok(<<>>, <<Put(c, i, op[2]), s[2]>>)
      [] f = "wr2" -> Ok(<<>>, <<Put(c, j, op[2]), s[2]>>)
      [] f = "rebind" -> Ok(<<>>, <<c, <<op[2], op[3]>>>>)
      [] f = "to_pair" -> Ok(<<At(c, i), At(c, j)>>, s)                                \* a copy: changing it changes no cell
      [] f = "to_const" -> Ok(<<i, j>>, s)
      [] f = "eq" -> Ok(<<B01(At(c, i) = At(c, op[2]) /\ At(c, j) = At(c, op[3]))>>, s)
(* ---- in_out / out: refs = <<i>> ------------------------------------------- *)
InOut(s, op) ==
    LET c == s[1]  i == s[2][1] IN
    CASE op[1] = "ids" -> Ok(<<i, i, i>>, s)
      [] op[1] = "wr" -> Ok(<<>>, <<Put(c, i, op[2]), s[2]>>)
(* ---- maps of references: refs[k+1] = cell named by key k, or Null --------- *)
RMapCap == 2
Size(m) == Cardinality({k \in 1..Len(m) : m[k] # Null})
Maps(nk, cap) == {m \in [1..nk -> Targets] : Size(m) <= cap}
Insert(t, s, k, x) ==
    LET c == s[1]  m == s[2]
        old == m[k + 1] IN
    IF old # Null THEN Ok(<<0, old>>, s)                                              \* already there: nothing is rebound or written
    ELSE IF t = "rmap" /\ Size(m) >= RMapCap THEN Err("length_error")
    ELSE Ok(<<1, x>>, <<c, Put(m, k, x)>>)
Pairs(m) == LET RECURSIVE W(_) W(k) == IF k > Len(m) THEN <<>> ELSE (IF m[k] = Null THEN <<>> ELSE <<k - 1, m[k]>>) \o W(k + 1) IN W(1)
RMap(t, s, op) ==
    LET f == op[1]  c == s[1]  m == s[2] IN
    CASE f \in {"te", "ins_c", "ins_m", "emp", "empp", "ins_r", "ins_il"} -> Insert(t, s, op[2], op[3])
      [] f = "ioa" -> IF m[op[2] + 1] # Null THEN Ok(<<0, m[op[2] + 1]>>, <<Put(c, m[op[2] + 1], At(c, op[3])), m>>) ELSE Insert(t, s, op[2], op[3])
      [] f = "erase" -> Ok(<<B01(m[op[2] + 1] # Null)>>, <<c, Put(m, op[2], Null)>>)
      [] f = "clear" -> Ok(<<>>, <<c, [k \in 1..Len(m) |-> Null]>>)
      [] f \in {"at", "cat"} -> IF m[op[2] + 1] = Null THEN Err("out_of_range") ELSE Ok(<<m[op[2] + 1], At(c, m[op[2] + 1])>>, s)
      [] f \in {"find", "cfind"} -> Ok(<<m[op[2] + 1]>>, s)
      [] f = "wr_at" -> IF m[op[2] + 1] = Null THEN Err("out_of_range") ELSE Ok(<<>>, <<Put(c, m[op[2] + 1], op[3]), m>>)
      [] f = "wr_it" -> IF m[op[2] + 1] = Null THEN Ok(<<0>>, s) ELSE Ok(<<1>>, <<Put(c, m[op[2] + 1], op[3]), m>>)
      [] f = "each" -> Ok(Pairs(m), s)
      [] f \in {"ct_copy", "as_copy"} -> Ok(Pairs(op[2]), <<c, op[2]>>)                    \* the other keeps what it names
      [] f \in {"ct_move", "as_move"} -> Ok(<<>>, <<c, op[2]>>)
      [] f = "as_self" -> Ok(<<>>, s)
      [] f = "swap" -> Ok(Pairs(m), <<c, op[2]>>)                                       \* the other becomes m
      [] f = "eq" -> Ok(<<B01({k \in 1..Len(m) : m[k] # Null} = {k \in 1..Len(m) : op[2][k] # Null}
                              /\ \A k \in 1..Len(m) : m[k] # Null => At(c, m[k]) = At(c, op[2][k]))>>, s)
RefOuts(t, s, op) ==
    CASE t = "oref" -> ORef(s, op) [] t = "pview" -> PView(s, op) [] t = "inout" -> InOut(s, op) [] OTHER -> RMap(t, s, op)
(* after an error there is no next state *)
Allowed(t, s, op, k, r, n) == \E o \in RefOuts(t, s, op) : o[1] = k /\ (k = "ok" => o[2] = r /\ o[3] = n)
=============================================================================
