------------------------------- MODULE Common -------------------------------
(* Vocabulary shared by every container specification.                      *)
(*                                                                          *)
(* A container family is specified by ONE operator                          *)
(*     Outs(t, cap, s, op)  ==  the set of allowed outcomes of calling `op` *)
(* on a container of kind t and capacity cap whose abstract value is s.     *)
(* An outcome is a triple <<verdict, returned value, next abstract value>>. *)
(* verdict is "ok", or the kind of error the checking policy receives.      *)
(* After an error the container is dead (policies do not return).           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ok(r, n) == {<<"ok", r, n>>}
Err(k)   == {<<k, <<>>, <<>>>>}

MinOf(a, b) == IF a <= b THEN a ELSE b
MaxOf(a, b) == IF a >= b THEN a ELSE b
Bit(m, v)  == ((m \div (2 ^ v)) % 2) = 1
B01(b) == IF b THEN 1 ELSE 0
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Filter(s, Keep(_)) == SelectSeq(s, Keep)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Rep(n, v) == [i \in 1..n |-> v]
RemoveRange(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
InsertRun(s, p, x) == SubSeq(s, 1, p) \o x \o SubSeq(s, p + 1, Len(s))
SetAt(s, i, v) == [s EXCEPT ![i + 1] = v]
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> /\ b = <<>> THEN 0
             ELSE IF a = <<>> THEN -1
             ELSE IF b = <<>> THEN 1
             ELSE IF a[1] # b[1] THEN Sign(a[1] - b[1])
             ELSE Lex(Tail(a), Tail(b))
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

(* ----- op signatures: the argument sorts of every public call ----------- *)
(*  v value   p position 0..len   e position >= previous argument           *)
(*  i existing index 0..len-1     j index 0..len+1   n count 0..cap+1       *)
(*  m value mask (predicate)      d 0..2              b 0/1   w word 0..39  *)
(*  l small range length 0..cap+1 (same range as n, named for readability)  *)
Dom(sort, NV, cap, len, prev) ==
    CASE sort = "v" -> 0..(NV - 1)
      [] sort = "p" -> 0..len
      [] sort = "e" -> prev..len
      [] sort = "i" -> 0..(len - 1)
      [] sort = "j" -> 0..(len + 1)
      [] sort = "n" -> 0..(cap + 1)
      [] sort = "l" -> 0..(cap + 1)
      [] sort = "c" -> 0..cap
      [] sort = "m" -> 0..(2 ^ NV - 1)
      [] sort = "b" -> 0..1
      [] sort = "d" -> 0..2
      [] sort = "w" -> 0..39
RECURSIVE Fill(_, _, _, _, _)
Fill(sig, acc, NV, cap, len) ==
    IF Len(acc) = Len(sig) THEN {acc}
    ELSE UNION {Fill(sig, Append(acc, x), NV, cap, len) :
                x \in Dom(sig[Len(acc) + 1], NV, cap, len,
                          IF Len(acc) > 1 THEN acc[Len(acc)] ELSE 0)}
OpsOf(sigs, NV, cap, len) == UNION {Fill(sg, <<sg[1]>>, NV, cap, len) : sg \in sigs}
=============================================================================
