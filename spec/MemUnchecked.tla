---------------------------- MODULE MemUnchecked ----------------------------
(* S01, built not to check the stream's state: the typed operations of        *)
(* MemFile take place whatever came before them, as if it had gone well.      *)
EXTENDS MemFile
Typed == {"read_data", "read_str", "write_data", "write_str"}
UEval(s, op, a) == Eval(IF op \in Typed THEN [s EXCEPT !.f[a[1]].s = OK] ELSE s, op, a)
=============================================================================
