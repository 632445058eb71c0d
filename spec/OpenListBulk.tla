---------------------------- MODULE OpenListBulk ----------------------------
(* OpenList in bulk: what additions make of the list, and which sequences of nodes it may hand    *)
(* out then.  A list is a sequence over all cells, cell x at x + 1, <<>> for one that is not       *)
(* registered; the additions of a cell are a sequence of <<d, p>>.                                  *)
EXTENDS OpenList
SE == INSTANCE SequencesExt
AddCell(e, a) == IF e = <<>> THEN [d |-> a[1], p |-> a[2], par |-> -1]
                 ELSE IF a[1] + a[2] > 4 * Key(e) THEN e ELSE [e EXCEPT !.d = a[1], !.par = -1]
(* cells that have been handed out are left alone *)
AddAll(list, gone, adds) ==
  [ k \in 1 .. Len(adds) |-> IF adds[k] = <<>> \/ (k - 1) \in gone THEN list[k] ELSE SE!FoldLeft(AddCell, list[k], adds[k]) ]
(* cells handed out one after the other, each of them a cheapest one *)
Orderly(full, seq) ==
  LET n == Len(seq) S == TLCEval({ seq[k] : k \in 1 .. n }) IN
  /\ \A k \in 1 .. n : seq[k] + 1 <= Len(full) /\ full[seq[k] + 1] # <<>>
  /\ Cardinality(S) = n
  /\ \A k \in 1 .. n - 1 : Key(full[seq[k] + 1]) <= Key(full[seq[k + 1] + 1])
  /\ n > 0 => LET m == TLCEval(Key(full[seq[n] + 1])) IN \A k \in 1 .. Len(full) : full[k] # <<>> /\ ~((k - 1) \in S) => m <= Key(full[k])
Without(full, S) == [ k \in 1 .. Len(full) |-> IF (k - 1) \in S THEN <<>> ELSE full[k] ]
=============================================================================
