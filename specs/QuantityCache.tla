--------------------------- MODULE QuantityCache ---------------------------
(* The cache of derived quantities of a geometry. Each quantity has a request count; the geometry has inputs, and every
   quantity has the value that the current inputs give it (its fresh value). Quantities are numbered 1..N.

   A state is a record
     cnt    request counts
     inp    the quantities that are the inputs themselves (always current, never discarded)
     now    the fresh values for the current inputs
     clean  the inputs have not changed since the last refresh
     val    for requested quantities the value they hold; 0 stands for "any value": a quantity first requested while the
            inputs have changed and not been refreshed may be built from old and new parts                            *)
EXTENDS Naturals, Sequences

Any == 0
Fresh(n, cnt, inp, now) == [cnt |-> cnt, inp |-> inp, now |-> now, clean |-> TRUE,
                            val |-> [q \in 1..n |-> IF cnt[q] > 0 THEN now[q] ELSE Any]]
N(s) == Len(s.cnt)
Held(s) == {q \in 1..N(s) : s.cnt[q] > 0}

Request(s, q) ==
  [s EXCEPT !.cnt[q] = @ + 1,
            !.val[q] = IF s.cnt[q] > 0 THEN @ ELSE IF s.clean \/ s.inp[q] = 1 THEN s.now[q] ELSE Any]
CanRelease(s, q) == s.cnt[q] > 0
Release(s, q) == IF CanRelease(s, q) THEN [s EXCEPT !.cnt[q] = @ - 1] ELSE s
Purge(s) == s
Change(s, now) == [s EXCEPT !.now = now, !.clean = FALSE,
                            !.val = [q \in 1..N(s) |-> IF s.inp[q] = 1 THEN now[q] ELSE s.val[q]]]
Refresh(s) == [s EXCEPT !.clean = TRUE, !.val = [q \in 1..N(s) |-> s.now[q]]]
(* an observation: requested quantities hold their value; what was unspecified becomes known *)
Agrees(s, v) == \A q \in Held(s) : s.val[q] = Any \/ v[q] = s.val[q]
Observe(s, v) == [s EXCEPT !.val = [q \in 1..N(s) |-> IF s.cnt[q] > 0 THEN v[q] ELSE Any]]
=============================================================================
