------------------------------ MODULE Sessions ------------------------------
(***************************************************************************)
(* What holds for whole sessions: histories of calls, one after the other  *)
(* or at the same time, whatever was asked and answered in them.           *)
(***************************************************************************)
EXTENDS Bytes, Integers, Sequences, FiniteSets, TLC

(* C17: every call of a session has come back, with a value or an error.   *)
(* s.rets: the results [kind]; s.left: whether calls were left over when   *)
(* every request had been answered.                                        *)
SessionTotal(s) == /\ ~s.left
                   /\ \A i \in 1..Len(s.rets) : s.rets[i].kind \in {"ok", "err", "keyerr"}

-----------------------------------------------------------------------------
(* C19.  A call is its arguments (those of modules SignedUrl and Form), the *)
(* identity c.kid of its key - the key material, or for a bound token the  *)
(* server that answers, and how - and, when accessible_at is not given,    *)
(* the clock.                                                              *)

(* The pairs named n, in the order they were given.                        *)
Named(ps, n) == SelectSeq(ps, LAMBDA p : p[1] = n)

(* Lists of pairs that differ at most in how different names are mixed.    *)
SameByName(p, q) == \/ p = q
                    \/ /\ Len(p) = Len(q)
                       /\ \A i \in 1..Len(p) : Named(p, p[i][1]) = Named(q, p[i][1])

LowerNames(hs) == [i \in 1..Len(hs) |-> <<LowerCase(hs[i][1]), hs[i][2]>>]

SameUrlCall(a, b) ==
  /\ a.kid = b.kid
  /\ a.bucket = b.bucket /\ a.object = b.object /\ a.method = b.method
  /\ a.region = b.region /\ a.blob = b.blob
  /\ a.expires = b.expires /\ a.at = b.at
  /\ a.at.some \/ a.now = b.now
  /\ SameByName(a.query, b.query)
  /\ SameByName(LowerNames(a.headers), LowerNames(b.headers))

SameFormCall(a, b) ==
  /\ a.kid = b.kid
  /\ a.sets = b.sets
  /\ \/ a.now = b.now
     \/ \A i \in 1..Len(a.sets) : a.sets[i].f = "signing" => a.sets[i].o.at.some

SameCall(a, b) == IF a.op # b.op THEN FALSE
                  ELSE IF a.op = "url" THEN SameUrlCall(a, b) ELSE SameFormCall(a, b)

(* s.calls: the calls; s.rets: [call, kind, url, fields], what came of     *)
(* them, where call is an index into s.calls.                              *)
SameResult(x, y) == /\ x.kind = y.kind
                    /\ x.kind = "ok" => x.url = y.url /\ x.fields = y.fields
Independent(s) ==
  LET R(c) == {i \in 1..Len(s.rets) : s.rets[i].call = c}
  IN  \A c \in 1..Len(s.calls) : \A d \in c..Len(s.calls) :
        (c = d \/ SameCall(s.calls[c], s.calls[d])) =>
          \A i \in R(c), j \in R(d) : SameResult(s.rets[i], s.rets[j])
=============================================================================
