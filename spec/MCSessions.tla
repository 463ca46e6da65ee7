----------------------------- MODULE MCSessions -----------------------------
(***************************************************************************)
(* Calls of a library, running one after the other or at the same time,    *)
(* each in steps: its arguments are taken in, worked on, and the result is *)
(* handed out.  Nothing is shared between them, unless Bug says so; what is *)
(* shared is gone when the process is started anew.                        *)
(* Checked: C19 holds of every history; with each of the bugs it does not. *)
(***************************************************************************)
EXTENDS Sessions

CONSTANTS N, Bug

Given(x) == [some |-> TRUE, t |-> x]
None == [some |-> FALSE]
Call(kid, object, at, now, query, headers, method) ==
  [op |-> "url", kid |-> kid, bucket |-> 1, object |-> object, method |-> method, region |-> None,
   blob |-> FALSE, expires |-> 9, at |-> at, now |-> now, query |-> query, headers |-> headers]

Q1 == <<<<<<97>>, 1>>, <<<<98>>, 2>>>>
Q2 == <<<<<<98>>, 2>>, <<<<97>>, 1>>>>
H1 == <<<<<<65>>, 1>>, <<<<66>>, 2>>>>
H2 == <<<<<<98>>, 2>>, <<<<97>>, 1>>>>
Repeated(x, y) == <<<<<<97>>, x>>, <<<<97>>, y>>>>

Calls(dummy) ==
  {Call(k, o, Given(1), 1, Q1, H1, "GET") : k \in {1, 2}, o \in {1, 2}}
  \cup {Call(1, 1, None, n, Q1, H1, "GET") : n \in {1, 2}}
  \cup {Call(1, 1, Given(1), 1, q, h, "GET") : q \in {Q1, Q2}, h \in {H1, H2}}
  \cup {Call(1, 1, Given(1), 1, Repeated(x, 3 - x), H1, "GET") : x \in {1, 2}}
  \cup {Call(1, 1, Given(1), 1, Q1, H1, "get")}

VARIABLES pc,      \* of each call: "idle", "read", "work", "done"
          args,    \* what each call was asked
          scratch, \* what each call works on
          out,     \* what came of it
          shared   \* what the bugs keep between calls
vars == <<pc, args, scratch, out, shared>>

Ids == 1..N
Nothing == [kind |-> "none", url |-> <<>>, fields |-> <<>>]
NoCall == Call(0, 0, None, 0, <<>>, <<>>, "")

Fresh == [buffer |-> NoCall, memo |-> {}, failed |-> FALSE, first |-> 0, clock |-> 0, count |-> 0]

Init == /\ pc = [i \in Ids |-> "idle"]
        /\ args = [i \in Ids |-> NoCall]
        /\ scratch = [i \in Ids |-> NoCall]
        /\ out = [i \in Ids |-> Nothing]
        /\ shared = Fresh

(* (Calls are started in the order of their numbers.)                      *)
Begin(i) == /\ pc[i] = "idle"
            /\ \A j \in 1..(i - 1) : pc[j] # "idle"
            /\ \E c \in Calls(0) :
                 /\ args' = [args EXCEPT ![i] = c]
                 /\ shared' = [shared EXCEPT !.first = IF @ = 0 THEN c.kid ELSE @,
                                             !.clock = IF @ = 0 THEN c.now ELSE @,
                                             !.count = @ + 1]
            /\ pc' = [pc EXCEPT ![i] = "read"]
            /\ UNCHANGED <<scratch, out>>

Read(i) == /\ pc[i] = "read"
           /\ pc' = [pc EXCEPT ![i] = "work"]
           /\ scratch' = [scratch EXCEPT ![i] = args[i]]
           /\ shared' = [shared EXCEPT !.buffer = args[i]]
           /\ UNCHANGED <<args, out>>

(* Sorted by name, stable; there are at most two.                          *)
NameOf(p) == LowerCase(p[1])[1]
Sorted(ps) == IF NameOf(ps[1]) <= NameOf(ps[2]) THEN ps ELSE <<ps[2], ps[1]>>

Signed(c, x) == <<c.kid, c.bucket, c.object, IF c.at.some THEN c.at.t ELSE c.now,
                  IF Bug = "query as given" THEN c.query ELSE Sorted(c.query),
                  IF Bug = "headers as given" THEN LowerNames(c.headers) ELSE Sorted(LowerNames(c.headers)), x>>

Work(i) ==
  LET c0 == IF Bug = "one buffer" THEN shared.buffer ELSE scratch[i]
      c == CASE Bug = "first key" -> [c0 EXCEPT !.kid = shared.first]
             [] Bug = "clock read once" /\ ~c0.at.some -> [c0 EXCEPT !.now = shared.clock]
             [] OTHER -> c0
      had == {m \in shared.memo : m.object = c.object}
      res == IF c.method # "GET" \/ (Bug = "failure sticks" /\ shared.failed)
             THEN [Nothing EXCEPT !.kind = "err"]
             ELSE IF Bug = "remembered by object" /\ had # {}
             THEN (CHOOSE m \in had : TRUE).res
             ELSE [Nothing EXCEPT !.kind = "ok",
                                  !.url = Signed(c, IF Bug = "counts calls" THEN shared.count ELSE 0)]
  IN  /\ pc[i] = "work"
      /\ pc' = [pc EXCEPT ![i] = "done"]
      /\ out' = [out EXCEPT ![i] = res]
      /\ shared' = [shared EXCEPT !.failed = @ \/ res.kind = "err",
                                  !.memo = IF res.kind = "ok" THEN @ \cup {[object |-> c.object, res |-> res]} ELSE @]
      /\ UNCHANGED <<args, scratch>>

Restart == /\ \A i \in Ids : pc[i] \in {"idle", "done"}
           /\ shared' = Fresh
           /\ UNCHANGED <<pc, args, scratch, out>>

Next == Restart \/ \E i \in Ids : Begin(i) \/ Read(i) \/ Work(i)
Spec == Init /\ [][Next]_vars

Done == SelectSeq([i \in Ids |-> i], LAMBDA i : pc[i] = "done")
History == [calls |-> [k \in 1..Len(Done) |-> args[Done[k]]],
            rets |-> [k \in 1..Len(Done) |-> [call |-> k, kind |-> out[Done[k]].kind,
                                              url |-> out[Done[k]].url, fields |-> <<>>]]]
Kept == Independent(History)

=============================================================================
