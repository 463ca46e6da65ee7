----------------------------- MODULE TokenSource -----------------------------
(***************************************************************************)
(* Bound-token keys as the servers and the callers see them: which         *)
(* requests may be made when, what may be made of their answers, and what  *)
(* calls may return.  The specification is an observer: from a state m and *)
(* an event e, Normal(m, e) is the set of states that are possible after   *)
(* e, and when there is none, FaultTags(m, e) names the properties which e *)
(* breaks.  What cannot be observed (which of several waiting calls does a *)
(* refresh) is left open, so an observer follows a set of states: see      *)
(* After(M, e).                                                            *)
(*                                                                         *)
(* A source is a key made by one constructor call; clones are the same     *)
(* source.  A credential is [src, email, token, exp, at, no]: what one     *)
(* complete refresh obtained, at time at, the no-th one.                   *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   now    the time                                                       *)
(*   call   of each call: [src, bad, ph, avail, sig]                       *)
(*            bad: its options are invalid, it never gets as far as        *)
(*            signing; ph: where it stands: "want" (needs a credential),   *)
(*            "sign" (signBlob asked), "signed", "maybe" (signBlob         *)
(*            answered), "failed", "cancelled", "done"; avail: the         *)
(*            credentials that were at its disposal; sig: of its signBlob  *)
(*            request [acct, payload, sig]; late: it was dropped while a   *)
(*            request of its may have been on the way to a server          *)
(*   cred   of each source: the last credential, or Nothing                *)
(*   by     of each source: which call may have refreshed last and not     *)
(*          have gone on since ("" among them: it has, or there is none)   *)
(*   refs   the refreshes in progress, each [src, by, email, token]: by    *)
(*            are the calls one of which does it; the parts [st, rid, v, ...] with st in {"no", "pend", "got"}     *)
(*   reqs   of each open request: [kind, call, st], call the one that      *)
(*            asks for a signature, st in {"live", "dropped" (with its     *)
(*            call)}                                                       *)
(*   hist   all credentials so far                                         *)
(*   junk   all answers that were not part of a complete refresh, each     *)
(*            [src, kind, v, why]                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nothing == [none |-> TRUE]
IsNothing(x) == "none" \in DOMAIN x

(* Times are [s, n]; an expiry is [inf, t]. *)
Later(a, b) == a.s > b.s \/ (a.s = b.s /\ a.n > b.n)
Margin == 30
Fresh(k, t) == k.exp.inf \/ Later(k.exp.t, [t EXCEPT !.s = @ + Margin])

Nobody == ""

InitState(t, sources) ==
  [now |-> t, call |-> <<>>, cred |-> [s \in sources |-> Nothing],
   by |-> [s \in sources |-> {Nobody}], refs |-> {}, reqs |-> <<>>,
   hist |-> {}, junk |-> {}]


NoPart == [st |-> "no"]
NoSig == [acct |-> <<>>, payload |-> <<>>, sig |-> <<>>]

Calls(m) == DOMAIN m.call
Of(m, s) == {c \in Calls(m) : m.call[c].src = s}
SetCall(m, c, rec) == [m EXCEPT !.call = (c :> rec) @@ @]
(* What no longer matters is forgotten. *)
SetPh(m, c, p) ==
  SetCall(m, c, IF p \in {"failed", "done"}
                THEN [m.call[c] EXCEPT !.ph = p, !.avail = {}, !.sig = NoSig]
                ELSE [m.call[c] EXCEPT !.ph = p])
GoneOn(m, c) == [m EXCEPT !.by = [s \in DOMAIN @ |-> IF c \in @[s] THEN (@[s] \ {c}) \cup {Nobody} ELSE @[s]]]
Over(m, rs) == [m EXCEPT !.reqs = [r \in DOMAIN @ \ rs |-> @[r]]]
Open(m, rid, kind, c) ==
  [m EXCEPT !.reqs = (rid :> [kind |-> kind, call |-> c, st |-> "live"]) @@ @]
CredFresh(m, s) == ~IsNothing(m.cred[s]) /\ Fresh(m.cred[s], m.now)
RefsOf(m, s) == {r \in m.refs : r.src = s}

Kinds == {"email", "token"}
PartOf(r, kind) == IF kind = "email" THEN r.email ELSE r.token
SetPart(r, kind, p) == IF kind = "email" THEN [r EXCEPT !.email = p] ELSE [r EXCEPT !.token = p]
RefWith(m, rid) == {r \in m.refs : \E k \in Kinds : PartOf(r, k).st = "pend" /\ PartOf(r, k).rid = rid}

(* The refresh comes to nothing. *)
Leftover(r) == {[src |-> r.src, kind |-> k, v |-> PartOf(r, k).v, why |-> "partial"] :
                  k \in {x \in Kinds : PartOf(r, x).st = "got"}}
OpenOf(r) == {PartOf(r, k).rid : k \in {x \in Kinds : PartOf(r, x).st = "pend"}}
EndRef(m, r) == Over([m EXCEPT !.refs = @ \ {r}, !.junk = @ \cup Leftover(r)], OpenOf(r))
(* The same when its open request goes as well: it must be seen to go.     *)
DropRef(m, r) ==
  [m EXCEPT !.refs = @ \ {r}, !.junk = @ \cup Leftover(r),
            !.reqs = [x \in DOMAIN @ |-> IF x \in OpenOf(r) THEN [@[x] EXCEPT !.st = "dropped"]
                                         ELSE @[x]]]

-----------------------------------------------------------------------------
(* Events that calls cause.                                                *)

(* A call begins.  A fresh credential is at its disposal at once.          *)
StartNormal(m, e) ==
  {SetCall(m, e.call, [src |-> e.src, bad |-> e.bad, ph |-> "want",
                       avail |-> IF CredFresh(m, e.src) THEN {m.cred[e.src]} ELSE {},
                       sig |-> NoSig, late |-> FALSE])}

(* A request to a metadata server: e.srcs are the sources that have its    *)
(* host, e.ok says that it has the form which is asked for.                *)
Wanting(m, s) == {c \in Of(m, s) : m.call[c].ph = "want"}

MetaJoin(m, e, s) ==
  {[Open(m, e.rid, e.kind, Nobody) EXCEPT
      !.refs = (@ \ {r}) \cup {SetPart(r, e.kind, [st |-> "pend", rid |-> e.rid])}] :
     r \in {x \in RefsOf(m, s) : PartOf(x, e.kind).st = "no"}}

MetaNew(m, e, s) ==
  IF CredFresh(m, s) \/ RefsOf(m, s) # {} \/ Wanting(m, s) = {} THEN {}
  ELSE {LET r == [src |-> s, by |-> Wanting(m, s), email |-> NoPart, token |-> NoPart]
        IN  [Open(m, e.rid, e.kind, Nobody) EXCEPT
               !.refs = @ \cup {SetPart(r, e.kind, [st |-> "pend", rid |-> e.rid])}]}

(* Sent by a call that is no more: nobody waits for the answer.            *)
MetaLate(m, e, s) ==
  {SetCall(m, c, [m.call[c] EXCEPT !.late = FALSE]) : c \in {x \in Of(m, s) : m.call[x].late}}

MetaNormal(m, e) ==
  IF ~e.ok THEN {}
  ELSE UNION {MetaJoin(m, e, s) \cup MetaNew(m, e, s) \cup MetaLate(m, e, s) : s \in e.srcs}

MetaTags(m, e) ==
  IF ~e.ok \/ e.srcs = {} THEN {"C15"}
  ELSE LET why(s) == CASE CredFresh(m, s) -> {"C11", "C12"}
                       [] RefsOf(m, s) # {} -> {"C12"}
                       [] \E c \in Of(m, s) : m.call[c].ph \in {"failed", "cancelled"} -> {"C13"}
                       [] OTHER -> {"C11"}
           (* Keys may have their host in common: it was one with a call.  *)
           busy == {s \in e.srcs : \E c \in Of(m, s) : m.call[c].ph # "done"}
           by == IF busy = {} THEN e.srcs ELSE busy
       IN  {p \in UNION {why(s) : s \in by} : \A s \in by : p \in why(s)}

(* A signBlob request: e.call is the call whose message it carries (Nothing   *)
(* if there is no such call).                                              *)
(* What is no longer fresh when it arrives is only there for the call that *)
(* asked for it.                                                           *)
Usable(m, k) == Fresh(k, m.now) \/ k.at = m.now

Allowed(m, e, c) ==
  /\ ~c.bad
  /\ \E a, t \in c.avail : /\ a.email = e.acct
                           /\ t.token = e.token
                           /\ a.no <= t.no
                           /\ Usable(m, t)

SignNormal(m, e) ==
  IF ~e.ok \/ ~e.known \/ e.call \notin Calls(m) THEN {}
  ELSE LET c == m.call[e.call]
       IN  IF ~Allowed(m, e, c) THEN {}
           ELSE IF c.ph = "want"
           THEN {Open(GoneOn(SetCall(m, e.call,
                               [c EXCEPT !.ph = "sign", !.avail = {},
                                         !.sig = [acct |-> e.acct, payload |-> e.payload,
                                                  sig |-> <<>>]]), e.call),
                      e.rid, "sign", e.call)}
           ELSE IF c.late THEN {SetCall(m, e.call, [c EXCEPT !.late = FALSE])}
           ELSE {}

(* Where did this value come from? *)
Origin(m, s, kind, v) ==
  LET val(k) == IF kind = "email" THEN k.email ELSE k.token
      own == {k \in m.hist : k.src = s /\ val(k) = v}
      other == {k \in m.hist : k.src # s /\ val(k) = v}
      bad == {j \in m.junk : j.kind = kind /\ j.v = v}
  IN  CASE own # {} -> {"C11"}
        [] other # {} -> {"C12"}
        [] \E j \in bad : j.why = "partial" -> {"C13"}
        [] bad # {} -> {"C13", "C15"}
        [] OTHER -> {"C14", "C15"}

SignTags(m, e) ==
  IF ~e.ok \/ ~e.known \/ e.call \notin Calls(m) THEN {"C14"}
  ELSE LET c == m.call[e.call]
       IN  CASE c.bad -> {"C14"}
             [] c.ph = "failed" ->
                  {"C13", "C14"}
                  \cup IF \E j \in m.junk : /\ j.why = "bad"
                                          /\ j.v = IF j.kind = "token" THEN e.token ELSE e.acct
                       THEN {"C15"} ELSE {}
                  \cup IF \E k \in m.hist : k.src = c.src /\ k.token = e.token /\ ~Usable(m, k)
                       THEN {"C11"} ELSE {}
             [] c.ph # "want" -> {"C14"}
             [] ~\E t \in c.avail : t.token = e.token /\ Usable(m, t)
                  -> Origin(m, c.src, "token", e.token)
             [] ~\E a \in c.avail : a.email = e.acct -> Origin(m, c.src, "email", e.acct)
             [] OTHER -> {"C11", "C14"}

(* Requests to anywhere else. *)
StrayTags(m, e) == {"C14", "C15"}

-----------------------------------------------------------------------------
(* Answers.  e.valid in {"yes", "no", "maybe"}: whether the answer is one  *)
(* that has to be used, must not be used, or either.  e.v: its value       *)
(* (e-mail, token or signature), e.exp: the expiry of a token.             *)

(* Those of the calls that may be doing a refresh which still need it.     *)
Doers(m, r) == {c \in r.by : m.call[c].ph = "want"}

(* A fresh credential is there for every call that needs one; what is not  *)
(* fresh is there for the one that obtained it alone.                      *)
Completed(m, r) ==
  LET k == [src |-> r.src, email |-> r.email.v, token |-> r.token.v, exp |-> r.token.exp,
            at |-> m.now, no |-> Cardinality(m.hist) + 1]
      got(for, by) ==
        [m EXCEPT !.refs = @ \ {r},
                  !.cred = [@ EXCEPT ![r.src] = k],
                  !.by = [@ EXCEPT ![r.src] = by],
                  !.hist = @ \cup {k},
                  !.call = [c \in DOMAIN @ |-> IF c \in for THEN [@[c] EXCEPT !.avail = @ \cup {k}]
                                               ELSE @[c]]]
      others == IF Doers(m, r) = r.by THEN {} ELSE {Nobody}
  IN  IF Fresh(k, m.now) THEN {got(Wanting(m, r.src), Doers(m, r) \cup others)}
      ELSE {got({c}, {c}) : c \in Doers(m, r)} \cup {got({}, {c}) : c \in others}

GotPart(m, e, kind) ==
  UNION {LET r2 == SetPart(r, kind, [st |-> "got", v |-> e.v, exp |-> e.exp])
             m2 == [Over(m, {e.rid}) EXCEPT !.refs = (@ \ {r}) \cup {r2}]
         IN  IF r2.email.st = "got" /\ r2.token.st = "got" THEN Completed(m2, r2) ELSE {m2} :
           r \in RefWith(m, e.rid)}

BadPart(m, e, kind) ==
  UNION {LET m2 == [EndRef(m, r) EXCEPT
                      !.junk = @ \cup {[src |-> r.src, kind |-> kind, v |-> e.v, why |-> "bad"]}]
         IN  {SetPh(m2, c, "failed") : c \in Doers(m, r)}
             \cup (IF Doers(m, r) = r.by THEN {} ELSE {m2}) :
           r \in RefWith(m, e.rid)}

RespNormal(m, e) ==
  LET q == m.reqs[e.rid]
  IN  IF e.rid \notin DOMAIN m.reqs THEN {m}
      ELSE CASE q.st = "dropped" -> {}
             [] q.kind \in Kinds ->
                  (IF e.valid # "no" THEN GotPart(m, e, q.kind) ELSE {})
                  \cup (IF e.valid # "yes" THEN BadPart(m, e, q.kind) ELSE {})
             [] OTHER ->
                  LET m2 == Over(m, {e.rid})
                      c == m.call[q.call]
                  IN  IF e.valid = "no" THEN {SetPh(m2, q.call, "failed")}
                      ELSE {SetCall(m2, q.call,
                              [c EXCEPT !.ph = IF e.valid = "yes" THEN "signed" ELSE "maybe",
                                        !.sig.sig = e.v])}

(* The client closed the connection of a request that was not answered.    *)
GoneNormal(m, e) ==
  IF e.rid \notin DOMAIN m.reqs THEN {m}
  ELSE LET q == m.reqs[e.rid]
       IN  CASE q.st = "dropped" -> {Over(m, {e.rid})}
             [] q.kind = "sign" -> {SetPh(Over(m, {e.rid}), q.call, "failed")}
             [] OTHER -> UNION {{SetPh(EndRef(m, r), c, "failed") : c \in Doers(m, r)} :
                                  r \in RefWith(m, e.rid)}

-----------------------------------------------------------------------------
(* The end of a call.  e.ok: a URL or form was returned, whose credential  *)
(* names account e.acct, with signature e.sig over the message e.msg.      *)
RetNormal(m, e) ==
  LET c == m.call[e.call]
      done == SetPh(m, e.call, "done")
  IN  CASE e.kind = "ok" ->
             IF /\ c.ph \in {"signed", "maybe"}
                /\ c.sig.acct = e.acct
                /\ c.sig.payload = e.msg
                /\ c.ph = "maybe" \/ c.sig.sig = e.sig
             THEN {done} ELSE {}
        [] e.kind = "err" ->
             IF c.ph \in {"failed", "maybe"} THEN {done}
             ELSE IF c.bad /\ c.ph = "want" /\ ~\E r \in m.refs : r.by = {e.call}
             THEN {[done EXCEPT !.refs = {[r EXCEPT !.by = @ \ {e.call}] : r \in @}]}
             ELSE {}
        [] OTHER -> {}

RetTags(m, e) ==
  LET c == m.call[e.call]
  IN  CASE e.kind = "ok" ->
             CASE c.ph \in {"signed", "maybe"} -> {"C14"}
               [] c.ph = "failed" -> {"C13", "C15"}
               [] OTHER -> {"C13", "C14"}
        [] e.kind = "err" ->
             CASE c.ph = "signed" -> {"C15"}
               [] c.ph = "want" /\ c.avail # {} -> {"C13", "C15"}
               [] OTHER -> {"C13"}
        [] OTHER -> {"C13", "C17"}

(* A call is dropped.  The refresh it was doing ends there (its request is *)
(* dropped as well), or somebody else carries it on.  A refresh whose last *)
(* answer is there may not have been taken in yet.  e.quiet: everything    *)
(* that was sent before has arrived.                                       *)
Undo(m, k) ==
  [m EXCEPT !.cred = [@ EXCEPT ![k.src] = Nothing],
            !.by = [@ EXCEPT ![k.src] = {Nobody}],
            !.hist = @ \ {k},
            !.junk = @ \cup {[src |-> k.src, kind |-> "email", v |-> k.email, why |-> "partial"],
                             [src |-> k.src, kind |-> "token", v |-> k.token, why |-> "partial"]},
            !.call = [c \in DOMAIN @ |-> [@[c] EXCEPT !.avail = @ \ {k}]]]

CancelNormal(m, e) ==
  LET c == m.call[e.call]
      late == c.ph = "want" /\ ~e.quiet
      m1 == GoneOn(SetCall(m, e.call, [c EXCEPT !.ph = "cancelled", !.late = late, !.sig = NoSig,
                                                !.avail = IF late THEN @ ELSE {}]), e.call)
      mine == {r \in m.refs : e.call \in r.by}
      sign == {x \in DOMAIN m.reqs : m.reqs[x].kind = "sign" /\ m.reqs[x].call = e.call}
      m2 == Over(m1, sign)
  IN  {m2} \cup {DropRef(m2, r) : r \in mine}
           \cup (IF e.call \in m.by[c.src] /\ c.ph = "want" THEN {Undo(m2, m.cred[c.src])} ELSE {})

(* Everything that was sent before has arrived: no request is late now.    *)
QuietNormal(m) ==
  {[m EXCEPT !.call = [c \in DOMAIN @ |-> IF @[c].late
                                           THEN [@[c] EXCEPT !.late = FALSE, !.avail = {}]
                                           ELSE @[c]]]}

TickNormal(m, e) == {[m EXCEPT !.now = e.now]}

(* The end: every request has been answered, so no call is left.           *)
EndNormal(m, e) ==
  IF e.left \/ \E c \in Calls(m) : m.call[c].ph \notin {"done", "cancelled"} THEN {} ELSE {m}

-----------------------------------------------------------------------------
Normal(m, e) ==
  CASE e.e = "start" -> StartNormal(m, e)
    [] e.e = "meta" -> MetaNormal(m, e)
    [] e.e = "sign" -> SignNormal(m, e)
    [] e.e = "stray" -> {}
    [] e.e = "resp" -> RespNormal(m, e)
    [] e.e = "gone" -> GoneNormal(m, e)
    [] e.e = "ret" -> RetNormal(m, e)
    [] e.e = "cancel" -> CancelNormal(m, e)
    [] e.e = "tick" -> TickNormal(m, e)
    [] e.e = "quiet" -> QuietNormal(m)
    [] e.e = "end" -> EndNormal(m, e)

FaultTags(m, e) ==
  CASE e.e = "meta" -> MetaTags(m, e)
    [] e.e = "sign" -> SignTags(m, e)
    [] e.e = "stray" -> StrayTags(m, e)
    [] e.e = "ret" -> RetTags(m, e)
    [] e.e = "end" -> {"C13", "C17"}
    [] OTHER -> {}

(* What is broken may be another property's affair: then the observer goes *)
(* on as if it had been allowed, with whatever may follow from it.         *)
(* Any call may have sent it, and may fail with it. *)
ForgiveStray(m) ==
  {m} \cup {SetPh(m, c, "failed") : c \in {x \in Calls(m) : m.call[x].ph \in {"want", "sign"}}}

ForgiveMeta(m, e) ==
  LET ready(s) == {c \in Of(m, s) : m.call[c].ph = "want"}
      again(s) == {c \in Of(m, s) : m.call[c].ph = "failed"}
      new(k, s, C) ==
        LET r == [src |-> s, by |-> C, email |-> NoPart, token |-> NoPart]
        IN  [Open(k, e.rid, e.kind, Nobody) EXCEPT
               !.refs = @ \cup {SetPart(r, e.kind, [st |-> "pend", rid |-> e.rid])}]
      all == UNION {(IF ready(s) = {} THEN {} ELSE {new(m, s, ready(s))})
                    \cup {new(SetPh(m, c, "want"), s, {c}) : c \in again(s)} : s \in e.srcs}
  IN  IF all = {} THEN ForgiveStray(m) ELSE all

ForgiveSign(m, e) ==
  IF e.call \notin Calls(m) \/ m.call[e.call].ph \in {"cancelled", "done"} THEN {m}
  ELSE {Open(GoneOn(SetCall(m, e.call,
                 [m.call[e.call] EXCEPT !.ph = "sign", !.avail = {},
                    !.sig = [acct |-> e.acct, payload |-> e.payload, sig |-> <<>>]]), e.call),
             e.rid, "sign", e.call)}

Forgive(m, e) ==
  CASE e.e = "meta" -> ForgiveMeta(m, e)
    [] e.e = "sign" -> ForgiveSign(m, e)
    [] e.e = "stray" -> ForgiveStray(m)
    [] e.e \in {"resp", "gone"} -> {Over(m, {e.rid})}
    [] e.e = "ret" -> {SetPh(m, e.call, "done")}
    [] OTHER -> {}

(* The observer: all states that explain the events so far.  With many     *)
(* calls and short-lived tokens there are too many to tell apart which     *)
(* call has which credential; states that differ in nothing else are then  *)
(* taken together, with everything that either allows.                     *)
MaxStates == 24
Plain(m) == [m EXCEPT !.call = [c \in DOMAIN @ |-> [@[c] EXCEPT !.avail = {}]]]
Joined(M) ==
  LET some == CHOOSE m \in M : TRUE
  IN  [some EXCEPT !.call = [c \in DOMAIN @ |->
         [@[c] EXCEPT !.avail = UNION {m.call[c].avail : m \in M}]]]
Widen(M) ==
  IF Cardinality(M) <= MaxStates THEN M
  ELSE LET ps == [m \in M |-> Plain(m)]
       IN  {Joined({m \in M : ps[m] = k}) : k \in {ps[m] : m \in M}}

After(M, e) == Widen(UNION {Normal(m, e) : m \in M})
Forgiven(M, e) == Widen(UNION {Forgive(m, e) : m \in M})

(* What is broken by an event that no state explains: what is broken in    *)
(* every explanation of the events before it, if there is such a thing.    *)
Broken(M, e) ==
  LET t == [m \in M |-> FaultTags(m, e)]
      blamed == {m \in M : t[m] # {}}
      all == UNION {t[m] : m \in blamed}
      sure == {p \in all : \A m \in blamed : p \in t[m]}
  IN  IF sure # {} THEN sure ELSE all
=============================================================================
