----------------------------- MODULE BoundToken ------------------------------
(***************************************************************************)
(* The bound-token implementation (src/private/bound_token.rs,             *)
(* signing_key_inner.rs) as a transition system, one action per stretch of *)
(* code between two suspension points: an asynchronous mutex per source    *)
(* (first come, first served) that is held during a whole refresh, a       *)
(* cache, and calls that need the account first (get 1), then a token      *)
(* (get 2), then a signature.  Every observable step is shown to the       *)
(* observer of TokenSource: the model is right when the observer can       *)
(* always explain it.                                                      *)
(*                                                                         *)
(* Bug names one deliberate mistake in the model ("" for none); with each  *)
(* of them the observer has to object, with the properties that break.     *)
(***************************************************************************)
EXTENDS TokenSource, Json

CONSTANTS Sources, CallIds, MaxReqs, Ticks, MaxTicks, Answers, SplitAnswers, Bug, Eager, Record,
          MaxEnv, Cancels, BadCalls, Target

VARIABLES pc,       \* of each call: where it is
          src,      \* of each call: its source
          acct,     \* of each call: the account it got
          held,     \* of each call: [email, token] of a refresh under way, or the token to use
          queue,    \* of each source: the calls in the line for the mutex, its owner first
          cache,    \* of each source: Nothing or [email, token, exp]
          net,      \* requests at the servers: sequence of [rid, kind, call, src, split]
          nextRid, time, nticks, obs, broken, env

vars == <<pc, src, acct, held, queue, cache, net, nextRid, time, nticks, obs, broken, env>>

Idle == {c \in CallIds : pc[c] = "idle"}
Live == {c \in CallIds : pc[c] \notin {"idle", "done", "cancelled"}}
(* A call as the observer knows it. *)
Name(c) == ToString(c)
AnySource == CHOOSE s \in Sources : TRUE

TypeOK ==
  /\ \A c \in CallIds : pc[c] \in {"idle", "lock", "email1", "email2", "token1", "token2",
                                   "crit", "sign", "ok", "err", "done", "cancelled"}
  /\ \A s \in Sources : \A i, j \in 1..Len(queue[s]) : i # j => queue[s][i] # queue[s][j]

Init ==
  /\ pc = [c \in CallIds |-> "idle"]
  /\ src = [c \in CallIds |-> AnySource]
  /\ acct = [c \in CallIds |-> <<>>]
  /\ held = [c \in CallIds |-> Nothing]
  /\ queue = [s \in Sources |-> <<>>]
  /\ cache = [s \in Sources |-> Nothing]
  /\ net = <<>>
  /\ nextRid = 1
  /\ time = [s |-> 0, n |-> 0]
  /\ nticks = 0
  /\ obs = {InitState([s |-> 0, n |-> 0], Sources)}
  /\ broken = {}
  /\ env = <<>>

(* What happened is shown to the observer; after the first fault it rests. *)
Show(e) ==
  IF broken # {} THEN UNCHANGED <<obs, broken>>
  ELSE LET M == After(obs, e)
       IN  IF M # {} THEN obs' = M /\ UNCHANGED broken
           ELSE broken' = {"any"} \cup Broken(obs, e) /\ UNCHANGED obs

Quiet == UNCHANGED <<obs, broken>>

Without(q, c) == SelectSeq(q, LAMBDA x : x # c)
Owns(c) == queue[src[c]] # <<>> /\ Head(queue[src[c]]) = c
(* The source whose cache a call uses. *)
Cache(c) == IF Bug = "sharedcache" THEN AnySource ELSE src[c]

Limit == CASE Bug = "margin0" -> 0 [] Bug = "margin60" -> 60 [] OTHER -> Margin
FreshEnough(k) ==
  \/ k.exp.inf
  \/ Later(k.exp.t, [time EXCEPT !.s = @ + Limit])
  \/ Bug = "margin29" /\ Later(k.exp.t, [time EXCEPT !.s = @ + 29])
  \/ Bug = "notstrict" /\ k.exp.t = [time EXCEPT !.s = @ + Limit]
  \/ Bug = "nevertire"

CanUse(k) == IF IsNothing(k) THEN FALSE ELSE FreshEnough(k)

Send(c, kind) ==
  /\ nextRid <= MaxReqs
  /\ net' = Append(net, [rid |-> nextRid, kind |-> kind, call |-> c, src |-> src[c], split |-> FALSE])
  /\ nextRid' = nextRid + 1

(* What a call has when it has a credential: the account at first, then    *)
(* the token.  get 1 is the one without an account.                        *)
Got(c, k) == IF acct[c] = <<>> THEN /\ acct' = [acct EXCEPT ![c] = k.email]
                                     /\ pc' = [pc EXCEPT ![c] = "lock"]
                                     /\ held' = held
             ELSE /\ UNCHANGED acct
                  /\ pc' = [pc EXCEPT ![c] = "sign"]
                  /\ held' = [held EXCEPT ![c] = k]

-----------------------------------------------------------------------------
(* Steps of the calls. *)

(* lock().await: at the head of the line the call looks at the cache. *)
Enter(c) ==
  /\ pc[c] = "lock"
  /\ \A s \in Sources : c \notin {queue[s][i] : i \in 1..Len(queue[s])}
  /\ queue' = [queue EXCEPT ![src[c]] = Append(@, c)]
  /\ pc' = [pc EXCEPT ![c] = "crit"]
  /\ Quiet
  /\ UNCHANGED <<src, acct, held, cache, net, nextRid, time, nticks, env>>

Hit(c) ==
  /\ pc[c] = "crit"
  /\ Owns(c) \/ Bug = "nolock"
  /\ LET k == cache[Cache(c)]
     IN  CanUse(k) = TRUE /\ Got(c, k)
  /\ queue' = [queue EXCEPT ![src[c]] = Without(@, c)]
  /\ Quiet
  /\ UNCHANGED <<src, cache, net, nextRid, time, nticks, env>>

Miss(c) ==
  /\ pc[c] = "crit"
  /\ Owns(c) \/ Bug = "nolock"
  /\ CanUse(cache[Cache(c)]) = FALSE
  /\ Send(c, "email")
  /\ Show([e |-> "meta", rid |-> nextRid, kind |-> "email", srcs |-> {src[c]}, ok |-> TRUE])
  /\ pc' = [pc EXCEPT ![c] = "email1"]
  /\ UNCHANGED <<src, acct, held, queue, cache, time, nticks, env>>

(* The answer to the e-mail request was read (pc = "email2"). *)
AskToken(c) ==
  /\ pc[c] = "email2"
  /\ Send(c, "token")
  /\ Show([e |-> "meta", rid |-> nextRid, kind |-> "token", srcs |-> {src[c]}, ok |-> TRUE])
  /\ pc' = [pc EXCEPT ![c] = "token1"]
  /\ UNCHANGED <<src, acct, held, queue, cache, time, nticks, env>>

Store(c) ==
  /\ pc[c] = "token2"
  /\ LET k == held[c]
     IN  /\ cache' = IF Bug = "nocache" THEN cache ELSE [cache EXCEPT ![Cache(c)] = k]
         /\ Got(c, k)
  /\ queue' = [queue EXCEPT ![src[c]] = Without(@, c)]
  /\ Quiet
  /\ UNCHANGED <<src, net, nextRid, time, nticks, env>>

(* signBlob for account and message of the call. *)
Account(c) == IF Bug = "acct2" THEN held[c].email ELSE acct[c]
AskSign(c) ==
  /\ pc[c] = "sign"
  /\ ~\E i \in 1..Len(net) : net[i].call = c
  /\ Send(c, "sign")
  /\ Show([e |-> "sign", rid |-> nextRid, known |-> TRUE, call |-> Name(c), ok |-> TRUE,
           acct |-> Account(c), token |-> held[c].token, payload |-> <<c>> \o acct[c]])
  /\ UNCHANGED <<src, acct, held, queue, cache, time, nticks, pc, env>>

(* The options of some calls turn out to be invalid once the account is known. *)
Refuse(c) ==
  /\ c \in BadCalls
  /\ pc[c] = "lock"
  /\ acct[c] # <<>>
  /\ pc' = [pc EXCEPT ![c] = "done"]
  /\ Show([e |-> "ret", call |-> Name(c), kind |-> "err"])
  /\ UNCHANGED <<src, acct, held, queue, cache, net, nextRid, time, nticks, env>>

Return(c) ==
  /\ pc[c] \in {"ok", "err"}
  /\ pc' = [pc EXCEPT ![c] = "done"]
  /\ Show(IF pc[c] = "ok"
          THEN [e |-> "ret", call |-> Name(c), kind |-> "ok", acct |-> acct[c], msg |-> <<c>> \o acct[c],
                sig |-> held[c].sig]
          ELSE [e |-> "ret", call |-> Name(c), kind |-> "err"])
  /\ UNCHANGED <<src, acct, held, queue, cache, net, nextRid, time, nticks, env>>

Step(c) == IF c \in BadCalls /\ acct[c] # <<>> THEN Refuse(c)
           ELSE Enter(c) \/ Hit(c) \/ Miss(c) \/ AskToken(c) \/ Store(c) \/ AskSign(c) \/ Return(c)
Steps == \E c \in CallIds : Step(c)
(* A call takes its next step while it can. *)
CanStep(c) == \/ pc[c] \in {"lock", "email2", "token2", "ok", "err"}
              \/ pc[c] = "sign" /\ ~\E i \in 1..Len(net) : net[i].call = c
              \/ pc[c] = "crit" /\ Owns(c)

-----------------------------------------------------------------------------
(* The environment: callers, clock, servers.  When Eager, it waits until   *)
(* no call can go on by itself, as the conformance driver does.            *)

Settled == Eager => ~\E c \in CallIds : CanStep(c)
Note(x) == IF Record THEN env' = Append(env, x) ELSE UNCHANGED env
Room == ~Record \/ Len(env) < MaxEnv

Start(c, s) ==
  /\ Settled /\ Room
  /\ pc[c] = "idle"
  /\ \A d \in CallIds : pc[d] = "idle" => c <= d
  /\ pc' = [pc EXCEPT ![c] = "lock"]
  /\ src' = [src EXCEPT ![c] = s]
  /\ Show([e |-> "start", call |-> Name(c), src |-> s, bad |-> c \in BadCalls])
  /\ Note([do |-> "start", call |-> c, src |-> s])
  /\ UNCHANGED <<acct, held, queue, cache, net, nextRid, time, nticks>>

(* Time stands still while calls can go on by themselves: what is checked  *)
(* at one instant is used at that instant.                                 *)
Tick(d) ==
  /\ ~\E c \in CallIds : CanStep(c)
  /\ Room
  /\ nticks < MaxTicks
  /\ nticks' = nticks + 1
  /\ time' = [time EXCEPT !.s = @ + d]
  /\ Show([e |-> "tick", now |-> time'])
  /\ Note([do |-> "tick", sec |-> d])
  /\ UNCHANGED <<pc, src, acct, held, queue, cache, net, nextRid>>

(* The future of a call is dropped: it leaves the line, its request goes.  *)
Cancel(c) ==
  /\ Cancels
  /\ Settled /\ Room
  /\ c \in Live
  /\ LET mine == {i \in 1..Len(net) : net[i].call = c}
         e1 == [e |-> "cancel", call |-> Name(c), quiet |-> TRUE]
     IN  /\ pc' = [pc EXCEPT ![c] = "cancelled"]
         /\ queue' = IF Bug = "leaklock" THEN queue
                     ELSE [s \in Sources |-> Without(queue[s], c)]
         /\ net' = SelectSeq(net, LAMBDA q : q.call # c)
         /\ IF broken # {} THEN Quiet
            ELSE LET M1 == After(obs, e1)
                     M2 == IF mine = {} THEN M1
                           ELSE After(M1, [e |-> "gone", rid |-> net[CHOOSE i \in mine : TRUE].rid])
                 IN  IF M2 # {} THEN obs' = M2 /\ UNCHANGED broken
                     ELSE broken' = {"any"} /\ UNCHANGED obs
  /\ Note([do |-> "cancel", call |-> c])
  /\ cache' = IF Bug = "earlycache" /\ pc[c] = "token1"
              THEN [cache EXCEPT ![src[c]] = [email |-> held[c].email, token |-> <<0>>,
                                              exp |-> [inf |-> TRUE, t |-> time]]]
              ELSE cache
  /\ UNCHANGED <<src, acct, held, nextRid, time, nticks>>

(* Only the head of an answer, its body comes later: nothing to see yet.   *)
Split(i) ==
  /\ SplitAnswers
  /\ Settled /\ Room
  /\ ~net[i].split
  /\ net' = [net EXCEPT ![i].split = TRUE]
  /\ Note([do |-> "head", n |-> i - 1])
  /\ Quiet
  /\ UNCHANGED <<pc, src, acct, held, queue, cache, nextRid, time, nticks>>

(* a: [ok, life]; the life of a token in seconds. *)
Respond(i, a) ==
  LET q == net[i]
      c == q.call
      exp == [inf |-> FALSE, t |-> [time EXCEPT !.s = @ + a.life]]
      used == a.ok \/ Bug = "usebad"
      (* the line for the mutex of a call whose refresh failed *)
      freed == [queue EXCEPT ![src[c]] = Without(@, c)]
  IN  /\ Settled /\ Room
      /\ (q.kind # "token") => a.life = 0
      /\ net' = SelectSeq(net, LAMBDA x : x.rid # q.rid)
      /\ Show([e |-> "resp", rid |-> q.rid, valid |-> IF a.ok THEN "yes" ELSE "no",
               v |-> <<q.rid>>, exp |-> exp])
      /\ Note([do |-> "resp", n |-> i - 1, ok |-> a.ok, life |-> a.life])
      /\ CASE q.kind = "email" ->
                IF used THEN /\ pc' = [pc EXCEPT ![c] = "email2"]
                             /\ held' = [held EXCEPT ![c] = [email |-> <<q.rid>>]]
                             /\ UNCHANGED queue
                ELSE /\ pc' = [pc EXCEPT ![c] = "err"]
                     /\ queue' = freed
                     /\ UNCHANGED held
           [] q.kind = "token" ->
                IF used THEN /\ pc' = [pc EXCEPT ![c] = "token2"]
                             /\ held' = [held EXCEPT ![c] = [email |-> @.email, token |-> <<q.rid>>,
                                                             exp |-> exp]]
                             /\ UNCHANGED queue
                ELSE /\ pc' = [pc EXCEPT ![c] = "err"]
                     /\ queue' = IF Bug = "poison" THEN queue ELSE freed
                     /\ UNCHANGED held
           [] OTHER ->
                /\ pc' = [pc EXCEPT ![c] = IF used THEN "ok" ELSE "err"]
                /\ held' = [held EXCEPT ![c] = [sig |-> <<q.rid>>]]
                /\ UNCHANGED queue
      /\ UNCHANGED <<src, acct, cache, nextRid, time, nticks>>

Env == \/ \E c \in CallIds, s \in Sources : Start(c, s)
       \/ \E d \in Ticks : Tick(d)
       \/ \E c \in CallIds : Cancel(c)
       \/ \E i \in 1..Len(net) : Split(i) \/ \E a \in Answers : Respond(i, a)

Next == Steps \/ Env

(* Calls are polled, requests are answered. *)
Fair == /\ \A c \in CallIds : WF_vars(Step(c))
        /\ WF_vars(\E a \in Answers : net # <<>> /\ Respond(1, a))

Spec == Init /\ [][Next]_vars /\ Fair
SafeSpec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* The observer can explain everything the model does. *)
Explained == broken = {}

(* The same in terms of the model's own state. *)
OneRefresh == \A s \in Sources :
  Cardinality({i \in 1..Len(net) : net[i].src = s /\ net[i].kind # "sign"}) <= 1
LockHeld == \A c \in CallIds : pc[c] \in {"email1", "email2", "token1", "token2"} => Owns(c)
CacheSeen == (\A c \in CallIds : pc[c] # "token2") =>
  \A s \in Sources :
    IF CanUse(cache[s])
    THEN \E m \in obs : IF IsNothing(m.cred[s]) THEN FALSE
                         ELSE /\ m.cred[s].token = cache[s].token
                              /\ m.cred[s].email = cache[s].email
                              /\ m.cred[s].exp = cache[s].exp
    ELSE TRUE
NoLeft == (\A c \in CallIds : pc[c] \in {"idle", "done", "cancelled"})
            => \A s \in Sources : queue[s] = <<>>

(* Every call comes to an end. *)
Ends == \A c \in CallIds : pc[c] = "lock" ~> pc[c] \in {"done", "cancelled"}

(* Deadlock: a call is left although all requests were answered. *)
Stuck == \/ \E c \in CallIds : CanStep(c)
         \/ net # <<>>
         \/ Live = {}
         \/ nextRid > MaxReqs

(* With a deliberate mistake: the observer has to object to it for the     *)
(* sake of property Target, so that this does not hold.                    *)
Unharmed == Target \notin broken

(* Behaviours for the conformance driver. *)
Finished == /\ Len(env) = MaxEnv \/ \A c \in CallIds : pc[c] \in {"done", "cancelled"}
            /\ ~\E c \in CallIds : CanStep(c)
Emit == Finished => PrintT(<<"SCHED", ToJson(env)>>)
=============================================================================
