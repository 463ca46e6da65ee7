------------------------------- MODULE MCUrl --------------------------------
(***************************************************************************)
(* The life of a signed URL: a client signs a call, somebody who has the   *)
(* URL sends a request - the honest one or a changed one - and a server    *)
(* that knows only the protocol judges it at some time.  Checked: what the *)
(* properties ask of a finished call is what makes exactly the honest      *)
(* request, within the window, pass.  Every call explored here is also     *)
(* written to CALLS, and the conformance check makes it with the real      *)
(* library.                                                                *)
(***************************************************************************)
EXTENDS SignedUrl, IOUtils, Json

CONSTANTS Family, Deep

(* Ideal signatures, for the model only. *)
ModelSign(key, m) == HexDigest(B(key) \o <<0>> \o m)
ModelSigValid(key, m, sig) == Hex(sig) = ModelSign(key, m)

-----------------------------------------------------------------------------
(* The calls, by family.  (The parameter keeps TLC from enumerating the     *)
(* families that are not asked for.)                                       *)
NowT == [d |-> 19675, s |-> 80000, n |-> 0]
At(d, s, n) == [d |-> d, s |-> s, n |-> n]
Key(t) == [t |-> t, account |-> B("sa@example.com"), pub |-> IF t = "hmac" THEN "" ELSE "rsa1",
           can |-> t # "hmac"]

Plain == [op |-> "url", now |-> NowT, at |-> [some |-> TRUE, t |-> NowT],
          expires |-> Plus(NowT, 3600), method |-> B("GET"), bucket |-> B("bucket"),
          object |-> B("object"), region |-> [some |-> FALSE], headers |-> <<>>,
          query |-> <<>>, blob |-> FALSE, key |-> Key("sa"), requests |-> <<>>]

(* One octet or character per class that matters anywhere: unreserved,     *)
(* delimiters of path and query, percent, space, plus, controls, upper     *)
(* case, quotes and two characters outside ASCII.                          *)
Letters == {B("a"), B("Z"), B("/"), B("."), B("%"), B("?"), B("#"), B("&"), B("="), B("+"),
            B(" "), B("~"), B(":"), B(";"), B("@"), B("2"), B("\""), B("\\"), B("*"),
            <<10>>, <<195, 169>>, <<240, 159, 152, 128>>}
Few == {B("a"), B("/"), B("."), B("%"), B("?"), B("&"), B("="), B("+"), B(" "), <<195, 169>>}
Upto2(S) == {<<>>} \cup S \cup {x \o y : x \in S, y \in S}
Upto3(S) == Upto2(S) \cup {x \o y \o z : x \in S, y \in S, z \in S}

Words(deep) == IF deep THEN Upto2(Letters) \cup Upto3(Few) ELSE Upto2(Letters)

NameCalls(deep) ==
  {[Plain EXCEPT !.object = w] : w \in Words(deep)}
  \cup {[Plain EXCEPT !.bucket = w] : w \in Words(deep)}

PairLists(N, V) ==
  {<<>>} \cup {<<<<n, v>>>> : n \in N, v \in V}
  \cup {<<<<n, v>>, <<m, u>>>> : n \in N, v \in V, m \in N, u \in V}

QueryCalls(deep) ==
  {[Plain EXCEPT !.query = <<<<w, B("1")>>>>] : w \in Words(deep)}
  \cup {[Plain EXCEPT !.query = <<<<B("q"), w>>>>] : w \in Words(deep)}
  \cup {[Plain EXCEPT !.query = q] :
          q \in PairLists({B("a"), B("a-"), B("a="), B("A"), B("ab"), B("X-Goog-E"), B("~")},
                          {B("1"), B("0"), <<>>, B(" ")})}
  \cup IF ~deep THEN {}
       ELSE {[Plain EXCEPT !.query = <<<<a, B("2")>>, <<b, B("1")>>, <<c, B("0")>>>>] :
               a \in {B("a"), B("a%"), B("b"), B("A")}, b \in {B("a"), B("a-"), B("b")},
               c \in {B("a"), B("B"), B("X-Goog-Z")}}

HeaderNames == {B("a"), B("A"), B("x-goog-a"), B("X-Goog-A"), B("hosta"), B("z")}
HeaderValues == {B("v"), <<>>, B(" v "), B("v,w"), B("V:;"), <<9, 118>>}
HeaderCalls(deep) ==
  {[Plain EXCEPT !.headers = h] : h \in PairLists(HeaderNames, HeaderValues)}
  \cup IF ~deep THEN {}
       ELSE {[Plain EXCEPT !.headers = <<<<a, B("1")>>, <<b, B("2")>>, <<c, B("3")>>>>] :
               a \in HeaderNames, b \in HeaderNames, c \in HeaderNames}

Days == {0, 58, 59, 364, 365, 789, 11015, 11016, 19674, 19675, 47540, 47541, 2932895, 2932896}
Seconds == {0, 1, 3599, 43200, 86399}
Nanos == {0, 1, 999999999}
Lasts == {0, 1, 59, 86399, 86400, 604799, 604800}
TimeCalls(deep) ==
  {[Plain EXCEPT !.at.t = At(d, s, n), !.expires = [Plus(At(d, s, 0), l) EXCEPT !.n = m]] :
     d \in Days, s \in Seconds, n \in Nanos, l \in Lasts \cup {604801}, m \in Nanos}
  \cup {[Plain EXCEPT !.at = [some |-> FALSE], !.now = At(d, s, n),
                      !.expires = [Plus(At(d, s, 0), l) EXCEPT !.n = n]] :
          d \in Days, s \in Seconds, n \in Nanos, l \in Lasts}
  \cup {[Plain EXCEPT !.at.t = At(d, s, 0), !.expires = At(e, 0, 0)] :
          d \in {-25567, -1, 0, 2932896, 2932897, 2933262}, s \in {0, 86399},
          e \in {-25567, -1, 0, 1, 2932896, 2932897, 2932899, 2933262}}

RefuseCalls(deep) ==
  {[Plain EXCEPT !.method = m, !.key = Key(k), !.blob = b] :
     m \in Methods \cup {<<>>, B("get"), B("PATCH"), B("GET "), B(" GET"), B("GETX"), B("PUt"),
                         B("OPTIONS"), B("CONNECT"), B("TRACE"), B("RESUMABLE"), B("G")},
     k \in {"sa", "hmac", "bound"}, b \in BOOLEAN}
  \cup {[Plain EXCEPT !.headers = <<<<n, v>>>>] :
          n \in {<<>>, B("a b"), B("a:"), <<195, 169>>, <<10>>, B("a"), B("("), B("a/")},
          v \in {B("v"), <<10>>, <<127>>, <<195, 169>>, <<0>>, <<9>>}}

RegionCalls(deep) ==
  {[Plain EXCEPT !.region = [some |-> TRUE, v |-> w], !.at.t = At(d, 86399, 999999999),
                 !.expires = At(d + 1, 0, 0), !.key.account = a] :
     w \in {<<>>, B("auto"), B("us-central1"), B("US"), B("a/b"), B(" "), <<195, 169>>},
     d \in {0, 59, 19675, 2932895}, a \in {B("sa@example.com"), B("a b"), B("x+y@z"), B("%")}}

Calls == CASE Family = "names" -> NameCalls(Deep)
           [] Family = "query" -> QueryCalls(Deep)
           [] Family = "headers" -> HeaderCalls(Deep)
           [] Family = "times" -> TimeCalls(Deep)
           [] Family = "refuse" -> RefuseCalls(Deep)
           [] Family = "region" -> RegionCalls(Deep)
-----------------------------------------------------------------------------
VARIABLES phase, call, wire, changed, clock, verdict
vars == <<phase, call, wire, changed, clock, verdict>>

NoReq == [method |-> <<>>, path |-> <<>>, query |-> <<>>, headers |-> <<>>]
Unsigned == [kind |-> "none", url |-> <<>>]

Init == /\ phase = "call"
        /\ call \in {c @@ ("res" :> Unsigned) : c \in Calls}
        /\ wire = NoReq /\ changed = FALSE /\ clock = NowT /\ verdict = FALSE

Sign == /\ phase = "call"
        /\ call' = [call EXCEPT !.res = Client(call, ModelSign)]
        /\ phase' = IF call'.res.kind = "ok" THEN "signed" ELSE "done"
        /\ UNCHANGED <<wire, changed, clock, verdict>>

SendHonest == /\ phase = "signed"
              /\ wire' = Wire(call)
              /\ changed' = FALSE
              /\ phase' = "sent"
              /\ UNCHANGED <<call, clock, verdict>>

SendChanged == /\ phase = "signed"
               /\ Family \notin {"times"}
               /\ \E x \in {y \in Tampered(Wire(call)) : Meaning(y) # Meaning(Wire(call))} :
                    wire' = x
               /\ changed' = TRUE
               /\ phase' = "sent"
               /\ UNCHANGED <<call, clock, verdict>>

Cut(t) == [t EXCEPT !.n = 0]

(* Moments around both ends of the window. *)
Moments(c) ==
  LET a == Start(c)
      e == c.expires
      Bump(t) == IF t.n = 999999999 THEN [Plus(t, 1) EXCEPT !.n = 0] ELSE [t EXCEPT !.n = @ + 1]
      Back(t) == IF t.s = 0 THEN [t EXCEPT !.d = @ - 1, !.s = 86399]
                 ELSE [t EXCEPT !.s = @ - 1]
      to == Plus(Cut(a), WholeSeconds(a, e))
  IN  {a, Cut(a), Back(a), e, Bump(e), Plus(e, 1), Plus(a, 1), to, Bump(to)}

Serve == /\ phase = "sent"
         /\ \E t \in IF Family = "times" THEN Moments(call) ELSE {Cut(Start(call))} :
              /\ clock' = t
              /\ verdict' = Accepts(wire, call.key.account, call.key.pub, t)
         /\ phase' = "served"
         /\ UNCHANGED <<call, wire, changed>>

Next == Sign \/ SendHonest \/ SendChanged \/ Serve
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Finished == phase \in {"signed", "done"}

RulesHold == Finished =>
  /\ Verifies(call) /\ Addresses(call) /\ CarriesQuery(call) /\ HeaderList(call)
  /\ Window(call) /\ UrlScope(call) /\ SignedIffValid(call) /\ UrlTotal(call)

(* Served from the second of accessible_at for as many whole seconds as    *)
(* there are until expires, and so never after expires.                    *)
HonestServed ==
  phase = "served" /\ ~changed =>
    LET from == Cut(Start(call))
        to == Plus(from, WholeSeconds(Start(call), call.expires))
    IN  /\ verdict <=> NotAfter(from, clock) /\ NotAfter(clock, to)
        /\ verdict => NotAfter(clock, call.expires)

ChangedRefused == phase = "served" /\ changed => ~verdict

(* The rules are not vacuous: each refuses some damaged result. *)
Damage(c) ==
  LET u == c.res.url
      k == FirstPos(u, 63)
  IN  {[c EXCEPT !.res.url = SubSeq(u, 1, Len(u) - 1) \o <<IF u[Len(u)] = 48 THEN 49 ELSE 48>>],
       [c EXCEPT !.res.url = SubSeq(u, 1, k - 1) \o B("x") \o SubSeq(u, k, Len(u))],
       [c EXCEPT !.res.url = u \o B("&x=1")],
       [c EXCEPT !.res.kind = "err"]}
DamageSeen ==
  phase = "signed" =>
    \A x \in Damage(call) :
      ~( /\ Verifies(x) /\ Addresses(x) /\ CarriesQuery(x) /\ SignedIffValid(x))

ASSUME Dump == IF "CALLS" \in DOMAIN IOEnv
               THEN ndJsonSerialize(IOEnv.CALLS, SetToSeq(Calls)) ELSE TRUE
=============================================================================
