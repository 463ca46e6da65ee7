------------------------------- MODULE MCForm -------------------------------
(***************************************************************************)
(* The life of a POST form: setters are called in any order and number,    *)
(* the form is built, somebody submits it - as built or changed - and a    *)
(* server that enforces the policy judges it.  Checked: what the           *)
(* properties ask of a built form is what makes exactly the form as built  *)
(* pass.  Every history explored here is also written to CALLS, and the    *)
(* conformance check goes through it with the real builder.                *)
(***************************************************************************)
EXTENDS Form, IOUtils, Json

CONSTANTS Family, K

ModelSign(key, m) == HexDigest(B(key) \o <<0>> \o m)
ModelSigValid(key, m, sig) == Hex(sig) = ModelSign(key, m)

-----------------------------------------------------------------------------
(* The policy as a JSON text (RFC 8259), in base64. *)
JsonChar(b) == CASE b = 34 -> <<92, 34>>
                 [] b = 92 -> <<92, 92>>
                 [] b < 32 -> B("\\u00") \o <<HexLower[(b \div 16) + 1], HexLower[(b % 16) + 1]>>
                 [] OTHER -> <<b>>
JsonString(s) == <<34>> \o Cat(T([i \in 1..Len(s) |-> JsonChar(s[i])])) \o <<34>>
JsonCond(k) ==
  IF k.t = "eq"
  THEN B("[\"eq\",") \o JsonString(k.f) \o <<44>> \o JsonString(k.v) \o <<93>>
  ELSE B("[\"content-length-range\",") \o k.lo \o <<44>> \o k.hi \o <<93>>
ModelPolicy(conds, expiration) ==
  Base64(B("{\"conditions\":[")
         \o Join(T([i \in 1..Len(conds) |-> JsonCond(conds[i])]), <<44>>)
         \o B("],\"expiration\":") \o JsonString(expiration) \o B("}"))

-----------------------------------------------------------------------------
NowT == [d |-> 19675, s |-> 80000, n |-> 0]
Key(t) == [t |-> t, account |-> B("sa@example.com"), pub |-> IF t = "hmac" THEN "" ELSE "rsa1",
           can |-> t # "hmac"]
Signing == [at |-> [some |-> TRUE, t |-> NowT], expires |-> Plus(NowT, 3600),
            region |-> [some |-> FALSE], blob |-> FALSE, key |-> Key("sa")]
Set(f, v) == [f |-> f, v |-> v]
Meta(n, v) == [f |-> "meta", n |-> n, v |-> v]
Sign(o) == [f |-> "signing", o |-> o]

(* What may be called next. *)
Setters(fam) ==
  CASE fam = "order" ->
         {Set("bucket", B("b")), Set("key", B("k")), Set("key", B("l")), Set("acl", B("")),
          Set("Content-Length", B("7")), Meta(B("a"), B("1")), Meta(B("A"), B("1")),
          Sign(Signing), Sign([Signing EXCEPT !.region = [some |-> TRUE, v |-> B("r")]])}
    [] fam = "refuse" ->
         {Set("bucket", B("b")), Set("key", B("k")), Meta(B(""), B("1")), Sign(Signing),
          Sign([Signing EXCEPT !.expires = NowT]),
          Sign([Signing EXCEPT !.at = [some |-> FALSE]]),
          Sign([Signing EXCEPT !.expires = [NowT EXCEPT !.n = 1]]),
          Sign([Signing EXCEPT !.expires = [NowT EXCEPT !.d = 2932897]]),
          Sign([Signing EXCEPT !.at.t.d = -1]),
          Sign([Signing EXCEPT !.key = Key("hmac")]),
          Sign([Signing EXCEPT !.blob = TRUE])}
    [] fam = "fields" -> {Set(Fields[i], B("5")) : i \in {j \in 1..Len(Fields) :
                                                          Fields[j] \notin SigningFields}}
                         \cup {Meta(B("z"), B("5"))}
    [] fam = "texts" -> {}

Start0(fam) ==
  CASE fam = "fields" -> {<<Set("key", B("k")), Set("bucket", B("b")), Sign(Signing)>>}
    [] fam = "texts" ->
         LET ch == {B("a"), B("\""), B("\\"), B("$"), B("/"), B(" "), B("{"), B("%"), B("+"),
                    <<0>>, <<8>>, <<10>>, <<31>>, <<127>>, <<195, 169>>, <<226, 128, 168>>,
                    <<240, 159, 152, 128>>}
             words == {<<>>} \cup ch \cup {x \o y : x \in ch, y \in ch}
         IN  {<<Set("key", w), Set("bucket", B("b")), Sign(Signing)>> : w \in words}
             \cup {<<Set("key", B("k")), Set("bucket", B("b")), Meta(<<97>> \o w, w),
                     Sign(Signing)>> : w \in words}
    [] OTHER -> {<<>>}

VARIABLES phase, hist, res, sent, changed, verdict
vars == <<phase, hist, res, sent, changed, verdict>>

NoRes == [kind |-> "none", fields |-> <<>>, policy |-> None]

Init == /\ phase = "building"
        /\ hist \in Start0(Family)
        /\ res = NoRes /\ sent = <<>> /\ changed = FALSE /\ verdict = FALSE

Call == /\ phase = "building"
        /\ Len(hist) < K
        /\ \E s \in Setters(Family) : hist' = Append(hist, s)
        /\ UNCHANGED <<phase, res, sent, changed, verdict>>

CallOf(h, r) == [now |-> NowT, sets |-> h, res |-> r]

Build == /\ phase = "building"
         /\ res' = ClientForm(CallOf(hist, NoRes), ModelPolicy, ModelSign)
         /\ phase' = "built"
         /\ UNCHANGED <<hist, sent, changed, verdict>>

Submit == /\ phase = "built"
          /\ res.kind = "ok" /\ res.policy.some
          /\ sent' = res.fields
          /\ changed' = FALSE
          /\ phase' = "sent"
          /\ UNCHANGED <<hist, res, verdict>>

(* One field dropped, changed, doubled or added.  What Content-Length says  *)
(* is the size of the file, so that field changes with the file only.      *)
ChangedForms(fs) ==
  LET Fixed == {i \in 1..Len(fs) : fs[i][1] # FieldName["Content-Length"]} IN
  {DropAt(fs, i) : i \in Fixed}
  \cup {SetAt(fs, i, <<fs[i][1], fs[i][2] \o <<49>>>>) : i \in 1..Len(fs)}
  \cup {Append(fs, fs[i]) : i \in Fixed}
  \cup {Append(fs, <<B("x-goog-meta-new"), <<49>>>>), Append(fs, <<B("success_action_status"), <<50>>>>)}

SubmitChanged == /\ phase = "built"
                 /\ res.kind = "ok" /\ res.policy.some
                 /\ \E fs \in ChangedForms(res.fields) : sent' = fs
                 /\ changed' = TRUE
                 /\ phase' = "sent"
                 /\ UNCHANGED <<hist, res, verdict>>

(* The size of the file is what the form's Content-Length says, and any     *)
(* other when it says nothing.                                             *)
SizeOf(fs) ==
  LET k == SelectSeq(fs, LAMBDA e : e[1] = FieldName["Content-Length"])
  IN  IF k = <<>> THEN <<49>> ELSE k[1][2]

Serve == /\ phase = "sent"
         /\ verdict' = ServerAccepts(sent, res.policy, B("sa@example.com"), "rsa1",
                                     SizeOf(sent), Rfc3339Text(NowT))
         /\ phase' = "served"
         /\ UNCHANGED <<hist, res, sent, changed>>

Next == Call \/ Build \/ Submit \/ SubmitChanged \/ Serve
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done(h, r) == LET c == CallOf(h, r) IN
  /\ FieldsAsSet(c) /\ PolicyPins(c) /\ FormSignature(c) /\ PolicyWindow(c)
  /\ FormScope(c) /\ FormTotal(c)
RulesHold == phase = "built" => Done(hist, res)

(* (a repeated Content-Length, or one set twice, is one field) *)
HonestServed == phase = "served" /\ ~changed => (verdict <=> LexLess(Rfc3339Text(NowT),
                                                                     res.policy.expiration))
ChangedRefused == phase = "served" /\ changed => ~verdict

(* The rules are not vacuous. *)
DamageSeen ==
  phase = "built" /\ res.kind = "ok" =>
    /\ \A i \in 1..Len(res.fields) :
         ~Done(hist, [res EXCEPT !.fields = DropAt(@, i)])
    /\ \A i \in 1..Len(res.fields) :
         ~Done(hist, [res EXCEPT !.fields = SetAt(@, i, <<@[i][1], @[i][2] \o <<48>>>>)])
    /\ \A i \in 1..(Len(res.fields) - 1) :
         res.fields[i] # res.fields[i+1] =>
           ~Done(hist, [res EXCEPT !.fields = SetAt(SetAt(@, i, @[i+1]), i + 1, @[i])])
    /\ res.policy.some =>
         \A i \in 1..Len(res.policy.conds) :
           ~Done(hist, [res EXCEPT !.policy.conds = DropAt(@, i)])
    /\ ~Done(hist, [res EXCEPT !.kind = "err"])

(* Every history of the family, for the conformance check. *)
RECURSIVE Histories(_, _)
Histories(fam, n) ==
  LET more(S) == {Append(h, s) : h \in S, s \in Setters(fam)}
  IN  IF n = 0 THEN Start0(fam)
      ELSE LET S == Histories(fam, n - 1) IN S \cup more({h \in S : Len(h) < K})

ASSUME Dump ==
  IF "CALLS" \in DOMAIN IOEnv
  THEN ndJsonSerialize(IOEnv.CALLS, SetToSeq({CallOf(h, NoRes) : h \in Histories(Family, K)}))
  ELSE TRUE
=============================================================================
