-------------------------------- MODULE Form --------------------------------
(***************************************************************************)
(* POST forms with a policy document: the builder, what build() must       *)
(* return, and a server that enforces policies.                            *)
(*                                                                         *)
(* A call is a record [now, sets, res].  sets is the history of builder    *)
(* calls, each [f, v] (f a field name of Fields, v its value as text),     *)
(* [f |-> "meta", n, v], or [f |-> "signing", o] with                      *)
(* o = [at, expires, region, blob, key] as in module SignedUrl.            *)
(* res: [kind, fields, policy]; fields a sequence of <<name, value>>;      *)
(* policy the decoded policy entry: [some, json, top, conds, expiration],  *)
(* conds a sequence of [t |-> "eq", f, v], [t |-> "range", lo, hi] or      *)
(* [t |-> "bad"].                                                          *)
(***************************************************************************)
EXTENDS SignedUrl

(* In the documented order. *)
Fields == <<"acl", "bucket", "Cache-Control", "Content-Disposition", "Content-Encoding",
            "Content-Length", "Content-Type", "Expires", "key", "policy",
            "success_action_redirect", "success_action_status", "x-goog-algorithm",
            "x-goog-credential", "x-goog-custom-time", "x-goog-date", "x-goog-signature">>
SigningFields == {"policy", "x-goog-algorithm", "x-goog-credential", "x-goog-date",
                  "x-goog-signature"}
FieldName == [f \in {Fields[i] : i \in 1..Len(Fields)} |-> B(f)]
MetaPrefix == B("x-goog-meta-")

None == [some |-> FALSE]
Some(x) == [some |-> TRUE, v |-> x]

-----------------------------------------------------------------------------
(* The builder. *)
EmptyBuilder == [set |-> [f \in DOMAIN FieldName |-> None], meta |-> <<>>, signing |-> None]

Apply(b, s) == CASE s.f = "meta" -> [b EXCEPT !.meta = Append(@, <<s.n, s.v>>)]
                 [] s.f = "signing" -> [b EXCEPT !.signing = Some(s.o)]
                 [] OTHER -> [b EXCEPT !.set[s.f] = Some(s.v)]

Builder(sets) == FoldLeft(Apply, EmptyBuilder, sets)

SignStart(c, o) == IF o.at.some THEN o.at.t ELSE c.now

(* The signing part of the request is in order. *)
SigningOK(c, b) ==
  LET o == b.signing.v
      t == SignStart(c, o)
  IN  /\ b.set["bucket"].some
      /\ InRange(t)
      /\ InRange(o.expires)
      /\ Before(t, o.expires)
      /\ KeyCanSign(o)

FormValid(c) ==
  LET b == Builder(c.sets)
  IN  /\ b.set["key"].some
      /\ \A i \in 1..Len(b.meta) : b.meta[i][1] # <<>>
      /\ b.signing.some => SigningOK(c, b)

(* The entries of the form; the signing ones with values from w. *)
Entries(b, w) ==
  LET has(f) == IF f \in SigningFields THEN b.signing.some ELSE b.set[f].some
      val(f) == IF f \in SigningFields THEN w[f] ELSE b.set[f].v
      named == SelectSeq(Fields, has)
  IN  T([i \in 1..Len(named) |-> <<FieldName[named[i]], val(named[i])>>])
      \o [i \in 1..Len(b.meta) |-> <<MetaPrefix \o b.meta[i][1], b.meta[i][2]>>]

(* The condition by which a policy pins one entry. *)
ConditionOf(e) ==
  IF e[1] = FieldName["Content-Length"] THEN [t |-> "range", lo |-> e[2], hi |-> e[2]]
  ELSE [t |-> "eq", f |-> <<36>> \o e[1], v |-> e[2]]

Pinned(e) == e[1] \notin {FieldName["policy"], FieldName["x-goog-signature"]}

ConditionsOf(entries) ==
  LET p == SelectSeq(entries, Pinned) IN T([i \in 1..Len(p) |-> ConditionOf(p[i])])

(* The client.  PolicyText(conds, expiration) is some JSON text in base64; *)
(* SignText(key, m) the hexadecimal signature.                             *)
ClientForm(c, PolicyText(_, _), SignText(_, _)) ==
  LET b == Builder(c.sets)
  IN  IF ~FormValid(c) THEN [kind |-> "err", fields |-> <<>>, policy |-> None]
      ELSE IF ~b.signing.some
      THEN [kind |-> "ok", fields |-> Entries(b, <<>>), policy |-> None]
      ELSE LET o == b.signing.v
               t == SignStart(c, o)
               w0 == ("x-goog-algorithm" :> Algorithm)
                     @@ ("x-goog-credential" :> Credential(o.key.account, t, o.region))
                     @@ ("x-goog-date" :> BasicText(t))
                     @@ ("policy" :> <<>>) @@ ("x-goog-signature" :> <<>>)
               conds == ConditionsOf(Entries(b, w0))
               text == PolicyText(conds, Rfc3339Text(o.expires))
               w == [w0 EXCEPT !["policy"] = text,
                               !["x-goog-signature"] = SignText(o.key.pub, text)]
           IN  [kind |-> "ok", fields |-> Entries(b, w),
                policy |-> [some |-> TRUE, json |-> TRUE, top |-> <<"conditions", "expiration">>,
                            conds |-> conds, expiration |-> Rfc3339Text(o.expires)]]

-----------------------------------------------------------------------------
(* What must be true of a finished call. *)

Names(c) == [i \in 1..Len(c.res.fields) |-> c.res.fields[i][1]]
HasField(c, f) == \E i \in 1..Len(c.res.fields) : c.res.fields[i][1] = FieldName[f]
FieldVal(c, f) == (CHOOSE i \in 1..Len(c.res.fields) : c.res.fields[i][1] = FieldName[f])
FieldText(c, f) == c.res.fields[FieldVal(c, f)][2]
Signed(c) == Ok(c) /\ HasField(c, "policy")

(* C07 *)
FieldsAsSet(c) ==
  Ok(c) =>
    LET b == Builder(c.sets)
        blank == [f \in SigningFields |-> <<>>]
        want == Entries(b, blank)
        names == {FieldName[f] : f \in SigningFields}
        (* an x-goog-meta- name never equals a signing field's *)
        got == [i \in 1..Len(c.res.fields) |->
                  IF c.res.fields[i][1] \in names THEN <<c.res.fields[i][1], <<>>>>
                  ELSE c.res.fields[i]]
    IN  got = want

(* C08 *)
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

PolicyPins(c) ==
  Signed(c) => /\ c.res.policy.some
               /\ c.res.policy.json
               /\ Len(c.res.policy.top) = 2
               /\ Range(c.res.policy.top) = {"conditions", "expiration"}
               /\ Bag(c.res.policy.conds) = Bag(ConditionsOf(c.res.fields))

(* C09 *)
FormSignature(c) ==
  Ok(c) =>
    LET b == Builder(c.sets)
        all == \A f \in SigningFields : HasField(c, f)
        any == \E f \in SigningFields : HasField(c, f)
    IN  /\ any => all
        /\ any <=> b.signing.some
        /\ any => LET o == b.signing.v
                      sig == FieldText(c, "x-goog-signature")
                  IN  /\ HasPrefix(FieldText(c, "x-goog-credential"), o.key.account \o Slash)
                      /\ IsLowerHex(sig)
                      /\ o.key.pub # ""
                      /\ SigValid(o.key.pub, FieldText(c, "policy"), UnHex(sig))

(* C10 *)
PolicyWindow(c) ==
  /\ Ok(c) <=> FormValid(c)
  /\ Signed(c) =>
       LET o == Builder(c.sets).signing.v
       IN  /\ c.res.policy.json
           /\ c.res.policy.expiration = Rfc3339Text(o.expires)
           /\ HasField(c, "x-goog-date")
           /\ FieldText(c, "x-goog-date") = BasicText(SignStart(c, o))

(* C06 *)
FormScope(c) ==
  Signed(c) =>
    LET o == Builder(c.sets).signing.v
        t == SignStart(c, o)
    IN  /\ \A f \in SigningFields : HasField(c, f)
        /\ FieldText(c, "x-goog-algorithm") = Algorithm
        /\ FieldText(c, "x-goog-credential") = Credential(o.key.account, t, o.region)
        /\ FieldText(c, "x-goog-date") = BasicText(t)

(* C17 *)
FormTotal(c) ==
  /\ c.res.kind \in {"ok", "err", "keyerr"}
  /\ Ok(c) => LET b == Builder(c.sets)
              IN  b.signing.some =>
                    /\ Supported(b.signing.v)
                    /\ Whole(c) => /\ HasField(c, "x-goog-signature")
                                   /\ FieldText(c, "x-goog-signature") # <<>>

-----------------------------------------------------------------------------
(* A server that receives form fields (as a sequence of <<name, value>>,   *)
(* the file being of the given size) and enforces the policy in them.      *)
ServerAccepts(fields, policy, account, key, size, t) ==
  LET once(n) == Cardinality({i \in 1..Len(fields) : fields[i][1] = FieldName[n]}) = 1
      val(n) == fields[CHOOSE i \in 1..Len(fields) : fields[i][1] = FieldName[n]][2]
      eqs == SelectSeq(policy.conds, LAMBDA k : k.t = "eq")
      ranges == SelectSeq(policy.conds, LAMBDA k : k.t = "range")
      checked == SelectSeq(fields, LAMBDA e : Pinned(e) /\ e[1] # FieldName["Content-Length"])
  IN  /\ \A f \in SigningFields : once(f)
      /\ IsLowerHex(val("x-goog-signature"))
      /\ SigValid(key, val("policy"), UnHex(val("x-goog-signature")))
      /\ HasPrefix(val("x-goog-credential"), account \o Slash)
      /\ \A i \in 1..Len(policy.conds) : policy.conds[i].t # "bad"
      (* every condition holds, and every field is covered by one *)
      /\ Bag([i \in 1..Len(eqs) |-> <<eqs[i].f, eqs[i].v>>])
           = Bag([i \in 1..Len(checked) |-> <<<<36>> \o checked[i][1], checked[i][2]>>])
      /\ \A i \in 1..Len(ranges) : size = ranges[i].lo /\ size = ranges[i].hi
      /\ LexLess(t, policy.expiration)   \* RFC 3339 texts compare like instants
=============================================================================
