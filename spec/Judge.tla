------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Judges calls recorded from the real library: one behaviour per call,    *)
(* in which the call is observed and compared with the rules of the        *)
(* property under check.                                                   *)
(***************************************************************************)
EXTENDS Form, KeyFile, Secrets, Sessions, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

RuleUrl(c) ==
  CASE Prop = "C01" -> Verifies(c)
    [] Prop = "C02" -> Addresses(c)
    [] Prop = "C03" -> CarriesQuery(c)
    [] Prop = "C04" -> IF c.tamper THEN HeadersBound(c) ELSE HeaderList(c)
    [] Prop = "C05" -> Window(c)
    [] Prop = "C06" -> UrlScope(c)
    [] Prop = "C16" -> KeyFaithful(c)
    [] Prop = "C17" -> UrlTotal(c)
    [] Prop = "C18" -> NoLeak(c)
    [] Prop = "C20" -> SignedIffValid(c)
    [] OTHER -> TRUE

RuleForm(c) ==
  CASE Prop = "C06" -> FormScope(c)
    [] Prop = "C07" -> FieldsAsSet(c)
    [] Prop = "C08" -> PolicyPins(c)
    [] Prop = "C09" -> FormSignature(c)
    [] Prop = "C10" -> PolicyWindow(c)
    [] Prop = "C17" -> FormTotal(c)
    [] Prop = "C18" -> NoLeak(c)
    [] OTHER -> TRUE

RuleSession(s) ==
  CASE Prop = "C17" -> SessionTotal(s)
    [] Prop = "C18" -> NoLeak(s)
    [] Prop = "C19" -> Independent(s)
    [] OTHER -> TRUE

(* The time of a call on a moving clock is one of its readings.            *)
AtOneTime(Rule(_), c) ==
  IF "nows" \in DOMAIN c
  THEN \E i \in 1..Len(c.nows) : Rule([c EXCEPT !.now = c.nows[i]])
  ELSE Rule(c)

Holds(c) == CASE c.op = "url" -> AtOneTime(RuleUrl, c)
              [] c.op = "form" -> AtOneTime(RuleForm, c)
              [] c.op = "session" -> RuleSession(c)

VARIABLES line, seen

Init == line \in 1..Len(Trace) /\ seen = FALSE

Observe == /\ ~seen
           /\ seen' = TRUE
           /\ line' = line
           /\ IF Holds(Trace[line]) THEN TRUE ELSE PrintT(<<"REJECTED", line>>)

Next == Observe
=============================================================================
