-------------------------------- MODULE Replay --------------------------------
(***************************************************************************)
(* Trace validation.  Hist is the sequence of histories recorded from the   *)
(* implementation; every history is a sequence of events.  The behaviours   *)
(* of this specification are exactly the recorded histories, read against   *)
(* the specification's own transition operator:                             *)
(*                                                                         *)
(*   StepOf(st, e) = [v |-> verdict, st |-> next abstract state]            *)
(*                                                                         *)
(* where the verdict is "ok" when event e is a possible step of the         *)
(* specification from abstract state st, and says what is wrong otherwise.  *)
(* An event that carries fr was observed to disturb something outside the   *)
(* call (its arguments, or the result of an earlier call): no step of the   *)
(* specification does that, as its operations have no such effects.         *)
(* A rejected step is reported, and the history continues from the state    *)
(* the specification prescribes, so that one run reports every rejection.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS StepOf(_, _), InitSt

Hist == ndJsonDeserialize("trace.ndjson")

\* (distinctive names: TLC does not pre-evaluate constants whose parameters share a variable name)
VARIABLES hNo, evNo, absSt
vars == <<hNo, evNo, absSt>>

Verdict(v, e) == IF v = "ok" /\ "fr" \in DOMAIN e THEN e.fr ELSE v

Init == hNo \in 1..Len(Hist) /\ evNo = 0 /\ absSt = InitSt
Next == /\ evNo < Len(Hist[hNo].ev)
        /\ LET r == StepOf(absSt, Hist[hNo].ev[evNo+1])
               v == Verdict(r.v, Hist[hNo].ev[evNo+1])
           IN  /\ IF v = "ok" THEN TRUE
                  ELSE PrintT("REJECT " \o ToString(Hist[hNo].h) \o " " \o ToString(evNo+1) \o " " \o v)
               /\ absSt' = r.st
        /\ evNo' = evNo + 1
        /\ hNo' = hNo
Spec == Init /\ [][Next]_vars
===============================================================================
