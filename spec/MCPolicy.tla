------------------------------- MODULE MCPolicy -------------------------------
(***************************************************************************)
(* The index-checking policy as a machine: the flag sf.error_on_bad_indices  *)
(* is set, unset (in any order, any number of times) and calls with valid or *)
(* invalid indices are made.  The answer to a call depends on the flag at    *)
(* the time of the call only.  All behaviours up to length DEPTH are plans.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT DEPTH
VARIABLES flag, hist, out
vars == <<flag, hist, out>>
Init == flag = TRUE /\ hist = "" /\ out = "none"
Set(b, c) == flag' = b /\ hist' = hist \o c /\ out' = "none"
Call(valid, c) == /\ hist' = hist \o c /\ UNCHANGED flag
                  /\ out' = IF valid THEN "value" ELSE IF flag THEN "ValueError" ELSE "zero"
Next == IF Len(hist) = DEPTH THEN PrintT("PLAN " \o ToJson(hist)) /\ UNCHANGED vars
        ELSE Set(TRUE, "t") \/ Set(FALSE, "f") \/ Call(TRUE, "v") \/ Call(FALSE, "i")
Spec == Init /\ [][Next]_vars
\* the last setting in the history decides
RECURSIVE LastFlag(_, _)
LastFlag(s, i) == IF i = 0 THEN TRUE ELSE IF SubSeq(s, i, i) = "t" THEN TRUE ELSE IF SubSeq(s, i, i) = "f" THEN FALSE ELSE LastFlag(s, i-1)
FlagIsLast == flag = LastFlag(hist, Len(hist))
Raises == (out = "ValueError") => (flag /\ SubSeq(hist, Len(hist), Len(hist)) = "i")
NeverZeroWhileChecking == (out = "zero") => ~flag
ValidAlwaysAnswered == (Len(hist) > 0 /\ SubSeq(hist, Len(hist), Len(hist)) = "v") => out = "value"
===============================================================================
