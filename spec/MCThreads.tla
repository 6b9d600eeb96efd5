------------------------------ MODULE MCThreads ------------------------------
(***************************************************************************)
(* Several threads, each making one call: it reads its argument, works on    *)
(* it for K steps in a workspace, and returns what it finds there.  With a   *)
(* workspace of each call's own, every interleaving gives every thread what  *)
(* it would get alone; with one that the calls share (SHARED) it does not,   *)
(* which TLC is asked to confirm, so that the law is not empty.              *)
(*                                                                           *)
(* Complete interleavings are printed as schedules for the implementation.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N, K, SHARED
VARIABLES pc, ws, out, sched
vars == <<pc, ws, out, sched>>
T == 1..N
W(t) == IF SHARED THEN 1 ELSE t
Arg(t) == 3*t + 1
Init == pc = [t \in T |-> 0] /\ ws = [t \in T |-> 0] /\ out = [t \in T |-> 0] /\ sched = <<>>

Read(t) == pc[t] = 0 /\ ws' = [ws EXCEPT ![W(t)] = Arg(t)] /\ UNCHANGED out
Work(t) == pc[t] \in 1..K /\ ws' = [ws EXCEPT ![W(t)] = (2*@ + Arg(t)) % 1009] /\ UNCHANGED out
Return(t) == pc[t] = K+1 /\ out' = [out EXCEPT ![t] = ws[W(t)]] /\ UNCHANGED ws
Step(t) == (Read(t) \/ Work(t) \/ Return(t)) /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ sched' = Append(sched, t-1)
Done == \A t \in T : pc[t] = K+2
Next == IF Done THEN PrintT("PLAN " \o ToJson(sched)) /\ UNCHANGED vars ELSE \E t \in T : Step(t)
Spec == Init /\ [][Next]_vars

RECURSIVE By(_, _)
By(t, k) == IF k = 0 THEN Arg(t) ELSE (2*By(t, k-1) + Arg(t)) % 1009
Alone == \A t \in T : pc[t] = K+2 => out[t] = By(t, K)
===============================================================================
