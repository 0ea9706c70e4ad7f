------------------------------- MODULE Barrier -------------------------------
(***************************************************************************)
(* The synchronisation of the processes of a node through counters in      *)
(* shared memory, one per process, at the granularity of single accesses.  *)
(*                                                                         *)
(* A round is a dissemination barrier, step 1, 2, 4, ... < N: announce my  *)
(* count, wait for the counter of the process `step' further on to reach   *)
(* it, count on; or a notification: announce, wait for one other process.  *)
(* A process either waits, or it tests repeatedly - a test works on a copy *)
(* of the count, gives up at the first process that is not there yet and   *)
(* starts afresh the next time - and goes through the waiting version once *)
(* a test has succeeded.  Counters are numbers modulo M (2^32 in the       *)
(* implementation) compared by their distance, so that they may overflow.  *)
(*                                                                         *)
(*   Mode = "model"   all interleavings, all choices of waiting and        *)
(*                    testing: Separation, Window, Terminates              *)
(*   Mode = "trace"   logs of rounds of the real code: entering and        *)
(*                    leaving have to be in an order Separation allows     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS Mode, N, M, Base, Program, MayTest

VARIABLES cse, pos, err,                    \* trace
          pc, st, cnt, tc, flag, ent, left  \* the processes
pvars == <<pc, st, cnt, tc, flag, ent, left>>
vars == <<cse, pos, err, pvars>>

P == 0..(N - 1)
Rounds == Len(Program)
GE(a, b) == ((a - b) % M) < M \div 2
RECURSIVE Steps(_)
Steps(s) == IF s >= N THEN <<>> ELSE <<s>> \o Steps(2 * s)
\* the distances of the processes waited for in the round p is in
Dist(p) == IF ent[p] = 0 THEN <<>> ELSE IF Program[ent[p]] = 0 THEN Steps(1) ELSE <<Program[ent[p]]>>
Partner(p, i) == (p + Dist(p)[i]) % N
Last(p, i) == i >= Len(Dist(p))

Init0 ==
  /\ pc = [p \in P |-> "out"] /\ st = [p \in P |-> 1]
  /\ cnt = [p \in P |-> Base % M] /\ tc = cnt
  /\ flag = [p \in P |-> (Base - 1) % M]
  /\ ent = [p \in P |-> 0] /\ left = ent

Go(p, where, i) == pc' = [pc EXCEPT ![p] = where] /\ st' = [st EXCEPT ![p] = i]
Enter(p) ==
  /\ pc[p] = "out" /\ ent[p] < Rounds
  /\ ent' = [ent EXCEPT ![p] = @ + 1] /\ tc' = [tc EXCEPT ![p] = cnt[p]]
  /\ pc' = [pc EXCEPT ![p] = "in"] /\ st' = [st EXCEPT ![p] = 1] /\ UNCHANGED <<cnt, flag, left>>
Choose(p) ==                          \* wait or test (a notification announces first in either case)
  /\ pc[p] = "in" /\ UNCHANGED <<cnt, ent, left>>
  /\ IF N = 1 /\ Program[ent[p]] = 0 THEN FALSE ELSE
     IF Program[ent[p]] # 0 THEN /\ flag' = [flag EXCEPT ![p] = cnt[p]] /\ UNCHANGED tc /\ (Go(p, "wwait", 1) \/ (MayTest /\ Go(p, "ttest", 1)))
     ELSE /\ UNCHANGED flag /\ tc' = [tc EXCEPT ![p] = cnt[p]] /\ (Go(p, "wset", 1) \/ (MayTest /\ Go(p, "tset", 1)))
Set(p) == /\ pc[p] = "wset" /\ flag' = [flag EXCEPT ![p] = cnt[p]] /\ Go(p, "wwait", st[p]) /\ UNCHANGED <<cnt, tc, ent, left>>
Wait(p) ==
  /\ pc[p] = "wwait" /\ GE(flag[Partner(p, st[p])], cnt[p])
  /\ cnt' = [cnt EXCEPT ![p] = (@ + 1) % M] /\ UNCHANGED <<tc, flag, ent>>
  /\ IF Last(p, st[p]) THEN Go(p, "out", 1) /\ left' = [left EXCEPT ![p] = @ + 1]
     ELSE Go(p, "wset", st[p] + 1) /\ UNCHANGED left
TestSet(p) ==                         \* a test must not take back what an earlier one has announced
  /\ pc[p] = "tset" /\ flag' = [flag EXCEPT ![p] = IF GE(@, tc[p]) THEN @ ELSE tc[p]]
  /\ Go(p, "ttest", st[p]) /\ UNCHANGED <<cnt, tc, ent, left>>
Test(p) ==
  /\ pc[p] = "ttest" /\ UNCHANGED <<cnt, flag, ent, left>>
  /\ IF ~GE(flag[Partner(p, st[p])], tc[p])
     THEN IF Program[ent[p]] # 0 THEN UNCHANGED <<pc, st, tc>> ELSE Go(p, "in", 1) /\ UNCHANGED tc
     ELSE /\ tc' = [tc EXCEPT ![p] = (@ + 1) % M]
          /\ IF Last(p, st[p]) THEN Go(p, IF Program[ent[p]] # 0 THEN "wwait" ELSE "wset", 1) ELSE Go(p, "tset", st[p] + 1)
Step(p) == Enter(p) \/ Choose(p) \/ Set(p) \/ Wait(p) \/ TestSet(p) \/ Test(p)

\* ------------------------------------------------------------------ properties
\* whoever has left round k has been preceded by those it must wait for
WaitsFor(p, k) == IF Program[k] = 0 THEN P ELSE {(p + Program[k]) % N}
Separation == Mode = "model" => \A p \in P : left[p] > 0 => \A q \in WaitsFor(p, left[p]) : ent[q] >= left[p]
\* the distance of two counters that are compared stays below half the range
Window == Mode = "model" => \A p, q \in P : (cnt[p] - cnt[q]) % M < M \div 2 \/ (cnt[q] - cnt[p]) % M < M \div 2
AllOut == \A p \in P : left[p] = Rounds
NotStuck == (Mode = "model" /\ ~AllOut) => \E p \in P : ENABLED Step(p)
Terminates == <>(Mode = "trace" \/ AllOut)

\* ------------------------------------------------------------------ traces
\* a case: [n, rounds: for every round the processes every process waits for, log: <<process, "enter"/"leave", round>>]
Cases == IF Mode = "trace" THEN JsonDeserialize(IOEnv.VP_CASES) ELSE <<[n |-> 1, waits |-> <<>>, log |-> <<>>]>>
Log == Cases[cse].log
Verdict(v) == PrintT("@@VERDICT " \o ToString(cse) \o " " \o ToString(v))
TraceStep ==
  /\ err = <<>> /\ pos <= Len(Log)
  /\ LET e == Log[pos] p == e[1] + 1 k == e[3] W == Cases[cse].waits[k][p] IN
     IF e[2] = "enter"
     THEN /\ ent' = [ent EXCEPT ![p] = k] /\ UNCHANGED left /\ err' = IF ent[p] # k - 1 \/ left[p] # k - 1 THEN <<"log", pos>> ELSE <<>>
     ELSE /\ left' = [left EXCEPT ![p] = k] /\ UNCHANGED ent
          /\ err' = IF \E i \in 1..Len(W) : ent[W[i] + 1] < k
                    THEN <<"barrier", ToString(<<"process", p - 1, "left round", k, "while the others had entered", ent>>), pos>> ELSE <<>>
  /\ pos' = pos + 1 /\ UNCHANGED <<cse, pc, st, cnt, tc, flag>>
  /\ (err' # <<>> => Verdict(err'))
TraceEnd ==
  /\ err = <<>> /\ pos > Len(Log) /\ UNCHANGED <<cse, pos, pvars>>
  /\ err' = IF \E p \in 1..Cases[cse].n : left[p] # Len(Cases[cse].waits) THEN <<"stuck", "a process never left">> ELSE <<"ok">>
  /\ Verdict(err')

Init == /\ cse \in 1..Len(Cases) /\ pos = 1 /\ err = <<>>
        /\ IF Mode = "trace" THEN /\ ent = [p \in 1..Cases[cse].n |-> 0] /\ left = ent
                                  /\ pc = <<>> /\ st = <<>> /\ cnt = <<>> /\ tc = <<>> /\ flag = <<>>
           ELSE Init0
Next == IF Mode = "trace" THEN TraceStep \/ TraceEnd ELSE (\E p \in P : Step(p)) /\ UNCHANGED <<cse, pos, err>>
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A p \in P : WF_vars(Step(p) /\ UNCHANGED <<cse, pos, err>>)
TraceView == <<cse, pos, err>>

ProgB == <<0, 0>>
ProgB3 == <<0, 0, 0>>
ProgMix == <<0, 1, 0>>
ProgMix2 == <<1, 2, 0>>
=============================================================================
