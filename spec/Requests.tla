------------------------------ MODULE Requests ------------------------------
(***************************************************************************)
(* What a process sees of its requests.                                    *)
(*                                                                         *)
(* A process owns requests of persistent collectives, requests of its own  *)
(* messages (persistent or not) and null requests, and passes arrays of    *)
(* them to the completion calls of MPI.  A request is inactive or active;  *)
(* starting makes it active, and exactly one completion call reports it    *)
(* and makes it inactive again.  A collective can complete on a process    *)
(* only when every process whose data the result needs has started it at   *)
(* least as often.                                                         *)
(*                                                                         *)
(* Three uses:                                                             *)
(*   Model    all behaviours of a small job: the protocol itself keeps the *)
(*            invariants below (reported once, never early, no lost        *)
(*            completion, a process that polls can always get on)          *)
(*   Trace    logs of the real code: every event has to be a step of this  *)
(*            specification with the result the code reported              *)
(*   Scripts  enumerates call sequences that are then run by the real code *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANT Mode                      \* "model", "trace", "scripts"

VARIABLES cse, pos, starts, reps, act, usr, err, script

vars == <<cse, pos, starts, reps, act, usr, err, script>>

\* ------------------------------------------------------------------ the job
ModelJob == [n |-> 2, colls |-> << [type |-> "allreduce", root |-> 0, counts |-> <<1, 1>>, members |-> <<0, 1>>],
                                   [type |-> "bcast", root |-> 1, counts |-> <<1, 1>>, members |-> <<0, 1>>] >>]
Cases == IF Mode = "trace" THEN JsonDeserialize(IOEnv.VP_CASES) ELSE <<ModelJob>>
Job == Cases[cse]
Procs == 0..(Job.n - 1)
NC == Len(Job.colls)
Members(c) == {Job.colls[c].members[i] : i \in 1..Len(Job.colls[c].members)}
CRank(c, p) == (CHOOSE i \in 1..Len(Job.colls[c].members) : Job.colls[c].members[i] = p) - 1

\* the processes whose start the result of p depends on
Giving(c) == {Job.colls[c].members[i] : i \in {j \in 1..Len(Job.colls[c].members) : Job.colls[c].counts[j] > 0}}
RootOf(c) == Job.colls[c].members[Job.colls[c].root + 1]
Empty(c) == \A j \in 1..Len(Job.colls[c].counts) : Job.colls[c].counts[j] = 0
Needs(c, p) ==
  LET t == Job.colls[c].type mine == Job.colls[c].counts[CRank(c, p) + 1] IN
  IF Empty(c) THEN {} ELSE
  CASE t = "allreduce" -> Members(c)
    [] t = "reduce" -> IF p = RootOf(c) THEN Members(c) ELSE {}
    [] t \in {"reduce_scatter", "reduce_scatter_block"} -> IF mine > 0 THEN Members(c) ELSE {}
    [] t \in {"allgather", "allgatherv"} -> Giving(c)
    [] t \in {"gather", "gatherv"} -> IF p = RootOf(c) THEN Giving(c) ELSE {}
    [] t = "bcast" -> {RootOf(c)}
    [] t \in {"scatter", "scatterv"} -> IF mine > 0 THEN {RootOf(c)} ELSE {}

\* ------------------------------------------------------------------ requests
\* request codes: 0 null, 1..99 collective, 100.. message of the user
IsColl(r) == r > 0 /\ r < 100
Active(p, r) == IF r = 0 THEN FALSE ELSE IF IsColl(r) THEN act[p][r] ELSE r \in DOMAIN usr[p] /\ usr[p][r].act
Sent(q, p, tag) == Cardinality({r \in DOMAIN usr[q] : usr[q][r].snd = 1 /\ usr[q][r].peer = p /\ usr[q][r].tag = tag /\ usr[q][r].n > 0})
MsgCanComplete(p, r) ==
  LET u == usr[p][r] IN
  u.snd = 1 \/ \E s \in DOMAIN usr[u.peer] : usr[u.peer][s].snd = 1 /\ usr[u.peer][s].peer = p /\ usr[u.peer][s].tag = u.tag /\ usr[u.peer][s].n >= u.n
CanComplete(p, r) ==
  IF IsColl(r) THEN \A q \in Needs(r, p) : starts[q][r] >= starts[p][r] ELSE MsgCanComplete(p, r)

\* ------------------------------------------------------------------ the completion calls
ActiveAt(p, args) == {j \in 1..Len(args) : Active(p, args[j])}
ReadyAt(p, args) == {j \in ActiveAt(p, args) : CanComplete(p, args[j])}
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
\* may the call report <<flag, idx>>?  (idx counts from 0, -1 is MPI_UNDEFINED)
May(p, fn, args, flag, idx) ==
  LET A == ActiveAt(p, args) R == ReadyAt(p, args) IN
  CASE fn \in {"wait", "waitall"} -> flag = 1 /\ A = R
    [] fn \in {"test", "testall", "getstatus"} -> \/ flag = 1 /\ A = R
                                                  \/ flag = 0 /\ A # {}
    [] fn = "waitany" -> IF A = {} THEN idx = <<-1>> ELSE Len(idx) = 1 /\ idx[1] + 1 \in R
    [] fn = "testany" -> IF A = {} THEN flag = 1 /\ idx = <<-1>>
                         ELSE \/ flag = 0 /\ idx = <<-1>>
                              \/ flag = 1 /\ Len(idx) = 1 /\ idx[1] + 1 \in R
    [] fn = "waitsome" -> IF A = {} THEN idx = <<-1>> ELSE Len(idx) > 0 /\ NoDup(idx) /\ \A i \in 1..Len(idx) : idx[i] + 1 \in R
    [] fn = "testsome" -> IF A = {} THEN idx = <<-1>> ELSE NoDup(idx) /\ \A i \in 1..Len(idx) : idx[i] + 1 \in R
\* the positions a report names as completed
Named(p, fn, args, flag, idx) ==
  IF fn \in {"wait", "waitall", "test", "testall"} THEN (IF flag = 1 THEN ActiveAt(p, args) ELSE {})
  ELSE IF fn = "getstatus" THEN {}                     \* looks, but does not complete
  ELSE IF flag = 0 \/ idx = <<-1>> THEN {} ELSE {idx[i] + 1 : i \in 1..Len(idx)}
\* what became of the handles: 0 unchanged, 1 null
HandlesOk(p, fn, args, done, hs) ==
  \A j \in 1..Len(args) : hs[j] = (IF j \in done /\ ~IsColl(args[j]) /\ usr[p][args[j]].pers = 0 THEN 1 ELSE 0)

DoStart(p, c) ==
  /\ starts' = [starts EXCEPT ![p][c] = @ + 1] /\ act' = [act EXCEPT ![p][c] = TRUE] /\ UNCHANGED <<reps, usr>>
DoPost(p, r, snd, peer, tag, pers) ==
  /\ usr' = [usr EXCEPT ![p] = [x \in DOMAIN @ \cup {r} |-> IF x # r THEN @[x] ELSE
                 [act |-> TRUE, snd |-> snd, peer |-> peer, tag |-> tag, pers |-> pers, n |-> IF r \in DOMAIN @ THEN @[r].n + 1 ELSE 1]]]
  /\ UNCHANGED <<starts, reps, act>>
DoReport(p, args, done) ==
  LET cs == {args[j] : j \in {k \in done : IsColl(args[k])}} us == {args[j] : j \in {k \in done : ~IsColl(args[k])}} IN
  /\ act' = [act EXCEPT ![p] = [c \in DOMAIN @ |-> @[c] /\ c \notin cs]]
  /\ reps' = [reps EXCEPT ![p] = [c \in DOMAIN @ |-> IF c \in cs THEN @[c] + 1 ELSE @[c]]]
  /\ usr' = [usr EXCEPT ![p] = [x \in DOMAIN @ |-> IF x \in us THEN [@[x] EXCEPT !.act = FALSE] ELSE @[x]]]
  /\ UNCHANGED starts

Init ==
  /\ cse \in 1..Len(Cases)
  /\ pos = 1 /\ err = <<>> /\ script = <<>>
  /\ starts = [p \in Procs |-> [c \in 1..NC |-> 0]] /\ reps = starts
  /\ act = [p \in Procs |-> [c \in 1..NC |-> FALSE]]
  /\ usr = [p \in Procs |-> [x \in {} |-> 0]]

\* ------------------------------------------------------------------ Trace
Verdict(v) == PrintT("@@VERDICT " \o ToString(cse) \o " " \o ToString(v))
Log == Job.log
TraceStep ==
  /\ err = <<>> /\ pos <= Len(Log)
  /\ LET e == Log[pos] p == e[1] IN
     CASE e[2] = "start" ->
            /\ DoStart(p, e[3])
            /\ err' = IF act[p][e[3]] THEN <<"script", "started while active", pos>> ELSE <<>>
       [] e[2] = "post" -> DoPost(p, e[3], e[4], e[5], e[6], e[7]) /\ err' = <<>>
       [] e[2] = "call" ->
            LET fn == e[3] args == e[4] flag == e[5] idx == e[6] hs == e[7]
                ok == flag \in {0, 1} /\ May(p, fn, args, flag, idx)
                done == IF ok THEN Named(p, fn, args, flag, idx) ELSE {} IN
            /\ DoReport(p, args, done)
            /\ err' = IF ~ok THEN <<"api", ToString(<<fn, args, "reported", flag, idx, "active", ActiveAt(p, args), "can be complete", ReadyAt(p, args), "process", p>>), pos>>
                      ELSE IF ~HandlesOk(p, fn, args, done, hs) THEN <<"handle", ToString(<<fn, args, "reported", flag, idx, "handles", hs, "process", p>>), pos>> ELSE <<>>
  /\ pos' = pos + 1 /\ UNCHANGED <<cse, script>>
  /\ (err' # <<>> => Verdict(err'))
TraceEnd ==
  /\ err = <<>> /\ pos > Len(Log)
  /\ err' = IF \E p \in Procs : \E c \in 1..NC : reps[p][c] # starts[p][c] THEN <<"lost", "a started collective was never reported">> ELSE <<"ok">>
  /\ Verdict(err') /\ UNCHANGED <<cse, pos, starts, reps, act, usr, script>>

\* ------------------------------------------------------------------ Model
Arrays == {<<1>>, <<2>>, <<1, 2>>, <<2, 0, 1>>, <<101, 1>>, <<101>>}
Results == {<<f, i>> : f \in {0, 1}, i \in {<<>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 0>>, <<0, 2>>}}
Fns == {"wait", "test", "getstatus", "waitall", "testall", "waitany", "testany", "waitsome", "testsome"}
Idxs(fn) == IF fn \in {"waitany", "testany"} THEN {<<-1>>, <<0>>, <<1>>, <<2>>} ELSE IF fn \in {"waitsome", "testsome"} THEN {<<>>, <<-1>>, <<0>>, <<1>>, <<2>>, <<0, 1>>, <<0, 2>>} ELSE {<<>>}
Rounds == 2
ModelStep ==
  /\ UNCHANGED <<cse, pos, err, script>>
  /\ \E p \in Procs :
     \/ \E c \in 1..NC : ~act[p][c] /\ starts[p][c] < Rounds /\ DoStart(p, c)
     \/ 101 \notin DOMAIN usr[p] /\ DoPost(p, 101, IF p = 0 THEN 1 ELSE 0, 1 - p, 7, 0)
     \/ \E fn \in Fns, args \in Arrays, flag \in {0, 1} : \E idx \in Idxs(fn) :
          /\ (fn \in {"wait", "test", "getstatus"} => Len(args) = 1)
          /\ May(p, fn, args, flag, idx) /\ Named(p, fn, args, flag, idx) # {}
          /\ DoReport(p, args, Named(p, fn, args, flag, idx))
ReportedOnce == \A p \in Procs : \A c \in 1..NC : reps[p][c] + (IF act[p][c] THEN 1 ELSE 0) = starts[p][c]
NeverEarly == \A p \in Procs : \A c \in 1..NC : \A q \in Needs(c, p) : reps[p][c] <= starts[q][c]
\* nobody is stuck: when everything is started everywhere, a wait for everything may return
CanGetOn == (\A p \in Procs : \A c \in 1..NC : starts[p][c] = Rounds) => \A p \in Procs : May(p, "waitall", <<1, 2>>, 1, <<>>)

\* ------------------------------------------------------------------ Scripts
\* sequences of calls on two collectives, one message of the user and null; every request appears once in an array
ScriptArrays == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 101>>, <<101, 2, 1>>, <<0, 1>>, <<2, 0, 1>>, <<101>>}
ScriptStep ==
  /\ Len(script) < 2 /\ UNCHANGED <<cse, pos, starts, reps, act, usr, err>>
  /\ \E fn \in Fns, args \in ScriptArrays :
       /\ (fn \in {"wait", "test", "getstatus"} => Len(args) = 1)
       /\ script' = Append(script, <<fn, args>>)
       /\ (Len(script') = 2 => PrintT("@@SCRIPT " \o ToJson(script')))

Next == CASE Mode = "trace" -> TraceStep \/ TraceEnd [] Mode = "model" -> ModelStep [] OTHER -> ScriptStep
Spec == Init /\ [][Next]_vars
TraceView == <<cse, pos, err>>
=============================================================================
