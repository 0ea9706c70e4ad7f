------------------------------- MODULE Handles -------------------------------
(***************************************************************************)
(* Which collective a request belongs to.                                  *)
(*                                                                         *)
(* The contract is a partial function from request values to collectives   *)
(* (owner); values come and go, are reused for another collective or for a *)
(* request of the user.  The design that has to implement it is an open    *)
(* addressing hash table with linear probing, marks for deleted entries    *)
(* and growth when it is all but full; its probing, its marks and its      *)
(* wraparound are what makes a history dangerous, so the states of the     *)
(* TABLE decide which histories are worth running.                         *)
(*                                                                         *)
(*   Mode = "model"  every reachable table of a small configuration: the   *)
(*                   table answers every lookup as the contract demands    *)
(*                   (invariant Faithful).  Every transition is printed    *)
(*                   with a shortest history leading to it; the check runs *)
(*                   each of them in the real library.                     *)
(*                   (Users = FALSE: every history ends by using every     *)
(*                   request; Users = TRUE: random walks in which requests *)
(*                   of the user come and go as well.)                     *)
(*   Mode = "trace"  logs of the real library: what every start and        *)
(*                   completion acted on has to be what the contract says. *)
(* The last slots of the real table of 256 entries are the slots of the    *)
(* model when the library's table is filled with other collectives first.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS Mode, Size, Homes, MaxColl, Grows, Users

VARIABLES cse, pos, owner, user, table, hist, err
vars == <<cse, pos, owner, user, table, hist, err>>

\* two values with the same home, and two on which their clusters run into; the clusters wrap around
HomesWide == <<6, 6, 7, 0>>
HomesFull == <<3, 3, 0, 1>>

\* ------------------------------------------------------------------ design
Keys == 1..Len(Homes)
Home(k) == Homes[k]
Empty == <<0, 0>>
Gone == <<-1, 0>>
TSize == Len(table)
Slot(t, k, i) == ((Home(k) + i) % Len(t)) + 1
\* index of the slot a lookup of k ends at (0: not found within the bound)
RECURSIVE Probe(_, _, _)
Probe(t, k, i) ==
  IF i >= Len(t) \/ t[Slot(t, k, i)] = Empty THEN 0
  ELSE IF t[Slot(t, k, i)] # Gone /\ t[Slot(t, k, i)][1] = k THEN Slot(t, k, i)
  ELSE Probe(t, k, i + 1)
Lookup(t, k) == LET s == Probe(t, k, 0) IN IF s = 0 THEN 0 ELSE t[s][2]
RECURSIVE Room(_, _, _)
Room(t, k, i) == IF t[Slot(t, k, i)] \in {Empty, Gone} THEN Slot(t, k, i) ELSE Room(t, k, i + 1)
Put(t, k, c) == [t EXCEPT ![Room(t, k, 0)] = <<k, c>>]
Items(t) == {s \in 1..Len(t) : t[s] \notin {Empty, Gone}}
RECURSIVE Refill(_, _, _)
Refill(t, old, s) == IF s > Len(old) THEN t ELSE Refill(IF old[s] \in {Empty, Gone} THEN t ELSE Put(t, old[s][1], old[s][2]), old, s + 1)
Grow(t) == Refill([s \in 1..(2 * Len(t)) |-> Empty], t, 1)
Insert(t, k, c) == Put(IF Grows /\ Cardinality(Items(t)) >= Len(t) - 1 THEN Grow(t) ELSE t, k, c)
Delete(t, k) == [t EXCEPT ![Probe(t, k, 0)] = Gone]

\* ------------------------------------------------------------------ histories
Live == {c \in 1..MaxColl : \E k \in Keys : owner[k] = c}
Unused(k) == owner[k] = 0 /\ k \notin user
Did(a, k, c) == /\ hist' = Append(hist, <<a, k, c>>) /\ PrintT("@@HIST " \o ToJson(hist'))
                /\ UNCHANGED <<cse, pos, err>>
Create(k) ==
  /\ Unused(k) /\ Live # 1..MaxColl
  /\ LET c == CHOOSE x \in 1..MaxColl : x \notin Live /\ \A y \in 1..MaxColl : y < x => y \in Live IN
     /\ owner' = [owner EXCEPT ![k] = c] /\ table' = Insert(table, k, c) /\ UNCHANGED user /\ Did("create", k, c)
Free(k) == /\ owner[k] > 0 /\ owner' = [owner EXCEPT ![k] = 0] /\ table' = Delete(table, k) /\ UNCHANGED user /\ Did("free", k, owner[k])
\* a persistent request of the user appears and disappears; a plain one completes at once
UserInit(k) == Unused(k) /\ user' = user \cup {k} /\ UNCHANGED <<owner, table>> /\ Did("uinit", k, 0)
UserFree(k) == k \in user /\ user' = user \ {k} /\ UNCHANGED <<owner, table>> /\ Did("ufree", k, 0)
UserOnce(k) == Unused(k) /\ UNCHANGED <<owner, table, user>> /\ Did("once", k, 0)
ModelNext == \E k \in Keys : Create(k) \/ Free(k) \/ (Users /\ (UserInit(k) \/ UserFree(k) \/ UserOnce(k)))

Faithful == Mode = "model" => \A k \in Keys : Lookup(table, k) = owner[k]
Counted == Mode = "model" => Cardinality(Items(table)) = Cardinality({k \in Keys : owner[k] > 0})

\* ------------------------------------------------------------------ traces
\* events: <<"create", k, c>> <<"free", k, c>> <<"uinit", k>> <<"ufree", k>>
\*  <<kind, k, results changed, user messages received, starts of this request passed on, other starts passed on>>
Cases == IF Mode = "trace" THEN JsonDeserialize(IOEnv.VP_CASES) ELSE <<[keys |-> Len(Homes), log |-> <<>>]>>
Log == Cases[cse].log
Verdict(v) == PrintT("@@VERDICT " \o ToString(cse) \o " " \o ToString(v))
ActsRight(e) ==
  CASE e[1] = "use" -> e[3] = <<owner[e[2]]>> /\ e[4] = <<>> /\ e[5] = 0 /\ e[6] = 0
    [] e[1] = "useu" -> e[3] = <<>> /\ e[4] = <<e[2]>> /\ e[5] = 1 /\ e[6] = 0
    [] e[1] = "once" -> e[3] = <<>> /\ e[4] = <<e[2]>> /\ e[5] = 0 /\ e[6] = 0
    [] OTHER -> TRUE
TraceStep ==
  /\ err = <<>> /\ pos <= Len(Log)
  /\ LET e == Log[pos] IN
     /\ owner' = CASE e[1] = "create" -> [owner EXCEPT ![e[2]] = e[3]] [] e[1] = "free" -> [owner EXCEPT ![e[2]] = 0] [] OTHER -> owner
     /\ user' = CASE e[1] = "uinit" -> user \cup {e[2]} [] e[1] = "ufree" -> user \ {e[2]} [] OTHER -> user
     /\ err' = IF ActsRight(e) THEN <<>> ELSE <<"handle", ToString(<<e, "belongs to", owner[e[2]]>>), pos>>
  /\ pos' = pos + 1 /\ UNCHANGED <<cse, table, hist>>
  /\ (err' # <<>> => Verdict(err'))
TraceEnd == err = <<>> /\ pos > Len(Log) /\ err' = <<"ok">> /\ Verdict(err') /\ UNCHANGED <<cse, pos, owner, user, table, hist>>

Init ==
  /\ cse \in 1..Len(Cases) /\ pos = 1 /\ err = <<>> /\ hist = <<>>
  /\ owner = [k \in 1..Cases[cse].keys |-> 0] /\ user = {}
  /\ table = [s \in 1..Size |-> Empty]
Next == IF Mode = "trace" THEN TraceStep \/ TraceEnd ELSE ModelNext
Spec == Init /\ [][Next]_vars
ModelView == <<owner, user, table>>
TraceView == <<cse, pos, err>>
=============================================================================
