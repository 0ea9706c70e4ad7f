------------------------------ MODULE Resources ------------------------------
(***************************************************************************)
(* What collectives acquire and give back: shared memory segments and      *)
(* their attachments, communicators, requests of the underlying MPI,       *)
(* memory.                                                                 *)
(*                                                                         *)
(* Every process runs the same history of creations, executions and        *)
(* releases, each at its own pace.  A creation makes one incarnation of a  *)
(* collective: the first process there makes its segment, everyone         *)
(* attaches, and when all have, the segment is marked for removal, so that *)
(* it disappears with its last attachment.  A process that releases the    *)
(* collective only detaches: the others may still be executing it.         *)
(*                                                                         *)
(*   Mode = "model"      all interleavings of the processes over all       *)
(*                       histories up to MaxLen: InUse, NoLeak, Held       *)
(*   Mode = "histories"  all histories of MaxLen steps (or random walks)   *)
(*                       as input for the real code                        *)
(*   Mode = "trace"      logs of the real code: at every quiescent point   *)
(*                       the resources of a process are a function of the  *)
(*                       collectives it takes part in, nothing at all when *)
(*                       there are none, and nothing after finalisation    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS Mode, N, Colls, Comms, MaxLen

VARIABLES cse, pos, err, seen, grown, ucomms,         \* trace
          hist, live, open,                    \* histories: live collectives, communicators the user has
          at, ph, seg                          \* the processes: step of the history, phase within it; segments by incarnation
tvars == <<cse, pos, err, seen, grown, ucomms>>
vars == <<tvars, hist, live, open, at, ph, seg>>

\* collective c is made on communicator c % (Comms + 1); communicator 0 belongs to MPI
CommOf(c) == c % (Comms + 1)
Did(op, c) == hist' = Append(hist, <<op, c>>) /\ (Mode = "histories" => PrintT("@@HIST " \o ToJson(hist')))

Create(c) == c \notin live /\ CommOf(c) \in open \cup {0} /\ live' = live \cup {c} /\ UNCHANGED open /\ Did("create", c)
Run(c) == c \in live /\ (hist = <<>> \/ hist[Len(hist)] # <<"run", c>>) /\ UNCHANGED <<live, open>> /\ Did("run", c)
Free(c) == c \in live /\ live' = live \ {c} /\ UNCHANGED open /\ Did("free", c)
\* the user makes and frees communicators; a collective outlives the handle it was made with
CommMake(k) == k \notin open /\ open' = open \cup {k} /\ UNCHANGED live /\ Did("cmake", k)
CommFree(k) == k \in open /\ open' = open \ {k} /\ UNCHANGED live /\ Did("cfree", k)
Decide ==
  /\ Len(hist) < MaxLen /\ UNCHANGED <<tvars, at, ph, seg>>
  /\ \/ \E c \in Colls : Create(c) \/ Run(c) \/ Free(c)
     \/ \E k \in 1..Comms : CommMake(k) \/ CommFree(k)

\* ------------------------------------------------------------------ processes
P == 0..(N - 1)
None == [made |-> FALSE, marked |-> FALSE, att |-> {}, gone |-> FALSE]
\* the incarnation of c that is current before step i of the history
Inc(c, i) == CHOOSE j \in 1..i : hist[j] = <<"create", c>> /\ \A k \in (j + 1)..i : hist[k] # <<"create", c>>
Advance(p) == at' = [at EXCEPT ![p] = @ + 1] /\ ph' = [ph EXCEPT ![p] = 0]
Phase(p) == ph' = [ph EXCEPT ![p] = @ + 1] /\ UNCHANGED at
Removed(s) == IF s.marked /\ s.att = {} THEN [s EXCEPT !.gone = TRUE] ELSE s
StepP(p) ==
  /\ at[p] < Len(hist) /\ UNCHANGED <<tvars, hist, live, open>>
  /\ LET i == at[p] + 1 op == hist[i][1] c == hist[i][2] IN
     CASE op = "create" /\ ph[p] = 0 -> seg' = [seg EXCEPT ![i].made = TRUE, ![i].att = @ \cup {p}] /\ Phase(p)
       [] op = "create" /\ ph[p] = 1 ->      \* everyone is attached: nothing has to find the segment any more
            (\A q \in P : at[q] >= i \/ (at[q] = i - 1 /\ ph[q] >= 1)) /\ seg' = [seg EXCEPT ![i] = Removed([@ EXCEPT !.marked = TRUE])] /\ Advance(p)
       [] op = "run" /\ ph[p] = 0 -> UNCHANGED seg /\ Phase(p)
       [] op = "run" /\ ph[p] = 1 -> (\A q \in P : at[q] >= i \/ (at[q] = i - 1 /\ ph[q] >= 1)) /\ UNCHANGED seg /\ Advance(p)
       [] op = "free" -> LET j == Inc(c, i - 1) IN seg' = [seg EXCEPT ![j] = Removed([@ EXCEPT !.att = @ \ {p}])] /\ Advance(p)
       [] OTHER -> UNCHANGED seg /\ Advance(p)
ModelNext == Decide \/ \E p \in P : StepP(p)

\* the incarnations process p has created and not released
Holds(p) == {j \in 1..at[p] : hist[j][1] = "create" /\ \A k \in (j + 1)..at[p] : hist[k] # <<"free", hist[j][2]>>}
           \cup IF at[p] < Len(hist) /\ hist[at[p] + 1][1] = "create" /\ ph[p] = 1 THEN {at[p] + 1} ELSE {}
Held == Mode = "model" => \A p \in P : {j \in 1..MaxLen : p \in seg[j].att} = Holds(p)
InUse == Mode = "model" => \A p \in P : \A j \in Holds(p) : seg[j].made /\ ~seg[j].gone
Quiet == Mode = "model" /\ \A p \in P : at[p] = Len(hist)
NoLeak == Quiet => Cardinality({j \in 1..MaxLen : seg[j].made /\ ~seg[j].gone}) = Cardinality(live)
NotStuck == (Mode = "model" /\ ~Quiet) => \E p \in P : ENABLED StepP(p)

\* ------------------------------------------------------------------ traces
\* a case: [n, exact, members: <<processes>> for every collective 1.., cmembers: for every communicator,
\*  log: <<"create"|"free"|"cmake"|"cfree", x>>  <<"snap", <<attachments, communicators, requests, memory>> of every process, segments>>]
Cases == IF Mode = "trace" THEN JsonDeserialize(IOEnv.VP_CASES) ELSE <<[n |-> 1, exact |-> 1, members |-> <<>>, cmembers |-> <<>>, log |-> <<>>]>>
K == Cases[cse]
Verdict(v) == PrintT("@@VERDICT " \o ToString(cse) \o " " \o ToString(v))
Among(p, l) == \E i \in 1..Len(l) : l[i] = p
Mine(p) == {c \in live : Among(p, K.members[c])}
MyComms(p) == Cardinality({k \in ucomms : Among(p, K.cmembers[k])})
\* the library's part of a snapshot of process p
Own(v, p) == <<v[1], v[2] - MyComms(p), v[3]>>
\* memory may stay for later use, but it must not grow again and again with the same collectives alive:
\* <<process, its collectives, memory at the last visit, how often it had grown>>
Grown(e) ==
  LET now == {LET key == <<p, Mine(p)>> old == {g \in grown : <<g[1], g[2]>> = key} m == e[2][p + 1][4] IN
              IF old = {} THEN <<p, Mine(p), m, 0>> ELSE LET g == CHOOSE g \in old : TRUE IN <<p, Mine(p), m, IF m > g[3] THEN g[4] + 1 ELSE IF m < g[3] THEN 0 ELSE g[4]>> : p \in 0..(K.n - 1)}
  IN now \cup {g \in grown : ~\E h \in now : h[1] = g[1] /\ h[2] = g[2]}
\* (K.exact = 0: what a collective needs depends on measurements)
Known(key) == IF K.exact = 0 /\ key[2] # {} THEN {} ELSE {s \in seen : s[1] = key}
SnapErr(e) ==
  LET vs == e[2] bad == {p \in 0..(K.n - 1) : Known(<<p, Mine(p)>>) # {} /\ \A s \in Known(<<p, Mine(p)>>) : s[2] # Own(vs[p + 1], p)} IN
  IF bad # {} THEN LET p == CHOOSE p \in bad : \A q \in bad : p <= q IN
       <<"resources", ToString(<<"process", p, "with collectives", Mine(p), "has attachments, communicators, requests", Own(vs[p + 1], p), "but had", {s[2] : s \in Known(<<p, Mine(p)>>)}>>), pos>>
  ELSE IF Known(<<-1, live>>) # {} /\ \A s \in Known(<<-1, live>>) : s[2] # e[3]
       THEN <<"segments", ToString(<<"with collectives", live, "there are", e[3], "segments but there were", {s[2] : s \in Known(<<-1, live>>)}>>), pos>>
  ELSE IF \E g \in Grown(e) : g[4] >= 3 THEN <<"memory", ToString(<<"grows and grows", CHOOSE g \in Grown(e) : g[4] >= 3>>), pos>>
  ELSE <<>>
TraceStep ==
  /\ err = <<>> /\ pos <= Len(K.log)
  /\ LET e == K.log[pos] IN
     /\ live' = CASE e[1] = "create" -> live \cup {e[2]} [] e[1] = "free" -> live \ {e[2]} [] OTHER -> live
     /\ ucomms' = CASE e[1] = "cmake" -> ucomms \cup {e[2]} [] e[1] = "cfree" -> ucomms \ {e[2]} [] OTHER -> ucomms
     /\ grown' = IF e[1] = "snap" THEN Grown(e) ELSE grown
     /\ IF e[1] = "snap" THEN /\ err' = SnapErr(e)
                              /\ seen' = seen \cup {<<<<p, Mine(p)>>, Own(e[2][p + 1], p)>> : p \in 0..(K.n - 1)} \cup {<<<<-1, live>>, e[3]>>}
        ELSE IF e[1] = "end" THEN /\ UNCHANGED seen
                                  /\ err' = IF (\E p \in 0..(K.n - 1) : Own(e[2][p + 1], p) # <<0, 0, 0>>) \/ e[3] # 0 THEN <<"left", ToString(<<"after finalisation", e[2], "segments", e[3]>>), pos>> ELSE <<>>
        ELSE UNCHANGED <<seen, err>>
  /\ pos' = pos + 1 /\ UNCHANGED <<cse, hist, open, at, ph, seg>>
  /\ (err' # <<>> => Verdict(err'))
TraceEnd ==
  /\ err = <<>> /\ pos > Len(K.log) /\ err' = <<"ok">> /\ Verdict(err')
  /\ UNCHANGED <<cse, pos, seen, grown, ucomms, hist, live, open, at, ph, seg>>

Init ==
  /\ cse \in 1..Len(Cases) /\ pos = 1 /\ err = <<>> /\ seen = {} /\ grown = {} /\ ucomms = {}
  /\ hist = <<>> /\ live = {} /\ open = {}
  /\ at = [p \in P |-> 0] /\ ph = [p \in P |-> 0] /\ seg = [i \in 1..MaxLen |-> None]
Next == CASE Mode = "trace" -> TraceStep \/ TraceEnd [] Mode = "histories" -> Decide [] OTHER -> ModelNext
Spec == Init /\ [][Next]_vars
HistView == hist
TraceView == <<cse, pos, err>>
=============================================================================
