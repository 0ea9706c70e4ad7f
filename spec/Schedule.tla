------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* A job of n processes that executes persistent collective operations on  *)
(* shared memory segments and point-to-point messages.                     *)
(*                                                                         *)
(* Every process runs a straight-line program of the operations            *)
(*   U  the user writes (or poisons) a buffer    K  the user reads results *)
(*   g  a collective is started                  e  its completion is seen *)
(*   C  copy    R  dst += src    S  dst = a + b    Z,X  overwrite          *)
(*   W  publish a flag word      F  observe a published flag word          *)
(*   I  send    V  post a receive    A  complete a set of requests         *)
(*   B/D  arrive at / leave a collective synchronisation of MPI            *)
(* The programs are what the implementation was observed to do (one        *)
(* program per process, recorded from the real code); the semantics of the *)
(* operations, the contract of the collectives, the memory model and the   *)
(* message matching are defined here.                                      *)
(*                                                                         *)
(* Memory is abstracted to atoms: maximal byte ranges which every          *)
(* operation treats as a whole.  The value of an atom says WHAT it is:     *)
(*   <<collective, iteration, position, family>>                           *)
(* family is the set of partial sums a value was built from (a laminar     *)
(* family of sets of contributing processes, i.e. the summation tree), or  *)
(* just {contributors} where the tree is not of interest.                  *)
(*                                                                         *)
(* Ordering is happens-before (vector clocks): program order, a flag read  *)
(* is ordered after exactly the publication it observed, the completion of *)
(* a receive after the start of the matching send, MPI synchronisation.    *)
(* Two conflicting accesses not ordered by it are a data race.  A program  *)
(* set without race whose waits only wait for publications that stay       *)
(* visible has the same outcome in every schedule, so Deterministic = TRUE *)
(* explores one linearisation; Deterministic = FALSE explores them all.    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANT Deterministic

Cases == JsonDeserialize(IOEnv.VP_CASES)

VARIABLES cse, pc, step, mem, wr, rd, vc, fvc, pend, net, bar, act, ans, err

vars == <<cse, pc, step, mem, wr, rd, vc, fvc, pend, net, bar, act, ans, err>>

\* ----------------------------------------------------------------- accessors
N == Cases[cse].n
Ranks == 1..N
Prog(p) == Cases[cse].progs[p]
Reg(r) == Cases[cse].regs[r]
RKind(r) == Reg(r)[1]        \* 0 shared segment, 1 user buffer, 2 private heap
RColl(r) == Reg(r)[3]        \* user buffer: collective it belongs to, 0 none
RRole(r) == Reg(r)[4]        \* 0 send, 1 receive
AOff(r, i) == Reg(r)[5][i]
ALen(r, i) == Reg(r)[6][i]
Coll(c) == Cases[cse].colls[c]
TreeMode == Cases[cse].tree > 0       \* order of additions: 1 the same in every iteration, 2 also on every process
Regs == 1..Len(Cases[cse].regs)

\* operation: <<kind, rd, dlo, rs, slo, n, a, b, c, d, list>>
K(o) == o[1]

\* ----------------------------------------------------------------- values
Bot == <<0, 0, 0, {}>>
Mask(v) == UNION v[4]
Leaf(c, it, pos, d) == <<c, it, pos, {{d}}>>
Poison(c, it) == <<c, it, -1, {}>>
Nil == <<0, 0, -3, {}>>             \* zeroes, the neutral element of the sum
Plus(v, w) ==
  IF v = Nil THEN w ELSE IF w = Nil THEN v ELSE
  IF v[4] # {} /\ w[4] # {} /\ v[1] = w[1] /\ v[2] = w[2] /\ v[3] = w[3] /\ Mask(v) \cap Mask(w) = {}
  THEN <<v[1], v[2], v[3], IF TreeMode THEN v[4] \cup w[4] \cup {Mask(v) \cup Mask(w)} ELSE {Mask(v) \cup Mask(w)}>>
  ELSE Bot

\* ----------------------------------------------------------------- contract of the collectives
Gatherlike(t) == t \in {"gather", "gatherv", "allgather", "allgatherv"}
RECURSIVE Pref(_, _)
Pref(s, k) == IF k = 0 THEN 0 ELSE Pref(s, k - 1) + s[k]     \* bytes in front of rank k (0-based)
\* position, in the logical vector of the collective, of the first byte rank d contributes
Base(c, d) == IF Gatherlike(Coll(c).type) THEN Pref(Coll(c).counts, d) ELSE 0
\* position of the first byte rank d receives
Shift(c, d) == IF Coll(c).type \in {"reduce_scatter", "reduce_scatter_block", "scatter", "scatterv"} THEN Pref(Coll(c).counts, d) ELSE 0
Everybody(c) == 0..(Coll(c).n - 1)
Owner(c, pos) == CHOOSE d \in Everybody(c) : Pref(Coll(c).counts, d) <= pos /\ pos < Pref(Coll(c).counts, d + 1)
Receives(c, d) == ~(Coll(c).type \in {"reduce", "gather", "gatherv"} /\ d # Coll(c).root)
Contributors(c, pos) ==
  LET t == Coll(c).type IN
  CASE t \in {"allreduce", "reduce", "reduce_scatter", "reduce_scatter_block"} -> Everybody(c)
    [] t \in {"bcast", "scatter", "scatterv"} -> {Coll(c).root}
    [] OTHER -> {Owner(c, pos)}
\* what rank d must find at byte off of its receive buffer after iteration it
ResultOk(c, it, d, off, v) ==
  IF Receives(c, d)
  THEN /\ v[1] = c /\ v[2] = it /\ v[3] = Shift(c, d) + off
       /\ v[4] # {} /\ Mask(v) = Contributors(c, Shift(c, d) + off)
  ELSE \/ v = Poison(c, it)
       \/ Coll(c).inplace = 1 /\ v = Leaf(c, it, off, d)

\* ----------------------------------------------------------------- initial state
Zero == [q \in Ranks |-> 0]
Init ==
  /\ cse \in 1..Len(Cases)
  /\ pc = [p \in Ranks |-> 1]
  /\ step = 0
  /\ mem = [r \in Regs |-> [i \in 1..Len(Reg(r)[5]) |-> Bot]]
  /\ wr = [r \in Regs |-> IF RKind(r) = 0 THEN [i \in 1..Len(Reg(r)[5]) |-> <<1, 0>>] ELSE <<>>]
  /\ rd = [r \in Regs |-> IF RKind(r) = 0 THEN [i \in 1..Len(Reg(r)[5]) |-> Zero] ELSE <<>>]
  /\ vc = [p \in Ranks |-> [q \in Ranks |-> IF p = q THEN 1 ELSE 0]]
  /\ fvc = [e \in 1..Cases[cse].flags |-> <<>>]
  /\ pend = [p \in Ranks |-> {}]
  /\ net = [ch \in 1..Cases[cse].chans |-> [s |-> <<>>, v |-> 0]]
  /\ bar = [x \in 1..Cases[cse].bars |-> [k |-> 0, v |-> Zero]]
  /\ act = [p \in Ranks |-> {}]
  /\ ans = [p \in Ranks |-> [c \in 1..Len(Cases[cse].colls) |-> <<>>]]
  /\ err = <<>>

\* ----------------------------------------------------------------- enabledness
\* A send completes when its receive is posted.  A case with eager = 1 was recorded on a network that
\* buffers sends: there the completion of a send says nothing about the other process, and the
\* publications its flag reads observed may be later ones than rendezvous would let them wait for.
ReqReady(p, s) ==
  \E q \in pend[p] : q.ser = s /\ IF q.kind = "V" THEN Len(net[q.ch].s) >= q.k ELSE Cases[cse].eager = 1 \/ net[q.ch].v >= q.k
Enabled(p) ==
  /\ pc[p] <= Len(Prog(p))
  /\ LET o == Prog(p)[pc[p]] IN
     CASE K(o) = "A" -> \A j \in 1..Len(o[11]) : ReqReady(p, o[11][j])
       [] K(o) = "F" -> o[7] = 0 \/ fvc[o[7]] # <<>>
       [] K(o) = "D" -> bar[o[7]].k = o[8]
       [] OTHER -> TRUE

\* ----------------------------------------------------------------- accesses
Overlap(q, r, lo, n) == q.r = r /\ q.lo < lo + n /\ lo < q.lo + q.n
\* an access conflicts with a message in flight from or into the same memory
InFlight(r, lo, n, write) ==
  n > 0 /\ \E p \in Ranks : \E q \in pend[p] : Overlap(q, r, lo, n) /\ (write \/ q.kind = "V")
RaceW(p, r, lo, n) ==
  RKind(r) = 0 /\ \E i \in lo..(lo + n - 1) :
     \/ wr[r][i][2] > vc[p][wr[r][i][1]]
     \/ \E q \in Ranks : rd[r][i][q] > vc[p][q]
RaceR(p, r, lo, n) ==
  RKind(r) = 0 /\ \E i \in lo..(lo + n - 1) : wr[r][i][2] > vc[p][wr[r][i][1]]
\* user memory is the library's only between start and completion, and only the right process's
Foreign(p, r, n) ==
  n > 0 /\ RKind(r) = 1 /\ RColl(r) > 0 /\ (Reg(r)[2] # p \/ RColl(r) \notin act[p])
WriteErr(p, r, lo, n) ==
  IF Foreign(p, r, n) THEN <<"buffer", "write to a user buffer outside start..completion", r, lo>>
  ELSE IF n > 0 /\ RKind(r) = 1 /\ RColl(r) > 0 /\ RRole(r) = 0 THEN <<"buffer", "write to a send buffer", r, lo>>
  ELSE IF InFlight(r, lo, n, TRUE) THEN <<"overlap", "write to memory of a message in flight", r, lo>>
  ELSE IF RaceW(p, r, lo, n) THEN <<"race", "unordered write", r, lo>> ELSE <<>>
ReadErr(p, r, lo, n) ==
  IF Foreign(p, r, n) THEN <<"buffer", "read of a user buffer outside start..completion", r, lo>>
  ELSE IF InFlight(r, lo, n, FALSE) THEN <<"overlap", "read of memory a message is arriving in", r, lo>>
  ELSE IF RaceR(p, r, lo, n) THEN <<"race", "unordered read", r, lo>> ELSE <<>>
First(es) == IF \E i \in 1..Len(es) : es[i] # <<>> THEN es[CHOOSE i \in 1..Len(es) : es[i] # <<>> /\ \A j \in 1..(i-1) : es[j] = <<>>] ELSE <<>>
\* only the classes of errors the case is about are looked at
Relevant(e) == IF e # <<>> /\ \E j \in 1..Len(Cases[cse].only) : Cases[cse].only[j] = e[1] THEN e ELSE <<>>
SetErr(p, es) == err' = LET e == First([j \in 1..Len(es) |-> Relevant(es[j])]) IN IF e = <<>> THEN err ELSE e \o <<p, pc[p]>>

In(i, lo, n) == lo <= i /\ i < lo + n
MarkR(rdf, p, r, lo, n) == IF RKind(r) # 0 \/ n = 0 THEN rdf ELSE
  [rdf EXCEPT ![r] = [i \in DOMAIN @ |-> IF In(i, lo, n) THEN [@[i] EXCEPT ![p] = vc[p][p]] ELSE @[i]]]
MarkW(p, r, lo, n) == IF RKind(r) # 0 \/ n = 0 THEN wr ELSE
  [wr EXCEPT ![r] = [i \in DOMAIN @ |-> IF In(i, lo, n) THEN <<p, vc[p][p]>> ELSE @[i]]]
Join(v, w) == [q \in Ranks |-> IF v[q] > w[q] THEN v[q] ELSE w[q]]
Tick(v, p) == [v EXCEPT ![p] = @ + 1]
Put(r, lo, n, f(_)) == IF n = 0 THEN mem ELSE
  [mem EXCEPT ![r] = [i \in DOMAIN @ |-> IF In(i, lo, n) THEN f(i - lo) ELSE @[i]]]

\* ----------------------------------------------------------------- the operations
UserWrite(p, o) ==                  \* U: a collective, b iteration, c 1 data 2 poison, d rank in the communicator
  /\ mem' = Put(o[2], o[3], o[6], LAMBDA j :
              IF o[9] = 2 THEN Poison(o[7], o[8])
              ELSE Leaf(o[7], o[8], Base(o[7], o[10]) + AOff(o[2], o[3] + j) - AOff(o[2], o[3]), o[10]))
  /\ SetErr(p, <<IF InFlight(o[2], o[3], o[6], TRUE) THEN <<"overlap", "the library still transfers a user buffer", o[2], o[3]>> ELSE <<>> >>)
  /\ UNCHANGED <<wr, rd, vc, fvc, pend, net, bar, act>>
Trees(o) == [i \in 1..o[6] |-> mem[o[2]][o[3] + i - 1][4]]
UserRead(p, o) ==                   \* K: c 1 receive buffer, 0 send buffer
  LET bad == {i \in o[3]..(o[3] + o[6] - 1) :
        IF o[9] = 1 THEN ~ResultOk(o[7], o[8], o[10], AOff(o[2], i), mem[o[2]][i])
        ELSE mem[o[2]][i] # Bot /\ mem[o[2]][i] # Leaf(o[7], o[8], Base(o[7], o[10]) + AOff(o[2], i), o[10])}
      w == CHOOSE i \in bad : \A j \in bad : i <= j
  IN
  /\ SetErr(p, <<IF InFlight(o[2], o[3], o[6], FALSE) THEN <<"overlap", "the library still transfers a user buffer", o[2], o[3]>> ELSE <<>>,
                 IF bad # {} THEN <<IF o[9] = 1 THEN "value" ELSE "sendbuf", ToString(<<mem[o[2]][w], "collective, iteration, rank, byte", o[7], o[8], o[10], AOff(o[2], w)>>), o[2], w>> ELSE <<>>,
                 IF TreeMode /\ o[9] = 1 /\ ans[p][o[7]] # <<>> /\ ans[p][o[7]] # Trees(o) THEN <<"tree", "the order of additions differs between iterations", o[2], o[3]>> ELSE <<>> >>)
  /\ ans' = IF TreeMode /\ o[9] = 1 /\ ans[p][o[7]] = <<>> THEN [ans EXCEPT ![p][o[7]] = Trees(o)] ELSE ans
  /\ UNCHANGED <<mem, wr, rd, vc, fvc, pend, net, bar, act>>
Start(p, o) == /\ act' = [act EXCEPT ![p] = @ \cup {o[7]}] /\ UNCHANGED <<mem, wr, rd, vc, fvc, pend, net, bar, err>>
End(p, o) == /\ act' = [act EXCEPT ![p] = @ \ {o[7]}] /\ UNCHANGED <<mem, wr, rd, vc, fvc, pend, net, bar, err>>
Copy(p, o) ==
  /\ mem' = Put(o[2], o[3], o[6], LAMBDA j : mem[o[4]][o[5] + j])
  /\ SetErr(p, <<ReadErr(p, o[4], o[5], o[6]), WriteErr(p, o[2], o[3], o[6])>>)
  /\ rd' = MarkR(rd, p, o[4], o[5], o[6]) /\ wr' = MarkW(p, o[2], o[3], o[6])
  /\ UNCHANGED <<vc, fvc, pend, net, bar, act>>
Add(p, o) ==                        \* R: in place;  S: a, b name the second source
  LET r2 == IF K(o) = "R" THEN o[2] ELSE o[7]  s2 == IF K(o) = "R" THEN o[3] ELSE o[8] IN
  /\ mem' = Put(o[2], o[3], o[6], LAMBDA j : Plus(mem[r2][s2 + j], mem[o[4]][o[5] + j]))
  /\ SetErr(p, <<ReadErr(p, o[4], o[5], o[6]), ReadErr(p, r2, s2, o[6]), WriteErr(p, o[2], o[3], o[6])>>)
  /\ rd' = MarkR(MarkR(rd, p, o[4], o[5], o[6]), p, r2, s2, o[6]) /\ wr' = MarkW(p, o[2], o[3], o[6])
  /\ UNCHANGED <<vc, fvc, pend, net, bar, act>>
Overwrite(p, o) ==
  /\ mem' = Put(o[2], o[3], o[6], LAMBDA j : IF K(o) = "Z" THEN Nil ELSE Bot)
  /\ SetErr(p, <<WriteErr(p, o[2], o[3], o[6])>>)
  /\ wr' = MarkW(p, o[2], o[3], o[6])
  /\ UNCHANGED <<rd, vc, fvc, pend, net, bar, act>>
Publish(p, o) ==                    \* W: a index of the publication (0: nobody observes it)
  /\ fvc' = IF o[7] = 0 THEN fvc ELSE [fvc EXCEPT ![o[7]] = vc[p]]
  /\ vc' = [vc EXCEPT ![p] = Tick(@, p)]
  /\ SetErr(p, <<IF RaceR(p, o[2], o[3], o[6]) THEN <<"race", "flag published before it was initialised", o[2], o[3]>> ELSE <<>>,
                 IF InFlight(o[2], o[3], o[6], TRUE) THEN <<"overlap", "flag in memory of a message in flight", o[2], o[3]>> ELSE <<>> >>)
  /\ rd' = MarkR(rd, p, o[2], o[3], o[6])
  /\ UNCHANGED <<mem, wr, pend, net, bar, act>>
Observe(p, o) ==                    \* F: a the publication observed (0: the initial value)
  /\ vc' = IF o[7] = 0 THEN vc ELSE [vc EXCEPT ![p] = Join(@, fvc[o[7]])]
  /\ err' = LET e == IF RKind(o[2]) = 0 /\ \E i \in o[3]..(o[3] + o[6] - 1) : wr[o[2]][i][2] > vc'[p][wr[o[2]][i][1]]
                     THEN <<"race", "flag observed before it was initialised", o[2], o[3], p, pc[p]>> ELSE <<>>
            IN IF Relevant(e) = <<>> THEN err ELSE e
  /\ rd' = IF RKind(o[2]) # 0 THEN rd ELSE [rd EXCEPT ![o[2]] = [i \in DOMAIN @ |-> IF In(i, o[3], o[6]) THEN [@[i] EXCEPT ![p] = vc'[p][p]] ELSE @[i]]]
  /\ UNCHANGED <<mem, wr, fvc, pend, net, bar, act>>
Send(p, o) ==                       \* I: a channel, b serial, c bytes
  /\ net' = [net EXCEPT ![o[7]].s = Append(@, [val |-> [j \in 1..o[6] |-> mem[o[4]][o[5] + j - 1]], v |-> vc[p], len |-> o[9]])]
  /\ pend' = [pend EXCEPT ![p] = @ \cup {[ser |-> o[8], kind |-> "I", r |-> o[4], lo |-> o[5], n |-> o[6], len |-> o[9], ch |-> o[7], k |-> Len(net[o[7]].s) + 1]}]
  /\ SetErr(p, <<IF o[6] > 0 THEN ReadErr(p, o[4], o[5], o[6]) ELSE <<>> >>)
  /\ rd' = IF o[6] > 0 THEN MarkR(rd, p, o[4], o[5], o[6]) ELSE rd
  /\ vc' = [vc EXCEPT ![p] = Tick(@, p)]
  /\ UNCHANGED <<mem, wr, fvc, bar, act>>
Post(p, o) ==                       \* V
  /\ net' = [net EXCEPT ![o[7]].v = @ + 1]
  /\ pend' = [pend EXCEPT ![p] = @ \cup {[ser |-> o[8], kind |-> "V", r |-> o[2], lo |-> o[3], n |-> o[6], len |-> o[9], ch |-> o[7], k |-> net[o[7]].v + 1]}]
  /\ SetErr(p, <<IF o[6] > 0 THEN WriteErr(p, o[2], o[3], o[6]) ELSE <<>> >>)
  /\ UNCHANGED <<mem, wr, rd, vc, fvc, bar, act>>
\* completion of a set of requests: received data appears, buffers are released
RECURSIVE Land(_, _, _)
Land(st, p, done) ==
  IF done = {} THEN st ELSE
  LET q == CHOOSE x \in done : TRUE IN
  IF q.kind = "I"
  THEN Land([st EXCEPT !.rd = IF q.n > 0 THEN MarkR(@, p, q.r, q.lo, q.n) ELSE @], p, done \ {q})
  ELSE LET m == net[q.ch].s[q.k] k == Len(m.val) IN
       Land([mem |-> IF k > q.n \/ k = 0 THEN st.mem ELSE [st.mem EXCEPT ![q.r] = [i \in DOMAIN @ |-> IF In(i, q.lo, k) THEN m.val[i - q.lo + 1] ELSE @[i]]],
             wr |-> IF RKind(q.r) # 0 \/ q.n = 0 THEN st.wr ELSE [st.wr EXCEPT ![q.r] = [i \in DOMAIN @ |-> IF In(i, q.lo, q.n) THEN <<p, vc[p][p]>> ELSE @[i]]],
             rd |-> st.rd, v |-> Join(st.v, m.v),
             e |-> IF m.len > q.len THEN <<"trunc", ToString(<<"message longer than the receive", m.len, q.len>>), q.r, q.lo>> ELSE st.e], p, done \ {q})
Complete(p, o) ==
  LET done == {q \in pend[p] : \E j \in 1..Len(o[11]) : o[11][j] = q.ser}
      st == Land([mem |-> mem, wr |-> wr, rd |-> rd, v |-> vc[p], e |-> <<>>], p, done) IN
  /\ mem' = st.mem /\ wr' = st.wr /\ rd' = st.rd
  /\ vc' = [vc EXCEPT ![p] = Tick(st.v, p)]
  /\ pend' = [pend EXCEPT ![p] = @ \ done]
  /\ SetErr(p, <<st.e>>)
  /\ UNCHANGED <<fvc, net, bar, act>>
Arrive(p, o) ==                     \* B: a index of the synchronisation
  /\ bar' = [bar EXCEPT ![o[7]] = [k |-> @.k + 1, v |-> Join(@.v, vc[p])]]
  /\ vc' = [vc EXCEPT ![p] = Tick(@, p)]
  /\ UNCHANGED <<mem, wr, rd, fvc, pend, net, act, err>>
Leave(p, o) ==
  /\ vc' = [vc EXCEPT ![p] = Join(@, bar[o[7]].v)]
  /\ UNCHANGED <<mem, wr, rd, fvc, pend, net, bar, act, err>>

Do(p) ==
  LET o == Prog(p)[pc[p]] IN
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ step' = step + 1 /\ UNCHANGED cse
  /\ (K(o) # "K" => UNCHANGED ans)
  /\ CASE K(o) = "U" -> UserWrite(p, o) [] K(o) = "K" -> UserRead(p, o)
       [] K(o) = "g" -> Start(p, o) [] K(o) = "e" -> End(p, o)
       [] K(o) = "C" -> Copy(p, o) [] K(o) \in {"R", "S"} -> Add(p, o) [] K(o) \in {"Z", "X"} -> Overwrite(p, o)
       [] K(o) = "W" -> Publish(p, o) [] K(o) = "F" -> Observe(p, o)
       [] K(o) = "I" -> Send(p, o) [] K(o) = "V" -> Post(p, o) [] K(o) = "A" -> Complete(p, o)
       [] K(o) = "B" -> Arrive(p, o) [] K(o) = "D" -> Leave(p, o)

Done == \A p \in Ranks : pc[p] > Len(Prog(p))
Ready == {p \in Ranks : Enabled(p)}
\* all ranks must hold the same summation tree (bit-identical results), where that is promised
RecvRegs(c) == {r \in Regs : RKind(r) = 1 /\ RColl(r) = c /\ RRole(r) = 1}
TreesDiffer ==
  \E c \in 1..Len(Cases[cse].colls) : \E r, s \in RecvRegs(c) : r < s /\
     \E i \in DOMAIN mem[r] : \E j \in DOMAIN mem[s] : mem[r][i][3] = mem[s][j][3] /\ mem[r][i] # mem[s][j]
Final ==
  IF \E p \in Ranks : pend[p] # {} THEN <<"leftover", "a message was never completed">>
  ELSE IF \E ch \in 1..Cases[cse].chans : Len(net[ch].s) # net[ch].v THEN <<"leftover", "unmatched message">>
  ELSE IF \E p \in Ranks : act[p] # {} THEN <<"leftover", "collective never completed">>
  ELSE IF Cases[cse].tree = 2 /\ TreesDiffer THEN <<"tree", "processes hold sums built in different order">>
  ELSE <<>>
Verdict(v) == PrintT("@@VERDICT " \o ToString(cse) \o " " \o ToString(v))
Run ==
  /\ err = <<>> /\ Ready # {}
  /\ IF Deterministic THEN Do(CHOOSE p \in Ready : \A q \in Ready : p <= q) ELSE \E p \in Ready : Do(p)
  /\ (err' # <<>> => Verdict(err'))
Stop ==                             \* nothing can run: finished or stuck
  /\ err = <<>> /\ Ready = {}
  /\ LET v == Relevant(IF ~Done THEN <<"deadlock", ToString([p \in Ranks |-> IF pc[p] > Len(Prog(p)) THEN "done" ELSE K(Prog(p)[pc[p]])])>> ELSE Final) IN
     /\ err' = IF v = <<>> THEN <<"ok">> ELSE v
     /\ Verdict(err')
  /\ UNCHANGED <<cse, pc, step, mem, wr, rd, vc, fvc, pend, net, bar, act, ans>>
Next == Run \/ Stop
Spec == Init /\ [][Next]_vars

View == <<cse, step, err>>          \* used with Deterministic = TRUE only

\* properties of the executions (the verdict names the one that fails)
NoValueError == err # <<>> => err[1] # "value"
NoRace == err # <<>> => err[1] \notin {"race", "overlap"}
NoDeadlock == err # <<>> => err[1] \notin {"deadlock", "leftover", "trunc"}
BuffersKept == err # <<>> => err[1] \notin {"buffer", "sendbuf"}
SameTree == err # <<>> => err[1] # "tree"
=============================================================================
