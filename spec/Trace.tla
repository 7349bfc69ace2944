-------------------------------- MODULE Trace --------------------------------
(* Checks recorded executions of the real broker (one per line of the file named by TRACE) against Broker.tla.
   A run is accepted when, for some resolution of the broker's free choices, every recorded step - an input, all packets the broker
   sent until it was quiescent again, and the connections it closed - is a step of the specification. *)
EXTENDS Broker, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, l, b

Reg(i) == i               \* register i: how far run i was matched; i + N: why it went no further
N == Len(Runs)

Init == /\ r \in 1..N
        /\ l = 0
        /\ b = InitBroker(Runs[r].cfg)
        /\ TLCSet(r, 0) /\ TLCSet(r + N, "")

Next == LET steps == Runs[r].steps
            st == steps[l + 1]
            S == Step(b, st.ev, st.out, Range(st.closed))
            ok == {x \in S : x.err = ""}
        IN  /\ l < Len(steps)
            /\ TLCGet(r) < Len(steps)
            /\ IF l + 1 > TLCGet(r) /\ ok # {} THEN TLCSet(r, l + 1)
               ELSE IF ok = {} /\ l = TLCGet(r) THEN TLCSet(r + N, (CHOOSE x \in S : TRUE).err)
               ELSE TRUE
            /\ (l + 1 = Len(steps) /\ ok # {}) => PrintT(<<"DONE", r>>)
            /\ r' = r
            /\ l' = l + 1
            /\ b' \in ok

Report == \A i \in 1..N : PrintT(<<"RUN", i, IF TLCGet(i) = Len(Runs[i].steps) THEN "accepted" ELSE "rejected", TLCGet(i), IF TLCGet(i) = Len(Runs[i].steps) THEN "" ELSE TLCGet(i + N)>>)

Spec == Init /\ [][Next]_<<r, l, b>>
Viewed == <<r, l, [x \in DOMAIN b \ {"cfg"} |-> b[x]]>>
==============================================================================
