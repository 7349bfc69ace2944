--------------------------------- MODULE MC ---------------------------------
(* Explores Broker.tla exhaustively with a few honest clients and a small alphabet (read from the file named by MODEL), and checks the
   properties against a ghost history 'h' that knows only what the clients did and what went over the wire: what each session
   subscribed to, which messages it is owed, what was acknowledged, which will must be published when, what is retained.
   h.bad collects <<property, what>>.

   One step: one client (or the clock, or the operator) does something, and the broker sends all it owes because of it.  A connection can
   break before its client has seen all of what was sent to it last.
   Simulated, the same module yields behaviours (h.trail) that the harness replays on the real broker. *)
EXTENDS Broker, Json, IOUtils

M == ndJsonDeserialize(IOEnv.MODEL)[1]
Ops == M.ops
Clients == Range(M.clients)
Checked(p) == p \in Range(M.check)

VARIABLES b, h

-----------------------------------------------------------------------------
(* The broker sends what it owes: packets as seen on the wire, connection by connection *)
Owing(x) == {c \in DOMAIN x.conns : x.conns[c].st # "gone" /\ x.conns[c].ow # <<>>}
PubPacket(x, c, o) ==
  LET k == x.conns[c]
      v5 == k.ver = 5
      known == {a \in DOMAIN k.aout : k.aout[a] = o.m.t}
      ta == IF ~v5 \/ k.tam = 0 THEN 0
            ELSE IF known # {} THEN CHOOSE a \in known : TRUE
            ELSE IF Cardinality(DOMAIN k.aout) < k.tam THEN Cardinality(DOMAIN k.aout) + 1 ELSE 0
      used == IF Served(x, c) THEN UsedIds(SessOf(x, c)) ELSE {}
      id == IF o.q = 0 THEN 0 ELSE IF o.id # 0 THEN o.id ELSE CHOOSE i \in 1..100 : i \notin used /\ \A j \in 1..(i - 1) : j \in used
  IN  [k |-> "publish", t |-> IF known # {} /\ ta # 0 THEN <<>> ELSE o.m.t, p |-> o.m.p, q |-> o.q, r |-> IF o.r THEN 1 ELSE 0, d |-> IF o.dup THEN 1 ELSE 0,
       id |-> id, ta |-> ta, pr |-> IF v5 THEN o.m.pr ELSE "", mei |-> IF ~v5 \/ o.m.exp < 0 THEN -1 ELSE IF o.m.exp = Never THEN Inf ELSE o.m.exp - x.now,
       sid |-> IF v5 /\ o.sid > 0 THEN <<o.sid>> ELSE <<>>, size |-> PubSize(o.m, k.ver, o.q, ta, known # {} /\ ta # 0, o.sid)]
CtlPacket(x, c, o) ==
  CASE o.pk.k = "connack" -> IF o.pk.ok THEN [o.pk EXCEPT !.k = @] @@ [rc |-> o.pk.rcs[1], v5 |-> x.conns[c].ver = 5, wsa |-> 1, ssa |-> 1]
                             ELSE o.pk @@ [rc |-> o.pk.rcs[1], v5 |-> x.conns[c].ver = 5]
    [] o.pk.k = "disconnect" -> o.pk @@ [rc |-> o.pk.rcs[1]]
    [] OTHER -> o.pk

RECURSIVE Drain(_, _)
Drain(x, outs) ==
  IF Owing(x) = {} \/ x.err # "" THEN {[b |-> x, outs |-> outs]}
  ELSE LET c == CHOOSE c \in Owing(x) : \A d \in Owing(x) : c <= d
           ow == x.conns[c].ow
           i == CHOOSE i \in 1..Len(ow) : Free(ow, i) /\ \A j \in 1..(i - 1) : ~Free(ow, j)
           o == ow[i]
       IN  IF o.k = "refusal" THEN Drain([x EXCEPT !.conns[c].ow = RemoveAt(@, i)], outs)
           ELSE LET pk == IF o.k = "pub" THEN PubPacket(x, c, o) ELSE CtlPacket(x, c, o)
                IN  UNION {Drain(y, Append(outs, <<c, pk>>)) : y \in Send(x, c, pk)}

\* all that one input can lead to: [b, outs, closed]
React(x, ev) ==
  LET S == UNION {Drain(y, <<>>) : y \in UNION {FlushWills(z) : z \in Apply(x, ev)}}
  IN  {LET closed == {c \in DOMAIN s.b.conns : s.b.conns[c].closing /\ s.b.conns[c].st # "gone"}
       IN  [b |-> IF s.b.err # "" THEN s.b ELSE EndStep(s.b, closed), outs |-> s.outs, closed |-> closed] : s \in S}

-----------------------------------------------------------------------------
(* The history *)
NoSession == [ex |-> FALSE, sei |-> 0, end |-> -1, subs |-> <<>>, due |-> <<>>, rel |-> {}, user |-> ""]
Client0 ==
  [c |-> 0, ver |-> 5, ka |-> 0, last |-> 0, rm |-> 0, mps |-> Inf, tam |-> 0,
   s |-> NoSession,                                    \* the session as the client knows it
   relc |-> {},                                        \* released on this connection
   credit |-> 0,                                       \* messages released earlier and completed on this connection: MQTT 5 4.9 has those return a slot, too
   fly |-> <<>>,                                       \* id -> <<payload, qos>>: sent on this connection, not acknowledged
   order |-> <<>>, al |-> <<>>,                        \* what came last, and aliases, on this connection
   inbox |-> <<>>,                                     \* sent by the broker in the last step
   inq2 |-> {}, app |-> <<>>, todo |-> {}, out |-> <<>>]
Init0 == [now |-> M.cfg.now, cl |-> [x \in Clients |-> Client0], msg |-> <<>>, ret |-> <<>>, w |-> {}, n |-> 0, nc |-> 0, re |-> {}, bad |-> {},
          cnt |-> [i \in 1..Len(Ops) |-> 0], trail |-> <<>>]

Bad(g, p, what) == IF Checked(p) THEN [g EXCEPT !.bad = @ \cup {<<p, what>>}] ELSE g
Owner(g, c) == {x \in Clients : g.cl[x].c = c}
Count(f, k) == IF Has(f, k) THEN f[k] ELSE 0
More(f, k, n) == IF n = 0 THEN f ELSE Put(f, k, Count(f, k) + n)

\* the will messages that must be published now: g.fire
Fire(g, ws) == [g EXCEPT !.w = @ \ ws, !.fire = @ \cup {w.p : w \in ws}]
WillsOf(g, x) == {w \in g.w : w.cl = x}
SessionOver(g, x) == [Fire(g, {w \in WillsOf(g, x) : w.at # -1}) EXCEPT !.cl[x].s = NoSession, !.cl[x].s.user = g.cl[x].s.user]
\* the connection of client x is gone, and not because it said goodbye
Lost(g, x) ==
  LET k == g.cl[x]
      armed == {w \in WillsOf(g, x) : w.at = -1}
      g1 == [g EXCEPT !.cl[x].c = 0, !.cl[x].fly = <<>>, !.cl[x].relc = {}, !.cl[x].todo = {}, !.cl[x].al = <<>>, !.cl[x].order = <<>>, !.cl[x].inbox = <<>>, !.cl[x].s.end = g.now + k.s.sei]
      g2 == [g1 EXCEPT !.w = (@ \ armed) \cup {[w EXCEPT !.at = g.now + w.delay] : w \in armed}]
      g3 == Fire(g2, {w \in WillsOf(g2, x) : w.delay = 0 /\ w.at # -1})
  IN  IF k.c = 0 THEN g ELSE IF k.s.sei = 0 THEN SessionOver(g3, x) ELSE g3
Goodbye(g, x) == Lost([g EXCEPT !.w = {w \in @ : ~(w.cl = x /\ w.at = -1)}], x)

\* what session x is owed of a message: copies per <<payload, qos>>
MatchingSubs(g, x, t, from) == {k \in DOMAIN g.cl[x].s.subs : k[1] = "" /\ Matches(M.cfg, k[2], t) /\ ~(g.cl[x].s.subs[k].nl /\ x = from)}
MayRead(g, x, t) == AclOK(M.cfg, x, g.cl[x].s.user, t, "read")
Copies(g, x, t, from, mq, q) == IF ~g.cl[x].s.ex \/ ~MayRead(g, x, t) THEN 0
                                ELSE Cardinality({k \in MatchingSubs(g, x, t, from) : Min2(mq, g.cl[x].s.subs[k].q) = q})
Published(g, m) ==
  [g EXCEPT !.cl = [x \in Clients |-> [g.cl[x] EXCEPT !.s.due = More(More(@, <<m.p, 1>>, Copies(g, x, m.t, m.from, m.q, 1)), <<m.p, 2>>, Copies(g, x, m.t, m.from, m.q, 2))]],
            !.ret = IF ~m.r \/ Dollar(M.cfg, m.t) THEN @ ELSE IF m.e THEN Del(@, m.t) ELSE Put(@, m.t, m.p)]

AnyAcl(g, x, t) == AclOK(M.cfg, x, g.cl[x].s.user, t, "write")

Input(g0, x, ev) ==
  LET g == IF Has(ev, "c") /\ x # "" THEN [g0 EXCEPT !.cl[x].last = g0.now] ELSE g0
      k == g.cl[x]
  IN
  CASE ev.e = "connect" ->
         LET resume == k.s.ex /\ k.s.sei > 0 /\ ~ev.clean
             sei == IF ev.ver = 5 THEN ev.sei ELSE IF ev.clean THEN 0 ELSE Inf
             armed == {w \in WillsOf(g, x) : w.at = -1}
             waiting == WillsOf(g, x) \ armed
             g1 == IF k.c # 0
                   THEN (IF resume THEN [Fire(g, {w \in armed : w.delay = 0}) EXCEPT !.w = {w \in @ : w.cl # x}] ELSE Fire(g, armed \cup waiting))
                   ELSE (IF resume THEN [g EXCEPT !.w = @ \ waiting] ELSE Fire(g, waiting))
             s == IF resume THEN [k.s EXCEPT !.sei = sei, !.end = -1] ELSE [NoSession EXCEPT !.ex = TRUE, !.sei = sei, !.user = IF ev.hasuser THEN ev.user ELSE ""]
             k1 == [k EXCEPT !.c = ev.c, !.ver = ev.ver, !.ka = IF ev.ver = 5 THEN Max2(ev.ka, 5) ELSE ev.ka, !.last = g.now, !.s = s, !.fly = <<>>, !.relc = {}, !.credit = 0, !.order = <<>>, !.al = <<>>, !.todo = {}, !.inbox = <<>>,
                             !.rm = IF ev.ver = 5 THEN Min2(ev.rm, M.cfg.maxmsgs) ELSE M.cfg.maxmsgs, !.mps = ev.mps, !.tam = ev.tam,
                             !.inq2 = IF resume THEN @ ELSE {}, !.out = IF resume THEN [i \in DOMAIN @ |-> [@[i] EXCEPT !.sent = FALSE]] ELSE <<>>]
             g2 == [g1 EXCEPT !.cl[x] = k1, !.sp = IF resume /\ ev.ver >= 4 THEN 1 ELSE 0, !.old = k.c]
         IN  IF ev.will = <<>> THEN g2
             ELSE LET w == ev.will[1]
                  IN  [g2 EXCEPT !.w = @ \cup {[cl |-> x, p |-> w.p, delay |-> w.delay, at |-> -1]},
                                 !.msg = Put(@, w.p, [p |-> w.p, t |-> w.t, q |-> w.q, r |-> w.r, e |-> FALSE, from |-> x, exp |-> -1, num |-> 0])]
    [] ev.e = "publish" ->
         LET known == Has(k.out, ev.id) /\ ev.q > 0
             exp == IF ev.mei >= 0 THEN g.now + ev.mei ELSE -1
             m == IF known THEN g.msg[ev.p] ELSE [p |-> ev.p, t |-> ev.t, q |-> ev.q, r |-> ev.r, e |-> ev.empty, from |-> x, exp |-> exp, num |-> g.n]
             again == known /\ ev.q = 2                       \* the broker has it: not a new message
             g1 == [g EXCEPT !.msg = Put(@, m.p, m), !.re = IF known THEN @ \cup {m.p} ELSE @,
                             !.cl[x].out = IF ev.q = 0 THEN @ ELSE Put(@, ev.id, [p |-> ev.p, stage |-> "pub", sent |-> TRUE, ev |-> ev])]
         IN  IF again \/ ~AnyAcl(g, x, m.t) \/ Dollar(M.cfg, m.t) THEN g1 ELSE [Published(g1, m) EXCEPT !.live = <<m>>]
    [] ev.e = "pubrel" -> [g EXCEPT !.cl[x].todo = @ \ {<<"pubrel", ev.id>>}, !.cl[x].out[ev.id].stage = "rel", !.cl[x].out[ev.id].sent = TRUE]
    [] ev.e = "puback" -> [g EXCEPT !.cl[x].todo = @ \ {<<"puback", ev.id>>}, !.cl[x].s.due = Put(@, k.fly[ev.id], Count(@, k.fly[ev.id]) - 1), !.cl[x].fly = Del(@, ev.id)]
    [] ev.e = "pubrec" -> [g EXCEPT !.cl[x].todo = @ \ {<<"pubrec", ev.id>>}, !.cl[x].s.rel = @ \cup {ev.id}, !.cl[x].relc = IF Has(k.fly, ev.id) THEN @ \cup {ev.id} ELSE @,
                                    !.cl[x].s.due = IF Has(k.fly, ev.id) THEN Put(@, k.fly[ev.id], Count(@, k.fly[ev.id]) - 1) ELSE @, !.cl[x].fly = Del(@, ev.id)]
    [] ev.e = "pubcomp" -> [g EXCEPT !.cl[x].todo = @ \ {<<"pubcomp", ev.id>>}, !.cl[x].s.rel = @ \ {ev.id}, !.cl[x].relc = @ \ {ev.id}, !.cl[x].credit = IF ev.id \in k.relc THEN @ ELSE @ + 1]
    [] ev.e = "subscribe" ->
         LET add(a, f) == LET key == <<ShareName(f.f), ShareFilter(f.f)>>
                          IN  [a EXCEPT !.newret = IF key[1] = "" /\ (f.rh = 0 \/ (f.rh = 1 /\ ~Has(a.cl[x].s.subs, key))) THEN Append(@, [f |-> key[2], q |-> f.q, sid |-> ev.sid]) ELSE @,
                                        !.cl[x].s.subs = Put(@, key, [q |-> f.q, nl |-> f.nl, rap |-> f.rap, sid |-> ev.sid])]
         IN  Fold(add, g, ev.fs)
    [] ev.e = "unsubscribe" -> [g EXCEPT !.cl[x].s.subs = [key \in {y \in DOMAIN @ : \A i \in 1..Len(ev.fs) : y # <<ShareName(ev.fs[i]), ShareFilter(ev.fs[i])>>} |-> @[key]]]
    [] ev.e = "disconnect" -> LET g1 == IF ev.sei >= 0 /\ k.ver = 5 THEN [g EXCEPT !.cl[x].s.sei = ev.sei] ELSE g
                              IN  IF ev.rc = 0 \/ k.ver < 5 THEN Goodbye(g1, x) ELSE Lost(g1, x)
    [] ev.e = "close" -> Lost(g, x)
    [] ev.e = "advance" ->
         LET now == g.now + ev.d
             a == [g EXCEPT !.now = now]
             silent == {y \in Clients : a.cl[y].c # 0 /\ a.cl[y].ka > 0 /\ now - a.cl[y].last > (a.cl[y].ka * 3) \div 2}
             a1 == Fold(Lost, [a EXCEPT !.silent = silent], SetSeq(silent))
             over == {y \in Clients : a1.cl[y].c = 0 /\ a1.cl[y].s.ex /\ a1.cl[y].s.end <= now}
             a2 == Fold(SessionOver, a1, SetSeq(over))
         IN  Fire(a2, {w \in a2.w : w.at # -1 /\ w.at <= now})
    [] ev.e = "term" -> Fold(Lost, [g EXCEPT !.here = {y \in Clients : g.cl[y].c # 0}], SetSeq(Clients))
    [] ev.e = "start" ->
         LET now == g.now + ev.d
         IN  IF M.cfg.persist THEN [g EXCEPT !.now = now]
             ELSE [g EXCEPT !.now = now, !.w = {}, !.ret = <<>>, !.cl = [y \in Clients |-> [@[y] EXCEPT !.s = NoSession]]]
    [] OTHER -> g

\* one packet on the wire
Wire(g, o) ==
  LET c == o[1]
      pk == o[2]
  IN
  IF Owner(g, c) = {} THEN g                                  \* to an earlier connection, or in answer to a goodbye
  ELSE
  LET x == CHOOSE x \in Owner(g, c) : TRUE
      k == g.cl[x]
      g0 == [g EXCEPT !.cl[x].inbox = Append(@, pk)]
  IN
  IF pk.k = "connack" THEN (IF pk.rc = 0 /\ pk.sp # g.sp THEN Bad(g0, "P06", <<"session present", x, pk.sp>>) ELSE g0)
  ELSE IF pk.k # "publish" THEN g0
  ELSE
  LET t == IF pk.t = <<>> THEN (IF Has(k.al, pk.ta) THEN k.al[pk.ta] ELSE <<"no such alias">>) ELSE pk.t
      m == IF Has(g.msg, pk.p) THEN g.msg[pk.p] ELSE [p |-> "?", t |-> <<"?">>, q |-> 0, r |-> FALSE, e |-> FALSE, from |-> "", exp |-> -1, num |-> 0]
      subs == {y \in DOMAIN k.s.subs : Matches(M.cfg, y[2], t)}
      fits == {y \in subs : Min2(m.q, k.s.subs[y].q) = pk.q}
      key == <<m.from, t, pk.q>>
      live == pk.d = 0 /\ ~(pk.r = 1 /\ g.newret # <<>>)
      g1 == [g0 EXCEPT !.cl[x].al = IF pk.ta > 0 THEN Put(@, pk.ta, t) ELSE @]
      g2 == IF ~k.s.ex THEN Bad(g1, "P06", <<"message without session", x, pk.p>>) ELSE g1
      g3 == IF m.t # t THEN Bad(Bad(g2, "P18", <<"topic", x, pk.p, t>>), "P01", <<"topic", x, pk.p, t>>) ELSE g2
      g4 == IF pk.ta > k.tam THEN Bad(g3, "P18", <<"alias", x, pk.ta>>) ELSE g3
      \* messages that were queued when their filter was still subscribed to come all the same
      g5 == IF subs = {} /\ pk.q = 0 THEN Bad(g4, "P01", <<"not subscribed", x, pk.p>>) ELSE g4
      g6 == IF pk.q > m.q THEN Bad(g5, "P34", <<"qos", x, pk.p, pk.q>>) ELSE g5
      g7 == IF pk.q = 0 /\ fits = {} /\ subs # {} THEN Bad(g6, "P17", <<"qos", x, pk.p, pk.q>>) ELSE g6
      g8 == IF pk.size > k.mps THEN Bad(g7, "P24", <<"size", x, pk.p, pk.size>>) ELSE g7
      g9 == IF ~AclOK(M.cfg, x, k.s.user, t, "read") THEN Bad(g8, "P16", <<"may not read", x, pk.p>>) ELSE g8
      g10 == IF m.exp >= 0 /\ g.now > m.exp THEN Bad(g9, "P14", <<"expired", x, pk.p>>) ELSE g9
      g11 == IF pk.r = 1 \/ pk.p \in g.re \/ m.num = 0 \/ m.e \/ \E y \in DOMAIN k.s.subs : y[1] # "" THEN g10
             ELSE IF Has(k.order, key) /\ k.order[key] > m.num THEN Bad(g10, "P05", <<"order", x, pk.p>>)
             ELSE [g10 EXCEPT !.cl[x].order = Put(@, key, m.num)]
      g12 == IF pk.q = 0 THEN g11
             ELSE IF Has(k.fly, pk.id) \/ pk.id \in k.s.rel THEN Bad(g11, "P04", <<"id in use", x, pk.id>>)
             ELSE [g11 EXCEPT !.cl[x].fly = Put(@, pk.id, <<pk.p, pk.q>>)]
      kk == g12.cl[x]
      \* what was confirmed on an earlier connection does not count against the receive maximum
      g13 == IF Cardinality(DOMAIN kk.fly) + Cardinality(kk.relc) > k.rm + kk.credit THEN Bad(g12, "P04", <<"too many", x, DOMAIN kk.fly, kk.s.rel>>) ELSE g12
  IN  IF pk.sid # <<>> /\ (g.live # <<>> /\ g.live[1].p = pk.p) /\ fits # {} /\ \A y \in fits : k.s.subs[y].sid # pk.sid[1] THEN Bad(g13, "P17", <<"subscription identifier", x, pk.p, pk.sid>>) ELSE g13

\* everything was sent
On(outs, c, ok(_)) == {i \in 1..Len(outs) : outs[i][1] = c /\ ok(outs[i][2])}
End(g, x, ev, outs, closed) ==
  LET conns == {y \in Clients : g.cl[y].c # 0}
      IsPub(pk, p) == pk.k = "publish" /\ pk.p = p
      shared(t) == \E y \in Clients : \E s \in DOMAIN g.cl[y].s.subs : s[1] # "" /\ Matches(M.cfg, s[2], t)
      limited(y) == g.cl[y].rm < 20 \/ M.cfg.maxmsgs < 20 \/ g.cl[y].mps < Inf \/ M.cfg.useacl
      \* P01: everyone with a matching subscription got a message that was just published
      e1 == IF g.live = <<>> \/ shared(g.live[1].t) THEN {}
            ELSE LET m == g.live[1]
                 IN  {y \in conns : Cardinality(On(outs, g.cl[y].c, LAMBDA pk : IsPub(pk, m.p))) # Copies(g, y, m.t, m.from, m.q, 0) + Copies(g, y, m.t, m.from, m.q, 1) + Copies(g, y, m.t, m.from, m.q, 2)
                                    /\ ~limited(y)}
      \* P02, P03: what is owed and not acknowledged is on its way to everyone connected
      e2 == {y \in conns : ~limited(y) /\ \E d \in DOMAIN g.cl[y].s.due : LET m == g.msg[d[1]] IN
                               ~shared(m.t) /\ ~(m.exp >= 0 /\ m.exp <= g.now) /\ g.cl[y].s.due[d] # Cardinality({i \in DOMAIN g.cl[y].fly : g.cl[y].fly[i] = d})}
      e2b == {y \in conns : \E i \in DOMAIN g.cl[y].fly : LET d == g.cl[y].fly[i] IN
                               ~shared(g.msg[d[1]].t) /\ Count(g.cl[y].s.due, d) < Cardinality({j \in DOMAIN g.cl[y].fly : g.cl[y].fly[j] = d}) /\ ~M.retained}
      \* P03: after a reconnect the release of everything the client has confirmed
      e3 == IF ev.e # "connect" THEN {} ELSE {i \in g.cl[x].s.rel : On(outs, ev.c, LAMBDA pk : pk.k = "pubrel" /\ pk.id = i) = {}}
      \* P08: an earlier connection with the same client identifier is closed
      e8 == ev.e = "connect" /\ g.old # 0 /\ g.old \notin closed
      \* P09: wills: the watcher gets those that are due, once, and no others
      wc == IF "watch" \in Clients THEN (IF ev.e = "term" THEN M.watch ELSE g.cl["watch"].c) ELSE 0
      willp == {p \in DOMAIN g.msg : g.msg[p].num = 0}
      got(p) == Cardinality({i \in 1..Len(outs) : outs[i][2].k = "publish" /\ outs[i][2].p = p /\ outs[i][2].r = 0 /\ outs[i][1] = g.watch})
      e9 == IF "watch" \notin Clients \/ g.watch = 0 \/ ev.e \in {"start", "subscribe"} THEN {} ELSE {p \in willp : got(p) # (IF p \in g.fire THEN 1 ELSE 0)}
      \* P10, P11: a new subscription gets exactly the retained messages
      ts == {t \in DOMAIN g.ret : ~(g.msg[g.ret[t]].exp >= 0 /\ g.msg[g.ret[t]].exp < g.now) /\ AclOK(M.cfg, x, IF x = "" THEN "" ELSE g.cl[x].s.user, t, "read")
                                  /\ AclOK(M.cfg, g.msg[g.ret[t]].from, g.cl[g.msg[g.ret[t]].from].s.user, t, "write")}
      want(p) == Cardinality({i \in 1..Len(g.newret) : \E t \in ts : g.ret[t] = p /\ Matches(M.cfg, g.newret[i].f, t)})
      e10 == IF ev.e # "subscribe" \/ limited(x) THEN {} ELSE {p \in DOMAIN g.msg : Cardinality(On(outs, ev.c, LAMBDA pk : pk.k = "publish" /\ pk.p = p /\ pk.r = 1)) # want(p)}
      \* P11: the retain flag of what is routed live
      e11 == IF g.live = <<>> THEN {} ELSE {y \in conns : LET m == g.live[1] IN
                 On(outs, g.cl[y].c, LAMBDA pk : pk.k = "publish" /\ pk.p = m.p /\ pk.r = 1) # {} /\ ~(m.r /\ \E s \in DOMAIN g.cl[y].s.subs : Matches(M.cfg, s[2], m.t) /\ g.cl[y].s.subs[s].rap)}
      \* P13: one member of each group gets it
      groups == IF g.live = <<>> THEN {} ELSE {s \in UNION {DOMAIN g.cl[y].s.subs : y \in Clients} : s[1] # "" /\ Matches(M.cfg, s[2], g.live[1].t)}
      members(s) == {y \in Clients : s \in DOMAIN g.cl[y].s.subs}
      plain == {y \in Clients : g.cl[y].s.ex /\ g.live # <<>> /\ MatchingSubs(g, y, g.live[1].t, g.live[1].from) # {}}
      n13 == IF groups = {} THEN 0 ELSE Cardinality({i \in 1..Len(outs) : IsPub(outs[i][2], g.live[1].p)})
      e13 == groups # {} /\ plain = {} /\ (n13 > Cardinality(groups) \/ ((\A s \in groups : members(s) \subseteq conns) /\ n13 # Cardinality(groups)))
      \* P23: those that have been silent for too long are disconnected, no one else
      e23 == IF ev.e # "advance" THEN FALSE ELSE g.silentc # closed
      \* P27: at a stop, everyone is told
      e27 == IF ev.e # "term" THEN {} ELSE {c \in g.herec : c[2] = 5 /\ On(outs, c[1], LAMBDA pk : pk.k = "disconnect" /\ pk.rc = 139) = {}}
      r1 == IF e1 # {} THEN Bad(g, "P01", <<"copies", e1, g.live>>) ELSE g
      r2 == IF e2 \cup e2b # {} THEN Bad(Bad(Bad(r1, "P02", <<"owed", e2, e2b>>), "P03", <<"owed", e2, e2b>>), "P19", <<"owed", e2, e2b>>) ELSE r1
      r3 == IF e3 # {} THEN Bad(Bad(r2, "P03", <<"not released", x, e3>>), "P07", <<"not released", x, e3>>) ELSE r2
      r8 == IF e8 THEN Bad(r3, "P08", <<"two connections", x, g.old>>) ELSE r3
      r9 == IF e9 # {} THEN Bad(r8, "P09", <<"wills", e9, g.fire>>) ELSE r8
      r10 == IF e10 # {} THEN Bad(Bad(r9, "P10", <<"retained", x, e10>>), "P11", <<"retained", x, e10>>) ELSE r9
      r11 == IF e11 # {} THEN Bad(r10, "P11", <<"retain flag", e11>>) ELSE r10
      r13 == IF e13 THEN Bad(r11, "P13", <<"copies", n13, groups>>) ELSE r11
      r23 == IF e23 THEN Bad(r13, "P23", <<"closed", closed, g.silentc>>) ELSE r13
      r27 == IF e27 # {} THEN Bad(r23, "P27", <<"not told", e27>>) ELSE r23
      lost(a, c) == IF Owner(a, c) = {} THEN a ELSE Bad(Lost(a, CHOOSE y \in Owner(a, c) : TRUE), "P06", <<"dropped", c>>)
  IN  Fold(lost, r27, SetSeq(closed))

\* scratch of one step
Scratch(g, x) ==
  [fire |-> {}, sp |-> 0, old |-> 0, live |-> <<>>, newret |-> <<>>, silent |-> {}, here |-> {},
   watch |-> IF "watch" \in Clients THEN g.cl["watch"].c ELSE 0,
   herec |-> {<<g.cl[y].c, g.cl[y].ver>> : y \in {y \in Clients : g.cl[y].c # 0}},
   silentc |-> {}] @@ g
Clean(g) == [f \in DOMAIN g \ {"fire", "sp", "old", "live", "newret", "silent", "here", "watch", "herec", "silentc"} |-> g[f]]

\* one input with everything it leads to
One(s, x, ev) ==
  LET g0 == Scratch(s.h, x)
      quiet == IF ev.e = "advance" THEN {y \in Clients : g0.cl[y].c # 0 /\ g0.cl[y].ka > 0 /\ g0.now + ev.d - g0.cl[y].last > (g0.cl[y].ka * 3) \div 2} ELSE {}
      g1 == Input([g0 EXCEPT !.silentc = {g0.cl[y].c : y \in quiet}], x, ev)
      gone == IF ev.e \in {"close", "disconnect"} THEN {ev.c} ELSE {}
  IN  {LET g2 == Fold(Wire, g1, r.outs)
           g3 == End(g2, x, ev, r.outs, r.closed)
       IN  [b |-> r.b, h |-> [Clean(g3) EXCEPT !.trail = Append(@, ev)]] : r \in React(s.b, ev)}

-----------------------------------------------------------------------------
(* What clients have in hand when they do something *)
See(k, pk) ==
  CASE pk.k = "publish" -> IF pk.q = 0 THEN k
                           ELSE IF pk.q = 1 THEN [k EXCEPT !.todo = @ \cup {<<"puback", pk.id>>}]
                           ELSE [k EXCEPT !.todo = @ \cup {<<"pubrec", pk.id>>}, !.inq2 = @ \cup {pk.id}, !.app = IF pk.id \in k.inq2 THEN @ ELSE More(@, pk.p, 1)]
    [] pk.k = "pubrel"  -> [k EXCEPT !.inq2 = @ \ {pk.id}, !.todo = @ \cup {<<"pubcomp", pk.id>>}]
    [] pk.k = "puback"  -> [k EXCEPT !.out = Del(@, pk.id)]
    [] pk.k = "pubrec"  -> IF Has(k.out, pk.id) THEN [k EXCEPT !.todo = @ \cup {<<"pubrel", pk.id>>}] ELSE k
    [] pk.k = "pubcomp" -> [k EXCEPT !.out = Del(@, pk.id)]
    [] OTHER -> k
SeeFirst(g, x, n) == [g EXCEPT !.cl[x] = [Fold(See, g.cl[x], SubSeq(g.cl[x].inbox, 1, n)) EXCEPT !.inbox = <<>>]]
SeeAll(g) == Fold(LAMBDA a, x : SeeFirst(a, x, Len(a.cl[x].inbox)), g, M.clients)

\* P03: each message reaches the application of a client once per subscription
Once(g) == LET dup == {x \in Clients : \E p \in DOMAIN g.cl[x].app : g.msg[p].q = 2 /\ g.cl[x].app[p] > M.copies}
           IN  IF dup # {} THEN Bad(g, "P03", <<"more than once", dup>>) ELSE g

-----------------------------------------------------------------------------
Setup == {s \in Fold(LAMBDA S, e : UNION {One([s EXCEPT !.h.nc = IF e.ev.e = "connect" THEN @ + 1 ELSE @], e.cl,
                                               IF e.ev.e = "connect" THEN e.ev @@ [c |-> s.h.nc + 1] ELSE e.ev @@ [c |-> s.h.cl[e.cl].c]) : s \in S},
                     {[b |-> InitBroker(M.cfg), h |-> Init0]}, M.setup) : TRUE}

Init == \E s \in Setup : b = s.b /\ h = s.h

Set(S) == \E s \in S : b' = s.b /\ h' = [s.h EXCEPT !.bad = Once(SeeAll(s.h)).bad]
FreeId(k) == CHOOSE i \in 1..100 : ~Has(k.out, i) /\ \A j \in 1..(i - 1) : Has(k.out, j)

Op(i) ==
  LET op == Ops[i]
      e == op.e
      x == op.cl
      g == SeeAll(h)
      g1 == [g EXCEPT !.cnt[i] = @ + 1]
      k == IF x = "" THEN Client0 ELSE g.cl[x]
      s1 == [b |-> b, h |-> g1]
  IN  /\ h.cnt[i] < op.max
      /\ CASE e = "connect" -> /\ (~op.takeover => k.c = 0)
                               /\ LET w == op.ev.will
                                      p == "w" \o ToString(h.nc + 1)
                                      ev == [op.ev EXCEPT !.will = IF w = <<>> THEN <<>> ELSE <<[w[1] EXCEPT !.p = p]>>] @@ [c |-> h.nc + 1]
                                  IN  Set(One([s1 EXCEPT !.h.nc = @ + 1], x, ev))
           [] e = "publish" -> /\ k.c # 0 /\ \A j \in DOMAIN k.out : k.out[j].sent
                               /\ LET p == IF op.ev.empty THEN "" ELSE "m" \o ToString(g.n + 1)
                                      ev == op.ev @@ [c |-> k.c, p |-> p, id |-> IF op.ev.q = 0 THEN 0 ELSE FreeId(k)]
                                  IN  Set(One([s1 EXCEPT !.h.n = @ + 1], x, ev))
           [] e \in {"subscribe", "unsubscribe", "disconnect", "ping"} ->
                               /\ k.c # 0
                               /\ Set(One(s1, x, op.ev @@ [c |-> k.c] @@ (IF e \in {"subscribe", "unsubscribe"} THEN [id |-> 90] ELSE <<>>)))
           [] e = "close"   -> /\ k.c # 0
                               \* it has seen only so much of what was sent last
                               /\ \E n \in 0..Len(h.cl[x].inbox) : Set(One([b |-> b, h |-> [SeeAll(SeeFirst(h, x, n)) EXCEPT !.cnt[i] = @ + 1]], x, [e |-> "close", c |-> k.c]))
           [] e = "ack"     -> /\ k.c # 0
                               /\ \E a \in k.todo : Set(One(s1, x, [e |-> a[1], c |-> k.c, id |-> a[2], rc |-> 0, of |-> IF Has(k.fly, a[2]) THEN k.fly[a[2]][1] ELSE ""]))
           [] e = "resend"  -> /\ k.c # 0
                               /\ LET late == {j \in DOMAIN k.out : ~k.out[j].sent}
                                  IN  /\ late # {}
                                      /\ LET j == CHOOSE j \in late : \A l \in late : g.msg[k.out[j].p].num <= g.msg[k.out[l].p].num
                                         IN  IF k.out[j].stage = "pub" THEN Set(One(s1, x, [k.out[j].ev EXCEPT !.c = k.c, !.dup = TRUE]))
                                             ELSE Set(One(s1, x, [e |-> "pubrel", c |-> k.c, id |-> j, rc |-> 0]))
           [] e = "advance" -> Set(One(s1, "", [e |-> "advance", d |-> op.d]))
           [] e = "restart" -> LET S1 == One(s1, "", [e |-> "term", q |-> <<>>, gap |-> 0])
                                   S2 == UNION {One(s, "", [e |-> "start", d |-> 2]) : s \in S1}
                                   again(S, w) == UNION {One([s EXCEPT !.h.nc = IF w.ev.e = "connect" THEN @ + 1 ELSE @], w.cl,
                                                             IF w.ev.e = "connect" THEN w.ev @@ [c |-> s.h.nc + 1] ELSE w.ev @@ [c |-> s.h.cl[w.cl].c]) : s \in S}
                               IN  Set(Fold(again, S2, Filter(M.setup, LAMBDA w : w.cl = "watch")))
           [] OTHER -> FALSE

Next == \E i \in 1..Len(Ops) : Op(i)
Spec == Init /\ [][Next]_<<b, h>>
Bounded == Len(h.trail) <= M.depth + Len(M.setup)

\* the numbers given to broker states do not matter
View == <<[x \in DOMAIN b \ {"cfg"} |-> b[x]], [x \in DOMAIN h \ {"trail"} |-> h[x]]>>

Short == [bad |-> h.bad, err |-> b.err, last |-> IF h.trail = <<>> THEN <<>> ELSE LET e == h.trail[Len(h.trail)] IN
            IF e.e = "connect" THEN <<"connect", e.c, e.cl, e.ver, e.clean, e.sei, IF e.will = <<>> THEN "" ELSE <<e.will[1].p, e.will[1].delay>>>>
            ELSE IF e.e = "publish" THEN <<"publish", e.c, e.t, e.q, e.r, e.p, e.id>>
            ELSE IF e.e = "subscribe" THEN <<"subscribe", e.c, e.fs[1].f, e.fs[1].q, e.sid>> ELSE e]
NoError == b.err = ""
Holds == h.bad = {}
Trail == (Len(h.trail) - Len(M.setup)) % 4 = 2 => PrintT("TRAIL " \o ToJson(h.trail))
=============================================================================
