------------------------------- MODULE Broker -------------------------------
(* The FlashMQ broker as a state machine.

   One record 'b' is the whole broker state.  Inputs (what clients, the clock and the operator do) are applied with
   Apply(b, ev), which yields the set of possible successor states; what the broker has to send because of it is kept per
   connection as a sequence of obligations (field 'ow').  Send(b, c, pk) is the broker sending packet pk on connection c:
   it discharges one obligation, and is an error when no obligation allows it.

   - Trace.tla checks recorded executions of the real broker: Apply with the recorded input, Send for every packet really
     seen, and EndStep demands that nothing is left owed once the broker is quiescent.
   - The MC_*.tla modules explore the same operators exhaustively, with all inputs of a small alphabet and all delivery
     orders, and check the properties as invariants with ghost history.

   Topics and filters are sequences of levels.  Payloads and pass-through properties are opaque strings.  Time is in whole
   seconds.  'b.err' is "" in a correct state, and says what went wrong otherwise.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Has(f, k) == k \in DOMAIN f
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Fold(op(_,_), base, s) == FoldLeft(op, base, s)
Filter(s, ok(_)) == SelectSeq(s, ok)
Inf == 1000000000                    \* stands for all large numbers: the harness does not tell them apart
Never == 2 * Inf
SetSeq(S) == SetToSeq(S)
D == INSTANCE Disk

Err(b, what) == IF b.err = "" THEN [b EXCEPT !.err = ToString(what)] ELSE b

-----------------------------------------------------------------------------
(* Topics and filters *)
StatName(t) == t # <<>> /\ t[1] = "$SYS"
Dollar(cfg, t) == t # <<>> /\ t[1] \in Range(cfg.dollar)

RECURSIVE MatchAt(_, _, _)
MatchAt(f, t, i) ==
  IF i > Len(f) THEN i > Len(t)
  ELSE IF f[i] = "#" THEN TRUE
  ELSE IF i > Len(t) THEN FALSE
  ELSE (f[i] = "+" \/ f[i] = t[i]) /\ MatchAt(f, t, i + 1)

Matches(cfg, f, t) == /\ MatchAt(f, t, 1)
                      /\ ~(Dollar(cfg, t) /\ f[1] \in {"+", "#"})

\* cfg.mixed lists the levels that contain a wildcard character next to something else
ValidFilter(cfg, f) == /\ f # <<>> /\ f # <<"">>
                       /\ \A i \in 1..Len(f) : f[i] \notin Range(cfg.mixed) /\ (f[i] = "#" => i = Len(f))
ValidTopic(cfg, t) == /\ t # <<>> /\ t # <<"">>
                      /\ \A i \in 1..Len(t) : t[i] \notin Range(cfg.mixed) /\ t[i] \notin {"+", "#"}

\* "$share/name/filter"
IsShare(f) == Len(f) >= 3 /\ f[1] = "$share"
ShareName(f) == IF IsShare(f) THEN f[2] ELSE ""
ShareFilter(f) == IF IsShare(f) THEN SubSeq(f, 3, Len(f)) ELSE f

FirstWild(f) == IF \E i \in 1..Len(f) : f[i] \in {"+", "#"}
                THEN (CHOOSE i \in 1..Len(f) : f[i] \in {"+", "#"} /\ \A j \in 1..(i-1) : f[j] \notin {"+", "#"}) - 1
                ELSE Inf

-----------------------------------------------------------------------------
(* Access control: cfg.acl is a sequence of rules [kind, user, acc, f]; kind "anon" | "user" | "pattern". *)
Subst(f, client, user) == [i \in 1..Len(f) |-> IF f[i] = "%c" THEN client ELSE IF f[i] = "%u" THEN user ELSE f[i]]
RuleHits(r, client, user, t) ==
  CASE r.kind = "anon"    -> user = "" /\ MatchAt(r.f, t, 1)
    [] r.kind = "user"    -> r.user = user /\ user # "" /\ MatchAt(r.f, t, 1)
    [] r.kind = "pattern" -> MatchAt(Subst(r.f, client, user), t, 1) \/ MatchAt(r.f, t, 1)
FileOK(cfg, client, user, t, acc) ==
  ~cfg.useacl \/
  LET hits == {r \in Range(cfg.acl) : RuleHits(r, client, user, t)}
  IN  /\ ~\E r \in hits : r.acc = "deny"
      /\ \E r \in hits : r.acc \in {acc, "readwrite"}

\* The plugin decides by a table (harness/plugin.cpp): the first rule that is about this.  lit: filters as such; otherwise topics that match them.
PlugHits(r, op, client, user, t, lit) ==
  r.op = op /\ r.cl \in {"*", client} /\ r.user \in {"*", user} /\ (r.any \/ IF lit THEN r.f = t ELSE MatchAt(r.f, t, 1))
PlugRules(cfg, op, client, user, t, lit) == Filter(cfg.plug, LAMBDA r : PlugHits(r, op, client, user, t, lit))
PlugSays(cfg, op, client, user, t, lit) == LET h == PlugRules(cfg, op, client, user, t, lit) IN IF h = <<>> THEN "ok" ELSE h[1].v
\* whether a message may be published (acc "write"), read, or be a will: what the file says first.  What the broker itself publishes always may.
Verdict(cfg, client, user, t, acc) ==
  IF client = "" /\ acc = "write" THEN "ok"
  ELSE IF ~FileOK(cfg, client, user, t, IF acc = "will" THEN "write" ELSE acc) THEN "deny"
  ELSE IF cfg.plug = <<>> THEN "ok"
  ELSE PlugSays(cfg, acc, client, user, t, FALSE)
AclOK(cfg, client, user, t, acc) == Verdict(cfg, client, user, t, acc) = "ok"
\* it may be published, but perhaps not as a retained message
MayPass(cfg, client, user, t) == Verdict(cfg, client, user, t, "write") \in {"ok", "nr"}

-----------------------------------------------------------------------------
(* Sizes of PUBLISH packets as they go over the wire *)
VarLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4
PubSize(m, ver, q, ta, notopic, sid) ==
  LET props == IF ver < 5 THEN 0
               ELSE m.prb + (IF m.exp >= 0 THEN 5 ELSE 0) + (IF ta > 0 THEN 3 ELSE 0) + (IF sid > 0 THEN 1 + VarLen(sid) ELSE 0)
      rem == 2 + (IF notopic THEN 0 ELSE m.tb) + (IF q > 0 THEN 2 ELSE 0)
             + (IF ver < 5 THEN 0 ELSE VarLen(props) + props) + m.plb
  IN  1 + VarLen(rem) + rem

-----------------------------------------------------------------------------
(* State *)
\* what the broker tells about itself, where cfg.stats; see below
StatTopics == {<<"$SYS", "broker", "clients", "total">>, <<"$SYS", "broker", "sessions", "total">>, <<"$SYS", "broker", "retained messages", "count">>}
NoStat == [v |-> [t \in StatTopics |-> <<0, Inf>>], there |-> FALSE, live |-> 0, ret |-> <<>>, got |-> {}]
InitBroker(cfg) ==
  [now |-> cfg.now, cfg |-> cfg, conns |-> <<>>, sess |-> <<>>, ret |-> <<>>, wills |-> {}, kw |-> {}, pool |-> {}, n |-> 0, up |-> TRUE, err |-> "",
   ids |-> {}, seen |-> <<>>, stat |-> NoStat, disk |-> [ret |-> {<<>>}, ses |-> {[sess |-> <<>>, wills |-> {}]}]]

Up(b, c) == Has(b.conns, c) /\ b.conns[c].st = "up" /\ ~b.conns[c].closing
LiveConn(b, cl) == IF Has(b.sess, cl) THEN b.sess[cl].conn ELSE 0
SessOf(b, c) == b.sess[b.conns[c].cl]
\* c is the connection that served the session last, even if it is gone by now
Served(b, c) == Has(b.conns, c) /\ Has(b.sess, b.conns[c].cl) /\ b.sess[b.conns[c].cl].lastc = c
OwnsSess(b, c) == Has(b.conns, c) /\ Has(b.sess, b.conns[c].cl) /\ b.sess[b.conns[c].cl].conn = c
Owe(b, c, x) == [b EXCEPT !.conns[c].ow = Append(@, x)]
Ctl(pk) == [k |-> "ctl", pk |-> pk]
OweCtl(b, c, pk) == IF Has(b.conns, c) THEN Owe(b, c, Ctl(pk)) ELSE b

QIds(s) == {s.q[i].id : i \in 1..Len(s.q)} \ {0}
UsedIds(s) == QIds(s) \cup s.outq2 \cup s.fl
QueueBytes(s) == Fold(LAMBDA a, e : a + e.m.sz, 0, s.q)

\* Everything still to be sent to a connection that is going away becomes optional
CloseConn(b, c) == [b EXCEPT !.conns[c].closing = TRUE]

-----------------------------------------------------------------------------
(* Handing one copy of message m to session cl through subscription sub = [f, share, q, nl, rap, sid].
   src: "live" (routed now) or "ret" (from the retained store). *)
ClearExpired(b, cl) ==
  LET s == b.sess[cl]
      dead == {i \in 1..Len(s.q) : s.q[i].m.exp >= 0 /\ s.q[i].m.exp <= b.now}
  IN  IF s.lastclr + 1 > b.now THEN b
      ELSE LET b1 == [b EXCEPT !.sess[cl].lastclr = b.now]
           IN  IF dead = {} THEN b1
               ELSE [b1 EXCEPT !.sess[cl].q = Filter(@, LAMBDA e : ~(e.m.exp >= 0 /\ e.m.exp <= b.now)),
                               !.sess[cl].quota = Min2(@ + Cardinality(dead), s.cap)]

\* Will the packet be too large for the client?  (alias use as the broker will do it)
AliasState(b, c, t) ==
  LET k == b.conns[c]
  IN  IF k.ver < 5 \/ k.tam = 0 THEN [ta |-> 0, known |-> FALSE]
      ELSE IF \E a \in DOMAIN k.aout : k.aout[a] = t THEN [ta |-> 1, known |-> TRUE]
      ELSE IF k.naout < k.tam THEN [ta |-> 1, known |-> FALSE]
      ELSE [ta |-> 0, known |-> FALSE]
\* naout counts the aliases the broker has handed out for packets it has sent or is about to send (t remembered in 'apend')
TooBig(b, c, m, q, sid) ==
  LET k == b.conns[c]
      known == \E a \in DOMAIN k.aout : k.aout[a] = m.t
      pend == m.t \in k.apend
      room == Cardinality(k.apend \cup {k.aout[a] : a \in DOMAIN k.aout}) < k.tam
      ta == IF k.ver >= 5 /\ k.tam > 0 /\ (known \/ pend \/ room) THEN 1 ELSE 0
  IN  PubSize(m, k.ver, q, ta, ta = 1 /\ (known \/ pend), sid) > k.mps
NotePending(b, c, m) ==
  LET k == b.conns[c]
      used == k.apend \cup {k.aout[a] : a \in DOMAIN k.aout}
  IN  IF k.ver >= 5 /\ k.tam > 0 /\ m.t \notin used /\ Cardinality(used) < k.tam THEN [b EXCEPT !.conns[c].apend = @ \cup {m.t}] ELSE b

OwePub(b, c, x) == NotePending(Owe(b, c, x), c, x.m)

\* At most so many bytes are waiting to be written to connection c
OwBytes(ow) == Fold(LAMBDA a, x : a + (IF x.k = "pub" THEN PubSize(x.m, 5, x.q, 1, FALSE, x.sid) ELSE 400), 0, ow)
\* The only messages the broker may drop because a client does not read: QoS 0, and only when more is waiting than the configured buffer takes.
MayDrop(b, c, m, q, sid) == q = 0 /\ b.conns[c].ow # <<>> /\ OwBytes(b.conns[c].ow) + PubSize(m, 5, 0, 1, FALSE, sid) >= b.cfg.wbuf

\* Several threads: messages of different publishers are in no particular order.  They are numbered by the driver (ev.num) and kept in that order,
\* so that orders that make no difference lead to the same state.
Concurrent(b) == b.cfg.threads > 1
Sorted(q, e) == LET late == {i \in 1..Len(q) : q[i].id = 0 /\ q[i].m.n > e.m.n}
                IN  IF late = {} THEN Append(q, e) ELSE InsertAt(q, CHOOSE i \in late : \A j \in late : i <= j, e)

Deliver(b0, cl, sub, m, src) ==
  LET q == Min2(m.q, sub.q)
      s0 == b0.sess[cl]
      r == (src = "ret") \/ (m.r /\ sub.rap)
      c == s0.conn
  IN
  IF ~AclOK(b0.cfg, cl, s0.user, m.t, "read") THEN b0
  ELSE
  LET b == IF q > 0 /\ c = 0 THEN ClearExpired(b0, cl) ELSE b0
      s == b.sess[cl]
      nn == IF ~Concurrent(b) \/ src # "live" THEN b.n + 1
            ELSE m.n * 16 + Cardinality({i \in 1..Len(s.q) : s.q[i].m.n = m.n}) + (IF c = 0 THEN 0 ELSE Len(Filter(b.conns[c].ow, LAMBDA o : o.k = "pub" /\ o.m.n = m.n)))
      full == q > 0 /\ (~(QueueBytes(s) < b.cfg.maxbytes \/ Len(s.q) = 0) \/ s.quota = 0)
      big == c # 0 /\ TooBig(b, c, m, q, sub.sid)
      b1 == IF Concurrent(b) /\ src = "live" THEN b ELSE [b EXCEPT !.n = nn]
      entry == [n |-> nn, m |-> m, q |-> q, r |-> r, sid |-> sub.sid, id |-> 0, sent |-> (c # 0), rt |-> (src = "ret"), f |-> <<sub.share, sub.f>>]
      b2 == IF q = 0 THEN b1
            ELSE [b1 EXCEPT !.sess[cl].quota = @ - 1,
                            !.sess[cl].q = IF s.destroy THEN @ ELSE IF Concurrent(b) THEN Sorted(@, entry) ELSE Append(@, entry)]
  IN  IF full \/ big THEN b                              \* a message that is too large counts as sent and completed
      ELSE IF c = 0 THEN (IF q = 0 \/ s.destroy THEN b ELSE b2)
      ELSE OwePub(b2, c, [k |-> "pub", n |-> nn, m |-> m, q |-> q, r |-> r, sid |-> sub.sid, id |-> 0, dup |-> FALSE, src |-> src,
                          f |-> <<sub.share, sub.f>>,
                          \* another thread may publish the will of the connection that was taken over while the new one is not ready yet
                          opt |-> MayDrop(b2, c, m, q, sub.sid) \/ (Concurrent(b) /\ q = 0 /\ m.w /\ m.from = cl)])

\* The subscriptions of session cl (not shared) that a message on t reaches
Hits(b, cl, t, from) ==
  LET subs == b.sess[cl].subs
  IN  {subs[k] : k \in {x \in DOMAIN subs : x[1] = "" /\ Matches(b.cfg, x[2], t) /\ ~(subs[x].nl /\ cl = from)}}

\* Share groups hit by topic t: pairs <<share, filter>>
Groups(b, t) ==
  {g \in UNION {{k \in DOMAIN b.sess[cl].subs : k[1] # ""} : cl \in DOMAIN b.sess} : Matches(b.cfg, g[2], t)}
Members(b, g) == {cl \in DOMAIN b.sess : g \in DOMAIN b.sess[cl].subs}

\* When there is no room for all copies of a message, it is the broker's choice which of them are dropped.
Scarce(b, cl, m, hits) ==
  LET s == b.sess[cl]
      k == Cardinality({x \in hits : x.q > 0 /\ m.q > 0})
  IN  k > 1 /\ (s.quota < k \/ QueueBytes(s) + (k - 1) * m.sz >= b.cfg.maxbytes)
RECURSIVE AllOrders(_)
AllOrders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o o : o \in AllOrders(S \ {x})} : x \in S}
Serve(b, cl, hits, m) ==
  {Fold(LAMBDA a, sub : Deliver(a, cl, sub, m, "live"), b, o) : o \in IF Scarce(b, cl, m, hits) THEN AllOrders(hits) ELSE {SetSeq(hits)}}
\* Which member of a share group gets a message is the broker's choice: all ways to choose one per group
RECURSIVE GroupChoices(_, _)
GroupChoices(b, G) == IF G = {} THEN {<<>>}
                 ELSE LET g == CHOOSE g \in G : TRUE IN {Put(c, g, cl) : c \in GroupChoices(b, G \ {g}), cl \in Members(b, g)}
Route(b, m, from) ==
  IF Dollar(b.cfg, m.t) THEN {b}
  ELSE UNION {Fold(LAMBDA acc, cl : UNION {LET h == Hits(a, cl, m.t, from) \cup {a.sess[cl].subs[g] : g \in {x \in DOMAIN ch : ch[x] = cl}}
                                            IN  IF h = {} THEN {a} ELSE Serve(a, cl, h, m) : a \in acc}, {b}, SetSeq(DOMAIN b.sess))
              : ch \in GroupChoices(b, Groups(b, m.t))}

SetRetained(b, m) ==
  IF b.cfg.rmode \notin {"enabled", "nopersist"} \/ Dollar(b.cfg, m.t) THEN b
  ELSE IF m.e THEN [b EXCEPT !.ret = Del(@, m.t)]
  ELSE IF m.plb > b.cfg.retmax THEN b
  ELSE [b EXCEPT !.ret = Put(@, m.t, [m EXCEPT !.r = TRUE, !.exp = IF b.cfg.retexp >= Inf THEN (IF @ < 0 THEN Never ELSE @)
                                                                  ELSE IF @ < 0 \/ @ > b.now + b.cfg.retexp THEN b.now + b.cfg.retexp ELSE @])]

-----------------------------------------------------------------------------
(* Wills and the end of connections and sessions *)
\* Some session may not have room for all copies of these wills: then it matters in what order they are published, which is the broker's choice.
Tight(b, W) ==
  Cardinality(W) > 1 /\
  (\/ \E v, w \in W : v # w /\ v.m.r /\ w.m.r /\ v.m.t = w.m.t           \* the last one stays
   \/ \E cl \in DOMAIN b.sess : LET s == b.sess[cl] IN /\ DOMAIN s.subs # {}
                                                      /\ \/ s.quota < 4 * Cardinality(W)
                                                         \/ QueueBytes(s) + 4 * FoldSet(LAMBDA w, a : a + w.m.sz, 0, W) >= b.cfg.maxbytes)
PublishWill(b, w) ==
  LET m == [w.m EXCEPT !.exp = IF w.mei >= 0 THEN b.now + w.mei ELSE -1, !.n = IF Concurrent(b) THEN @ ELSE b.n + 1]
      b1 == [b EXCEPT !.n = @ + 1]
      ok == b.cfg.wills /\ MayPass(b.cfg, m.from, m.user, m.t)
  IN  IF ~ok THEN {b1}
      ELSE {IF m.r /\ AclOK(b.cfg, m.from, m.user, m.t, "write") THEN SetRetained(x, m) ELSE x : x \in Route(b1, m, m.from)}

\* The session ends now: nothing remains of it, and a will that was waiting is published.
EndSession(b, cl) ==
  LET pend == {w \in b.wills : w.cl = cl}
      b1 == [b EXCEPT !.sess = Del(@, cl), !.wills = @ \ pend]
  IN  Fold(LAMBDA acc, w : UNION {PublishWill(a, w.w) : a \in acc}, {b1}, SetSeq(pend))

\* Connection c (that owns its session or lost it) is over. 'normal': the client said goodbye, the will is void.
\* taken: the session goes on with another connection; ended: the session was ended by that connection.
WillOf(b, c) == b.conns[c].will

DropConn(b, c, normal) ==
  LET k == b.conns[c]
      b0 == CloseConn(b, c)
      b1 == [b0 EXCEPT !.conns[c].will = <<>>]
      w == IF normal THEN <<>> ELSE k.will
      owner == OwnsSess(b, c)
  IN
  IF k.closing THEN {b}
  ELSE IF k.st # "up" \/ ~owner THEN {b1}
  ELSE
  LET s == b.sess[k.cl]
      b2 == [b1 EXCEPT !.sess[k.cl].conn = 0, !.sess[k.cl].disc = b.now]
  IN  IF s.destroy
      THEN IF w = <<>> THEN EndSession(b2, k.cl)
           ELSE UNION {EndSession(x, k.cl) : x \in PublishWill(b2, w[1])}
      ELSE IF w = <<>> THEN {b2}
      ELSE IF w[1].delay = 0 THEN PublishWill(b2, w[1])
      ELSE {[b2 EXCEPT !.wills = @ \cup {[cl |-> k.cl, at |-> b.now + w[1].delay, w |-> w[1]]}]}

-----------------------------------------------------------------------------
(* Protocol errors: the offender is told (MQTT 5) and dropped; nothing else happens. *)
ProtoErr(b, c, rcs) ==
  LET k == b.conns[c]
      told == IF k.ver < 5 THEN b
              ELSE IF k.st = "up" THEN OweCtl(b, c, [k |-> "disconnect", rcs |-> rcs])
              ELSE OweCtl(b, c, [k |-> "connack", sp |-> 0, rcs |-> rcs, ok |-> FALSE])
  IN  DropConn(told, c, FALSE)

-----------------------------------------------------------------------------
(* CONNECT *)
Refuse(b, c, rcs) ==
  {CloseConn(OweCtl(b, c, [k |-> "connack", sp |-> 0, rcs |-> rcs, ok |-> FALSE]), c)}

AnonAllowed(b, ev) == IF ev.lanon = "" THEN b.cfg.anon ELSE ev.lanon = "true"

\* the credentials: user "" with hasuser = FALSE is anonymous
\* the password file is asked first, and if that doesn't let the client in, the plugin
Login(b, ev) ==
  LET user == IF ev.hasuser THEN ev.user ELSE ""
      known == ev.hasuser /\ user \in DOMAIN b.cfg.users
  IN  IF ~ev.hasuser /\ AnonAllowed(b, ev) THEN "ok"
      ELSE IF IF known THEN ev.pw = b.cfg.users[user] ELSE DOMAIN b.cfg.users # {} /\ AnonAllowed(b, ev) THEN "ok"   \* the file settles it
      ELSE IF b.cfg.plug # <<>> THEN PlugSays(b.cfg, "login", ev.cl, user, <<>>, FALSE)
      ELSE IF ~known /\ AnonAllowed(b, ev) THEN "ok"
      ELSE "deny"
\* the reasons to give, in the client's protocol
Denial(ver, v) ==
  CASE v = "unavail" -> IF ver = 5 THEN <<136>> ELSE <<3>>
    [] v = "badmeth" -> <<140>>
    [] v \in {"error", "throw"} -> IF ver = 5 THEN <<128>> ELSE <<3>>
    [] OTHER -> IF ver = 5 THEN <<135, 134>> ELSE <<5, 4>>

\* Extended authentication (MQTT 5): the client names a method, am, and the plugin decides at every stage: op "auth" (CONNECT), "cont" and "reauth" (AUTH).
\* It may have the exchange go on, return data to the client, and say who the user is.
Am(ev) == IF "am" \in DOMAIN ev THEN ev.am ELSE ""
XRules(cfg, op, cl) == PlugRules(cfg, op, cl, "", <<>>, FALSE)
XSays(cfg, op, cl) == IF cfg.plug = <<>> THEN "badmeth" ELSE PlugSays(cfg, op, cl, "", <<>>, FALSE)
XData(cfg, op, cl) == LET h == XRules(cfg, op, cl) IN IF h = <<>> \/ h[1].t = <<>> THEN "" ELSE h[1].t[1]
XUser(cfg, op, cl, old) == LET h == XRules(cfg, op, cl) IN IF h = <<>> \/ h[1].x = "" THEN old ELSE h[1].x
\* the CONNECT as it is after a stage of it: data to return, and perhaps another user
Staged(cfg, op, ev) ==
  LET user == XUser(cfg, op, ev.cl, IF ev.hasuser THEN ev.user ELSE "")
  IN  [x \in DOMAIN ev \cup {"ad"} |-> CASE x = "ad" -> XData(cfg, op, ev.cl) [] x = "hasuser" -> TRUE [] x = "user" -> user [] OTHER -> ev[x]]

NewSession(b, cl, user) ==
  [user |-> user, conn |-> 0, lastc |-> 0, subs |-> <<>>, q |-> <<>>, inq2 |-> {}, outq2 |-> {}, fl |-> {}, quota |-> b.cfg.maxmsgs, cap |-> b.cfg.maxmsgs,
   exp |-> b.cfg.sesexp, destroy |-> FALSE, disc |-> -1, lastclr |-> -10, bridge |-> FALSE, gen |-> 0,
   rdef |-> {}]

\* what happens with the queue of a session that is resumed on connection c
RECURSIVE AllSeqs(_)
AllSeqs(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o o : o \in AllSeqs(S \ {x})} : x \in S}
\* The copies of one message (there can be several, by overlapping subscriptions) are in the queue in an order of the broker's choice,
\* which matters when only some of them can be sent.
CopyOrders(q, k) ==
  IF k < 1 \/ k >= Len(q) \/ q[k].id # 0 \/ q[k + 1].id # 0 \/ q[k].m.n # q[k + 1].m.n THEN {q}
  ELSE LET I == {i \in 1..Len(q) : q[i].id = 0 /\ q[i].m.n = q[k].m.n}
           at == SetToSortSeq(I, LAMBDA x, y : x < y)
           pos(i) == CHOOSE j \in 1..Len(at) : at[j] = i
       IN  {[i \in 1..Len(q) |-> IF i \in I THEN q[o[pos(i)]] ELSE q[i]] : o \in AllSeqs(I)}
ResumeQueue(b, c, cl) ==
  LET alive(e) == ~((e.m.exp >= 0 /\ e.m.exp < b.now) \/ ~MayPass(b.cfg, e.m.from, e.m.user, e.m.t))
      q0 == Filter(b.sess[cl].q, alive)
      step(a, e) ==
        LET s == a.sess[cl]
            big == TooBig(a, c, e.m, e.q, e.sid)
        IN  IF s.quota = 0 THEN a
            ELSE IF big THEN [a EXCEPT !.sess[cl].quota = @ - 1]
            ELSE OwePub([a EXCEPT !.sess[cl].quota = @ - 1, !.sess[cl].q = Append(@, [e EXCEPT !.sent = TRUE])], c,
                        [k |-> "pub", n |-> e.n, m |-> e.m, q |-> e.q, r |-> e.r, sid |-> e.sid, id |-> e.id, dup |-> e.sent, src |-> "queue", rt |-> e.rt,
                         f |-> e.f, opt |-> FALSE])
      res(q) ==
        LET b0 == Fold(step, [b EXCEPT !.sess[cl].q = <<>>], q)
            \* messages that were too large took a slot only while going through the queue
            b1 == [b0 EXCEPT !.sess[cl].quota = b.sess[cl].quota - Len(b0.sess[cl].q)]
        IN  Fold(LAMBDA a, id : OweCtl(a, c, [k |-> "pubrel", id |-> id, rc |-> 0, re |-> TRUE]), b1, SetSeq(b.sess[cl].outq2))
  IN  {res(q) : q \in CopyOrders(q0, b.sess[cl].quota)}

\* a transport connection on which nothing was said yet
NewConn(b, ver) ==
  [st |-> "new", pre |-> <<>>, am |-> "", defer |-> FALSE, asked |-> FALSE, ver |-> ver, cl |-> "", user |-> "", tam |-> 0, mps |-> Inf, will |-> <<>>, ow |-> <<>>, ain |-> <<>>, aout |-> <<>>, apend |-> {},
   closing |-> FALSE, paused |-> FALSE, lw |-> <<>>, rcv |-> <<0, 0, 0>>, ka |-> 0, last |-> b.now, naout |-> 0, bridge |-> FALSE,
   \* what stays as it was when the connection was made, whatever is configured later
   lim |-> [mps |-> b.cfg.mpsin, maxqos |-> b.cfg.maxqos, v3drop |-> b.cfg.v3drop, aliasin |-> b.cfg.aliasin]]

\* verdict: what comes of the login
ConnectAs(b, ev, verdict) ==
  LET c == ev.c
      cfg == b.cfg
      cl == IF ev.cl = "" THEN ev.gen ELSE ev.cl            \* gen: the id the broker assigned (seen in the answer), or ""
      user == IF ev.hasuser THEN ev.user ELSE ""
      lim == IF Has(b.conns, c) THEN b.conns[c].lim ELSE NewConn(b, ev.ver).lim
      base == [NewConn(b, ev.ver) EXCEPT !.lim = lim, !.cl = cl, !.user = user, !.tam = Min2(ev.tam, cfg.aliasout), !.mps = Min2(ev.mps, cfg.mpsin), !.ka = ev.ka, !.bridge = ev.bridge,
                                      !.am = Am(ev), !.defer = Has(b.conns, c) /\ b.conns[c].defer]
      bc == [b EXCEPT !.conns = Put(@, c, base)]
      badid == ev.badid \/ (ev.cl = "" /\ (ev.ver = 3 \/ (ev.ver < 5 /\ ~ev.clean)))
      haswill == cfg.wills /\ ev.will # <<>> /\ ~(cfg.rmode = "drop" /\ ev.will[1].r)
      willq == IF haswill THEN ev.will[1].q ELSE 0
      willerr == haswill /\ willq > lim.maxqos /\ (ev.ver = 5 \/ ~lim.v3drop)
      willret == ev.will # <<>> /\ ev.will[1].r /\ cfg.rmode = "disconnect"
      w0 == ev.will[1]
      will == IF haswill /\ willq <= lim.maxqos /\ AclOK(cfg, cl, user, w0.t, "will")
              THEN <<[m |-> [t |-> w0.t, p |-> w0.p, q |-> w0.q, r |-> (w0.r /\ cfg.rmode # "downgrade"), pr |-> w0.pr, exp |-> -1, sz |-> w0.tb + w0.plb,
                             tb |-> w0.tb, plb |-> w0.plb, prb |-> w0.prb, e |-> w0.empty, from |-> cl, user |-> user, n |-> IF Concurrent(b) THEN w0.num ELSE 0, w |-> TRUE, con |-> Concurrent(b)],
                       delay |-> w0.delay, mei |-> w0.mei]>>
              ELSE <<>>
      old == Has(b.sess, cl)
      os == b.sess[cl]
      resume == old /\ ~os.destroy /\ ~ev.clean
      sp == IF resume /\ ev.ver >= 4 THEN 1 ELSE 0
      sei == IF ev.ver = 5 THEN Min2(ev.sei, cfg.sesexp) ELSE cfg.sesexp
      destroy == IF ev.ver = 5 THEN sei = 0 ELSE ev.clean
      rm == IF ev.ver = 5 THEN Min2(ev.rm, cfg.maxmsgs) ELSE cfg.maxmsgs
      ka == IF ev.ver = 5 THEN Max2(ev.ka, 5) ELSE ev.ka
      oc == IF old THEN os.conn ELSE 0
      \* the earlier connection
      kicked == IF oc = 0 THEN bc
                ELSE LET b1 == IF bc.conns[oc].ver = 5 THEN OweCtl(bc, oc, [k |-> "disconnect", rcs |-> <<142>>]) ELSE bc
                     IN  [CloseConn(b1, oc) EXCEPT !.conns[oc].will = <<>>]
      oldwill == IF oc = 0 THEN <<>> ELSE b.conns[oc].will
      \* wills that become due because of this connect: an immediate one of the earlier connection, and everything that was waiting
      \* when the earlier session ends here; with a resume, waiting wills are void.
      due == (IF oldwill # <<>> /\ (oldwill[1].delay = 0 \/ ~resume) THEN <<oldwill[1]>> ELSE <<>>)
             \o (IF resume THEN <<>> ELSE [i \in 1..Cardinality({w \in b.wills : w.cl = cl}) |-> SetSeq({w \in b.wills : w.cl = cl})[i].w])
      \* an earlier connection that is not read from may only be gone, and its will published, later on
      stuck == oc # 0 /\ b.conns[oc].paused /\ b.conns[oc].ver = 5 /\ due # <<>> /\ oldwill # <<>> /\ due[1] = oldwill[1]
      s0 == IF resume THEN os ELSE NewSession(b, cl, user)
      s1 == [s0 EXCEPT !.conn = c, !.lastc = c, !.disc = -1, !.exp = sei, !.destroy = destroy, !.quota = rm, !.cap = rm, !.bridge = ev.bridge]
      b2 == [kicked EXCEPT !.sess = Put(@, cl, s1), !.wills = {w \in @ : w.cl # cl}, !.n = @ + 1,
                           !.conns[c].st = "up", !.conns[c].will = will, !.conns[c].ka = ka,
                           !.ids = IF ev.cl = "" THEN @ \cup {cl} ELSE @]
      ack == [k |-> "connack", sp |-> sp, rcs |-> <<0>>, ok |-> TRUE, sei |-> sei, rm |-> cfg.maxmsgs, mq |-> IF lim.maxqos < 2 THEN lim.maxqos ELSE -1,
              ra |-> IF cfg.rmode \in {"enabled", "nopersist"} THEN 1 ELSE 0, mps |-> lim.mps, tam |-> lim.aliasin,
              am |-> Am(ev), ad |-> IF "ad" \in DOMAIN ev THEN ev.ad ELSE "",
              sia |-> IF cfg.sids THEN 1 ELSE 0, ska |-> ka, acid |-> IF ev.cl = "" THEN cl ELSE "",
              opt |-> ev.mps < 100]                      \* it may be larger than what the client accepts
      \* A message may be on its way when a connection takes over: then QoS 0 copies go to either.
      either == IF oc = 0 \/ ~Concurrent(b) THEN <<>> ELSE LET l == Filter(bc.conns[oc].ow, LAMBDA o : o.k = "pub" /\ o.q = 0 /\ o.src = "live") IN [i \in 1..Len(l) |-> [l[i] EXCEPT !.opt = TRUE]]
      b3 == IF either = <<>> THEN OweCtl(b2, c, ack) ELSE [OweCtl(b2, c, ack) EXCEPT !.conns[c].ow = @ \o either]
      \* the wills of the earlier connection are published after the new one is in place, but not necessarily right away
      after == {[b4 EXCEPT !.kw = @ \cup Range(due)] : b4 \in ResumeQueue(b3, c, cl)}
               \cup (IF stuck THEN {[b4 EXCEPT !.kw = @ \cup Range(Tail(due)), !.conns[oc].lw = oldwill] : b4 \in ResumeQueue(b3, c, cl)} ELSE {})
  IN
  IF ev.tot > lim.mps THEN {[CloseConn(bc, c) EXCEPT !.conns[c].ow = <<[k |-> "refusal"]>>]}
  ELSE IF ev.badrm THEN ProtoErr(bc, c, <<130>>)
  ELSE IF willret THEN ProtoErr(bc, c, <<154>>)
  ELSE IF badid THEN Refuse(bc, c, IF ev.ver = 5 THEN <<133>> ELSE <<2>>)
  ELSE IF willerr THEN ProtoErr(bc, c, <<155>>)
  ELSE IF verdict \in {"async", "cont"} THEN
         LET more == IF Has(b.conns, c) /\ b.conns[c].pre # <<>> THEN Tail(b.conns[c].pre) ELSE <<>>
             b5 == [bc EXCEPT !.conns[c].st = "auth", !.conns[c].pre = <<ev>> \o more, !.conns[c].defer = @ \/ verdict = "async", !.conns[c].asked = verdict = "async"]
         IN  {IF verdict = "cont" THEN OweCtl(b5, c, [k |-> "auth", rc |-> 24, am |-> Am(ev), ad |-> IF "ad" \in DOMAIN ev THEN ev.ad ELSE ""]) ELSE b5}
  ELSE IF verdict # "ok" THEN Refuse(bc, c, Denial(ev.ver, verdict))
  ELSE IF old /\ os.user # user THEN Refuse(bc, c, IF ev.ver = 5 THEN <<135>> ELSE <<5>>)
  ELSE IF ev.cl = "" /\ (cl = "" \/ cl \in b.ids \/ old) THEN {Err(b, <<"assigned client id", cl>>)}
  ELSE after
Connect(b, ev) == IF Am(ev) = "" THEN ConnectAs(b, ev, Login(b, ev)) ELSE ConnectAs(b, Staged(b.cfg, "auth", ev), XSays(b.cfg, "auth", ev.cl))

-----------------------------------------------------------------------------
(* PUBLISH *)
Publish(b, ev) ==
  LET c == ev.c
      k == b.conns[c]
      cfg == b.cfg
      badalias == ev.ta > k.lim.aliasin \/ (ev.t = <<>> /\ ~Has(k.ain, ev.ta))
      t == IF ev.t = <<>> /\ ev.ta > 0 /\ Has(k.ain, ev.ta) THEN k.ain[ev.ta].t ELSE ev.t
      tb == IF ev.t = <<>> /\ ev.ta > 0 /\ Has(k.ain, ev.ta) THEN k.ain[ev.ta].tb ELSE ev.tb
      b1 == IF ev.ta > 0 /\ ev.t # <<>> THEN [b EXCEPT !.conns[c].ain = Put(@, ev.ta, [t |-> ev.t, tb |-> ev.tb])] ELSE b
      s == b.sess[k.cl]
      b2 == [b1 EXCEPT !.n = @ + 1]
      \* the plugin may change it
      alt0 == IF cfg.plug = <<>> THEN <<>> ELSE PlugRules(cfg, "altpub", k.cl, "", t, FALSE)
      al == alt0[1]
      alt == IF alt0 # <<>> THEN [t |-> IF al.t = <<>> THEN t ELSE al.t, tb |-> IF al.t = <<>> THEN tb ELSE al.tb, q |-> IF al.q < 0 THEN ev.q ELSE al.q,
                                  r |-> IF al.r < 0 THEN ev.r ELSE al.r = 1, pr |-> IF al.x = "" THEN ev.pr ELSE ev.apr[al.x][1],
                                  prb |-> IF al.x = "" THEN ev.prb ELSE ev.apr[al.x][2]]
             ELSE [t |-> t, tb |-> tb, q |-> ev.q, r |-> ev.r, pr |-> ev.pr, prb |-> ev.prb]
      m == [t |-> alt.t, p |-> ev.p, q |-> alt.q, r |-> (alt.r /\ cfg.rmode # "downgrade"), pr |-> alt.pr,
            exp |-> IF ev.mei >= 0 THEN b.now + ev.mei ELSE -1, sz |-> alt.tb + ev.plb, tb |-> alt.tb, plb |-> ev.plb, prb |-> alt.prb, e |-> ev.empty,
            from |-> k.cl, user |-> k.user, n |-> IF Concurrent(b) THEN ev.num ELSE b.n + 1, w |-> FALSE, con |-> Concurrent(b)]
      says == Verdict(cfg, k.cl, k.user, alt.t, "write")
      allowed == says \in {"ok", "nr", "drop"}
      rc == IF allowed \/ k.ver < 5 THEN 0 ELSE 135
      ack(x, code) == IF ev.q = 0 THEN x
                      ELSE OweCtl(x, c, [k |-> IF ev.q = 1 THEN "puback" ELSE "pubrec", id |-> ev.id, rc |-> code, re |-> FALSE])
      b3 == IF ev.q = 2 /\ rc = 0 THEN [b2 EXCEPT !.sess[k.cl].inq2 = @ \cup {ev.id}] ELSE b2
      b4 == ack(b3, rc)
      dropped == says = "drop" \/ (alt.r /\ cfg.rmode = "drop")
      b5 == IF alt.r /\ says = "ok" THEN SetRetained(b4, m) ELSE b4
  IN
  IF ev.tot > k.lim.mps THEN ProtoErr(b, c, <<149>>)
  ELSE IF ev.ta > 0 /\ badalias THEN ProtoErr(b, c, <<148>>)
  ELSE IF ~ValidTopic(cfg, t) THEN ProtoErr(b, c, <<129, 130, 144>>)
  ELSE IF ev.r /\ cfg.rmode = "disconnect" THEN ProtoErr(b1, c, <<154>>)
  ELSE IF ev.q > k.lim.maxqos THEN
         IF k.ver = 5 \/ ~k.lim.v3drop THEN ProtoErr(b1, c, <<155>>) ELSE {ack(b2, 0)}
  ELSE IF ev.q = 2 /\ ev.id \in s.inq2 THEN {ack(b2, 0)}
  ELSE IF ~allowed THEN {b4}
  ELSE IF dropped THEN {b4}
  ELSE Route(b5, m, k.cl)

Pubrel(b, ev) ==
  LET cl == b.conns[ev.c].cl
      found == ev.id \in b.sess[cl].inq2
  IN  {OweCtl([b EXCEPT !.sess[cl].inq2 = @ \ {ev.id}], ev.c,
              [k |-> "pubcomp", id |-> ev.id, rc |-> IF found \/ b.conns[ev.c].ver < 5 THEN 0 ELSE 146, re |-> FALSE])}

-----------------------------------------------------------------------------
(* Acknowledgements of what the broker sent *)
Entry(s, id) == {i \in 1..Len(s.q) : s.q[i].id = id}
FreeSlot(b, cl) == [b EXCEPT !.sess[cl].quota = Min2(@ + 1, b.sess[cl].cap)]
\* the message with that id is complete as far as the queue goes
Found(s, id) == Entry(s, id) # {} \/ id \in s.fl
Forget(b, cl, id) == [b EXCEPT !.sess[cl].q = Filter(@, LAMBDA e : e.id # id), !.sess[cl].fl = @ \ {id}]

Puback(b, ev) ==
  LET cl == b.conns[ev.c].cl
  IN  IF Found(b.sess[cl], ev.id) THEN {FreeSlot(Forget(b, cl, ev.id), cl)} ELSE {b}

Pubrec(b, ev) ==
  LET cl == b.conns[ev.c].cl
      s == b.sess[cl]
      found == Found(s, ev.id)
  IN  IF ev.rc >= 128 THEN Puback(b, ev)
      ELSE {OweCtl(IF found \/ ev.id \in s.outq2 THEN [Forget(b, cl, ev.id) EXCEPT !.sess[cl].outq2 = @ \cup {ev.id}] ELSE b, ev.c,
                   [k |-> "pubrel", id |-> ev.id, rc |-> IF found \/ b.conns[ev.c].ver < 5 THEN 0 ELSE 146, re |-> FALSE])}

Pubcomp(b, ev) ==
  LET cl == b.conns[ev.c].cl
  IN  IF ev.id \in b.sess[cl].outq2 THEN {FreeSlot([b EXCEPT !.sess[cl].outq2 = @ \ {ev.id}], cl)} ELSE {b}

-----------------------------------------------------------------------------
(* SUBSCRIBE / UNSUBSCRIBE *)
\* Retained messages are sent in an order of the broker's choice.  That matters when topic aliases are short and a packet may only fit with one.
RetOrders(b, cl, sub, ts) ==
  LET c == b.sess[cl].conn
      k == b.conns[c]
      used == k.apend \cup {k.aout[a] : a \in DOMAIN k.aout}
      fresh == ts \ used
      size(t, ta, no) == PubSize(b.ret[t], 5, Min2(b.ret[t].q, sub.q), ta, no, sub.sid)
  IN  IF /\ c # 0 /\ k.ver = 5 /\ k.tam > Cardinality(used) /\ Cardinality(fresh) > k.tam - Cardinality(used)
         /\ \E t \in fresh : (size(t, 0, FALSE) > k.mps) # (size(t, 1, FALSE) > k.mps)
      THEN {SetSeq(p) \o SetSeq(ts \ p) : p \in SUBSET fresh}
      ELSE {SetSeq(ts)}
GiveRetained(b, cl, sub) ==
  LET hit == {t \in DOMAIN b.ret : Matches(b.cfg, sub.f, t)}
      live == {t \in hit : /\ ~(b.ret[t].exp >= 0 /\ b.ret[t].exp < b.now)
                           /\ AclOK(b.cfg, b.ret[t].from, b.ret[t].user, t, "write")}
      s == b.sess[cl]
      qd == {t \in live : Min2(b.ret[t].q, sub.q) > 0}
      waiting == \E d \in s.rdef : \E t \in DOMAIN b.ret : t \notin d.done /\ Matches(b.cfg, d.sub.f, t)
      room == \/ qd = {}
              \/ /\ Cardinality(qd) <= s.quota
                 /\ \/ Cardinality(qd) = 1 /\ Len(s.q) = 0
                    \/ QueueBytes(s) + FoldSet(LAMBDA t, a : a + b.ret[t].sz, 0, qd) < b.cfg.maxbytes
      sb == IF b.cfg.stats /\ StatName(sub.f) /\ s.conn # 0 THEN [b EXCEPT !.stat.ret = Append(@, [c |-> s.conn, sub |-> sub, done |-> {}])] ELSE b
  IN  IF b.cfg.rmode \notin {"enabled", "nopersist"} THEN {b}
      ELSE IF hit = {} THEN {sb}
      \* With too little room in the queue, the broker tries for a while to deliver (part of) the retained messages later.
      \* Not before what is waiting already, either.
      ELSE IF ~room \/ (waiting /\ qd # {}) THEN {[b EXCEPT !.sess[cl].rdef = @ \cup {[sub |-> sub, done |-> {}, id |-> b.n]}, !.n = @ + 1]}
      ELSE {Fold(LAMBDA a, t : Deliver(a, cl, sub, b.ret[t], "ret"), b, o) : o \in RetOrders(b, cl, sub, live)}

Subscribe(b, ev0) ==
  LET c == ev0.c
      k == b.conns[c]
      cl == k.cl
      cfg == b.cfg
      \* the plugin may change it
      alter(x) == LET h == PlugRules(cfg, "altsub", cl, "", x.f, TRUE)
                  IN  IF cfg.plug = <<>> \/ h = <<>> THEN x ELSE [x EXCEPT !.f = IF h[1].t = <<>> THEN @ ELSE h[1].t, !.q = IF h[1].q < 0 THEN @ ELSE h[1].q]
      ev == [ev0 EXCEPT !.fs = [i \in 1..Len(@) |-> alter(@[i])]]
      bad == \/ ev.fs = <<>>
             \/ \E i \in 1..Len(ev.fs) : \/ ~ValidFilter(cfg, ev.fs[i].f)
                                         \/ (IsShare(ev.fs[i].f) /\ ~ValidFilter(cfg, ShareFilter(ev.fs[i].f)))
      badshare == \E i \in 1..Len(ev.fs) : IsShare(ev.fs[i].f) /\ (ev.fs[i].nl \/ k.bridge)
      badsid == ev.sid > 0 /\ ~cfg.sids
      toowide(x) == cfg.minwild > 0 /\ FirstWild(ShareFilter(x.f)) < cfg.minwild
      wide(x) == toowide(x) /\ cfg.wilddeny = "all"
      says(x) == IF cfg.plug = <<>> THEN "ok" ELSE PlugSays(cfg, "subscribe", cl, k.user, ShareFilter(x.f), TRUE)
      denied(x) == wide(x) \/ says(x) \notin {"ok", "nort", "drop"}
      code(x) == IF denied(x) THEN (IF k.ver = 5 THEN 135 ELSE IF k.ver = 4 THEN 128 ELSE Min2(x.q, k.lim.maxqos)) ELSE Min2(x.q, k.lim.maxqos)
      rcs == [i \in 1..Len(ev.fs) |-> code(ev.fs[i])]
      b1 == OweCtl(b, c, [k |-> "suback", id |-> ev.id, rcs |-> rcs])
      step(a, x) ==
        LET f == ShareFilter(x.f)
            key == <<ShareName(x.f), f>>
            sub == [f |-> f, share |-> key[1], q |-> Min2(x.q, k.lim.maxqos), nl |-> (x.nl \/ k.bridge), rap |-> (x.rap \/ k.bridge),
                    sid |-> IF cfg.sids THEN ev.sid ELSE 0]
            isnew == ~Has(a.sess[cl].subs, key)
            a1 == [a EXCEPT !.sess[cl].subs = Put(@, key, sub)]
        IN  IF denied(x) \/ says(x) = "drop" THEN {a}
            ELSE IF key[1] = "" /\ ~toowide(x) /\ says(x) = "ok" /\ (x.rh = 0 \/ (x.rh = 1 /\ isnew)) THEN GiveRetained(a1, cl, sub)
            ELSE {a1}
  IN  IF bad THEN ProtoErr(b, c, <<129, 130, 143>>)
      ELSE IF badsid \/ badshare THEN ProtoErr(b, c, <<130>>)
      ELSE Fold(LAMBDA S, x : UNION {step(a, x) : a \in S}, {b1}, ev.fs)

Unsubscribe(b, ev) ==
  LET c == ev.c
      cl == b.conns[c].cl
      bad == ev.fs = <<>> \/ \E i \in 1..Len(ev.fs) : ~ValidFilter(b.cfg, ev.fs[i])
      keys == {<<ShareName(ev.fs[i]), ShareFilter(ev.fs[i])>> : i \in 1..Len(ev.fs)}
  IN  IF bad THEN ProtoErr(b, c, <<129, 130, 143>>)
      ELSE {OweCtl([b EXCEPT !.sess[cl].subs = [x \in DOMAIN @ \ keys |-> @[x]]], c,
                   [k |-> "unsuback", id |-> ev.id, rcs |-> IF b.conns[c].ver = 5 THEN [i \in 1..Len(ev.fs) |-> 0] ELSE <<>>])}

-----------------------------------------------------------------------------
(* DISCONNECT and the passing of time *)
Disconnect(b, ev) ==
  LET c == ev.c
      k == b.conns[c]
      s == b.sess[k.cl]
  IN  IF k.ver = 5 /\ ev.sei > 0 /\ s.exp = 0 THEN ProtoErr(b, c, <<130>>)
      ELSE LET \* whoever says goodbye is not owed the answer to a CONNECT that came along with that
               b0 == [b EXCEPT !.conns[c].ow = [i \in 1..Len(@) |-> IF @[i].k = "ctl" /\ @[i].pk.k = "connack" THEN [@[i] EXCEPT !.pk.opt = TRUE] ELSE @[i]]]
               b1 == IF k.ver = 5 /\ ev.sei >= 0 THEN [b0 EXCEPT !.sess[k.cl].exp = Min2(ev.sei, b.cfg.sesexp), !.sess[k.cl].destroy = @ \/ ev.sei = 0] ELSE b0
           IN  DropConn(b1, c, k.ver < 5 \/ ev.rc = 0)

\* Everything that is due at the new time. The driver never stops the clock inside the slack the broker has for these.
Expired(b, cl) == b.sess[cl].conn = 0 /\ b.sess[cl].disc + b.sess[cl].exp <= b.now
DueWills(b) == {w \in b.wills : w.at <= b.now}
Silent(b, c) == LET k == b.conns[c]
                IN  /\ ~k.closing
                    /\ \/ k.st = "up" /\ k.ka > 0 /\ b.now - k.last > (k.ka * 3) \div 2
                       \/ k.st = "new" /\ b.now - k.last > 60       \* never completed its connect

RECURSIVE FlushWills(_)
FlushWills(b) == IF b.kw = {} THEN {b}
                 ELSE UNION {UNION {FlushWills(x) : x \in PublishWill([b EXCEPT !.kw = @ \ {w}], w)} : w \in IF Tight(b, b.kw) THEN b.kw ELSE {CHOOSE w \in b.kw : TRUE}}

\* The connection is dropped first, its will is published some time later.
DropFirst(b, c) ==
  LET k == b.conns[c]
      soon == ~k.closing /\ k.st = "up" /\ OwnsSess(b, c) /\ k.will # <<>> /\ (k.will[1].delay = 0 \/ b.sess[k.cl].destroy)
  IN  IF soon THEN {[x EXCEPT !.kw = @ \cup {k.will[1]}] : x \in DropConn([b EXCEPT !.conns[c].will = <<>>], c, FALSE)}
      ELSE DropConn(b, c, FALSE)
RECURSIVE DropQuiet(_)
DropQuiet(b) ==
  LET quiet == {c \in DOMAIN b.conns : Silent(b, c)}
  IN  IF quiet = {} THEN FlushWills(b)
      \* with wills among them, it matters in what order they go: a will is sent to those still there
      ELSE LET now == UNION {UNION {DropQuiet(x) : x \in DropFirst(b, c)} :
                             c \in IF \A c \in quiet : b.conns[c].will = <<>> THEN {CHOOSE c \in quiet : TRUE} ELSE quiet}
           IN  IF b.kw = {} THEN now ELSE now \cup UNION {DropQuiet(x) : x \in FlushWills(b)}
RECURSIVE PublishDue(_)
PublishDue(b) ==
  IF DueWills(b) = {} THEN {b}
  ELSE UNION {UNION {PublishDue(x) : x \in PublishWill([b EXCEPT !.wills = @ \ {w}], w.w)} :
              w \in IF Tight(b, {w.w : w \in DueWills(b)}) THEN DueWills(b) ELSE {CHOOSE w \in DueWills(b) : TRUE}}
RECURSIVE EndExpired(_)
EndExpired(b) ==
  LET dead == {cl \in DOMAIN b.sess : Expired(b, cl)}
      pend == {w \in b.wills : w.cl \in dead}
      \* a will that waited for the end of its session may find those sessions still there, as members of a share group
      order == pend # {} /\ \E cl \in dead : \E k \in DOMAIN b.sess[cl].subs : k[1] # ""
  IN  IF dead = {} THEN {b}
      ELSE IF ~order THEN UNION {EndExpired(x) : x \in EndSession(b, CHOOSE cl \in dead : TRUE)}
      ELSE UNION {UNION {EndExpired(x) : x \in EndSession(b, cl)} : cl \in dead}
           \cup UNION {UNION {EndExpired(x) : x \in PublishWill([b EXCEPT !.wills = @ \ {w}], w.w)} : w \in pend}

\* The broker has a timer for each of these, so when a lot of time passes at once they go off in any order.
DoDue(b) ==
  LET quiet == \E c \in DOMAIN b.conns : Silent(b, c)
      waits == \E w \in b.wills : Has(b.sess, w.cl) /\ Expired(b, w.cl)
      S0 == {b} \cup (IF quiet /\ DueWills(b) # {} THEN PublishDue(b) ELSE {})
      S1 == S0 \cup (IF quiet /\ waits THEN UNION {EndExpired(x) : x \in S0} ELSE {})
  IN  UNION {EndExpired(x) : x \in UNION {PublishDue(x) : x \in UNION {DropQuiet(x) : x \in S1}}}

\* Retained messages for which there was too little room can find some while their client is away.
RECURSIVE LateRetained(_, _)
LateRetained(b, todo) ==
  IF todo = {} THEN {b}
  ELSE LET x == CHOOSE x \in todo : TRUE
           cl == x[1]
           d == x[2]
           ts == {t \in DOMAIN b.ret : Matches(b.cfg, d.sub.f, t) /\ t \notin d.done /\ ~(b.ret[t].exp >= 0 /\ b.ret[t].exp < b.now)
                                        /\ AclOK(b.cfg, b.ret[t].from, b.ret[t].user, t, "write")}
       IN  UNION {LateRetained(Fold(LAMBDA a, t : Deliver(a, cl, d.sub, b.ret[t], "ret"),
                                    [b EXCEPT !.sess[cl].rdef = (@ \ {d}) \cup {[d EXCEPT !.done = @ \cup u]}], SetSeq(u)), todo \ {x}) : u \in SUBSET ts}
Away(b) == UNION {{<<cl, d>> : d \in b.sess[cl].rdef} : cl \in {x \in DOMAIN b.sess : b.sess[x].conn = 0}}

\* the will of an earlier connection that was not read from
LastWill(b, c) == [b EXCEPT !.kw = @ \cup Range(b.conns[c].lw), !.conns[c].lw = <<>>]
AllLast(b) == Fold(LastWill, b, SetSeq({c \in DOMAIN b.conns : b.conns[c].lw # <<>>}))
LastWills(b) == {Fold(LastWill, b, SetSeq(cs)) : cs \in SUBSET {c \in DOMAIN b.conns : b.conns[c].lw # <<>>}}

\* or just before its connection is dropped
Leaving(b) == UNION {{<<b.conns[c].cl, d>> : d \in b.sess[b.conns[c].cl].rdef} : c \in {x \in DOMAIN b.conns : Silent(b, x) /\ OwnsSess(b, x)}}
Advance(b, ev) == UNION {LateRetained(x, Away(x)) : x \in UNION {DoDue(a) : a \in UNION {LateRetained(y, Leaving(y)) : y \in {[z EXCEPT !.now = @ + ev.d] : z \in LastWills(b)}}}}

-----------------------------------------------------------------------------
(* Every ten seconds the broker publishes, and retains, what it counts. Only subscriptions that name $SYS see that. v: the values that may have been
   published last; live: how often that can have happened in this step (2: at least once); ret: subscriptions of this step that get what is retained. *)
Counts(b) == [t \in StatTopics |-> CASE t[3] = "clients" -> Cardinality({c \in DOMAIN b.conns : b.conns[c].st # "gone" /\ ~b.conns[c].closing})
                                     [] t[3] = "sessions" -> Cardinality(DOMAIN b.sess)
                                     [] OTHER -> Cardinality(DOMAIN b.ret)]
StatsDuring(b, x, d) ==
  LET o == Counts(b)
      n == Counts(x)
      sure == d >= 11
      k == [t \in StatTopics |-> IF t[3] = "retained messages"      \* expired ones go now and then
                                  THEN Cardinality({y \in DOMAIN b.ret \cap DOMAIN x.ret : x.ret[y].exp < 0 \/ x.ret[y].exp > x.now}) ELSE Min2(o[t], n[t])]
      g == [t \in StatTopics |-> IF t[3] = "retained messages" THEN Cardinality(DOMAIN b.ret \cup DOMAIN x.ret) ELSE Max2(o[t], n[t])]
  IN  [x EXCEPT !.stat = [@ EXCEPT !.v = [t \in StatTopics |-> IF sure THEN <<k[t], g[t]>> ELSE <<Min2(@[t][1], k[t]), Max2(@[t][2], g[t])>>],
                                   !.live = IF sure THEN 2 ELSE 1, !.there = @ \/ sure]]
StatAllowed(b, c, t) == AclOK(b.cfg, b.conns[c].cl, SessOf(b, c).user, t, "read")
StatSids(x) == IF x.sid > 0 THEN <<x.sid>> ELSE <<>>
StatSubs(b, c, t) == {x \in Range(SessOf(b, c).subs) : Matches(b.cfg, x.f, t)}
\* one that c receives
StatPacket(b, c, pk, t) ==
  LET sid(x) == pk.sid = (IF b.conns[c].ver = 5 THEN StatSids(x) ELSE <<>>)
      live == pk.r = 0 /\ b.stat.live > 0 /\ \E x \in StatSubs(b, c, t) : sid(x)
      rets == {i \in 1..Len(b.stat.ret) : LET x == b.stat.ret[i] IN pk.r = 1 /\ x.c = c /\ Matches(b.cfg, x.sub.f, t) /\ t \notin x.done /\ sid(x.sub)}
      fits == /\ OwnsSess(b, c) /\ pk.q = 0 /\ pk.id = 0 /\ pk.d = 0 /\ pk.pr = "" /\ pk.mei = (IF pk.r = 1 /\ b.conns[c].ver = 5 THEN Inf ELSE -1) /\ StatAllowed(b, c, t)
              /\ t \in StatTopics => b.stat.v[t][1] <= pk.v /\ pk.v <= b.stat.v[t][2]
  IN  IF ~fits \/ ~(live \/ rets # {}) THEN Err(b, <<"status message", c, t, pk, b.stat>>)
      ELSE IF live THEN [b EXCEPT !.stat.got = @ \cup {<<c, t>>}]
      ELSE [b EXCEPT !.stat.ret[CHOOSE i \in rets : \A j \in rets : i <= j].done = @ \cup {t}]
\* status messages that did not come
StatMissing(b) ==
  IF ~b.cfg.stats THEN {}
  ELSE LET on == {c \in DOMAIN b.conns : OwnsSess(b, c) /\ Up(b, c) /\ ~b.conns[c].paused /\ b.conns[c].mps >= 300}
       IN  {x \in on \X StatTopics : /\ StatAllowed(b, x[1], x[2])
                                     /\ \/ b.stat.live = 2 /\ x \notin b.stat.got /\ \E u \in StatSubs(b, x[1], x[2]) : u.share = ""
                                        \/ b.stat.there /\ \E i \in 1..Len(b.stat.ret) : LET e == b.stat.ret[i] IN e.c = x[1] /\ Matches(b.cfg, e.sub.f, x[2]) /\ x[2] \notin e.done}
StatForget(s) == [s EXCEPT !.live = 0, !.ret = <<>>, !.got = {}]

-----------------------------------------------------------------------------
(* Stop and start.  cfg.persist: there is a storage directory.  *)
\* All wills first (delayed ones wait in the session), then the goodbyes.
Faulty(ev) == "fault" \in DOMAIN ev \/ ("died" \in DOMAIN ev /\ ev.died)
TermWills(b) ==
  LET cs == {c \in DOMAIN b.conns : b.conns[c].st = "up" /\ ~b.conns[c].closing}
      withwill == {c \in cs : b.conns[c].will # <<>>}
      one(acc, c) == UNION {LET w == a.conns[c].will[1]
                                a1 == [a EXCEPT !.conns[c].will = <<>>]
                            IN  IF w.delay = 0 \/ a.sess[a.conns[c].cl].destroy THEN PublishWill(a1, w)
                                ELSE {[a1 EXCEPT !.wills = @ \cup {[cl |-> a.conns[c].cl, at |-> a.now + w.delay, w |-> w]}]} : a \in acc}
  IN  UNION {Fold(one, {b}, o) : o \in IF Tight(b, {b.conns[c].will[1] : c \in withwill}) THEN AllSeqs(withwill) ELSE {SetSeq(withwill)}}
TermBye(b) ==
  LET cs == {c \in DOMAIN b.conns : b.conns[c].st = "up" /\ ~b.conns[c].closing}
      bye(a, c) == LET a1 == IF a.conns[c].ver = 5 THEN OweCtl(a, c, [k |-> "disconnect", rcs |-> <<139>>]) ELSE a
                       cl == a.conns[c].cl
                   IN  [CloseConn(a1, c) EXCEPT !.sess[cl].disc = a.now]        \* still its session's connection: waiting retained messages may go out
      pre == {c \in DOMAIN b.conns : b.conns[c].st # "up" /\ ~b.conns[c].closing}
  IN  [Fold(CloseConn, Fold(bye, b, SetSeq(cs)), SetSeq(pre)) EXCEPT !.up = FALSE]

\* What a save writes, per kind of state.  Sessions with a client are saved as if it went away now.
SnapSes(b) ==
  LET stays == {cl \in DOMAIN b.sess : ~(b.sess[cl].conn # 0 /\ b.sess[cl].destroy)}
      served(cl) == b.sess[cl].conn # 0 /\ Has(b.conns, b.sess[cl].conn) /\ ~b.conns[b.sess[cl].conn].closing
      withwill == {cl \in stays : served(cl) /\ b.conns[b.sess[cl].conn].will # <<>> /\ b.conns[b.sess[cl].conn].will[1].delay > 0}
      willof(cl) == b.conns[b.sess[cl].conn].will[1]
  IN  [sess |-> [cl \in stays |-> [b.sess[cl] EXCEPT !.conn = 0, !.lastclr = -10, !.rdef = {}, !.cap = b.cfg.maxmsgs, !.disc = IF served(cl) THEN b.now ELSE @,
                                                    !.quota = Max2(0, b.cfg.maxmsgs - Len(b.sess[cl].q) - Cardinality(b.sess[cl].outq2)),
                                                    !.q = [i \in 1..Len(@) |-> [@[i] EXCEPT !.sent = FALSE]]]],
       wills |-> b.wills \cup {[cl |-> cl, at |-> b.now + willof(cl).delay, w |-> willof(cl)] : cl \in withwill}]

\* The state is saved, from (for each kind) one of the states in S.  When something goes wrong, or the broker stops meanwhile, it is the new or the old one.
OpsWrong(ev) == IF "ops" \in DOMAIN ev THEN D!Judge(ev.ops) ELSE ""
Saved(b, S, ev) ==
  LET d == IF Faulty(ev) THEN b.disk ELSE [ret |-> {}, ses |-> {}]
      why == OpsWrong(ev)
      b1 == [b EXCEPT !.disk = [ret |-> IF b.cfg.rmode = "enabled" THEN d.ret \cup {x.ret : x \in S} ELSE b.disk.ret, ses |-> d.ses \cup {SnapSes(x) : x \in S}]]
  IN  IF why # "" THEN Err(b1, <<"disk", why>>) ELSE b1

\* the process is gone, with everything that is not on disk
Dead(b) == [b EXCEPT !.up = FALSE, !.kw = {}, !.conns = [c \in DOMAIN @ |-> [@[c] EXCEPT !.closing = TRUE, !.st = "gone"]]]

\* The saving is done by a thread of its own: between any two of the things that are due.
OneDue(b) == UNION {DropFirst(b, c) : c \in {c \in DOMAIN b.conns : Silent(b, c)}}
             \cup UNION {PublishWill([b EXCEPT !.wills = @ \ {w}], w.w) : w \in DueWills(b)}
             \cup UNION {PublishWill([b EXCEPT !.kw = @ \ {w}], w) : w \in b.kw}
             \cup UNION {EndSession(b, cl) : cl \in {cl \in DOMAIN b.sess : Expired(b, cl)}}
             \cup LateRetained(b, Away(b) \cup Leaving(b))
RECURSIVE Meanwhile(_)
Meanwhile(S) == LET T == S \cup {[x EXCEPT !.conns = [c \in DOMAIN @ |-> [@[c] EXCEPT !.ow = <<>>]]] : x \in UNION {OneDue(x) : x \in S}} IN IF T = S THEN S ELSE Meanwhile(T)

AdvanceSaving(b, ev) ==
  LET R == IF b.cfg.stats THEN {StatsDuring(b, x, ev.d) : x \in Advance(b, ev)} ELSE Advance(b, ev)
      saved == b.cfg.crash /\ "saved" \in DOMAIN ev /\ ev.saved
      at == {[x EXCEPT !.now = b.now + ev.d, !.conns = [c \in DOMAIN @ |-> [@[c] EXCEPT !.ow = <<>>]]] : x \in {b} \cup LastWills(b)}
      M == Meanwhile(at)
      S == IF saved THEN {Saved(x, M \cup {x}, ev) : x \in R} ELSE R
  IN  IF "died" \in DOMAIN ev /\ ev.died THEN {Dead(x) : x \in S} ELSE S

\* what a start finds on disk, d seconds later
Start(b, ev) ==
  LET cfg == b.cfg
      lost(k) == "lost" \in DOMAIN ev /\ k \in Range(ev.lost)         \* this file was damaged
      rets == IF lost("ret") THEN {<<>>} ELSE b.disk.ret
      sess == IF lost("ses") THEN {[sess |-> <<>>, wills |-> {}]} ELSE b.disk.ses
      \* a lower limit on how long sessions live counts from now
      late(s) == IF s.disc + s.exp > b.now + ev.d + cfg.sesexp THEN [s EXCEPT !.disc = b.now + ev.d, !.exp = cfg.sesexp] ELSE s
      kept(r) == [t \in {x \in DOMAIN r : r[x].plb <= cfg.retmax} |-> r[t]]
  IN  IF OpsWrong(ev) # "" THEN {Err(b, <<"disk", OpsWrong(ev)>>)} ELSE
      {[b EXCEPT !.up = TRUE, !.conns = <<>>, !.now = @ + ev.d, !.stat = NoStat,
                 !.sess = IF cfg.persist THEN [cl \in DOMAIN se.sess |-> late(se.sess[cl])] ELSE <<>>,
                 !.wills = IF cfg.persist THEN se.wills ELSE {},
                 !.ret = IF cfg.persist /\ cfg.rmode = "enabled" THEN kept(re) ELSE <<>>,
                 !.disk = [ret |-> {re}, ses |-> {se}]] : re \in rets, se \in sess}

-----------------------------------------------------------------------------
(* Very many messages, one after the other, that one subscription takes, each acknowledged when it comes (so many that packet ids come round).
   What the receiver saw is part of the input: ids, as ranges of consecutive ones, in order. *)
Bulk(b, ev) ==
  LET cl == b.conns[ev.s].cl
      from == b.conns[ev.c].cl
      used == UsedIds(b.sess[cl])
      hit == {x \in DOMAIN b.sess : Hits(b, x, ev.t, from) # {}}
      fit == /\ hit = {cl} /\ Groups(b, ev.t) = {} /\ Cardinality(Hits(b, cl, ev.t, from)) = 1
             /\ \A x \in Hits(b, cl, ev.t, from) : x.q >= ev.q
             /\ b.sess[cl].conn = ev.s /\ b.sess[cl].quota > 150
      count == Fold(LAMBDA a, r : a + r[2] - r[1] + 1, 0, ev.ids)
  IN  IF ~fit THEN {Err(b, <<"bulk: setup">>)}
      ELSE IF ev.acked # ev.n THEN {Err(b, <<"bulk: acknowledged", ev.acked>>)}
      ELSE IF ev.got # ev.n \/ count # ev.n \/ ~ev.inorder THEN {Err(b, <<"bulk: received", ev.got, count, ev.inorder>>)}
      ELSE IF \E i \in 1..Len(ev.ids) : ev.ids[i][1] < 1 \/ ev.ids[i][2] > 65535 THEN {Err(b, <<"bulk: bad packet id", ev.ids>>)}
      ELSE IF \E i \in 1..Len(ev.ids) : \E x \in used : ev.ids[i][1] <= x /\ x <= ev.ids[i][2] THEN {Err(b, <<"bulk: packet id in use", used, ev.ids>>)}
      ELSE {[b EXCEPT !.n = @ + ev.n]}

-----------------------------------------------------------------------------
(* One input *)
Touch(b, c) == IF Has(b.conns, c) THEN [b EXCEPT !.conns[c].last = b.now] ELSE b

ApplyUp(b, ev) ==
  CASE ev.e = "publish"     -> Publish(b, ev)
    [] ev.e = "puback"      -> Puback(b, ev)
    [] ev.e = "pubrec"      -> Pubrec(b, ev)
    [] ev.e = "pubrel"      -> Pubrel(b, ev)
    [] ev.e = "pubcomp"     -> Pubcomp(b, ev)
    [] ev.e = "subscribe"   -> Subscribe(b, ev)
    [] ev.e = "unsubscribe" -> Unsubscribe(b, ev)
    [] ev.e = "ping"        -> {OweCtl(b, ev.c, [k |-> "pingresp"])}
    [] ev.e = "disconnect"  -> Disconnect(b, ev)
    [] ev.e = "bad"         -> ProtoErr(b, ev.c, ev.rcs)
    [] OTHER                -> {Err(b, <<"unknown event", ev.e>>)}

\* When a recorded step is checked, 'seen' holds the number of packets the broker sent in it, per connection it did not close and payload.
\* Choices that owe more than that lead nowhere.
Promising(b) ==
  \A c \in DOMAIN b.seen : Has(b.conns, c) /\ ~b.conns[c].paused =>
     LET pubs == Filter(b.conns[c].ow, LAMBDA x : x.k = "pub" /\ ~x.opt)
     IN  \A p \in {pubs[i].m.p : i \in 1..Len(pubs)} :
           Cardinality({i \in 1..Len(pubs) : pubs[i].m.p = p}) <= (IF Has(b.seen[c], p) THEN b.seen[c][p] ELSE 0)
Prune(S) == IF Cardinality(S) < 2 THEN S
            ELSE LET g == {x \in S : Promising(x)} IN IF g = {} THEN {CHOOSE x \in S : TRUE} ELSE g

\* While the plugin thinks about a login, nothing has an effect; what arrives is dealt with when the client is let in.
Waiting(b, c) == Has(b.conns, c) /\ b.conns[c].st = "auth" /\ ~b.conns[c].closing
Defer(b, ev) == {[Touch(b, ev.c) EXCEPT !.conns[ev.c].pre = IF b.conns[ev.c].defer THEN Append(@, ev) ELSE @]}      \* or forget

\* the plugin publishes something by itself
PlugPub(b, ev) ==
  LET m == [t |-> ev.t, p |-> ev.p, q |-> ev.q, r |-> ev.r, pr |-> "", exp |-> -1, sz |-> ev.tb + ev.plb, tb |-> ev.tb, plb |-> ev.plb, prb |-> 0, e |-> FALSE,
            from |-> "", user |-> "", n |-> b.n + 1, w |-> FALSE, con |-> Concurrent(b)]
      b1 == [b EXCEPT !.n = @ + 1]
  IN  Route(IF ev.r THEN SetRetained(b1, m) ELSE b1, m, "")

RECURSIVE Apply(_, _)
\* what the plugin decided in the end
Admit(b, c, con, verdict) ==
  LET pre == b.conns[c].pre
      S == ConnectAs(b, con, verdict)
  IN  IF verdict \in {"async", "cont"} THEN S ELSE Fold(LAMBDA T, x : UNION {Apply(s, x) : s \in T}, S, Tail(pre))
\* the outcome for a client that was let in before
Again(b, c, verdict, data) ==
  CASE verdict = "async" -> {[b EXCEPT !.conns[c].asked = TRUE]}
    [] verdict \in {"ok", "cont"} -> {OweCtl(b, c, [k |-> "auth", rc |-> IF verdict = "ok" THEN 0 ELSE 24, am |-> b.conns[c].am, ad |-> data])}
    [] OTHER -> ProtoErr(b, c, Denial(5, verdict))
Decide(b, ev) ==
  LET c == ev.c
      k == b.conns[c]
      b1 == [b EXCEPT !.conns[c].asked = FALSE]
  IN  IF ~Has(b.conns, c) \/ k.closing \/ ~k.asked THEN {b}
      ELSE IF k.st = "up" THEN Again(b1, c, ev.v, "")
      ELSE Admit(b1, c, [x \in DOMAIN k.pre[1] |-> IF x = "ad" THEN "" ELSE k.pre[1][x]], ev.v)
\* AUTH
Auth(b, ev) ==
  LET c == ev.c
      k == b.conns[c]
      op == IF ev.rc = 24 THEN "cont" ELSE "reauth"
  IN  IF ~Has(b.conns, c) \/ k.closing THEN {b}
      ELSE IF ~(k.st = "up" \/ (Waiting(b, c) /\ k.am # "" /\ ev.rc = 24)) \/ ev.am # k.am \/ ev.rc \notin {24, 25} THEN ProtoErr(Touch(b, c), c, <<130, 129>>)
      ELSE IF k.st = "up" THEN Again([Touch(b, c) EXCEPT !.conns[c].user = XUser(b.cfg, op, k.cl, @)], c, XSays(b.cfg, op, k.cl), XData(b.cfg, op, k.cl))
      ELSE Admit(Touch(b, c), c, Staged(b.cfg, op, k.pre[1]), XSays(b.cfg, op, k.cl))
\* All merges of the inputs of several connections, each in its own order
RECURSIVE ApplyBurst(_, _)
ApplyBurst(S, q) ==
  IF \A i \in 1..Len(q) : q[i] = <<>> THEN UNION {FlushWills(s) : s \in S}
  ELSE IF Len(q) = 1
  THEN UNION {FlushWills(s) : s \in FoldLeft(LAMBDA T, e : UNION {Apply(s, e) : s \in Prune(T \cup UNION {FlushWills(s) : s \in T})}, S, q[1])}
  ELSE LET T == Prune(S \cup UNION {FlushWills(s) : s \in S})
       IN  UNION {ApplyBurst(UNION {Apply(s, Head(q[i])) : s \in T}, [q EXCEPT ![i] = Tail(@)]) : i \in {j \in 1..Len(q) : q[j] # <<>>}}

\* The broker may find a malformed packet before it has dealt with what arrived just before it; those packets are then lost with the connection.
Oversize(b, x) == x.e = "publish" /\ x.tot > (IF Has(b.conns, x.c) THEN b.conns[x.c].lim.mps ELSE b.cfg.mpsin)
BadAt(b, q) == {i \in 1..Len(q) : q[i].e = "bad" \/ Oversize(b, q[i])}
Cut(b, q) == IF BadAt(b, q) = {} THEN {q}
             ELSE LET i == CHOOSE i \in BadAt(b, q) : \A j \in BadAt(b, q) : i <= j IN {SubSeq(q, 1, j) \o SubSeq(q, i, Len(q)) : j \in 0..(i - 1)}
RECURSIVE CutAll(_, _)
CutAll(b, qs) == IF qs = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Cut(b, Head(qs)), t \in CutAll(b, Tail(qs))}

\* The broker is told to stop just after it was sent something: any part of that may still be dealt with, before or after the wills.
Parts(q) == UNION {{<<SubSeq(q, 1, i), SubSeq(q, i + 1, j)>> : i \in 0..j} : j \in 0..Len(q)}
RECURSIVE AllParts(_)
AllParts(qs) == IF qs = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Parts(Head(qs)), t \in AllParts(Tail(qs))}
TermWith(b, qs) ==
  UNION {LET pre == [i \in 1..Len(ps) |-> ps[i][1]]
             post == [i \in 1..Len(ps) |-> ps[i][2]]
         IN  {TermBye(u) : u \in UNION {ApplyBurst({y}, post) : y \in UNION {UNION {TermWills(z) : z \in FlushWills(AllLast(x))} : x \in ApplyBurst({b}, pre)}}} : ps \in AllParts(qs)}

Apply(b, ev) ==
  CASE ev.e = "connect" -> IF Has(b.conns, ev.c) /\ b.conns[ev.c].closing THEN {b}
                           ELSE IF Up(b, ev.c) \/ Waiting(b, ev.c) THEN ProtoErr(b, ev.c, <<130>>)
                           ELSE Connect(b, ev)
    [] ev.e = "open"    -> {[b EXCEPT !.conns = Put(@, ev.c, NewConn(b, ev.ver))]}
    [] ev.e = "badconnect" -> IF Has(b.conns, ev.c) /\ b.conns[ev.c].closing THEN {b}
                              ELSE {[b EXCEPT !.conns = Put(@, ev.c, [NewConn(b, ev.ver) EXCEPT !.closing = TRUE, !.ow = <<[k |-> "refusal"]>>])]}
    [] ev.e = "burst"   -> UNION {ApplyBurst({b}, q) : q \in CutAll(b, ev.q)}
    [] ev.e = "bad" /\ ~Up(b, ev.c) -> IF Has(b.conns, ev.c) THEN {CloseConn(b, ev.c)}
                                       ELSE {[b EXCEPT !.conns = Put(@, ev.c, [NewConn(b, 5) EXCEPT !.closing = TRUE])]}
    [] ev.e = "advance" -> AdvanceSaving(b, ev)
    [] ev.e = "kill"    -> {Dead(b)}
    [] ev.e = "close"   -> IF Has(b.conns, ev.c) THEN {[LastWill(x, ev.c) EXCEPT !.conns[ev.c].st = "gone"] : x \in DropConn(b, ev.c, FALSE)} ELSE {b}
    [] ev.e = "term"    -> {IF b.cfg.persist THEN Saved(x, {x}, ev) ELSE x : x \in TermWith(b, ev.q)}
    [] ev.e = "start"   -> Start(b, ev)
    [] ev.e = "pause"   -> {[b EXCEPT !.conns[ev.c].paused = TRUE]}
    [] ev.e = "resume"  -> {[LastWill(b, ev.c) EXCEPT !.conns[ev.c].paused = FALSE, !.conns[ev.c].rcv = <<1, 0, 0>>]}
    [] ev.e = "nop"     -> {b}
    [] ev.e = "decide"  -> Decide(b, ev)
    [] ev.e = "plugpub" -> PlugPub(b, ev)
    [] ev.e = "auth"    -> Auth(b, ev)
    [] ev.e = "disconnect" /\ Waiting(b, ev.c) -> {CloseConn(b, ev.c)}
    [] ev.e \notin {"burst", "advance", "kill", "close", "term", "start", "pause", "resume", "reload", "files", "bulk", "bad", "stray", "plugpub"} /\ Waiting(b, ev.c) ->
         IF ev.e = "publish" /\ Oversize(b, ev) THEN {[b EXCEPT !.conns[ev.c].closing = TRUE, !.conns[ev.c].ow = <<[k |-> "refusal"]>>]} ELSE Defer(b, ev)
    [] ev.e = "reload"  -> {IF ev.valid THEN [b EXCEPT !.cfg = ev.cfg] ELSE b}
    [] ev.e = "files"   -> \* looked at some time before the given time is over
                           Advance([b EXCEPT !.cfg = ev.cfg], ev) \cup {[x EXCEPT !.cfg = ev.cfg] : x \in Advance(b, ev)}
    [] ev.e = "bulk"    -> Bulk(b, ev)
    [] ev.e = "publish" /\ ~Up(b, ev.c) /\ Oversize(b, ev) /\ (Has(b.conns, ev.c) => ~b.conns[ev.c].closing) ->
         {[b EXCEPT !.conns = Put(@, ev.c, [(IF Has(b.conns, ev.c) THEN b.conns[ev.c] ELSE NewConn(b, 5)) EXCEPT !.closing = TRUE, !.ow = <<[k |-> "refusal"]>>])]}
    [] ev.e = "stray"   -> {Touch(b, ev.c)}                 \* packets before CONNECT: without effect
    [] OTHER -> IF Up(b, ev.c) THEN ApplyUp(Touch(b, ev.c), ev) ELSE {b}

-----------------------------------------------------------------------------
(* The broker sends packet pk on connection c *)
\* x must be sent before y
Before(x, y) ==
  x.k # "refusal" /\ y.k # "refusal" /\
  (
  \/ x.k = "ctl" /\ x.pk.k = "connack"
  \/ /\ x.k = "ctl" /\ y.k = "ctl"
     /\ x.pk.k = y.pk.k /\ x.pk.k # "pubrel"
  \/ /\ x.k = "pub" /\ y.k = "pub"
     /\ \/ x.src = "queue" /\ y.src = "queue" /\ x.id # 0 /\ y.id # 0 /\ (~x.m.con \/ (x.m.from = y.m.from /\ ~x.m.w /\ ~y.m.w))       \* sent before, in this order
        \/ x.src = "queue" /\ y.src = "queue" /\ x.m.n # y.m.n /\ (x.m.from = y.m.from \/ ~x.m.con) /\ ~x.m.w /\ ~y.m.w /\ ~(x.rt /\ y.rt)
        \/ x.src = "queue" /\ y.src = "live" /\ x.m.from = y.m.from /\ ~x.m.w /\ ~y.m.w        \* wills are published when the broker gets to it
        \/ x.src = "live" /\ y.src = "live" /\ x.m.from = y.m.from /\ x.q = y.q /\ x.f = y.f /\ ~x.m.w /\ ~y.m.w
  \/ x.k = "ctl" /\ x.pk.k = "disconnect" /\ y.k = "ctl"
  )

CtlMatch(x, pk) ==
  IF x.k = "refusal" THEN pk.k = "connack" /\ pk.rc # 0 /\ pk.sp = 0      \* the answer to a malformed CONNECT is optional
  ELSE
  /\ x.k = "ctl" /\ x.pk.k = pk.k
  /\ CASE pk.k = "connack" ->
            /\ pk.rc \in Range(x.pk.rcs) /\ pk.sp = x.pk.sp
            /\ (x.pk.ok /\ pk.v5) =>
                 /\ pk.sei = x.pk.sei /\ pk.rm = x.pk.rm /\ pk.mq = x.pk.mq /\ pk.ra = x.pk.ra /\ pk.mps = x.pk.mps
                 /\ pk.tam = x.pk.tam /\ pk.wsa # 0 /\ pk.sia = x.pk.sia /\ pk.ssa # 0 /\ pk.ska = x.pk.ska /\ pk.acid = x.pk.acid
                 /\ pk.am = x.pk.am /\ pk.ad = x.pk.ad
       [] pk.k \in {"puback", "pubrec", "pubrel", "pubcomp"} -> pk.id = x.pk.id /\ pk.rc = x.pk.rc
       [] pk.k \in {"suback", "unsuback"} -> pk.id = x.pk.id /\ pk.rcs = x.pk.rcs
       [] pk.k = "disconnect" -> pk.rc \in Range(x.pk.rcs)
       [] pk.k = "pingresp" -> TRUE
       [] pk.k = "auth" -> pk.rc = x.pk.rc /\ pk.am = x.pk.am /\ pk.ad = x.pk.ad
       [] OTHER -> FALSE

\* t: the topic the packet is about
PubMatch(b, c, x, pk, t) ==
  /\ x.k = "pub"
  /\ x.m.t = t /\ x.m.p = pk.p /\ x.q = pk.q /\ x.r = (pk.r = 1)
  /\ (x.dup = (pk.d = 1) \/ (Concurrent(b) /\ x.src = "queue"))   \* the connection can have ended between the copies of a message
  /\ IF b.conns[c].ver = 5
     THEN /\ pk.pr = x.m.pr
          /\ pk.mei = (IF x.m.exp < 0 THEN -1 ELSE IF x.m.exp = Never THEN Inf ELSE x.m.exp - b.now)
          /\ pk.sid = (IF x.sid > 0 THEN <<x.sid>> ELSE <<>>)
     ELSE pk.pr = "" /\ pk.mei = -1 /\ pk.sid = <<>>
  /\ IF x.q = 0 THEN pk.id = 0
     ELSE IF x.id # 0 THEN pk.id = x.id
     ELSE pk.id # 0 /\ (Served(b, c) => pk.id \notin UsedIds(SessOf(b, c)))

\* may obligation i be the next one of its kind?
Dropable(x) == x.k = "pub" /\ x.opt
Free(ow, i) == \A j \in 1..(i - 1) : ~Before(ow[j], ow[i]) \/ Dropable(ow[j])

\* what had to come first and could be dropped, was dropped
Take(b, c, i) ==
  LET ow == b.conns[c].ow
      lost == {j \in 1..(i - 1) : Dropable(ow[j]) /\ Before(ow[j], ow[i])}
      keep == SetToSortSeq((1..Len(ow)) \ (lost \cup {i}), LAMBDA x, y : x < y)
  IN  IF lost = {} THEN [b EXCEPT !.conns[c].ow = RemoveAt(@, i)]
      ELSE [b EXCEPT !.conns[c].ow = [j \in 1..Len(keep) |-> ow[keep[j]]]]

\* remember the id that the broker gave to queue entry / in-flight message n of the session of connection c
NoteId(b, c, x, id) ==
  IF x.q = 0 \/ ~Served(b, c) THEN b
  ELSE LET cl == b.conns[c].cl
           s == b.sess[cl]
       IN  IF s.destroy /\ ~\E i \in 1..Len(s.q) : s.q[i].n = x.n THEN [b EXCEPT !.sess[cl].fl = @ \cup {id}]
           ELSE IF x.id # 0 \/ ~\E i \in 1..Len(s.q) : s.q[i].n = x.n THEN b
           ELSE \* what was sent comes first in the queue, in the order of sending
                LET i == CHOOSE i \in 1..Len(s.q) : s.q[i].n = x.n
                    rest == RemoveAt(s.q, i)
                    k == Cardinality({j \in 1..Len(rest) : rest[j].id # 0})
                    at == IF k = 0 THEN 1 ELSE 1 + CHOOSE j \in 1..Len(rest) : rest[j].id # 0 /\ \A h \in (j + 1)..Len(rest) : rest[h].id = 0
                IN  [b EXCEPT !.sess[cl].q = InsertAt(rest, at, [s.q[i] EXCEPT !.id = id])]

\* After a client resumed reading: <<1, bytes of QoS 0 messages, bytes of others, largest>>
Counted(b, c, pk) ==
  IF b.conns[c].rcv[1] = 0 THEN b
  ELSE [b EXCEPT !.conns[c].rcv = <<Max2(@[1], pk.size), IF pk.q = 0 THEN @[2] + pk.size ELSE @[2], IF pk.q > 0 THEN @[3] + pk.size ELSE @[3]>>]

\* The states after the broker sends pk on c: more than one when the packet does not tell which of several obligations it meets.
Alike(x, y) == x.sid = y.sid /\ x.m.exp = y.m.exp /\ x.m.pr = y.m.pr /\ x.m.from = y.m.from /\ x.m.user = y.m.user /\ x.src = y.src
Send(b, c, pk) ==
  IF ~Has(b.conns, c) THEN {Err(b, <<"packet on unknown connection", c>>)}
  ELSE
  LET k == b.conns[c]
      ow == k.ow
  IN
  IF pk.k = "truncated-packet" /\ k.closing THEN {b}
  ELSE IF pk.k = "publish"
  THEN LET ok == IF pk.ta = 0 THEN pk.t # <<>> ELSE pk.ta <= k.tam /\ (pk.t # <<>> \/ Has(k.aout, pk.ta))
           t == IF pk.t # <<>> THEN pk.t ELSE IF ok THEN k.aout[pk.ta] ELSE <<>>
           b1 == IF pk.ta > 0 /\ pk.t # <<>> THEN [b EXCEPT !.conns[c].aout = Put(@, pk.ta, pk.t), !.conns[c].apend = @ \ {pk.t}] ELSE b
           cand == {i \in 1..Len(ow) : Free(ow, i) /\ PubMatch(b, c, ow[i], pk, t)}
       IN  IF ~ok THEN {Err(b, <<"topic alias", c, pk>>)}
           ELSE IF b.cfg.stats /\ StatName(t) THEN {StatPacket(b1, c, pk, t)}
           ELSE IF cand = {} /\ OwnsSess(b, c) /\ Has(b.ret, t) /\ (\E d \in SessOf(b, c).rdef : Matches(b.cfg, d.sub.f, t) /\ t \notin d.done)
                THEN LET cl == k.cl
                         try(d) == LET b2 == Deliver([b1 EXCEPT !.sess[cl].rdef = (@ \ {d}) \cup {[d EXCEPT !.done = @ \cup {t}]}], cl, d.sub, b.ret[t], "ret")
                                       i == Len(b2.conns[c].ow)
                                   IN  [b |-> b2, i |-> i, ok |-> i > Len(ow) /\ PubMatch(b2, c, b2.conns[c].ow[i], pk, t)]
                         good == {d \in SessOf(b, c).rdef : Matches(b.cfg, d.sub.f, t) /\ t \notin d.done /\ try(d).ok}
                     IN  IF good = {} THEN {Err(b, <<"publish not owed", c, pk, ow>>)}
                         ELSE {LET r == try(d) IN NoteId(Take(r.b, c, r.i), c, r.b.conns[c].ow[r.i], pk.id) : d \in good}
           ELSE IF cand = {} THEN {Err(b, <<"publish not owed", c, pk, ow>>)}
           ELSE {NoteId(Counted(Take(b1, c, i), c, pk), c, ow[i], pk.id) : i \in {i \in cand : \A j \in cand : j < i => ~Alike(ow[j], ow[i])}}
  ELSE LET cand == {i \in 1..Len(ow) : CtlMatch(ow[i], pk) /\ Free(ow, i)}
       IN  IF cand = {} THEN {Err(b, <<"packet not owed", c, pk, ow>>)}
           ELSE {Take(b, c, CHOOSE i \in cand : \A j \in cand : i <= j)}

-----------------------------------------------------------------------------
(* The broker is quiescent: 'closed' are the connections it has closed in this step *)
MustSend(ow) == Filter(ow, LAMBDA x : ~Dropable(x) /\ ~(x.k = "ctl" /\ x.pk.k = "connack" /\ x.pk.ok /\ x.pk.opt))
Leftover(b, k) ==
  IF k.st = "gone" \/ k.paused THEN <<>>
  ELSE IF k.closing /\ b.up
  THEN Filter(k.ow, LAMBDA x : x.k = "ctl" /\ (x.pk.k = "disconnect" \/ (x.pk.k = "connack" /\ ~(x.pk.ok /\ (k.ver < 5 \/ x.pk.opt)))))
  ELSE Filter(MustSend(k.ow), LAMBDA x : x.k # "refusal")

\* what was kept for a client that did not read is limited by the configured buffer size and what the kernel takes
TooMuch(b, k) == /\ k.rcv[1] > 0
                 /\ k.rcv[2] > b.cfg.kbuf + 2 * k.rcv[3] + 4 * Max2(b.cfg.wbuf, 2 * k.rcv[1])

EndStep(b, closed) ==
  LET left == {c \in DOMAIN b.conns : Leftover(b, b.conns[c]) # <<>>}
      \* that a client that does not read is cut off, it learns when it reads again
      shouldclose == {c \in DOMAIN b.conns : b.conns[c].closing /\ b.conns[c].st # "gone" /\ (b.up => ~b.conns[c].paused)}
      mustopen == {c \in DOMAIN b.conns : ~b.conns[c].closing}
      stay == mustopen \cup {c \in DOMAIN b.conns : b.up /\ b.conns[c].closing /\ b.conns[c].paused /\ b.conns[c].st # "gone"}
      b1 == [b EXCEPT !.conns = [c \in stay |-> [b.conns[c] EXCEPT !.ow = IF b.conns[c].paused THEN @ ELSE <<>>,
                                                                   !.rcv = <<0, 0, 0>>,
                                                                   !.apend = IF b.conns[c].paused THEN @ ELSE {}]],
                   !.seen = <<>>, !.stat = StatForget(@)]
      much == {c \in DOMAIN b.conns : TooMuch(b, b.conns[c])}
      silent == StatMissing(b)
  IN  IF silent # {} THEN Err(b, <<"status not sent", CHOOSE x \in silent : TRUE>>)
      ELSE IF left # {} THEN LET c == CHOOSE c \in left : TRUE IN Err(b, <<"not sent", c, Leftover(b, b.conns[c])>>)
      ELSE IF ~(shouldclose \subseteq closed) THEN Err(b, <<"not closed", shouldclose \ closed>>)
      ELSE IF closed \cap mustopen # {} THEN Err(b, <<"closed without reason", closed \cap mustopen>>)
      ELSE IF much # {} THEN LET c == CHOOSE c \in much : TRUE IN Err(b, <<"buffered too much", c, b.conns[c].rcv>>)
      ELSE b1

\* input, everything sent because of it, and nothing more
\* states in which something went wrong are dropped as long as there are others
Good(S) == LET g == {x \in S : x.err = ""} IN IF g = {} THEN {CHOOSE x \in S : TRUE} ELSE g
Observe(b, out, closed) ==
  LET S == Fold(LAMBDA acc, o : Good(UNION {IF a.err # "" THEN {a} ELSE Send(a, o[1], o[2]) : a \in acc}), {b}, out)
  IN  {IF x.err # "" THEN x ELSE EndStep(x, closed) : x \in S}

Seen(b, out, closed) ==
  LET cs == {out[i][1] : i \in 1..Len(out)} \cup DOMAIN b.conns
      on(c) == Filter(out, LAMBDA o : o[1] = c /\ o[2].k = "publish")
  IN  [c \in cs \ closed |-> LET s == on(c) IN [p \in {s[i][2].p : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i][2].p = p})]]
Step(b, ev, out, closed) ==
  LET a == IF ev.e \in {"burst", "term"} THEN [b EXCEPT !.seen = Seen(b, out, IF ev.e = "term" THEN {} ELSE closed)] ELSE b
  IN  UNION {Observe(x, out, closed) : x \in UNION {FlushWills(y) : y \in Apply(a, ev)}}

=============================================================================
