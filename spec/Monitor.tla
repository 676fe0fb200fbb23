------------------------------- MODULE Monitor -------------------------------
(***************************************************************************)
(* Trace validation: reads a behaviour recorded from the real crate (one     *)
(* event per API call, see harness/) and checks, event by event, that it is  *)
(* a behaviour of Gpt.tla.  Every requirement is a named clause              *)
(* "<property>.<aspect>".  A clause which fails prints                       *)
(*     <<"VIOL", clause, event number>>                                      *)
(* (or "KNOWN" for a finding recorded in known-findings.json), and how       *)
(* often every clause was applied is printed at the end.                     *)
(*                                                                         *)
(* The state is what the specification knows: the disk objects by handle     *)
(* (H), what the devices should hold (X), the digests of all other objects   *)
(* and devices (LH, LD), and the GUIDs seen so far (us).                     *)
(***************************************************************************)
EXTENDS Gpt, Types, Crash, Mbr, Json, IOUtils

VARIABLES i,    \* number of the next event
          H,    \* handle -> [c, d, s, o, rt, pv]: configuration, device, state, queries
          X,    \* device -> [exp, fail]: table last written, a write failed since
          LH,   \* digests of the handles <<name, digest>>
          LD,   \* digests of the devices
          us    \* unique GUIDs and disk GUIDs seen
vars == <<i, H, X, LH, LD, us>>

T == ndJsonDeserialize(IOEnv.TRACE)

\* counts of applied clauses are in TLC register 1
Bump(cl) == LET f == TLCGet(1) IN
  TLCSet(1, IF cl \in DOMAIN f THEN [f EXCEPT ![cl] = @ + 1] ELSE (cl :> 1) @@ f)
Chk(cl, c) == /\ Bump(cl)
              /\ IF c THEN TRUE ELSE PrintT(<<"VIOL", cl, i>>)
If(g, x) == IF g THEN x ELSE TRUE
\* all of a sequence of <<clause, condition>>
ChkAll(cs) == \A k \in DOMAIN cs : Chk(cs[k][1], cs[k][2])
AllTrue(cs) == \A k \in DOMAIN cs : cs[k][2]

-----------------------------------------------------------------------------
(* Reading events *)

Ok(e) == e.r.k = "ok"
Err(e) == e.r.k = "err"
Panic(e) == e.r.k = "panic"
Pre(e) == H[e.h]
Disk(hh) == [c |-> hh.c, g |-> hh.s.g, p |-> hh.s.p, b |-> hh.s.b, parts |-> hh.s.parts]
After(e, c) == [c |-> c, g |-> e.st.g, p |-> e.st.p, b |-> e.st.b, parts |-> e.st.parts]
NoBlock == [ex |-> FALSE]
\* with less than three blocks there is no place for a backup
Med(m) == IF WLt(m.nb, W3) THEN [m EXCEPT !.b = NoBlock] ELSE m
Hit(e) == e.hit # <<>>
\* (a flush that was merely interrupted is "again": it may be repeated)
HitWrite(e) == \E k \in DOMAIN e.hit : e.hit[k] \in {"write", "flush"}
Same(h1, h2) == h1.ok = h2.ok /\ (h1.ok => h1 = h2)
Touched(e) == e.chg # <<>> \/ e.len1 # e.len0

\* entries as they come back from the device
FromView(ents) == LET u == UsedOf(ents) IN
  [k \in DOMAIN u |-> [u[k] EXCEPT !.n = ReadName(u[k].n), !.os = OsOf(u[k].t)]]
NoOs(ps) == [k \in DOMAIN ps |-> [ps[k] EXCEPT !.os = ""]]
Expected(ps) == Normalized(ps, OsOf)

-----------------------------------------------------------------------------
(* The queries: their answers are functions of the state of the object *)

CapRun(r) == IF Fits64(r[2]) THEN r ELSE <<r[1], U64Max>>
ChkObs(e, d) ==
  /\ Chk("C12.panic", e.obs.free.k = "ok")
  /\ Chk("C13.panic", e.obs.nid.k = "ok")
  /\ Chk("C24.panic", e.obs.al.k = "ok")
  /\ Chk("C18.obs", e.obs.free.k = "ok" /\ e.obs.nid.k = "ok" /\ e.obs.al.k = "ok"
                    /\ e.obs.hd.k = "ok")
  /\ If(HasHdr(d),
        LET h == Hdr(d)
            runs == FreeRuns(d.parts, h.fu, h.lu)
        IN  /\ If(e.obs.free.k = "ok",
                  Chk("C12.free", e.obs.freev = [k \in DOMAIN runs |-> CapRun(runs[k])]))
            /\ If(e.obs.nid.k = "ok",
                  Chk("C13.next", \/ e.obs.nidv = NextId(d.parts, h.np)
                                  \/ h.np = W0 /\ d.parts = <<>> /\ e.obs.nidv = Some(W1)))
            /\ If(e.obs.hd.k = "ok", Chk("C09.hdr", e.obs.hdv = h.cur)))
  /\ If(e.obs.al.k = "ok", Chk("C24.al", e.obs.alv = Alignment(d.parts)))

\* after every call on handle h whose state was s and whose queries answered o before
ChkAfter(e, new, s, o) ==
  IF ~new /\ e.st = s
  THEN If(o # None, Chk("C15.obs", e.obs = o[1]))
  ELSE ChkObs(e, [p |-> e.st.p, b |-> e.st.b, parts |-> e.st.parts])

-----------------------------------------------------------------------------
(* Creating and opening *)

ChkCreate(e) ==
  LET g == IF e.a.g # None THEN e.a.g[1] ELSE IF Ok(e) THEN e.st.g ELSE Nil
      s == DoCreate(e.c, g, e.nb)
  IN  /\ Chk("C03.panic", ~Panic(e))
      /\ If(~Panic(e) /\ ~Hit(e), Chk("C03.create", Ok(e) <=> s.r = "ok"))
      /\ If(Ok(e) /\ s.r = "ok",
            /\ Chk("C03.headers", Same(e.st.p, s.d.p) /\ Same(e.st.b, s.d.b))
            /\ Chk("C03.count", WLe(MinParts, e.st.p.np))
            /\ Chk("C03.layout", PrimarySideOk(e.st.p, e.c.lbs)
                                 /\ RoomForBackup(e.st.p, e.c.lbs))
            /\ If(e.st.b.ok, Chk("C03.backup",
                    BackupSideOk(e.st.b, WSub(e.nb, W1), e.c.lbs)))
            /\ Chk("C01.empty", e.st.parts = <<>>)
            /\ IF e.a.g # None
               THEN Chk("C17.given", e.st.g = e.a.g[1] /\ e.st.p.g = e.a.g[1])
               ELSE Chk("C17.fresh", e.st.g # Nil /\ e.st.g \notin us /\ e.st.p.g = e.st.g))

\* a copy's table: disk GUID and entries in use
TabIs(e, v) == e.st.g = v.h.g /\ NoOs(UsedOf(e.st.parts)) = NoOs(FromView(v.ents))
\* the header an object acts on is one of the same table
Own(e, v) == LET h == IF e.st.p.ok THEN e.st.p ELSE e.st.b
             IN  h.ok /\ h.g = v.h.g /\ h.fu = v.h.fu /\ h.lu = v.h.lu /\ h.np = v.h.np
ChkOpen(e) ==
  LET m == Med(e.m0)
      s == DoOpen(e.c, m)
      ip == Intact(m.p)
      ib == Intact(m.b)
      \* an array without entries that should start beyond the device: whether it can
      \* be read is a matter of taste
      odd(v) == HdrOk(v) /\ v.h.np = W0 /\ WLe(m.nb, v.h.ps)
      \* both headers required and fine, but the primary array is not
      lax == \/ e.c.ov /\ HdrOk(m.p) /\ HdrOk(m.b) /\ ~ip
             \/ odd(m.p) \/ odd(m.b)
      ofp == ip /\ TabIs(e, m.p)
      ofb == ib /\ TabIs(e, m.b)
      x == IF e.d \in DOMAIN X THEN X[e.d].exp ELSE None
  IN  /\ Chk("C18.open", ~Panic(e))
      /\ If(Panic(e), Chk("C08.panic", FALSE))
      /\ If(Err(e) /\ ~Hit(e) /\ ~lax,
            IF s.r = "ok" THEN /\ Chk("C08.open", FALSE)
                               /\ If(e.deg, Chk("C19.same", FALSE))
                               /\ If(x # None, Chk("C01.open", FALSE))
            ELSE Chk("C08.refuse", TRUE))
      /\ If(Ok(e),
            /\ Chk("C09.intact", ip \/ ib)
            /\ Chk("C09.table", ofp \/ ofb)
            /\ If(ofp \/ ofb, Chk("C08.own", (ofp /\ Own(e, m.p)) \/ (ofb /\ Own(e, m.b))))
            /\ If(~Hit(e),
                  /\ Chk("C08.required", s.r = "ok" \/ lax)
                  /\ If(ip \/ ib, Chk("C08.prefer", IF ip THEN ofp \/ (odd(m.p) /\ ofb) ELSE ofb))
                  /\ If(e.deg, Chk("C19.same", IF ip THEN ofp ELSE ofb))
                  /\ Chk("C09.valid", /\ HdrOk(m.p) /\ ((ip /\ ~odd(m.p)) \/ ~ib) => e.st.p.ok
                                      /\ HdrOk(m.b) => e.st.b.ok)
                  /\ If(x # None /\ x[1].lbs = e.c.lbs,
                        Chk("C01.reopen", e.st.g = x[1].g
                               /\ UsedOf(e.st.parts) = x[1].parts)))
            /\ Chk("C09.header", /\ e.st.p.ok => HdrOk(m.p) /\ SameHeader(e.st.p, m.p)
                                 /\ e.st.b.ok => HdrOk(m.b) /\ SameHeader(e.st.b, m.b))
            /\ Chk("C17.open", (ip /\ e.st.g = m.p.h.g) \/ (ib /\ e.st.g = m.b.h.g)
                               \/ ~(ip \/ ib))
            /\ Chk("C22.os", \A k \in DOMAIN e.st.parts :
                               e.st.parts[k].os = OsOf(e.st.parts[k].t))
            /\ Chk("C25.lbs", e.st.lbs = e.c.lbs)
            /\ If(Hit(e), Chk("C19.open", ofp \/ ofb)))

-----------------------------------------------------------------------------
(* Editing *)

\* can the headers of this object be written at all
Sane(d) == HasHdr(d) /\ FromHeader(Hdr(d)).plba = W1

\* the requirements common to all edits of the table.
\*   d: before, s: the outcome of the specification, n: the highest number the edit needs
ChkHeaders(e, d, s, n, always) ==
  LET grows == CountChanges(d, n)
      h1 == Hdr(d)
      h2 == IF e.st.p.ok THEN e.st.p ELSE e.st.b
      same == Same(e.st.p, d.p) /\ Same(e.st.b, d.b)
      right == Same(e.st.p, s.d.p) /\ Same(e.st.b, s.d.b)
      sw == Swallowed(e.st.parts, h1, h2)
  IN  /\ Chk("C14.shrink", WLe(h1.np, h2.np))
      /\ Chk("C14.room", WLe(HighestId(UsedOf(e.st.parts)), h2.np)
                         \/ WLt(h1.np, HighestId(UsedOf(d.parts))))
      /\ If(grows, /\ Chk("C14.allowed", d.c.cpc)
                   /\ If(s.r = "ok", /\ Chk("C14.grow", right)
                                     /\ Chk("C03.grow", right)))
      /\ If(~grows /\ ~always, Chk("C14.same", same))
      /\ If(~grows /\ always /\ s.r = "ok", Chk("C03.recompute", right))
      /\ If(~same /\ Sane(d), /\ Chk("C03.layout", PrimarySideOk(e.st.p, e.c.lbs)
                                       /\ RoomForBackup(e.st.p, e.c.lbs))
                   /\ Chk("C03.count", WLe(MinParts, e.st.p.np))
                   /\ If(~d.c.rob /\ e.st.b.ok,
                         Chk("C03.backup", BackupSideOk(e.st.b, WSub(e.nb, W1), e.c.lbs))))
      /\ If(h1.np # h2.np,
            IF sw = {} THEN Chk("C27.clear", TRUE)
            ELSE IF s.r = "ok" /\ sw \subseteq Swallowed(e.st.parts, h1, Hdr(s.d))
            THEN Bump("C27.known") /\ PrintT(<<"KNOWN", "C27.swallow", i>>)
            ELSE Chk("C27.swallow", FALSE))

\* growth that would reserve blocks of a partition may be refused (it should be: C27)
MayRefuse(d, s, ps) == s.r = "ok" /\ Swallowed(ps, Hdr(d), Hdr(s.d)) # {}

\* errors which tell the truth
Truthful(e, d, n, nospace, used, hdr) ==
  \/ e.r.e = "PartitionCountWouldChange" /\ CountChanges(d, n) /\ ~d.c.cpc
  \/ e.r.e = "NotEnoughSpace" /\ (nospace \/ hdr)
  \/ e.r.e = "PartitionIdAlreadyUsed" /\ used
  \/ hdr /\ e.r.e \notin {"PartitionCountWouldChange", "PartitionIdAlreadyUsed"}
  \/ Hit(e)

ChkUnchanged(e, pre) ==
  Chk("C15.state", e.st = pre.s)

\* what an entry placed by the library must be
EntryIs(x, y) == x.t = y.t /\ x.os = y.os /\ x.a = y.a /\ x.n = y.n
NewGuid(u) == u # Nil /\ u \notin us

\* nothing to place: the documented answer is a panic, and nothing may have changed
ChkNothing(e, prop) ==
  /\ Chk(prop \o ".zero", ~Ok(e) /\ "st" \in DOMAIN e)
  /\ If("st" \in DOMAIN e,
        /\ Chk(prop \o ".zerosame", e.st = Pre(e).s)
        /\ ChkUnchanged(e, Pre(e)))

\* a clone or re-targeted disk allows what the original allowed
ChkInherited(e, pre, r, refuse) ==
  If(pre.rt /\ ~Hit(e) /\ ~Panic(e),
     Chk("C25.config", /\ r = "ok" => Ok(e) \/ refuse
                       /\ r = "PartitionCountWouldChange" => Err(e)))

ChkAdd(e) ==
  IF e.a.size = W0 THEN ChkNothing(e, "C10") ELSE
  LET pre == Pre(e)
      d == Disk(pre)
      u == IF Ok(e) /\ Has(e.st.parts, e.v[1]) THEN Get(e.st.parts, e.v[1]).u ELSE Nil
      s == DoAdd(d, e.a @@ [u |-> u], e.nb)
      n == BlocksFor(e.a.size, d.c.lbs)
      free == FreeOf(d)
      fit == FirstFit(free, n, e.a.al)
      id == LowestFree(d.parts)
      refuse == MayRefuse(d, s, s.d.parts)
      hdr == fit # None /\ CountChanges(d, id) /\ d.c.cpc /\ (s.r = "Header" \/ refuse)
  IN  /\ Chk("C10.panic", ~Panic(e))
      /\ If(Panic(e), Chk("C18.panic", FALSE))
      /\ ChkInherited(e, pre, s.r, refuse)
      /\ If(~Panic(e), Chk("C10.space",
              /\ (fit = None => Err(e))
              /\ (fit # None => ~(Err(e) /\ e.r.e = "NotEnoughSpace") \/ hdr)))
      /\ If(Err(e),
            /\ Chk("C10.error", s.r # "ok" \/ refuse \/ Hit(e))
            /\ Chk("C14.error", Truthful(e, d, id, fit = None, FALSE, hdr))
            /\ If(e.a.al = Some(Alignment(d.parts)) /\ s.r = "ok" /\ ~refuse /\ ~Hit(e),
                  Chk("C24.usable", FALSE))
            /\ ChkUnchanged(e, pre))
      /\ If(Ok(e),
            LET x == Get(e.st.parts, e.v[1])
                y == Get(s.d.parts, id)
            IN  /\ If(e.a.al = Some(Alignment(d.parts)), Chk("C24.usable", TRUE))
                /\ Chk("C14.denied", ~(CountChanges(d, id) /\ ~d.c.cpc))
                /\ Chk("C13.number", e.v[1] = id)
                /\ Chk("C10.there", Has(e.st.parts, e.v[1]))
                /\ If(Has(e.st.parts, e.v[1]),
                      /\ Chk("C13.others", Without(e.st.parts, e.v[1]) = Without(d.parts, e.v[1]))
                      /\ If(fit # None,
                            /\ Chk("C10.place", x.f = fit[1]
                                                /\ x.l = WSub(WAdd(fit[1], n), W1))
                            /\ Chk("C10.usable", InUsable(x, Hdr(d))
                                     /\ \A k \in DOMAIN d.parts :
                                          IsUsed(d.parts[k]) => ~Overlap(x, d.parts[k])))
                      /\ Chk("C10.entry", x.t = e.a.t /\ x.os = e.a.os /\ x.a = e.a.a
                                          /\ x.n = e.a.n)
                      /\ Chk("C10.guid", NewGuid(x.u)))
                /\ Chk("C17.edit", e.st.g = d.g)
                /\ ChkHeaders(e, d, s, id, FALSE))

ChkAddAt(e) ==
  IF e.a.len = W0 \/ e.a.id = W0 THEN ChkNothing(e, "C11") ELSE
  LET pre == Pre(e)
      d == Disk(pre)
      u == IF Ok(e) /\ Has(e.st.parts, e.a.id) THEN Get(e.st.parts, e.a.id).u ELSE Nil
      s == DoAddAt(d, e.a @@ [u |-> u], e.nb)
      used == Has(d.parts, e.a.id) /\ IsUsed(Get(d.parts, e.a.id))
      free == InSomeRun(FreeOf(d), e.a.f, e.a.len)
      refuse == MayRefuse(d, s, s.d.parts)
      hdr == ~used /\ free /\ CountChanges(d, e.a.id) /\ d.c.cpc
             /\ (s.r = "Header" \/ refuse)
  IN  /\ Chk("C11.panic", ~Panic(e))
      /\ If(Panic(e), Chk("C18.panic", FALSE))
      /\ ChkInherited(e, pre, s.r, refuse)
      /\ If(Err(e),
            /\ Chk("C11.error", s.r # "ok" \/ refuse \/ Hit(e))
            /\ If(used \/ ~free,
                  Chk("C11.kind", Truthful(e, d, e.a.id, ~free, used, FALSE)))
            /\ Chk("C14.error", Truthful(e, d, e.a.id, ~free, used, hdr))
            /\ Chk("C11.nothing", e.st = pre.s)
            /\ ChkUnchanged(e, pre))
      /\ If(Ok(e),
            LET x == Get(e.st.parts, e.a.id)
            IN  /\ Chk("C11.free", free)
                /\ Chk("C11.unused", ~used)
                /\ Chk("C14.denied", ~(CountChanges(d, e.a.id) /\ ~d.c.cpc))
                /\ Chk("C11.number", e.v = Some(e.a.id) /\ Has(e.st.parts, e.a.id))
                /\ If(Has(e.st.parts, e.a.id),
                      /\ Chk("C13.others", Without(e.st.parts, e.a.id) = Without(d.parts, e.a.id))
                      /\ Chk("C11.range", x.f = e.a.f
                               /\ x.l = WSub(WAdd(e.a.f, e.a.len), W1))
                      /\ Chk("C11.entry", x.t = e.a.t /\ x.os = e.a.os /\ x.a = e.a.a
                                          /\ x.n = e.a.n)
                      /\ Chk("C11.guid", NewGuid(x.u)))
                /\ Chk("C17.edit", e.st.g = d.g)
                /\ ChkHeaders(e, d, s, e.a.id, FALSE))

\* nothing but the partitions may change
ChkRest(e, d) ==
  /\ Chk("C16.rest", Same(e.st.p, d.p) /\ Same(e.st.b, d.b))
  /\ Chk("C17.edit", e.st.g = d.g)

ChkRemove(e) ==
  LET d == Disk(Pre(e))
      s == CASE e.e = "rm" -> DoRemove(d, e.a.id)
             [] e.e = "rmg" -> DoRemoveGuid(d, e.a.g)
             [] e.e = "take" -> DoTake(d)
  IN  /\ Chk("C16.panic", ~Panic(e))
      /\ If(Panic(e), Chk("C18.panic", FALSE))
      /\ If(~Panic(e),
            /\ Chk("C16.value", e.v = s.v)
            /\ Chk("C16.parts", e.st.parts = s.d.parts)
            /\ If(e.e # "take", Chk("C13.kept", e.st.parts = s.d.parts))
            /\ ChkRest(e, d))

ChkUpdate(e) ==
  IF Has(e.a.parts, W0) THEN ChkNothing(e, "C16") ELSE
  LET pre == Pre(e)
      d == Disk(pre)
      s == DoUpdate(d, e.a.parts, e.nb)
      n == HighestId(e.a.parts)
      refuse == MayRefuse(d, s, e.a.parts)
      hdr == s.r = "Header" \/ refuse
  IN  /\ Chk("C16.panic", ~Panic(e))
      /\ If(Panic(e), Chk("C18.panic", FALSE))
      /\ ChkInherited(e, pre, s.r, refuse)
      /\ If(Err(e),
            /\ Chk("C16.error", s.r # "ok" \/ refuse \/ Hit(e))
            /\ Chk("C14.error", Truthful(e, d, n, FALSE, FALSE, hdr))
            /\ ChkUnchanged(e, pre))
      /\ If(Ok(e),
            /\ Chk("C14.denied", ~(CountChanges(d, n) /\ ~d.c.cpc))
            /\ Chk("C03.fits", s.r # "Header")
            /\ Chk("C16.map", e.st.parts = e.a.parts)
            /\ Chk("C17.edit", e.st.g = d.g)
            /\ ChkHeaders(e, d, s, n, TRUE))

ChkSetGuid(e) ==
  LET d == Disk(Pre(e))
  IN  /\ Chk("C17.panic", ~Panic(e))
      /\ IF e.a.g # None THEN Chk("C17.set", e.st.g = e.a.g[1])
         ELSE Chk("C17.random", e.st.g # Nil /\ e.st.g \notin us)
      /\ Chk("C17.rest", e.st.parts = d.parts /\ Same(e.st.p, d.p) /\ Same(e.st.b, d.b))

-----------------------------------------------------------------------------
(* Writing *)

\* On a damaged disk the array of a copy might lie anywhere.  Requirements about
\* keeping it are for arrays where the other copy does not belong.
BackupApart(m, w, lbs) == Intact(m.b) => WLt(LastOfArray(w.p, lbs), m.b.h.ps)
PrimaryApart(m, w, lbs) == Intact(m.p) => WLt(LastOfArray(m.p.h, lbs), w.b.ps)
Apart(m, w, lbs) == BackupApart(m, w, lbs)
                    /\ (~w.c.rob /\ w.b.ok => PrimaryApart(m, w, lbs))
\* the backup copy is as it was
BackupKept(m0, m1, w, lbs) ==
  IF BackupApart(m0, w, lbs) THEN m0.b = m1.b
  ELSE m0.b.h = m1.b.h /\ m0.b.res = m1.b.res /\ m0.b.rz = m1.b.rz /\ m0.b.crc = m1.b.crc

\* What a complete write leaves on the device, as clauses
WriteClauses(e, d, w) ==
  LET m == Med(e.m1)
      lbs == d.c.lbs
      p == m.p
      b == m.b
      both == ~d.c.rob
      up == UsedOf(d.parts)
      last == WSub(e.nb, W1)
      good == Intact(p)
  IN  <<<<"C01.intact", good>>,
        <<"C01.entries", good /\ Bare(p.ents) = Bare(d.parts)>>,
        <<"C01.gone", good /\ Len(p.ents) = Len(up)>>,
        <<"C17.primary", p.ex /\ p.h.g = d.g>>,
        <<"C02.primary", HdrOk(p) /\ p.rz /\ p.res = W0 /\ p.h.rev = <<1, 0>>
                         /\ p.h.hs = WI(92) /\ p.h.cur = W1 /\ p.rd /\ p.ac>>,
        <<"C03.primary", HdrOk(p) => PrimarySideOk(p.h, lbs)>>,
        <<"C03.entries", p.ex /\ (WLe(MinParts, p.h.np) \/ p.h.np = Hdr(d).np)>>,
        <<"C03.exact", SameHeader(w.p, p)>>,
        <<"C04.size", e.len1 = e.len0>>,
        <<"C04.blocks", HdrOk(p) /\ (both => HdrOk(b)) =>
             \A k \in DOMAIN e.chg : \/ RangeInCopy(e.chg[k], p.h, lbs)
                                     \/ both /\ RangeInCopy(e.chg[k], b.h, lbs)>>,
        <<"C21.flushed", ~e.unfl>>>>
      \o IF both
         THEN <<<<"C02.backup", HdrOk(b) /\ b.rz /\ b.res = W0 /\ b.h.rev = <<1, 0>>
                                /\ b.h.hs = WI(92) /\ b.h.cur = last /\ b.rd /\ b.ac>>,
                <<"C02.linked", HdrOk(p) /\ HdrOk(b) /\ p.h.bak = last /\ b.h.bak = W1>>,
                <<"C02.equal", HdrOk(p) /\ HdrOk(b) /\ p.h.g = b.h.g /\ p.h.fu = b.h.fu
                               /\ p.h.lu = b.h.lu /\ p.h.np = b.h.np /\ p.h.es = b.h.es>>,
                <<"C02.arrays", good /\ Intact(b) /\ p.ents = b.ents>>,
                <<"C17.backup", b.ex /\ b.h.g = d.g>>,
                <<"C03.backup", HdrOk(p) /\ HdrOk(b) =>
                     BackupSideOk(b.h, last, lbs) /\ RoomForBackup(p.h, lbs)>>,
                <<"C03.exactb", SameHeader(w.b, b)>>>>
         ELSE <<<<"C06.backup", BackupKept(Med(e.m0), m, w, lbs)>>,
                <<"C06.primary", good /\ p.rz>>,
                <<"C06.points", p.ex /\ p.h.bak = FromHeader(Hdr(d)).blba>>>>

\* the copy on the device is, byte for byte, the one a write of header h and table ps makes
RECURSIVE TrimZ(_)
TrimZ(n) == IF n # <<>> /\ n[Len(n)] = 0 THEN TrimZ(SubSeq(n, 1, Len(n) - 1)) ELSE n
OnDisk(ps) == LET u == UsedOf(ps) IN
  [k \in DOMAIN u |-> [u[k] EXCEPT !.n = TrimZ(StoredName(@)), !.os = ""]]
Already(h, v, ps) ==
  /\ Intact(v) /\ SameHeader(h, v)
  /\ v.rz /\ v.res = W0 /\ v.h.rev = <<1, 0>> /\ v.h.hs = WI(92)
  /\ v.ents = OnDisk(ps)

ChkWrite(e) ==
  LET pre == Pre(e)
      d == Disk(pre)
      x == IF e.d \in DOMAIN X THEN X[e.d] ELSE [exp |-> None, fail |-> FALSE]
      wh == WriteHeaders(d, e.nb)
      top == HighestId(UsedOf(d.parts))
      sane == Sane(d)
      can == wh.ok /\ WLe(top, wh.d.p.np)
      cs == WriteClauses(e, d, wh.d)
      all == AllTrue(cs)
      m0 == Med(e.m0)
      one == Intact(m0.p) # Intact(m0.b)
      cr == IF "crash" \in DOMAIN e THEN e.crash ELSE [old |-> <<>>]
      \* what is behind the last entry in its block is only known if the crate wrote it
      rest == x.exp # None \/ WMod(WMul(wh.d.p.np, wh.d.p.es), WI(d.c.lbs)) = W0
      \* what was opened and never edited, and is still there: as the specification reads it
      seen == DoOpen(d.c, m0).d
      there == [seen EXCEPT !.parts =
                  [k \in DOMAIN @ |-> [@[k] EXCEPT !.n = ReadName(@), !.os = ""]]]
      fh == WriteHeaders(there, e.nb)
      found == /\ pre.pv = Some(e.m0) /\ Intact(m0.p) /\ DoOpen(d.c, m0).r = "ok"
               /\ Sane(there) /\ fh.ok /\ WMod(WMul(fh.d.p.np, fh.d.p.es), WI(d.c.lbs)) = W0
               /\ Already(fh.d.p, m0.p, there.parts)
               /\ (d.c.rob \/ Already(fh.d.b, m0.b, there.parts))
      already == rest /\ Already(wh.d.p, m0.p, d.parts)
                 /\ (d.c.rob \/ Already(wh.d.b, m0.b, d.parts))
  IN  /\ If(~d.c.wr, /\ Chk("C05.readonly", Err(e) /\ e.r.e = "ReadOnly")
                     /\ Chk("C05.untouched", ~Touched(e)))
      /\ If(d.c.wr /\ Panic(e), Chk("C01.panic", FALSE) /\ Chk("C18.panic", FALSE))
      /\ If(d.c.wr /\ Hit(e) /\ HitWrite(e), Chk("C19.write", Err(e)))
      /\ If(d.c.wr /\ Hit(e) /\ HitWrite(e) /\ (\E k \in DOMAIN e.hit : e.hit[k] = "flush"),
            Chk("C21.fail", Err(e)))
      /\ If(d.c.wr /\ Hit(e) /\ Ok(e), Chk("C21.flushed", ~e.unfl))
      /\ If(d.c.wr /\ Hit(e) /\ ~HitWrite(e) /\ sane,
            Chk("C19.look", Err(e) \/ (Ok(e) /\ can /\ all)))
      /\ If(d.c.wr /\ ~Hit(e) /\ ~Panic(e) /\ sane,
            /\ IF can
               THEN /\ Chk("C01.ok", Ok(e))
                    /\ If(Err(e), /\ Chk("C14.fails", e.r.e # "OverflowPartitionCount")
                                  /\ If(pre.rt, Chk("C25.write", FALSE))
                                  /\ If(e.deg, Chk("C19.same", FALSE))
                                  /\ If(x.fail, Chk("C19.retry", FALSE))
                                  /\ If(one /\ ~d.c.rob, Chk("C08.repair", FALSE))
                                  /\ If(d.c.rob, Chk("C06.fails", FALSE)))
               ELSE IF ~wh.ok THEN Chk("C03.toosmall", Err(e)) /\ Chk("C04.fits", Err(e) /\ ~Touched(e))
                                   /\ If(pre.rt, Chk("C25.fits", Err(e)))
               ELSE Chk("C14.highest", Err(e))
            /\ If(Err(e), /\ Chk("C14.half", ~Touched(e))
                          /\ Chk("C01.half", ~Touched(e)))
            /\ If(Ok(e) /\ can,
                  /\ ChkAll(cs)
                  /\ If(pre.rt, Chk("C25.write", all))
                  /\ If(e.deg, Chk("C19.same", all))
                  /\ If(x.fail, Chk("C19.retry", all))
                  /\ If(one /\ ~d.c.rob, Chk("C08.repair", all))
                  /\ If(CountChanges(d, W0), Chk("C14.written", all))
                  /\ If("st" \in DOMAIN e,
                        /\ Chk("C02.object", /\ e.st.p.ok => SameHeader(e.st.p, Med(e.m1).p)
                                             /\ (~d.c.rob /\ e.st.b.ok)
                                                  => SameHeader(e.st.b, Med(e.m1).b)
                                             /\ e.st.p.ok /\ (d.c.rob \/ e.st.b.ok)))))
      /\ If(d.c.wr /\ ~Hit(e) /\ found, Chk("C28.found", Ok(e) /\ ~Touched(e)))
      /\ If(d.c.wr /\ ~Hit(e) /\ sane /\ can /\ already,
            /\ Chk("C28.ok", Ok(e))
            /\ Chk("C28.same", ~Touched(e))
            /\ If("st" \in DOMAIN e /\ Ok(e),
                  Chk("C28.object", e.st.g = pre.s.g /\ e.st.parts = pre.s.parts
                        /\ (e.st.p.ok => SameHeader(e.st.p, m0.p))
                        /\ (~d.c.rob /\ e.st.b.ok => SameHeader(e.st.b, m0.b)))))
      \* whether it fails or not, the object keeps what it says
      /\ If("st" \in DOMAIN e,
            /\ Chk("C13.kept", e.st.parts = pre.s.parts)
            /\ Chk("C17.write", e.st.g = pre.s.g)
            /\ If(Err(e) /\ Hit(e), Chk("C19.kept", e.st.parts = pre.s.parts /\ e.st.g = pre.s.g)))
      \* a failed write leaves an intact copy of the old or of the new table
      /\ If(d.c.wr /\ Hit(e) /\ sane /\ can /\ (Intact(m0.p) \/ Intact(m0.b))
            /\ (~d.c.rob \/ Intact(m0.b)) /\ Apart(m0, wh.d, d.c.lbs),
            LET m1 == Med(e.m1)
                tab(v) == [g |-> v.h.g, ents |-> Bare(v.ents)]
                old == {tab(v) : v \in {y \in {m0.p, m0.b} : Intact(y)}}
                new == [g |-> d.g, ents |-> Bare(d.parts)]
                left == {tab(v) : v \in {y \in {m1.p, m1.b} : Intact(y)}}
            IN  Chk("C07.fault", left # {} /\ left \subseteq old \cup {new}))
      /\ If(d.c.rob /\ d.c.wr, Chk("C06.untouched",
            \/ ~wh.ok \/ ~sane
            \/ /\ BackupKept(m0, Med(e.m1), wh.d, d.c.lbs)
               /\ \A k \in DOMAIN e.chg : WLt(WSub(WAdd(e.chg[k][1], e.chg[k][2]), W1), wh.d.p.fu)))
      /\ If(cr.old # <<>> /\ sane /\ can /\ Ok(e) /\ (~d.c.rob \/ Intact(m0.b))
            /\ Apart(m0, wh.d, d.c.lbs),
            LET good == {cr.new} \cup {cr.old[j] : j \in DOMAIN cr.old} IN
            /\ \A k \in DOMAIN cr.out : Chk("C07.crash", cr.out[k].r \in good)
            /\ \A k \in DOMAIN cr.wl :
                 LET may == AfterCrash(cr.wl[k]) IN
                 /\ Chk("C07.states", may \subseteq good)
                 /\ \A j \in DOMAIN cr.out :
                      Chk("C08.crash", cr.out[j].r \in may
                                       \/ (Fail \in may /\ cr.out[j].r \notin good)))
      /\ If(e.e = "writec" /\ Ok(e) /\ ~e.file, Chk("C25.device", e.v = <<TRUE>>))

-----------------------------------------------------------------------------
(* Copies, other devices *)

ChkCopy(e) ==
  /\ Chk("C25.panic", Ok(e))
  /\ If(Ok(e), /\ Chk("C25.copy", e.st2 = Pre(e).s)
               /\ Chk("C17.copy", e.st2.g = Pre(e).s.g)
               /\ Chk("C25.source", e.st = Pre(e).s))

ChkSwap(e) ==
  /\ Chk("C25.panic", Ok(e))
  /\ If(Ok(e), /\ Chk("C25.device", e.v = <<TRUE>>)
               /\ Chk("C17.copy", e.st.g = Pre(e).s.g)
               /\ Chk("C25.kept", e.st = Pre(e).s))

-----------------------------------------------------------------------------
(* Stand-alone helpers *)

Builder(a, g) ==
  LET x0 == IF a.from THEN FromHeader(a.h) ELSE NewBuilder(g)
      x1 == IF a.prim # None THEN [x0 EXCEPT !.prim = (a.prim[1] = TRUE)] ELSE x0
      x2 == IF a.g # None THEN [x1 EXCEPT !.g = a.g[1]] ELSE x1
      x3 == IF a.bak # None THEN [x2 EXCEPT !.blba = a.bak[1]] ELSE x2
      x4 == IF a.fu # None THEN [x3 EXCEPT !.fu = a.fu[1]] ELSE x3
      x5 == IF a.lu # None THEN [x4 EXCEPT !.lu = a.lu[1]] ELSE x4
      x6 == IF a.np # None THEN [x5 EXCEPT !.np = WMax(a.np[1], MinParts)] ELSE x5
  IN  IF a.es # None THEN [x6 EXCEPT !.es = a.es[1]] ELSE x6

ChkBuild(e) ==
  LET g == IF Ok(e) THEN e.v[1].g ELSE Nil
      b == Builder(e.a, g)
      s == Build(b, e.lbs)
      h == e.v[1]
  IN  /\ Chk("C03.panic", ~Panic(e))
      /\ If(~Panic(e), Chk("C03.build", Ok(e) <=> s.ok))
      /\ If(Ok(e) /\ s.ok,
            /\ Chk("C03.built", h = s)
            /\ Chk("C03.order", LET ab == ArrayBlocks(h.np, h.es, e.lbs) IN
                 /\ WLe(h.fu, h.lu)
                 /\ WLe(WAdd(WAdd(b.plba, W1), ab), h.fu)
                 /\ WLe(WAdd(WAdd(h.lu, W1), ab), b.blba)
                 /\ h.ps = IF b.prim THEN WAdd(b.plba, W1) ELSE WAdd(h.lu, W1))
            /\ If(~e.a.from /\ e.a.g = None, Chk("C17.builder", h.g # Nil)))

InSpan(e, first, n) ==   \* changed bytes are within n bytes from first
  e.span = <<>> \/ (WLe(first, e.span[1]) /\ WLe(WAdd(e.span[1], e.span[2]), WAdd(first, n)))

ChkHeaderWrite(e) ==
  LET h == e.a.h
      right == IF e.a.prim THEN WLt(h.cur, h.bak) ELSE WLt(h.bak, h.cur)
      off == WMulI(h.cur, e.lbs)
      onDev == WLe(WAdd(off, WI(e.lbs)), e.len0)
      ab == ArrayBlocks(h.np, h.es, e.lbs)
      clash == WLe(h.ps, h.cur) /\ WLt(h.cur, WAdd(h.ps, ab))
  IN  /\ Chk("C26.panic", ~Panic(e))
      /\ If(~right, Chk("C26.side", Err(e) /\ e.span = <<>>))
      /\ If(right /\ e.ard /\ onDev, Chk("C26.write", Ok(e)))
      /\ If(right /\ ~e.ard /\ ~Panic(e) /\ WLt(ab, WI(1000000)), Chk("C26.array", Err(e)))
      /\ If(Ok(e), /\ Chk("C26.size", e.v = Some(WI(e.lbs)))
                   /\ Chk("C26.span", InSpan(e, off, WI(e.lbs)))
                   /\ Chk("C26.header", HdrOk(e.view) /\ SameHeader(h, e.view) /\ e.view.rz
                             /\ e.view.res = W0 /\ e.view.h.rev = h.rev /\ e.view.h.hs = h.hs)
                   /\ Chk("C26.crc", e.hcrc)
                   /\ If(HdrOk(e.view) /\ e.view.rd /\ ~clash, Chk("C26.sum", e.view.ac)))

ChkEntryWrite(e) ==
  LET off == WAdd(WMulI(e.a.start, e.lbs), WMul(e.a.idx, e.a.bpp))
      fits == Fits64(off) /\ WLe(WAdd(off, e.a.bpp), e.len0)
      full == WLe(WI(128), e.a.bpp)
  IN  /\ Chk("C26.panic", ~Panic(e))
      /\ If(~Fits64(off) /\ ~Panic(e), Chk("C26.far", Err(e) /\ e.span = <<>>))
      /\ If(fits /\ full, Chk("C26.entry", Ok(e)))
      /\ If(Ok(e), Chk("C26.slot", InSpan(e, off, e.a.bpp)))
      /\ If(Ok(e) /\ full /\ e.slot # None,
            LET x == e.slot[1].p
            IN  Chk("C26.bytes", /\ e.slot[1].rz
                                 /\ [x EXCEPT !.n = ReadName(@), !.os = ""]
                                    = [e.a.p EXCEPT !.n = NormName(@), !.os = ""]))

ChkZero(e) ==
  LET off == WAdd(WMulI(e.a.start, e.lbs), WMul(e.a.idx, e.a.bpp))
      len == WMul(e.a.cnt, e.a.bpp)
      fits == WLe(WAdd(off, len), e.len0)
  IN  /\ Chk("C26.panic", ~Panic(e))
      /\ If(fits, Chk("C26.zerook", Ok(e)))
      /\ If(Ok(e), /\ Chk("C26.zero", e.zero \/ len = W0 \/ ~fits)
                   /\ Chk("C26.zspan", InSpan(e, off, len)))

ChkHeaderRead(e) ==
  LET v == e.m0.p
  IN  /\ Chk("C26.panic", ~Panic(e))
      /\ If(Panic(e), Chk("C18.panic", FALSE))
      /\ Chk("C26.read", Ok(e) <=> HdrOk(v))
      /\ If(Ok(e), Chk("C09.read", HdrOk(v)))
      /\ If(Ok(e) /\ HdrOk(v), Chk("C26.fields", SameHeader(e.v[1], v) /\ e.v[1] = v.h))

ChkPartsRead(e) ==
  LET v == e.view
  IN  /\ Chk("C26.rpanic", ~Panic(e))
      /\ If(Panic(e), Chk("C18.panic", FALSE))
      /\ If(HdrOk(v) /\ v.h.es = EntrySize /\ v.h.np # W0,
            /\ Chk("C26.rparts", Ok(e) <=> (v.rd /\ v.ac))
            /\ If(Ok(e) /\ v.rd /\ ~v.ac, Chk("C09.rparts", FALSE))
            /\ If(Ok(e) /\ v.rd /\ v.ac,
                  Chk("C26.parts", UsedOf(e.v[1]) = FromView(v.ents))))

ChkWriteHeader(e) ==
  LET g == IF e.a.g # None THEN e.a.g[1] ELSE IF Ok(e) THEN e.v[1] ELSE Nil
      s == IF WLt(e.m0.nb, W3) THEN Bad("ToSmallForBackup")
           ELSE Build([NewBuilder(g) EXCEPT !.blba = WSub(e.m0.nb, W1)], e.lbs)
      v == e.m0.p
  IN  /\ Chk("C26.panic", ~Panic(e))
      /\ Chk("C26.new", Ok(e) <=> s.ok)
      /\ If(Err(e), Chk("C26.refused", e.span = <<>>))
      /\ If(Ok(e) /\ s.ok,
            /\ Chk("C26.newguid", e.v = Some(g) /\ (e.a.g = None => g # Nil))
            /\ Chk("C26.newheader", HdrOk(v) /\ SameHeader(s, v) /\ v.rz /\ v.rd /\ v.ac)
            /\ Chk("C26.newspan", InSpan(e, WI(e.lbs), WI(e.lbs))))

-----------------------------------------------------------------------------
(* Protective MBR *)

\* bytes and accessors of an MBR object agree
Coherent(o) == o.bytes.boot = o.boot /\ o.bytes.sig = o.sig /\ o.bytes.recs = o.recs
               /\ o.bytes.magic = Magic /\ ~o.over
Within(e, lo, hi) == \A k \in DOMAIN e.chg :
  WLe(lo, e.chg[k][1]) /\ WLe(WAdd(e.chg[k][1], e.chg[k][2]), hi)

ChkMbrDevice(e) ==      \* for all operations on a device
  /\ Chk("C20.panic", ~Panic(e))
  /\ If(Ok(e) , Chk("C20.pos", e.pos1 = e.pos0))
  /\ If(\E k \in DOMAIN e.hit : e.hit[k] # "again", Chk("C20.fault", Err(e)))

\* a record goes to or comes from the device
ChkMbr(e) ==
  LET o0 == e.m0[1]
      o1 == e.m1[1]
      dev == "hit" \in DOMAIN e
      whole == WLe(WI(512), e.len0)
      enough == IF e.lbs = 4096 THEN WLe(WI(4096), e.len0) ELSE whole
      \* block 0 before; a device which was too short might have been extended
      b0 == IF e.blk # None THEN e.blk[1] ELSE e.blk1[1]
  IN
  /\ Chk("C20.panic", ~Panic(e))
  /\ If(dev, ChkMbrDevice(e))
  /\ CASE e.op = "new" ->
          LET size == IF e.a.lb = None THEN "ffffffff" ELSE e.a.lb[1] IN
          /\ Chk("C20.make", Ok(e))
          /\ If(Ok(e), /\ Chk("C20.new", o1.bytes.recs = NewMbr(size, e.zb).recs)
                       /\ Chk("C20.newsig", Coherent(o1) /\ o1.bytes = NewMbr(size, e.zb)))
       [] e.op = "bytes" ->
          LET x == e.a.x
              good == e.a.len = WI(e.lbs) /\ x # None /\ x[1].magic = Magic
          IN  /\ Chk("C20.accept", Ok(e) <=> good)
              /\ If(Ok(e) /\ good, Chk("C20.parse", Coherent(o1) /\ o1.bytes = x[1]))
       [] e.op = "from" ->
          /\ If(~Hit(e), Chk("C20.from", Ok(e) <=>
                 (enough /\ e.blk # None /\ e.blk[1].magic = Magic)))
          /\ Chk("C20.reads", e.chg = <<>> /\ e.len1 = e.len0)
          /\ If(Ok(e) /\ e.blk # None, Chk("C20.back", Coherent(o1) /\ o1.bytes = e.blk[1]))
       [] e.op = "setboot" -> Chk("C20.set", Coherent(o1)
                                            /\ o1.bytes = SetBoot(o0.bytes, e.a.boot))
       [] e.op = "setsig" -> Chk("C20.set", Coherent(o1)
                                           /\ o1.bytes = SetSig(o0.bytes, e.a.sig))
       [] e.op = "setpart" ->
          LET s == SetPart(o0.bytes, ToI(e.a.i) + 1, e.a.rec) IN
          Chk(IF s.v = <<>> THEN "C20.outside" ELSE "C20.set",
              Coherent(o1) /\ o1.bytes = s.o /\ e.v = s.v)
       [] e.op = "over" ->
          /\ If(~Hit(e) /\ whole, Chk("C20.over", Ok(e)))
          /\ Chk("C20.overspan", Within(e, W0, WI(512)) /\ (whole => e.len1 = e.len0))
          /\ If(Ok(e), /\ Chk("C20.overbytes", e.v = <<WI(512)>> /\ e.blk1 # None
                              /\ e.blk1[1] = Overwritten(o0.bytes, b0))
                       /\ Chk("C20.overflush", ~e.unfl))
       [] e.op = "cons" ->
          /\ If(~Hit(e) /\ whole, Chk("C20.cons", Ok(e)))
          /\ Chk("C20.consspan", Within(e, WI(446), WI(512)) /\ (whole => e.len1 = e.len0))
          /\ If(Ok(e), /\ Chk("C20.consbytes", e.v = <<WI(66)>> /\ e.blk1 # None
                              /\ e.blk1[1] = Conserved(o0.bytes, b0))
                       /\ Chk("C20.consflush", ~e.unfl))
       [] e.op = "rdboot" ->
          /\ If(~Hit(e) /\ whole, Chk("C20.rdboot", Ok(e)))
          /\ Chk("C20.reads", e.chg = <<>> /\ e.len1 = e.len0)
          /\ If(Ok(e) /\ e.blk # None, Chk("C20.bootback", e.v = <<e.blk[1].boot>>))
       [] e.op = "wrboot" ->
          /\ If(~Hit(e) /\ whole, Chk("C20.wrboot", Ok(e)))
          /\ Chk("C20.bootspan", Within(e, W0, WI(440)) /\ (whole => e.len1 = e.len0))
          /\ If(Ok(e) /\ whole, Chk("C20.bootbytes", e.blk1 # None
                 /\ e.blk1[1] = WithBoot(e.blk[1], e.a.boot)))
          /\ If(Ok(e), Chk("C20.bootflush", ~e.unfl))
       [] e.op = "rdsig" ->
          /\ If(~Hit(e) /\ whole, Chk("C20.rdsig", Ok(e)))
          /\ Chk("C20.reads", e.chg = <<>> /\ e.len1 = e.len0)
          /\ If(Ok(e) /\ e.blk # None, Chk("C20.sigback", e.v = <<e.blk[1].sig>>))
       [] e.op = "wrsig" ->
          /\ If(~Hit(e) /\ whole, Chk("C20.wrsig", Ok(e)))
          /\ Chk("C20.sigspan", Within(e, WI(440), WI(444)) /\ (whole => e.len1 = e.len0))
          /\ If(Ok(e) /\ whole, Chk("C20.sigbytes", e.blk1 # None
                 /\ e.blk1[1] = WithSig(e.blk[1], e.a.sig)))
          /\ If(Ok(e), Chk("C20.sigflush", ~e.unfl))
       [] e.op = "prec" ->
          /\ Chk("C20.reclen", Ok(e) <=> e.a.len = WI(16))
          /\ If(Ok(e), Chk("C20.rec", e.v = <<e.a.rec, e.a.rec>>))
  \* operations on a device leave the object alone
  /\ If(e.op \in {"over", "cons"}, Chk("C20.object", e.m1 = e.m0))

-----------------------------------------------------------------------------
(* Arithmetic and types *)

ChkArith(e) ==
  LET is(x, v) == IF v = None THEN x.r.k = "err" ELSE x.r.k = "ok" /\ x.v = v
  IN  /\ Chk("C23.sectors", is(e.sl, SectorsLen(e.f, e.l)))
      /\ Chk("C23.bytes", is(e.bl, BytesLen(e.f, e.l, e.lbs)))
      /\ Chk("C23.start", is(e.bs, BytesStart(e.f, e.lbs)))

\* the block sizes are 512 and 4096, and every conversion of them says the same
ChkBlock(e) ==
  IF e.n \in {WI(512), WI(4096)}
  THEN Chk("C23.block", Ok(e) /\ Len(e.v[1]) = 6
                        /\ \A k \in 1..4 : e.v[1][k] = e.n
                        /\ e.v[1][5] = e.v[1][6])
  ELSE Chk("C23.noblock", Err(e))

\* the attributes are the three lowest bits, in this order
ChkAttrs(e) ==
  /\ Chk("C23.attrs", e.has = e.low)
  /\ Chk("C23.bits", e.bits = WI((IF e.low[1] THEN 1 ELSE 0) + (IF e.low[2] THEN 2 ELSE 0)
                                  + (IF e.low[3] THEN 4 ELSE 0)))

ChkType(e) ==
  LET is(r) == Ok(e) /\ e.v = <<[t |-> r[2], os |-> r[3]]>>
  IN  CASE e.by = "os" ->
           IF e.in \in DOMAIN OsTexts THEN Chk("C22.os", Ok(e) /\ e.v[1].os = OsTexts[e.in])
           ELSE Chk("C22.noos", Err(e))
        [] e.by = "default" -> Chk("C22.default", is(ByName["UNUSED"]))
        [] e.by = "const" -> Chk("C22.const", is(ByName[e.in]))
        [] e.by = "uuid" ->
           IF e.g[1] \in TypeGuids THEN Chk("C22.guid", is(ByGuid[e.g[1]]))
           ELSE Chk("C22.unknown", Ok(e) /\ e.v = <<[t |-> e.g[1], os |-> "None"]>>)
        [] e.by \in {"str", "name"} ->
           IF e.up \in TypeNames THEN Chk("C22.name", is(ByName[e.up]))
           ELSE IF e.g # None /\ e.g[1] \in TypeGuids
           THEN Chk("C22.text", is(ByGuid[e.g[1]]))
           ELSE IF e.g # None
           THEN Chk("C22.other", Ok(e) /\ e.v = <<[t |-> e.g[1], os |-> "None"]>>)
           ELSE Chk("C22.refuse", Err(e))

-----------------------------------------------------------------------------
(* Nothing else changes: all other handles and devices *)

ChkOthers(e) ==
  LET mine == {e.h} \cup (IF "h2" \in DOMAIN e.a THEN {e.a.h2} ELSE {})
      wrote == IF e.e \in {"write", "writec"} THEN {e.d} ELSE {}
      made == IF e.e = "clone" THEN {e.a.d2} ELSE {}
      pairs(now, then, skip) ==
        \A k \in DOMAIN now : now[k][1] \notin skip =>
          \A j \in DOMAIN then : then[j][1] = now[k][1] => then[j][2] = now[k][2]
      otherH == pairs(e.hd, LH, mine)
      devs == pairs(e.dd, LD, wrote \cup made)
  IN  /\ If(Len(e.hd) > 1, Chk("C25.objects", otherH))
      /\ IF e.e \in {"write", "writec"}
         THEN If(Len(e.dd) > 1, Chk("C25.devices", devs))
         ELSE /\ Chk("C05.devices", devs)
              /\ Chk("C05.changed", ~Touched(e))
      /\ If(e.e \in {"open", "fopen", "rdisk", "create", "fcreate"} /\ e.deg,
            Chk("C19.quiet", ~Touched(e)))

-----------------------------------------------------------------------------
(* The state after an event *)

GuidsOf(s) == {s.g} \cup {s.parts[k].u : k \in DOMAIN s.parts}
Edits == {"add", "addat", "rm", "rmg", "take", "upd", "setg", "q", "write"}
Looks == {"create", "open", "fcreate", "fopen", "rdisk"}
DiskOps == Edits \cup Looks \cup {"writec", "clone", "retgt", "swap", "takedev", "drop"}
Preps == {"dev", "devcopy", "graft", "resize", "poke", "flip", "sethdr", "setent", "fixcrc", "mode", "power",
          "fdev", "fpoke", "fresize", "undev", "hcrc", "crcf"}
Helpers == {"hb", "hw", "pw", "pz", "hr", "pr", "whdr", "rhdr", "rparts", "pwp"}
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Set(f, k, v) == (k :> v) @@ f
Forget(ds, k) == SelectSeq(ds, LAMBDA p : p[1] # k)

\* an event about a handle which is gone (a call on it panicked) cannot be judged
Known(e) == e.e \in Looks \/ (e.h \in DOMAIN H)

Check(e) ==
  CASE e.e = "begin" -> TRUE
    [] e.e \in Preps -> TRUE
    [] e.e \in DiskOps ->
       /\ Known(e)
       /\ CASE e.e \in {"create", "fcreate"} -> ChkCreate(e)
            [] e.e \in {"open", "fopen", "rdisk"} -> ChkOpen(e)
            [] e.e = "add" -> ChkAdd(e)
            [] e.e = "addat" -> ChkAddAt(e)
            [] e.e \in {"rm", "rmg", "take"} -> ChkRemove(e)
            [] e.e = "upd" -> ChkUpdate(e)
            [] e.e = "setg" -> ChkSetGuid(e)
            [] e.e \in {"write", "writec"} -> ChkWrite(e)
            [] e.e \in {"clone", "retgt"} -> ChkCopy(e)
            [] e.e = "swap" -> ChkSwap(e)
            [] e.e = "takedev" -> If(~e.file, Chk("C25.device", Ok(e) /\ e.v = <<TRUE>>))
            [] e.e = "q" -> /\ Chk("C18.query", ~Panic(e))
                            /\ Chk("C05.query", e.st = Pre(e).s)
            [] OTHER -> TRUE
       /\ ChkOthers(e)
       /\ If("st" \in DOMAIN e,
             ChkAfter(e, e.e \in Looks, IF e.e \in Looks THEN <<>> ELSE Pre(e).s,
                      IF e.e \in Looks THEN None ELSE Pre(e).o))
    [] e.e = "hb" -> ChkBuild(e)
    [] e.e = "hw" -> ChkHeaderWrite(e)
    [] e.e \in {"pw", "pwp"} -> ChkEntryWrite(e)
    [] e.e = "pz" -> ChkZero(e)
    [] e.e \in {"hr", "rhdr"} -> ChkHeaderRead(e)
    [] e.e \in {"pr", "rparts"} -> ChkPartsRead(e)
    [] e.e = "whdr" -> ChkWriteHeader(e)
    [] e.e = "arith" -> ChkArith(e)
    [] e.e = "type" -> ChkType(e)
    [] e.e = "block" -> ChkBlock(e)
    [] e.e = "attrs" -> ChkAttrs(e)
    [] OTHER -> ChkMbr(e)      \* "mbr", "rdboot", ...

NextH(e) ==
  IF e.e = "begin" THEN [x \in {} |-> 0]
  ELSE IF e.e \notin DiskOps THEN H
  ELSE IF "st" \notin DOMAIN e THEN Drop(H, e.h)
  ELSE LET old == IF e.e \in Looks
                  THEN [c |-> e.c, d |-> e.d, s |-> e.st, o |-> None, rt |-> FALSE,
                        pv |-> IF e.e \in {"open", "fopen"} THEN Some(e.m0) ELSE None]
                  ELSE Pre(e)
           new == [old EXCEPT !.s = e.st, !.o = <<e.obs>>,
                              !.pv = IF e.e \in Looks \cup {"q", "clone", "retgt"} THEN @ ELSE None]
       IN  CASE e.e = "swap" ->
                Set(H, e.h, [new EXCEPT !.d = e.a.d2, !.c.wr = e.a.wr, !.rt = TRUE])
             [] e.e = "clone" /\ Ok(e) ->
                Set(Set(H, e.h, new), e.a.h2,
                    [new EXCEPT !.d = e.a.d2, !.s = e.st2, !.o = None, !.rt = TRUE])
             [] e.e = "retgt" /\ Ok(e) ->
                Set(Set(H, e.h, new), e.a.h2,
                    [new EXCEPT !.d = e.a.d2, !.s = e.st2, !.o = None, !.rt = TRUE,
                                !.c.wr = e.a.wr])
             [] OTHER -> Set(H, e.h, new)

NextX(e) ==
  IF e.e = "begin" THEN [x \in {} |-> 0]
  ELSE IF e.e \in DiskOps
  THEN CASE e.e \in {"write", "writec"} /\ e.c.wr ->
            LET d == Disk(Pre(e)) IN
            IF Ok(e) /\ ~Hit(e) /\ Sane(d)
            THEN Set(X, e.d, [exp |-> Some([lbs |-> e.c.lbs, g |-> d.g,
                                            parts |-> Expected(d.parts)]),
                              fail |-> FALSE])
            ELSE Set(X, e.d, [exp |-> None, fail |-> Err(e) /\ Hit(e)])
         [] e.e = "clone" /\ e.d \in DOMAIN X -> Set(X, e.a.d2, X[e.d])
         [] OTHER -> X
  ELSE IF "d" \in DOMAIN e /\ e.d \in DOMAIN X
  THEN IF e.e = "mode" THEN X
       ELSE IF e.e \in Preps \ {"dev", "devcopy", "undev", "fdev"}
       THEN [X EXCEPT ![e.d].exp = None]
       ELSE Drop(X, e.d)
  ELSE X

Init == /\ i = 1
        /\ H = [x \in {} |-> 0]
        /\ X = [x \in {} |-> 0]
        /\ LH = <<>> /\ LD = <<>>
        /\ us = {}
        /\ TLCSet(1, [x \in {} |-> 0])

\* the specification cannot follow an event of an unknown handle: an error of the recording
Lost(e) == e.e \in DiskOps /\ ~Known(e)

Next ==
  \/ /\ i <= Len(T)
     /\ LET e == T[i] IN
        /\ Assert(~Lost(e), <<"event about an unknown handle", i>>)
        /\ IF Check(e) THEN TRUE ELSE TRUE
        /\ H' = NextH(e)
        /\ X' = NextX(e)
        /\ IF e.e = "begin" THEN LH' = <<>> /\ LD' = <<>>
           ELSE IF e.e \in DiskOps THEN LH' = e.hd /\ LD' = e.dd
           ELSE LH' = LH /\ LD' = IF "d" \in DOMAIN e THEN Forget(LD, e.d) ELSE LD
        /\ us' = IF e.e = "begin" THEN {}
                 ELSE IF "st" \in DOMAIN e THEN us \cup GuidsOf(e.st) ELSE us
     /\ i' = i + 1
  \/ /\ i = Len(T) + 1
     /\ LET f == TLCGet(1) IN \A cl \in DOMAIN f : PrintT(<<"COUNT", cl, f[cl]>>)
     /\ PrintT(<<"DONE", Len(T)>>)
     /\ i' = i + 1
     /\ UNCHANGED <<H, X, LH, LD, us>>

View == i
Spec == Init /\ [][Next]_vars
=============================================================================
