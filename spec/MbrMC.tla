--------------------------------- MODULE MbrMC ---------------------------------
(***************************************************************************)
(* Model checking of Mbr.tla: two objects and one device.  Prints every      *)
(* transition with its command, as GptMC.tla does.                          *)
(***************************************************************************)
EXTENDS Mbr, TLC, TLCExt, FiniteSets

CONSTANTS Lbs, Objs, Boots, Sigs, Recs, Slots, Faults
VARIABLES ob,      \* object -> None or Some(record)
          blk,     \* block 0
          last
vars == <<ob, blk, last>>
View == <<ob, blk>>
Some(x) == <<x>>
None == <<>>
S(n) == ToString(n)
Nothing == "zero"        \* boot code of zeros
Zero == [boot |-> Nothing, sig |-> "00000000", unk |-> "0000",
         recs |-> <<ZeroRec, ZeroRec, ZeroRec, ZeroRec>>, magic |-> "0000"]
Pos(x) == S(IF x = "a" THEN 0 ELSE 700)
Tail1 == " lbs=" \o S(Lbs)

Op(op, m, cmd, r, v) == last' = [op |-> op, m |-> m, cmd |-> cmd, r |-> r, v |-> v]
Live == {m \in Objs : ob[m] # None}

New(m, size) == /\ ob' = [ob EXCEPT ![m] = Some(NewMbr(size, Nothing))]
                /\ Op("new", m, "mbr new m=" \o m \o (IF size = "ffffffff" THEN "" ELSE " lb=4095")
                                \o Tail1, "ok", None)
                /\ UNCHANGED blk
From(m) == /\ ob' = IF Accepted(blk) THEN [ob EXCEPT ![m] = Some(blk)] ELSE ob
           /\ Op("from", m, "mbr from m=" \o m \o " d=d pos=" \o Pos(m) \o Tail1,
                 IF Accepted(blk) THEN "ok" ELSE "err", None)
           /\ UNCHANGED blk
Boot(m, x) == /\ ob' = [ob EXCEPT ![m] = Some(SetBoot(@[1], x))]
              /\ Op("setboot", m, "mbr setboot m=" \o m \o " seed=" \o x, "ok", None)
              /\ UNCHANGED blk
Sig(m, x) == /\ ob' = [ob EXCEPT ![m] = Some(SetSig(@[1], x))]
             /\ Op("setsig", m, "mbr setsig m=" \o m \o " sig=" \o x, "ok", None)
             /\ UNCHANGED blk
Part(m, k, r) == /\ ob' = [ob EXCEPT ![m] = Some(SetPart(@[1], k, r).o)]
                 /\ Op("setpart", m, "mbr setpart m=" \o m \o " i=" \o S(k - 1) \o " rec=" \o r,
                       "ok", SetPart(ob[m][1], k, r).v)
                 /\ UNCHANGED blk
OnDev(m) == " d=d pos=" \o Pos(m) \o Tail1
Over(m) == /\ blk' = Overwritten(ob[m][1], blk)
           /\ Op("over", m, "mbr over m=" \o m \o OnDev(m), "ok", None)
           /\ UNCHANGED ob
Cons(m) == /\ blk' = Conserved(ob[m][1], blk)
           /\ Op("cons", m, "mbr cons m=" \o m \o OnDev(m), "ok", None)
           /\ UNCHANGED ob
\* the first access to the device fails
Fail(m, op) == /\ Op("fail", m, "mbr " \o op \o " m=" \o m \o OnDev(m) \o " fault=1", "err", None)
               /\ UNCHANGED <<ob, blk>>
WrBoot(x) == /\ blk' = WithBoot(blk, x)
             /\ Op("wrboot", "", "wrboot d=d pos=9 seed=" \o x, "ok", None)
             /\ UNCHANGED ob
WrSig(x) == /\ blk' = WithSig(blk, x)
            /\ Op("wrsig", "", "wrsig d=d pos=600 sig=" \o x, "ok", None)
            /\ UNCHANGED ob
RdBoot == /\ Op("rdboot", "", "rdboot d=d pos=3", "ok", Some(blk.boot)) /\ UNCHANGED <<ob, blk>>
RdSig == /\ Op("rdsig", "", "rdsig d=d pos=512", "ok", Some(blk.sig)) /\ UNCHANGED <<ob, blk>>
\* somebody else writes to the block
Poke == /\ blk' = IF Accepted(blk) THEN [blk EXCEPT !.magic = "0000"]
                  ELSE [blk EXCEPT !.magic = Magic, !.unk = "abcd"]
        /\ Op("poke", "", IF Accepted(blk) THEN "poke d 510 0000"
                          ELSE "poke d 510 55aa|poke d 444 abcd", "ok", None)
        /\ UNCHANGED ob

Init == /\ ob = [m \in Objs |-> None] /\ blk = Zero
        /\ last = [op |-> "init", m |-> "", cmd |-> "", r |-> "ok", v |-> None]
Next ==
  \/ \E m \in Objs : \/ \E n \in {"ffffffff", "ff0f0000"} : New(m, n)
                     \/ From(m)
  \/ \E m \in Live : \/ \E x \in Boots : Boot(m, x)
                     \/ \E x \in Sigs : Sig(m, x)
                     \/ \E k \in Slots, r \in Recs : Part(m, k, r)
                     \/ Over(m) \/ Cons(m)
                     \/ \E op \in Faults : Fail(m, op)
  \/ \E x \in Boots : WrBoot(x)
  \/ \E x \in Sigs : WrSig(x)
  \/ RdBoot \/ RdSig \/ Poke
Spec == Init /\ [][Next]_vars

Fp(v) == S(TLCFP(v)) \o "." \o S(TLCFP(<<v>>))
Emit == PrintT("EDGE " \o Fp(View) \o " " \o Fp(View') \o " " \o last'.cmd)

-----------------------------------------------------------------------------
Fields == {"boot", "sig", "unk", "recs", "magic"}
Changed(x, y) == {f \in Fields : x[f] # y[f]}
\* objects always carry the signature of the block
C20Object == \A m \in Live : ob[m][1].magic = Magic
\* each operation changes only its own bytes
C20Span == [][CASE last'.op = "cons" -> Changed(blk, blk') \subseteq {"recs", "magic"}
                [] last'.op = "wrboot" -> Changed(blk, blk') \subseteq {"boot"}
                [] last'.op = "wrsig" -> Changed(blk, blk') \subseteq {"sig"}
                [] last'.op \in {"over", "poke"} -> TRUE
                [] OTHER -> blk' = blk]_vars
C20Setters == [][\A m \in Live : ob'[m] # None =>
  LET c == Changed(ob[m][1], ob'[m][1]) IN
  CASE last'.op = "setboot" /\ last'.m = m -> c \subseteq {"boot"}
    [] last'.op = "setsig" /\ last'.m = m -> c \subseteq {"sig"}
    [] last'.op = "setpart" /\ last'.m = m ->
         c \subseteq {"recs"}
         /\ Cardinality({k \in 1..4 : ob[m][1].recs[k] # ob'[m][1].recs[k]}) <= 1
    [] last'.op \in {"new", "from"} /\ last'.m = m -> TRUE
    [] OTHER -> c = {}]_vars
\* what was written is read
C20Back == [][/\ last'.op = "over" => blk' = ob[last'.m][1]
              /\ last'.op = "cons" => blk'.recs = ob[last'.m][1].recs /\ Accepted(blk')
              /\ (last'.op = "from" /\ last'.r = "ok") => ob'[last'.m][1] = blk
              /\ last'.op = "fail" => UNCHANGED View]_vars
C20Refuse == [][last'.op = "from" => (last'.r = "ok") = (blk.magic = Magic)]_vars

B2 == {"1", "2"}
S2 == {"11223344", "a0b0c0d0"}
R2 == {ZeroRec, "80010203070405060708090a0b0c0d0e"}
Sl == {1, 4, 5}
Sl1 == {1, 5}
OneObj == {"a"}
TwoObj == {"a", "b"}
B1 == {"1"}
S1 == {"11223344"}
R1 == {"80010203070405060708090a0b0c0d0e"}
Ops == {"over", "cons", "from"}
=============================================================================
