------------------------------- MODULE GptInst -------------------------------
(* The instances of GptMC.tla that are checked; see the .cfg files.          *)
EXTENDS GptMC

G1 == "a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1"
G2 == "b2b2b2b2b2b2b2b2b2b2b2b2b2b2b2b2"
C(wr, ov, rob, cpc) == [wr |-> wr, ov |-> ov, rob |-> rob, cpc |-> cpc]
RW == C(TRUE, FALSE, FALSE, FALSE)
RO == C(FALSE, FALSE, FALSE, FALSE)
RB == C(TRUE, FALSE, TRUE, FALSE)
OV == C(TRUE, TRUE, FALSE, FALSE)
CP == C(TRUE, FALSE, FALSE, TRUE)
RC == C(TRUE, FALSE, TRUE, TRUE)
A(n, al) == [blk |-> n, al |-> al]
Al(n) == Some(WI(n))

N14 == ("d" :> 14)
N15 == ("d" :> 15)
N16 == ("d" :> 16)
JustH == {"h"}
OnD == {"d"}
Empty == {}
OneG == {G1}
TwoG == {G1, G2}

\* Edits.  14 blocks have the usable blocks 6..8, 15 blocks 6..9.
EdConfs == {RW}
EdAdds == {A(1, None), A(2, None), A(1, Al(2)), A(2, Al(0)), A(1, Al(4)), A(4, None)}
EdAts == {<<1, 6, 1>>, <<2, 7, 2>>, <<3, 8, 1>>, <<2, 5, 1>>, <<1, 8, 2>>, <<129, 7, 1>>,
          <<128, 7, 1>>}
EdRms == {1, 2, 3, 128}
EdMaps == {<<<<1, 7, 7, TRUE>>, <<2, 8, 8, FALSE>>, <<3, 6, 6, TRUE>>>>,
           <<<<2, 7, 8, TRUE>>>>, <<<<129, 7, 7, TRUE>>>>, <<<<1, 8, 7, TRUE>>>>}

\* The two copies: damage, read-only backups, both headers required.
CoConfs == {RW, RO, RB, OV}
CoConfs1 == {RW, RB, OV}
CoAdds == {A(1, None)}
CoRms == {1}
CoDam == {"ph", "pa", "bh", "ba"}

\* Power loss.
CrConfs == {RW, RB}
CrLoss == {"t1", "n1", "t2"}
CrDam == {"pa", "bh"}

\* Growth: 129 entries take 5 blocks each, 161 entries 6.
GrConfs == {RW, CP, RC}
GrAdds == {A(1, None)}
GrAts == {<<1, 8, 1>>, <<129, 8, 1>>, <<129, 6, 1>>, <<161, 8, 1>>, <<300, 8, 1>>, <<128, 6, 1>>}
GrAts1 == {<<129, 8, 1>>, <<129, 6, 1>>, <<300, 8, 1>>}
GrRms == {1, 129}
GrMaps == {<<>>, <<<<1, 8, 8, TRUE>>, <<129, 9, 9, TRUE>>>>, <<<<161, 8, 8, FALSE>>>>}
GrMaps1 == {<<<<161, 8, 8, FALSE>>>>}

\* Other devices: larger, smaller, too small.
DeSizes == ("d" :> 14) @@ ("e" :> 17) @@ ("f" :> 11)
DeConfs == {RW, RB}
DeSwaps == {<<"d", TRUE>>, <<"e", TRUE>>, <<"e", FALSE>>, <<"f", TRUE>>}
DeAdds == {A(1, None), A(3, None)}

\* Copies of the object.
ClSizes == ("d" :> 14) @@ ("e" :> 16)
ClHandles == {"h", "g"}
ClSwaps == {<<"e", TRUE>>}
ClClones == {"e"}
=============================================================================
