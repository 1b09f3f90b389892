------------------------------- MODULE JTrace -------------------------------
(***************************************************************************)
(* Checks recorded analyses against the specification.                     *)
(*                                                                         *)
(* Every case [id, o, bytes, meta, obs] starts the machine of JParser on   *)
(* the bytes of the file; the machine runs step by step to its end, with   *)
(* its invariants evaluated in every state, and the observed report is     *)
(* then compared with the one that the specification requires.  All cases  *)
(* are independent initial states.  Judge is total: a difference is        *)
(* printed, it never stops the run.                                        *)
(***************************************************************************)
EXTENDS JFile, Json, IOUtils

Cases == JsonDeserialize(IOEnv.JTRACE)

VARIABLES i, st, judged
vars == <<i, st, judged>>

TraceInit == /\ i \in 1..Len(Cases)
             /\ st = Init0(Cases[i].bytes, Cases[i].o)
             /\ judged = FALSE

Do(can, eff) == can /\ st' = eff /\ UNCHANGED <<i, judged>>

ALeafBox       == Do(CanReadLeafBox(st), ReadLeafBox(st))
ASuperBox      == Do(CanOpenSuperBox(st), OpenSuperBox(st))
AOpenCode      == Do(CanOpenCodestream(st), OpenCodestream(st))
ACloseSuper    == Do(CanCloseSuperBox(st), CloseSuperBox(st))
AFinishFile    == Do(CanFinishFile(st), FinishFile(st))
ASOC           == Do(CanReadSOC(st), ReadSOC(st))
ASIZ           == Do(CanReadSIZ(st), ReadSIZ(st))
AMainSegment   == Do(CanReadMainSegment(st), ReadMainSegment(st))
AEndMain       == Do(CanEndMainHeader(st), EndMainHeader(st))
AOpenTile      == Do(CanOpenTilePart(st), OpenTilePart(st))
ATileSegment   == Do(CanReadTileSegment(st), ReadTileSegment(st))
ACloseTile     == Do(CanCloseTilePart(st), CloseTilePart(st))
AEndTiles      == Do(CanEndTileParts(st), EndTileParts(st))
AWrapUp        == Do(CanWrapUpCodestream(st), WrapUpCodestream(st))
ACloseCode     == Do(CanCloseCodestream(st), CloseCodestream(st))
AFinishCode    == Do(CanFinishCodestream(st), FinishCodestream(st))

Show(id, d) == PrintT("REJECT|" \o ToString(id) \o "|" \o d[1] \o "|" \o Clip(d[2]) \o "|" \o Clip(d[3]))

Judge == /\ st.done /\ ~judged
         /\ judged' = TRUE
         /\ LET c  == Cases[i]
                ds == FileDiff(st.res, c.o, c.meta, c.obs)
            IN /\ \A k \in 1..Min2(Len(ds), 12) : Show(c.id, ds[k])
               /\ PrintT("JUDGED|" \o ToString(c.id) \o "|" \o ToString(Len(ds)) \o "|" \o Verdict(st.res))
               \* a file from JWriter: its declarative legality is the machine's verdict
               /\ c.legal # "" /\ c.legal # Verdict(st.res) => PrintT("THEOREM|" \o ToString(c.id))
         /\ UNCHANGED <<i, st>>

TraceNext == \/ ALeafBox \/ ASuperBox \/ AOpenCode \/ ACloseSuper \/ AFinishFile
             \/ ASOC \/ ASIZ \/ AMainSegment \/ AEndMain
             \/ AOpenTile \/ ATileSegment \/ ACloseTile \/ AEndTiles
             \/ AWrapUp \/ ACloseCode \/ AFinishCode \/ Judge

TraceSpec == TraceInit /\ [][TraceNext]_vars

---------------------------------------------------------------------------
\* Checked on the specification itself, in every state of every run.

FrameOK(f) == /\ f.kind \in {"boxes", "code", "tile"}
              /\ f.kind = "boxes" /\ f.open => f.pos >= 0
              /\ f.kind = "code" => f.phase \in {"soc", "siz", "main", "mainend", "tiles", "wrapup", "end"}
              /\ f.kind = "tile" => f.start >= 0

\* a codestream never contains boxes; a tile-part header only stands on a codestream
NestingOK == \A k \in 2..Len(st.stack) :
                /\ st.stack[k].kind = "tile"  => st.stack[k - 1].kind = "code"
                /\ st.stack[k].kind # "tile" => st.stack[k - 1].kind = "boxes"

StateOK == /\ Len(st.stack) >= 1
           /\ \A k \in 1..Len(st.stack) : FrameOK(st.stack[k])
           /\ NestingOK

PhaseRank == [soc |-> 1, siz |-> 2, main |-> 3, mainend |-> 4, tiles |-> 4, wrapup |-> 5, end |-> 6]

\* Termination: every step opens something inside the current item, closes the
\* current item, moves forward in it, or advances its phase.
Advances(f, g) ==
    CASE f.kind = "boxes" -> g.pos > f.pos \/ (f.open /\ ~g.open)
      [] f.kind = "code"  -> \/ PhaseRank[g.phase] > PhaseRank[f.phase]
                             \/ g.phase = f.phase /\ g.pos > f.pos
      [] f.kind = "tile"  -> g.pos > f.pos \/ (f.open /\ ~g.open)

Moves == LET n == Len(st.stack)
             m == Len(st'.stack)
         IN \/ judged' # judged
            \/ st'.done /\ ~st.done
            \/ m = n + 1 /\ (Top(st).kind = "boxes" => Advances(Top(st), Under(st')))
            \/ m = n - 1 /\ Top(st).kind = "tile" /\ Advances(Under(st), Top(st'))
            \/ m = n - 1 /\ Top(st).kind # "tile"
            \/ m = n /\ Advances(Top(st), Top(st'))
Progress == [][Moves]_vars
=============================================================================
