------------------------------- MODULE JStep -------------------------------
(***************************************************************************)
(* The machine of JParser as one step function (it is deterministic).      *)
(***************************************************************************)
EXTENDS JFile

ParserStep(s) ==
    CASE CanReadLeafBox(s)      -> ReadLeafBox(s)
      [] CanOpenSuperBox(s)     -> OpenSuperBox(s)
      [] CanOpenCodestream(s)   -> OpenCodestream(s)
      [] CanCloseSuperBox(s)    -> CloseSuperBox(s)
      [] CanFinishFile(s)       -> FinishFile(s)
      [] CanReadSOC(s)          -> ReadSOC(s)
      [] CanReadSIZ(s)          -> ReadSIZ(s)
      [] CanReadMainSegment(s)  -> ReadMainSegment(s)
      [] CanEndMainHeader(s)    -> EndMainHeader(s)
      [] CanOpenTilePart(s)     -> OpenTilePart(s)
      [] CanReadTileSegment(s)  -> ReadTileSegment(s)
      [] CanCloseTilePart(s)    -> CloseTilePart(s)
      [] CanEndTileParts(s)     -> EndTileParts(s)
      [] CanWrapUpCodestream(s) -> WrapUpCodestream(s)
      [] CanCloseCodestream(s)  -> CloseCodestream(s)
      [] CanFinishCodestream(s) -> FinishCodestream(s)
=============================================================================
