------------------------------- MODULE Codes -------------------------------
(* Status words of the protocol (doc/ and src/sw.h).                         *)
SwOk            == "9000"
SwDeny          == "6985"
SwBadP1P2       == "6a86"
SwBadLength     == "6a87"
SwBadIns        == "6d00"
SwBadCla        == "6e00"
SwBusy          == "b000"
SwBadSession    == "b002"
SwBadSubcommand == "b003"
SwBadState      == "b0ff"
SwTokenId       == "e001"
SwTokenValue    == "e002"
SwExtSize       == "e003"
SwDataInput     == "e004"
SwBoxId         == "e005"
SwTokenIndex    == "e006"
SwFrameIndex    == "e007"
SwInputCount    == "e008"
SwOutputCount   == "e009"
SwTooManyTokens == "e00a"
SwTooManyDatas  == "e00c"
SwTooManyFrames == "e00d"
SwBuffer        == "e010"
SwOverflow      == "e011"
SwBadPath       == "e012"
SwCrypto        == "e013"
SwNotEnough     == "e014"
SwTooMuch       == "e015"
SwAddress       == "e016"
SwFrameMac      == "e018"
SwNetType       == "e019"
SwSmallChunk    == "e01a"
SwPathFormat    == "e101"
\* status words a fault inside the device (crypto, hash, random) may give
SwFaults == {"e013", "e00f", "e016", "e017", "e010", "b0ff"}
=============================================================================
