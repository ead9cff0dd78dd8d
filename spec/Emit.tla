------------------------------- MODULE Emit -------------------------------
(* Export of expected behaviour as JSON.  Every state gets a file of its    *)
(* own because concurrent appends of long lines would interleave.          *)
EXTENDS Integers, Sequences, Json, CSV, IOUtils, TLCExt, TLC
EmitJson(v, key) ==
    LET h == TLCFP(key) IN
    CSVWrite("%1$s", <<ToJson(v)>>, IOEnv.VERIF_OUT \o ".p" \o ToString(h))
EmitLine(v) == CSVWrite("%1$s", <<ToJson(v)>>, IOEnv.VERIF_OUT)
===========================================================================
