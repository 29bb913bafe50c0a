----------------------------- MODULE CodecTrace -----------------------------
(* Judges what the real encoders and decoders made of a value, intact or        *)
(* damaged on the way.                                                          *)
EXTENDS CodecOps
Lines == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Why(o) ==
  IF Dead(o) THEN DeadWhy(o)
  ELSE IF o.enc # "" THEN (IF Refusable(o.fmt, o.want) THEN "" ELSE "cannot be written")
  ELSE IF ~o.stable THEN "reading changes what is read"
  ELSE IF ~o.touched THEN (IF o.dec # "" THEN "what was written cannot be read"
                           ELSE IF ~Same(o.got, o.want) THEN "reads back differently" ELSE "")
  ELSE IF o.dec # "" THEN ""
  ELSE IF ~Announced(o.annkind, o.ann, o.got) THEN "not of the announced shape"
  ELSE IF o.cut /\ o.shorter /\ Same(o.got, o.want) THEN "reads outside the given bytes"
  ELSE ""
TInit == l = 1
TNext == /\ l <= Len(Lines)
         /\ l' = l + 1
         /\ LET w == Why(Lines[l]) IN IF w = "" THEN TRUE ELSE Reject(Lines[l].id, w)
TSpec == TInit /\ [][TNext]_l
TAllRead == TLCGet("stats").diameter - 1 = Len(Lines)
=============================================================================
