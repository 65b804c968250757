------------------------------- MODULE Emit -------------------------------
(* Emission of generated behaviours, one JSON line per case, to be replayed *)
(* in the implementation.  Shard/Shards split an enumeration over several   *)
(* runs of TLC; Limit bounds it; VSeed permutes it.                         *)
EXTENDS Gen, Json, IOUtils
CONSTANTS OutFile, Shard, Shards, Limit, VSeed, Deep
Min2(a, b) == IF a < b THEN a ELSE b
EmitCase(c) == Serialize(ToJson(c) \o "\n", OutFile,
   [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
\* The n-th index of 0..total-1 in an order that depends on the seed
Stride(total) == IF total % 7919 = 0 THEN 1 ELSE 7919
Idx(n, total) == IF Limit >= total THEN n ELSE ((n % total) * (Stride(total) % total) + (VSeed % 1000) * 37) % total
Fname == <<83, 46, 111, 110, 101>>
SectionCase(id, doc, encs, exp) == [op |-> "section", id |-> id, fname |-> Fname, doc |-> doc, encs |-> encs, expect |-> exp]
NoLayout == [pack |-> ""]
============================================================================
