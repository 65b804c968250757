-------------------------------- MODULE Cuts --------------------------------
(* P03: every proper prefix of a file is rejected: a writer that stops at   *)
(* any byte leaves no document behind.  All documents of Bases in all their *)
(* layouts, and random documents.                                           *)
EXTENDS Layouts
CONSTANTS Step
CInit == n = Shard
CNext == n + Shards < Limit /\ n' = n + Shards
CEmitted == n < Limit => EmitCase([op |-> "truncate", id |-> <<"cut", VSeed, n>>, doc |-> DocOf(n), encs |-> <<Layout(Seed(VSeed + 3 * n, 1))>>, step |-> Step])
=============================================================================
