------------------------------- MODULE PyInput ------------------------------
(***************************************************************************)
(* What the specification is instantiated with, from two files named by    *)
(* environment variables:                                                  *)
(*   BATCH   the programs (code objects, and for each one the VM's version,*)
(*           the event mask, the answers of the callback and the record of *)
(*           a run), the modules that can be imported, and the order of    *)
(*           the strings that occur;                                       *)
(*   OPTAB   the opcode tables of the interpreted versions.                *)
(* The files are read once, and kept in registers of TLC.                  *)
(***************************************************************************)
EXTENDS TLC, Json, IOUtils, Integers, Sequences, FiniteSets

ASSUME LET b == JsonDeserialize(IOEnv.BATCH)
       IN /\ TLCSet(11, b.progs) /\ TLCSet(12, b.mods) /\ TLCSet(13, b.rank)
          /\ TLCSet(14, JsonDeserialize(IOEnv.OPTAB))
Progs == TLCGet(11)
ModTab == TLCGet(12)
RankTab == TLCGet(13)   \* string -> its position among all known strings, sorted
OpTab == TLCGet(14)
=============================================================================
