------------------------------- MODULE PyTrace ------------------------------
(***************************************************************************)
(* Are the recorded runs of a batch of programs behaviours of PyVM?        *)
(*                                                                         *)
(* Every program of the batch is an initial state; its (only) behaviour is *)
(* followed, and the events and output of each step are compared with the  *)
(* recorded ones.  One line with a verdict is printed for each program.    *)
(***************************************************************************)
EXTENDS PyVM

VARIABLE pos    \* [e, o, n, v, c]: events, output lines, steps so far, the verdict, opcodes executed

Bad(kind, i, exp, got) == kind \o " " \o ToString(i) \o ": specified " \o exp \o ", recorded " \o got
\* compares new items with those recorded after the first i
RECURSIVE Match(_, _, _, _)
Match(kind, new, rec, i) ==
  IF new = <<>> THEN ""
  ELSE IF i >= Len(rec) THEN Bad(kind, i + 1, Head(new), "nothing")
  ELSE IF Head(new) # rec[i + 1] THEN Bad(kind, i + 1, Head(new), rec[i + 1])
  ELSE Match(kind, Tail(new), rec, i + 1)

Judge(p, M, e, ps) ==
  LET m1 == Match("output", e.out, p.rout, ps.o)
      m2 == IF p.tr THEN Match("event", e.ev, p.rev, ps.e) ELSE ""
      no == ps.o + Len(e.out)
      ne == ps.e + Len(e.ev)
      lost == p.rres = "hang"    \* the run was ended, its record is lost
      v == IF m1 # "" /\ ~lost THEN m1 ELSE IF m2 # "" /\ ~lost THEN m2
           ELSE IF M.st # "done"
                THEN (IF ps.n > p.limit THEN "limit: more steps than " \o ToString(p.limit) ELSE "")
           ELSE IF M.res # p.rres THEN Bad("outcome", 0, M.res, p.rres)
           ELSE IF no < Len(p.rout) THEN Bad("output", no + 1, "nothing", p.rout[no + 1])
           ELSE IF p.tr /\ ne < Len(p.rev) THEN Bad("event", ne + 1, "nothing", p.rev[ne + 1])
           ELSE "accepted"
  IN [e |-> ne, o |-> no, n |-> ps.n + 1, v |-> v, c |-> ps.c \cup {cur.op}]
Report(p, ps) == IF ps.v = "" THEN TRUE
                 ELSE /\ IF ps.v = "accepted" THEN PrintT(<<"COVER", p.vs, ps.c>>) ELSE TRUE
                      /\ PrintT("VERDICT " \o p.id \o " " \o ToString(ps.n) \o " " \o ps.v)

TInit == \E i \in DOMAIN Progs :
           /\ InitOf(i)
           /\ pos = [e |-> 0, o |-> 0, n |-> 0, v |-> "", c |-> {}]
TNext(step) == /\ pos.v = ""
               /\ Next(step)
               /\ pos' = Judge(Progs[vm.pid], vm', em', pos)
               /\ Report(Progs[vm.pid], pos')
TSpec == TInit /\ [][TNext(0)]_<<vm, cur, em, pos>>
=============================================================================
