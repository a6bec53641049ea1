------------------------------ MODULE PyMachine -----------------------------
(***************************************************************************)
(* The machine x-python implements: frames, blocks, unwinding, calls,      *)
(* generators, classes, the operations of builtin and host objects, and    *)
(* the events a tracing debugger sees.  PyVM has one action per opcode, in *)
(* terms of what is defined here.                                          *)
(*                                                                         *)
(* The machine state M is one record:                                      *)
(*  pid  program; ver e.g. 306; vs name of its opcode table; pp PyPy;      *)
(*  fr   frames, innermost last: Python frames, and "nat" frames where     *)
(*       builtin code waits for interpreted code it has called;            *)
(*  heap objects; glb address of the globals;                              *)
(*  hx   the exception being handled (None if there is none);              *)
(*  st   run, unwind, done; why/wv why and with what a frame is unwound;   *)
(*  rvl  value returned or yielded last;                                   *)
(*  tr   TRUE for a tracing VM; nc callbacks made so far; fl0 event mask;  *)
(*  ev, out  the events and the output of the last step;                   *)
(*  res  how the program ended; lib module table.                          *)
(***************************************************************************)
EXTENDS PyBase

Prog(M) == Progs[M.pid]
Code(M, i) == Progs[M.pid].codes[i]

(******************************** frames ***********************************)
Top(M) == M.fr[Len(M.fr)]
\* the innermost Python frame (0: none)
RECURSIVE PyIdx(_, _)
PyIdx(fr, i) == IF i = 0 THEN 0 ELSE IF fr[i].k = "py" THEN i ELSE PyIdx(fr, i - 1)
CurPy(M) == PyIdx(M.fr, Len(M.fr))
Fr(M) == M.fr[CurPy(M)]
Co(M) == Code(M, Top(M).co)
SetTop(M, f) == [M EXCEPT !.fr[Len(M.fr)] = f]
Push(M, v) == [M EXCEPT !.fr[Len(M.fr)].stk = Append(@, v)]
PushAll(M, q) == [M EXCEPT !.fr[Len(M.fr)].stk = @ \o q]
PopN(M, n) == [M EXCEPT !.fr[Len(M.fr)].stk = SubSeq(@, 1, Len(@) - n)]
\* i-th stack entry from the top, 1 is the top
S(M, i) == LET s == Top(M).stk IN s[Len(s) + 1 - i]
\* the n topmost entries, deepest first
TopN(M, n) == LET s == Top(M).stk IN SubSeq(s, Len(s) - n + 1, Len(s))
Depth(M) == Len(Top(M).stk)
Jump(M, t) == [M EXCEPT !.fr[Len(M.fr)].pc = t]
PushBlock(M, t, h, lv) ==
  [M EXCEPT !.fr[Len(M.fr)].blk = Append(@, [t |-> t, h |-> h, lv |-> lv])]
PopBlock(M) == [M EXCEPT !.fr[Len(M.fr)].blk = Front(@)]
TopBlock(M) == Last(Top(M).blk)
NewAddr(M) == Len(M.heap) + 1
Alloc(M, o) == [M EXCEPT !.heap = Append(@, o)]
PushNew(M, o) == Push(Alloc(M, o), Ref(NewAddr(M)))
ListO(q) == [O("list") EXCEPT !.q = q]
DictO(d) == [O("dict") EXCEPT !.d = d]
SetO(q) == [O("set") EXCEPT !.q = q]
ItO(v) == [O("it") EXCEPT !.c = v]
CellO(v) == [O("cell") EXCEPT !.c = v]
Out(M, s) == [M EXCEPT !.out = Append(@, s)]
\* the end of the run ends the line print statements have left open
FlushLine(M) == IF M.soft THEN [Out(M, "write \n") EXCEPT !.soft = FALSE] ELSE M
Unsup(M, s) == [M EXCEPT !.st = "done", !.res = "unsupported:" \o s]

PyFrame(co, l, v, cells, rk, rv) ==
  [k |-> "py", co |-> co, pc |-> 0, li |-> -1, ln |-> 0, lop |-> "", lln |-> 0,
   stk |-> <<>>, blk |-> <<>>, l |-> l, v |-> v, cells |-> cells, gen |-> 0,
   rk |-> rk, rv |-> rv, fl |-> 0, tf |-> TRUE, hs |-> None, gh |-> Unb,
   bp |-> {}]
NatFrame(op, a, lim, rk, rv) ==
  [k |-> "nat", op |-> op, acc |-> <<>>, it |-> None, a |-> a, lim |-> lim, rk |-> rk, rv |-> rv]

(****************************** trace events *******************************)
Num0(i) == IF i = 0 THEN "-" ELSE ToString(i)
Ev(M, s) == [M EXCEPT !.ev = Append(@, s), !.nc = @ + 1]
\* what the callback answers to the event it gets as its n-th one
Answer(M, n) == LET p == Prog(M).policy
                    I == {i \in DOMAIN p : p[i].n = n}
                IN IF I = {} THEN "" ELSE p[CHOOSE i \in I : TRUE].r
AnswerInt(M, n) == LET p == Prog(M).policy
                   IN p[CHOOSE i \in DOMAIN p : p[i].n = n].v

(********************** returning from and into frames *********************)
RECURSIVE IsInst(_, _, _, _, _), LeavesSpace(_), SoftSpace(_, _, _, _, _), WriteTo(_, _, _, _, _), PrintText(_, _, _),
          Ret(_, _, _, _), ExcInto(_, _, _, _), StopInto(_, _, _, _),
          Invoke(_, _, _, _, _, _), Raise(_, _), GetAttr(_, _, _, _, _),
          NextOf(_, _, _, _), GetIter(_, _, _, _), Collect(_, _, _, _, _, _, _),
          Fin(_, _, _, _, _, _), ExitFrame(_, _, _), Instantiate(_, _, _, _, _, _),
          BuiltinCall(_, _, _, _, _, _), BinOp(_, _, _, _, _, _), PushFrame(_, _, _),
          CmpOp(_, _, _, _, _, _), SetAttr(_, _, _, _, _, _), DelAttr(_, _, _, _, _),
          GetItem(_, _, _, _, _), ProbeOp(_, _, _, _, _, _), MakeClass(_, _, _, _, _, _, _, _),
          Truth(_, _, _, _), ApplyTruth(_, _, _, _), SuperAttr(_, _, _, _, _), SpecialAttr(_, _, _, _, _), ThrowExc(_, _, _, _, _), ThrowHere(_, _, _, _, _),
          GenThrow(_, _, _, _, _), GenClose(_, _, _, _), Delegated(_, _, _, _, _), Waiting(_, _), Running(_, _),
          BinStep(_, _, _, _, _, _, _, _), CmpStep(_, _, _, _, _, _, _), IsIterator(_, _), InitInst(_, _, _, _, _, _), TypeNew(_, _, _, _, _, _, _, _),
          SetNames(_, _, _, _, _, _), GetAttrPlain(_, _, _, _, _), RunClassBody(_, _, _, _), SetAttrPlain(_, _, _, _, _, _), DelAttrPlain(_, _, _, _, _),
          EqBool(_, _, _, _, _), InWalk(_, _, _, _, _, _, _), SeqWalk(_, _, _, _, _, _, _),
          DictWalk(_, _, _, _, _, _, _), Rich(_, _, _, _, _, _, _, _, _, _), RangeItems(_), StemOf(_, _),
          BinBuiltin(_, _, _, _, _, _, _), DoRaise(_, _, _), DoRaise2(_, _, _), AfterWith(_, _, _), FrameReturn(_, _, _),
          CallMerged(_, _, _, _, _, _, _), MergeKw(_, _, _, _),
          TextOf(_, _, _, _, _), FormatOf(_, _, _, _, _)

\* a new instance of a builtin exception, raised by the machine itself
NewExc(M, cls) ==
  Alloc(M, [O("inst") EXCEPT !.c = Cls(cls), !.n = 1])
RaiseB(M, cls) == Raise(NewExc(M, cls), Ref(NewAddr(M)))
RaiseBInto(M, rk, rv, cls) == ExcInto(NewExc(M, cls), rk, rv, Ref(NewAddr(M)))

\* exception instance e is raised in the innermost frame
Raise(M, e) ==
  IF M.fr = <<>> THEN [FlushLine(M) EXCEPT !.st = "done", !.res = "exc:" \o ClsName(M.heap, M.heap[e.n].c)]
  ELSE IF Top(M).k = "nat"
       THEN ExcInto([M EXCEPT !.fr = Front(@)], Top(M).rk, Top(M).rv, e)
       ELSE [M EXCEPT !.st = "unwind", !.why = "exception", !.wv = e]

\* exception e comes out of what was called with continuation rk
ExcInto(M, rk, rv, e) ==
  IF rk \in {"foriter", "yf", "natnext", "nextdef"} /\ SubClass(M.heap, M.heap[e.n].c, Cls("StopIteration"))
  THEN StopInto(M, rk, rv, IF M.heap[e.n].q = <<>> THEN None ELSE M.heap[e.n].q[1])
  ELSE IF rk \in {"getdef", "hasattr"} /\ SubClass(M.heap, M.heap[e.n].c, Cls("AttributeError"))
       THEN Ret(M, rv[1], rv[2], rv[3])
  ELSE IF rk = "instclass" /\ SubClass(M.heap, M.heap[e.n].c, Cls("AttributeError"))
       THEN IsInst(M, rv[1], Tail(rv[2]), rv[3], rv[4])
  ELSE IF rk = "getattribute" \* rv: object, name, what to go on with
       THEN LET ga == Special(M.heap, rv[1], "__getattr__")
            IN IF ga.k # "unb" /\ SubClass(M.heap, M.heap[e.n].c, Cls("AttributeError"))
               THEN Invoke(M, ga, <<rv[1], StrV(rv[2])>>, <<>>, rv[3], rv[4])
               ELSE ExcInto(M, rv[3], rv[4], e)
  ELSE IF rk = "closemeth" /\ SubClass(M.heap, M.heap[e.n].c, Cls("AttributeError"))
       THEN Ret(M, rv[1], rv[2], None)
  ELSE IF rk = "closemeth" THEN ExcInto(M, rv[1], rv[2], e)
  ELSE IF rk = "softgot" THEN SetAttr(M, rv[1], "softspace", IntV(rv[2]), "softset", <<FALSE, rv[3], rv[4]>>)
  ELSE IF rk = "softset" THEN Ret(M, rv[2], rv[3], BoolV(rv[1]))
  ELSE IF rk = "throwmeth" /\ SubClass(M.heap, M.heap[e.n].c, Cls("AttributeError"))
       THEN ThrowHere(M, rv[1], rv[2], rv[3], rv[4])
  ELSE IF rk = "throwmeth" THEN ExcInto(M, rv[3], rv[4], e)
  ELSE IF rk = "init" THEN ExcInto(M, rv[2], rv[3], e)
  ELSE IF rk = "newinst" THEN ExcInto(M, rv[4], rv[5], e)
  ELSE IF rk = "throwinst" THEN ThrowExc(M, rv[1], e, rv[2], rv[3])
  ELSE IF rk = "thrown" /\ SubClass(M.heap, M.heap[e.n].c, Cls("StopIteration"))
       THEN Delegated(M, rv[1], IF M.heap[e.n].q = <<>> THEN None ELSE M.heap[e.n].q[1], rv[2], rv[3])
  ELSE IF rk = "thrown" THEN ThrowExc(Waiting(M, rv[1]), rv[1], e, rv[2], rv[3])
  ELSE IF rk = "subthrow" THEN ThrowExc(Waiting(M, rv[1]), rv[1], e, rv[3], rv[4])
  ELSE IF rk = "subclose" THEN ThrowExc(Waiting(M, rv[1]), rv[1], e, "closing", <<rv[2], rv[3]>>)
  ELSE IF rk = "closing"
       THEN LET c == M.heap[e.n].c IN
            IF SubClass(M.heap, c, Cls("GeneratorExit")) \/ SubClass(M.heap, c, Cls("StopIteration"))
            THEN Ret(M, rv[1], rv[2], None) ELSE ExcInto(M, rv[1], rv[2], e)
  ELSE IF rk = "sitnext"
       THEN LET c == M.heap[e.n].c IN
            IF SubClass(M.heap, c, Cls("IndexError")) \/ SubClass(M.heap, c, Cls("StopIteration"))
            THEN StopInto([M EXCEPT !.heap[rv[1]].c = None], rv[2], rv[3], None)
            ELSE ExcInto(M, rv[2], rv[3], e)
  ELSE Raise(M, e)

\* an iterator called with continuation rk is exhausted, and v is its result
StopInto(M, rk, rv, v) ==
  CASE rk = "foriter" -> Jump(PopN(M, 1), rv)
    [] rk = "yf" -> Push(PopN(M, 1), v)
    [] rk = "natnext" ->
         LET f == Top(M)
         IN Fin([M EXCEPT !.fr = Front(@)], f.op, f.acc, f.a, f.rk, f.rv)
    [] rk = "nextdef" -> Ret(M, rv[1], rv[2], rv[3])
    [] OTHER -> ExcInto(Alloc(M, [O("inst") EXCEPT !.c = Cls("StopIteration"), !.n = 1,
                                  !.q = IF v = None THEN <<>> ELSE <<v>>]),
                        rk, rv, Ref(NewAddr(M)))

\* what was called with continuation rk returns v
Ret(M, rk, rv, v) ==
  CASE rk = "push" -> Push(M, v)
    [] rk = "ignore" -> M
    [] rk = "top" -> [FlushLine(M) EXCEPT !.st = "done", !.res = "ok"]
    [] rk = "init" -> IF v = None THEN Ret(M, rv[2], rv[3], rv[1])
                      ELSE RaiseBInto(M, rv[2], rv[3], "TypeError")
    [] rk = "foriter" -> Push(M, v)
    [] rk = "yf" -> FrameReturn(M, "yieldfrom", v)
    [] rk = "throwmeth" -> Invoke([M EXCEPT !.heap[rv[1]].n = 2], v, rv[2], <<>>, "thrown", <<rv[1], rv[3], rv[4]>>)
    [] rk = "throwinst" -> ThrowExc(M, rv[1], v, rv[2], rv[3])
    [] rk = "thrown" -> Ret(Waiting(M, rv[1]), rv[2], rv[3], v)
    [] rk = "closemeth" -> Invoke(M, v, <<>>, <<>>, rv[1], rv[2])
    [] rk = "subthrow" -> ThrowHere(Waiting(M, rv[1]), rv[1], rv[2], rv[3], rv[4])
    [] rk = "subclose" ->
         ThrowExc(NewExc(Waiting(M, rv[1]), "GeneratorExit"), rv[1], Ref(NewAddr(M)), "closing", <<rv[2], rv[3]>>)
    [] rk = "closing" -> RaiseBInto(M, rv[1], rv[2], "RuntimeError")
    [] rk \in {"nextdef", "hasattr"} -> Ret(M, rv[1], rv[2], IF rk = "hasattr" THEN True ELSE v)
    [] rk = "getdef" -> Ret(M, rv[1], rv[2], v)
    [] rk = "natit" -> [M EXCEPT !.fr[Len(M.fr)].it = v]
    [] rk = "natnext" ->
         LET f == Top(M) acc == Append(f.acc, v)
         IN IF f.op = "search" THEN EqBool(M, v, f.a[1], "found", 0)
            ELSE IF Len(acc) = f.lim
            THEN Fin([M EXCEPT !.fr = Front(@)], f.op, acc, f.a, f.rk, f.rv)
            ELSE [M EXCEPT !.fr[Len(M.fr)].acc = acc]
    [] rk = "truth" -> \* of __bool__
         IF v.k = "bool" \/ (v.k = "int" /\ M.ver < 300) THEN ApplyTruth(M, v.n # 0, rv[1], rv[2])
         ELSE RaiseB(M, "TypeError")
    [] rk = "truthlen" -> \* of __len__
         IF ~Num(v) THEN RaiseB(M, "TypeError")
         ELSE IF v.n < 0 THEN RaiseB(M, "ValueError") ELSE ApplyTruth(M, v.n # 0, rv[1], rv[2])
    [] rk = "truthof" -> Truth(M, v, rv[1], rv[2])
    [] rk = "getattribute" -> Ret(M, rv[3], rv[4], v)
    [] rk = "unbound" -> \* an unbound method is called; v: is its first argument an instance
         IF v = True THEN Invoke(M, rv[1], rv[2], rv[3], rv[4], rv[5])
         ELSE RaiseBInto(M, rv[4], rv[5], "TypeError")
    [] rk = "supercheck" -> \* super(c, o), where o is no instance of c
         IF v = True THEN Unsup(M, "super of an object with another __class__")
         ELSE RaiseBInto(M, rv[1], rv[2], "TypeError")
    [] rk = "instclass" ->
         IF IsClass(M.heap, v) /\ SubClass(M.heap, v, rv[2][1]) THEN Ret(M, rv[3], rv[4], True)
         ELSE IsInst(M, rv[1], Tail(rv[2]), rv[3], rv[4])
    [] rk = "prepared" -> \* the namespace of a class
         IF IsObj(M.heap, v, "dict") THEN RunClassBody(M, v.n, rv[1], rv[2])
         ELSE RaiseBInto(M, rv[2][6], rv[2][7], "TypeError")
    [] rk = "class" -> MakeClass(M, rv[1], rv[2], rv[3], v, <<rv[4], rv[5]>>, rv[6], rv[7])
    [] rk = "setcell" -> \* the class cell is filled
         Ret(IF rv[1].k = "ref" /\ M.heap[rv[1].n].k = "cell" THEN [M EXCEPT !.heap[rv[1].n].c = v] ELSE M,
             rv[2], rv[3], v)
    [] rk = "newinst" -> \* result of __new__; rv: class, arguments
         IF InstOf(M.heap, v, rv[1]) THEN InitInst(M, v, rv[2], rv[3], rv[4], rv[5])
         ELSE Ret(M, rv[4], rv[5], v)
    [] rk = "setname" -> SetNames(M, rv[1], rv[2], rv[3], rv[4], rv[5])
    [] rk = "constant" -> Ret(M, rv[1], rv[2], rv[3])
    [] rk = "binop" -> \* result of an operator method; rv: next step, operator, operands
         IF v.k = "nimp" THEN BinStep(M, rv[1], rv[2], rv[3], rv[4], rv[5], rv[6], rv[7])
         ELSE Ret(M, rv[6], rv[7], v)
    [] rk = "cmp" ->
         IF v.k = "nimp" THEN CmpStep(M, rv[1], rv[2], rv[3], rv[4], rv[5], rv[6])
         ELSE Ret(M, rv[5], rv[6], v)
    [] rk = "cmpne" -> \* __eq__, asked for !=
         IF v.k = "nimp" THEN CmpStep(M, rv[1], rv[2], rv[3], rv[4], rv[5], rv[6])
         ELSE Truth(M, v, "ne", <<rv[5], rv[6]>>)
    [] rk = "sitnext" -> Ret([M EXCEPT !.heap[rv[1]].n = @ + 1], rv[2], rv[3], v)
    [] rk = "iterres" ->
         IF IsIterator(M, v) THEN Ret(M, rv[1], rv[2], v)
         ELSE RaiseBInto(M, rv[1], rv[2], "TypeError")
    [] rk = "strres" ->
         IF v.k = "str" THEN Ret(M, rv[1], rv[2], v) ELSE RaiseBInto(M, rv[1], rv[2], "TypeError")
    [] rk = "softgot" ->
         SetAttr(M, rv[1], "softspace", IntV(rv[2]), "softset", <<v.k \in {"int", "bool"} /\ v.n # 0, rv[3], rv[4]>>)
    [] rk = "softset" -> Ret(M, rv[2], rv[3], BoolV(rv[1]))
    [] rk = "printsoft" ->
         IF v = True THEN WriteTo(M, rv[1], " ", "printspace", rv) ELSE PrintText(M, rv[1], rv[2])
    [] rk = "printspace" -> PrintText(M, rv[1], rv[2])
    [] rk = "writeto" -> Invoke(M, v, <<StrV(rv[1])>>, <<>>, rv[2], rv[3])
    [] rk = "printwriter" -> TextOf(M, rv[2], FALSE, "printwrite", <<v, rv[1], rv[2]>>)
    [] rk = "printwrite" -> Invoke(M, rv[1], <<v>>, <<>>, "printed", <<rv[2], rv[3]>>)
    [] rk = "printtext" -> WriteTo(M, None, v.s, "printed", rv)
    [] rk = "printed" -> IF LeavesSpace(rv[2]) THEN SoftSpace(M, rv[1], 1, "ignore", 0) ELSE M
    [] rk = "printline" -> SoftSpace(M, rv, 0, "ignore", 0)
    [] rk = "format" -> FormatOf(M, v, rv[1], rv[2], rv[3])
    [] rk = "lenres" ->
         IF ~Num(v) THEN RaiseBInto(M, rv[1], rv[2], "TypeError")
         ELSE IF v.n < 0 THEN RaiseBInto(M, rv[1], rv[2], "ValueError")
         ELSE Ret(M, rv[1], rv[2], IntV(v.n))
    [] rk = "sendto" -> Invoke(M, v, <<rv>>, <<>>, "yf", 0)
    [] rk = "super" -> SuperAttr(M, v, rv[1], rv[2], rv[3])
    [] rk = "enter" -> Push(PushBlock(M, IF M.ver < 300 THEN "with" ELSE "finally", rv, Depth(M)), v)
    [] rk = "exitof" -> \* __exit__ is found, go on with __enter__
         SpecialAttr(Push(M, v), rv[1], "__enter__", "callenter", rv[2])
    [] rk = "enterof" -> SpecialAttr(M, rv[1], "__exit__", "exitcall", <<v, rv[2]>>)
    [] rk = "exitcall" -> Invoke(Push(M, v), rv[1], <<>>, <<>>, "enter", rv[2])
    [] rk = "callenter" -> Invoke(M, v, <<>>, <<>>, "enter", rv)
    [] rk = "withexit" -> AfterWith(M, rv, v)
    [] rk = "raise" -> DoRaise(M, v, rv)
    [] rk = "cause" -> DoRaise2(M, rv, v)
    [] rk = "setitem" -> Ret(M, rv[1], rv[2], None)
    [] rk = "out" -> Ret(M, rv[1], rv[2], v)
    [] rk = "loadmethod" -> PushAll(M, IF rv THEN <<v, Null>> ELSE <<Null, v>>)
    [] OTHER -> Unsup(M, "Ret " \o rk)

(* frame f, innermost, is left: how is return, yield, yieldfrom, early (the  *)
(* callback said so) or exception                                            *)
ExitFrame(M, how, v) ==
  LET f == Top(M)
      at == ToString(f.li) \o "|" \o f.lop \o "|" \o Num0(f.lln) \o "|"
      nm == Code(M, f.co).name
      M0 == [M EXCEPT !.fr = Front(@), !.hx = f.hs, !.st = "run", !.why = ""]
      held == \E i \in DOMAIN f.blk : f.blk[i].t = "eh"
      f1 == [f EXCEPT !.gh = IF held THEN M.hx ELSE Unb]
      back == IF how # "yieldfrom" THEN f1
              ELSE LET d == IF M.ver >= 306 THEN 2 ELSE 1
                   IN [f1 EXCEPT !.pc = f.li, !.li = f.li - d]
      M1 == IF f.gen = 0 THEN M0
            ELSE IF how \in {"return", "exception"}
                 THEN [M0 EXCEPT !.heap[f.gen].n = 3, !.heap[f.gen].x = <<>>]
                 ELSE [M0 EXCEPT !.heap[f.gen].n = 1, !.heap[f.gen].x = <<back>>,
                                 !.heap[f.gen].q = IF how = "yieldfrom" THEN <<Last(f.stk)>> ELSE <<>>]
  IN IF how = "exception"
     THEN LET M2 == IF ~M.tr THEN M1
                    ELSE IF Bit(f.fl, 16)
                         THEN Ev(M1, "exception|" \o at \o ClsName(M.heap, M.heap[v.n].c) \o "|" \o nm)
                         ELSE IF Bit(f.fl, 8) THEN Ev(M1, "return|" \o at \o "None")
                         ELSE M1
              stop == /\ f.gen # 0 /\ M.ver >= 307
                      /\ SubClass(M.heap, M.heap[v.n].c, Cls("StopIteration"))
          IN IF stop THEN ExcInto(NewExc(M2, "RuntimeError"), f.rk, f.rv, Ref(NewAddr(M2)))
             ELSE ExcInto(M2, f.rk, f.rv, v)
     ELSE LET M2 == IF M.tr /\ Bit(f.fl, 8)
                    THEN Ev(M1, "return|" \o at \o Canon(M.heap, v)) ELSE M1
              M3 == [M2 EXCEPT !.rvl = v]
          IN IF f.gen # 0 /\ how = "return" THEN StopInto(M3, f.rk, f.rv, v)
             ELSE Ret(M3, f.rk, f.rv, v)
FrameReturn(M, how, v) == ExitFrame(M, how, v)

\* breakpoints are set at, or removed from, every fifth instruction that can have one
Breaks(M, v) == LET e == Code(M, Top(M).co).elig IN {e[i] : i \in {j \in DOMAIN e : (j - 1) % 5 = v}}
AddBreaks(M, v) == [M EXCEPT !.fr[Len(M.fr)].bp = @ \cup Breaks(M, v)]
DelBreaks(M, v) == [M EXCEPT !.fr[Len(M.fr)].bp = @ \ Breaks(M, v)]
\* a callback ends only calls of functions that are not generators
Returnable(M) == LET fl == Code(M, Top(M).co).flags IN Bit(fl, 1) /\ ~Bit(fl, 32)
\* what the answer to a call or yield event makes of the frame that starts
StartAnswer(M, n) ==
  CASE Answer(M, n) = "finish" ->
         [M EXCEPT !.fr[Len(M.fr)].tf = FALSE, !.fr[Len(M.fr)].fl = 40]
    [] Answer(M, n) = "return" /\ Returnable(M) ->
         \* without any further event
         LET f == Top(M) v == IntV(AnswerInt(M, n))
         IN Ret([M EXCEPT !.fr = Front(@), !.hx = f.hs, !.rvl = v], f.rk, f.rv, v)
    [] Answer(M, n) = "brk" -> AddBreaks(M, AnswerInt(M, n))
    [] Answer(M, n) = "unbrk" -> DelBreaks(M, AnswerInt(M, n))
    [] Answer(M, n) = "flags" -> [M EXCEPT !.fr[Len(M.fr)].fl = AnswerInt(M, n)]
    [] OTHER -> M

\* frame f starts (event "call") or a suspended one resumes (event "yield")
PushFrame(M, f, event) ==
  LET c == CurPy(M)
      fl0 == IF c = 0 THEN M.fl0 ELSE M.fr[c].fl
      fl == IF Bit(fl0, 128) THEN 0 ELSE fl0
      tf == IF c = 0 THEN TRUE ELSE M.fr[c].tf
      ln == IF f.ln = 0 THEN Code(M, f.co).first ELSE f.ln
      f1 == [f EXCEPT !.fl = fl, !.tf = tf, !.hs = M.hx, !.ln = ln]
      M1 == [M EXCEPT !.fr = Append(@, f1), !.hx = IF f.gh.k # "unb" THEN f.gh ELSE @]
      nm == Code(M, f.co).name
  IN IF ~(M.tr /\ tf) THEN M1
     ELSE IF event = "call" /\ Bit(fl, 4)
     THEN StartAnswer(Ev(M1, "call|" \o (IF c = 0 THEN "-1" ELSE ToString(M.fr[c].li))
                             \o "|" \o ToString(ln) \o "|" \o nm), M.nc + 1)
     ELSE IF event = "yield" /\ Bit(fl, 32)
     THEN StartAnswer(Ev(M1, "yield|" \o (IF f.li = -1 THEN "0" ELSE ToString(f.li))
                             \o "|" \o ToString(ln) \o "|" \o nm), M.nc + 1)
     ELSE M1

(****************************** generators *********************************)
Resume(M, a, sent, rk, rv) ==
  LET g == M.heap[a] IN
  CASE g.n = 2 -> RaiseBInto(M, rk, rv, "ValueError")
    [] g.n = 3 -> StopInto(M, rk, rv, None)
    [] g.n = 0 /\ sent # None -> RaiseBInto(M, rk, rv, "TypeError")
    [] OTHER ->
        LET f == g.x[1]
            pushed == IF g.n = 0 THEN (IF M.ver >= 310 THEN <<None>> ELSE <<>>)
                      ELSE IF M.ver >= 205 THEN <<sent>> ELSE <<>>
            f1 == [f EXCEPT !.stk = @ \o pushed, !.rk = rk, !.rv = rv]
        IN PushFrame(Running(M, a), f1, "yield")

\* Generator a is an object: n is 0 (has not begun), 1 (suspended), 2 (running) or 3 (has ended), x has the
\* frame, and q the iterator that it delegates to with yield from.
Running(M, a) == [M EXCEPT !.heap[a].n = 2, !.heap[a].x = <<>>, !.heap[a].q = <<>>]
Waiting(M, a) == [M EXCEPT !.heap[a].n = 1]
\* exception e is raised where generator a is suspended
ThrowExc(M, a, e, rk, rv) ==
  LET f == M.heap[a].x[1]
      f1 == [f EXCEPT !.rk = rk, !.rv = rv, !.lop = "YIELD_VALUE", !.lln = 0, !.li = IF @ = -1 THEN 0 ELSE @]
  IN IF M.heap[a].n = 3 THEN ExcInto(M, rk, rv, e)
     ELSE Raise(PushFrame(Running(M, a), f1, "yield"), e)
\* the exception args (a class or an instance, and a value) stand for is
ThrowHere(M, a, args, rk, rv) ==
  LET v == args[1]
      val == IF Len(args) > 1 THEN args[2] ELSE None
  IN CASE Len(args) > 2 /\ args[3] # None -> RaiseBInto(M, rk, rv, "TypeError")
       [] IsExcClass(M.heap, v) ->
            IF IsExc(M.heap, val) /\ SubClass(M.heap, TypeOf(M.heap, val), v) THEN ThrowExc(M, a, val, rk, rv)
            ELSE Invoke(M, v, IF val = None THEN <<>> ELSE IF val.k = "tup" THEN val.q ELSE <<val>>, <<>>,
                        "throwinst", <<a, rk, rv>>)
       [] IsExc(M.heap, v) /\ val = None -> ThrowExc(M, a, v, rk, rv)
       [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")
IsExit(M, v) == /\ IsExc(M.heap, v) \/ IsExcClass(M.heap, v)
                /\ SubClass(M.heap, IF IsExc(M.heap, v) THEN TypeOf(M.heap, v) ELSE v, Cls("GeneratorExit"))
\* the iterator a generator delegates to is closed, if it can be
CloseSub(M, sub, rk, rv) ==
  CASE IsObj(M.heap, sub, "gen") -> GenClose(M, sub.n, rk, rv)
    [] IsObj(M.heap, sub, "inst") -> GetAttr(M, sub, "close", "closemeth", <<rk, rv>>)
    [] OTHER -> Ret(M, rk, rv, None)
GenThrow(M, a, args, rk, rv) ==
  LET g == M.heap[a]
      sub == g.q[1]
      M1 == [M EXCEPT !.heap[a].n = 2]
  IN CASE g.n = 2 -> RaiseBInto(M, rk, rv, "ValueError")
       [] g.q # <<>> /\ IsExit(M, args[1]) -> CloseSub(M1, sub, "subthrow", <<a, args, rk, rv>>)
       [] g.q # <<>> /\ IsObj(M.heap, sub, "gen") -> GenThrow(M1, sub.n, args, "thrown", <<a, rk, rv>>)
       [] g.q # <<>> /\ IsObj(M.heap, sub, "inst") -> GetAttr(M, sub, "throw", "throwmeth", <<a, args, rk, rv>>)
       [] OTHER -> ThrowHere(M, a, args, rk, rv)
GenClose(M, a, rk, rv) ==
  LET g == M.heap[a]
  IN CASE g.n = 2 -> RaiseBInto(M, rk, rv, "ValueError")
       [] g.n = 3 -> Ret(M, rk, rv, None)
       [] g.q # <<>> -> CloseSub([M EXCEPT !.heap[a].n = 2], g.q[1], "subclose", <<a, rk, rv>>)
       [] OTHER -> ThrowExc(NewExc(M, "GeneratorExit"), a, Ref(NewAddr(M)), "closing", <<rk, rv>>)
\* What the iterator that generator a delegates to was given is the end of that: v is the result.
Delegated(M, a, v, rk, rv) ==
  LET f == M.heap[a].x[1]
  IN PushFrame(Running(M, a), [f EXCEPT !.stk = Front(@) \o <<v>>, !.li = f.pc, !.rk = rk, !.rv = rv,
                                        !.pc = @ + (IF M.ver >= 306 THEN 2 ELSE 1)], "yield")

(****************************** host objects *******************************)
\* probe p takes part in an operation that is reported as text
ProbeOp(M, p, text, val, rk, rv) ==
  LET M1 == Out(M, "!" \o text)
  IN IF p.n = 2
     THEN ExcInto(Alloc(M1, [O("inst") EXCEPT !.c = Cls("PErr"), !.n = 1]), rk, rv, Ref(NewAddr(M1)))
     ELSE Ret(M1, rk, rv, val)
RECURSIVE KwText(_, _)
KwText(h, kw) == IF kw = <<>> THEN ""
                 ELSE kw[1][1] \o "=" \o Canon(h, kw[1][2])
                      \o (IF Len(kw) = 1 THEN "" ELSE "," \o KwText(h, Tail(kw)))
ArgText(h, pos, kw) ==
  CanonSeq(h, pos) \o (IF pos # <<>> /\ kw # <<>> THEN "," ELSE "") \o KwText(h, kw)

(******************************* truth *************************************)
\* the truth value is used as kind says
ApplyTruth(M, t, kind, arg) ==
  CASE kind = "popif" -> IF t = arg[1] THEN Jump(M, arg[2]) ELSE M
    [] kind = "jumpif" -> IF t = arg[1] THEN Jump(M, arg[2]) ELSE M
    [] kind = "orpop" -> IF t = arg[1] THEN Jump(M, arg[2]) ELSE PopN(M, 1)
    [] kind = "not" -> Push(M, BoolV(~t))
    [] kind = "bool" -> Ret(M, arg[1], arg[2], BoolV(t))
    [] kind = "cbool" -> Ret(M, arg[1], arg[2], BoolV(t # arg[3]))
    [] kind = "inwalk" -> \* arg: items, position, value, negated
         IF t THEN Ret(M, arg[5], arg[6], BoolV(~arg[4]))
         ELSE InWalk(M, arg[1], arg[2] + 1, arg[3], arg[4], arg[5], arg[6])
    [] kind = "found" -> \* the item got from an iterator is the one looked for
         IF t THEN LET f == Top(M) IN Ret([M EXCEPT !.fr = Front(@)], f.rk, f.rv, BoolV(~f.a[2]))
         ELSE M
    [] kind = "seqwalk" ->
         IF t THEN SeqWalk(M, arg[1], arg[2], arg[3], arg[4] + 1, arg[5], arg[6])
         ELSE IF arg[1] \in {"==", "!="} THEN Ret(M, arg[5], arg[6], BoolV(arg[1] = "!="))
         ELSE CmpOp(M, arg[1], arg[2][arg[4]], arg[3][arg[4]], arg[5], arg[6])
    [] kind = "dictwalk" ->
         IF t THEN DictWalk(M, arg[1], arg[2], arg[3], arg[4] + 1, arg[5], arg[6])
         ELSE Ret(M, arg[5], arg[6], BoolV(arg[1]))
    [] kind = "ne" -> Ret(M, arg[1], arg[2], BoolV(~t))
    [] kind = "with" ->  \* did __exit__ suppress the exception (before 3.5)
         IF M.ver < 300 THEN (IF t THEN Push(PopN(M, 3), None) ELSE M)
         ELSE (IF t THEN Push(M, Why("silenced")) ELSE M)
    [] kind = "wcfinish" ->
         IF ~t THEN M
         ELSE IF M.ver < 308 THEN Push(PopN(M, 1), Why("silenced"))
         ELSE \* the handler is left, as by POP_EXCEPT
              LET f == Top(M)
                  b == Last(f.blk)
                  s == SubSeq(f.stk, 1, b.lv + 3)
              IN Push([SetTop(M, [f EXCEPT !.blk = Front(@), !.stk = SubSeq(s, 1, Len(s) - 3)])
                       EXCEPT !.hx = s[Len(s) - 1]], None)
    [] OTHER -> Unsup(M, "ApplyTruth " \o kind)
BoolName(M) == IF M.ver < 300 THEN "__nonzero__" ELSE "__bool__"
Truth(M, v, kind, arg) ==
  LET h == M.heap IN
  CASE v.k \in {"none"} -> ApplyTruth(M, FALSE, kind, arg)
    [] v.k \in {"bool", "int"} -> ApplyTruth(M, v.n # 0, kind, arg)
    [] v.k = "str" -> ApplyTruth(M, v.s # "", kind, arg)
    [] v.k = "tup" -> ApplyTruth(M, v.q # <<>>, kind, arg)
    [] v.k = "P" ->
         IF v.n = 2 THEN ProbeOp(M, v, "bool(" \o v.s \o ")", None, "ignore", 0)
         ELSE ApplyTruth(Out(M, "!bool(" \o v.s \o ")"), v.n # 1, kind, arg)
    [] v.k = "ref" /\ h[v.n].k \in {"list", "set"} -> ApplyTruth(M, h[v.n].q # <<>>, kind, arg)
    [] v.k = "ref" /\ h[v.n].k = "dict" -> ApplyTruth(M, h[v.n].d # <<>>, kind, arg)
    [] Special(h, v, BoolName(M)).k # "unb" ->
         Invoke(M, Special(h, v, BoolName(M)), <<v>>, <<>>, "truth", <<kind, arg>>)
    [] Special(h, v, "__len__").k # "unb" ->
         Invoke(M, Special(h, v, "__len__"), <<v>>, <<>>, "truthlen", <<kind, arg>>)
    [] IsObj(h, v, "range") -> ApplyTruth(M, RangeItems(h[v.n].q) # <<>>, kind, arg)
    [] OTHER -> ApplyTruth(M, TRUE, kind, arg)

(****************************** operators **********************************)
\* sym -> method name without underscores
OpName ==
  [ x \in {"+","-","*","/","//","%","**","<<",">>","&","|","^","@"} |->
    CASE x = "+" -> "add" [] x = "-" -> "sub" [] x = "*" -> "mul" [] x = "/" -> "truediv"
      [] x = "//" -> "floordiv" [] x = "%" -> "mod" [] x = "**" -> "pow" [] x = "<<" -> "lshift"
      [] x = ">>" -> "rshift" [] x = "&" -> "and" [] x = "|" -> "or" [] x = "^" -> "xor"
      [] OTHER -> "matmul" ]
IntOp(sym, a, b) ==
  CASE sym = "+" -> a + b [] sym = "-" -> a - b [] sym = "*" -> a * b
    [] sym = "//" -> FloorDiv(a, b) [] sym = "/" -> FloorDiv(a, b) [] sym = "%" -> FloorMod(a, b)
    [] sym = "**" -> Pow(a, b)
    [] sym = "<<" -> a * Pow(2, b) [] sym = ">>" -> FloorDiv(a, Pow(2, b))
    [] sym = "&" -> BitOp(BAnd, a, b, 12) [] sym = "|" -> BitOp(BOr, a, b, 12)
    [] sym = "^" -> BitOp(BXor, a, b, 12)
RECURSIVE Repeat(_, _), RepeatS(_, _)
Repeat(q, n) == IF n <= 0 THEN <<>> ELSE q \o Repeat(q, n - 1)
RepeatS(s, n) == IF n <= 0 THEN "" ELSE s \o RepeatS(s, n - 1)

\* An operator: methods of guest classes and host objects take part in this order.
\* First the in-place method, whose NotImplemented stands for the plain operator.
BinOp(M, sym, a, b, rk, rv) ==
  LET inpl == Len(sym) > 1 /\ sym \notin DOMAIN OpName
      base == IF inpl THEN SubSeq(sym, 1, Len(sym) - 1) ELSE sym
      mi == IF inpl THEN Special(M.heap, a, "__i" \o StemOf(M, base) \o "__") ELSE Unb
      text == Canon(M.heap, a) \o sym \o Canon(M.heap, b)
  IN CASE a.k = "P" -> ProbeOp(M, a, text, Probe("(" \o text \o ")", 0), rk, rv)
       [] mi.k # "unb" -> Invoke(M, mi, <<a, b>>, <<>>, "binop", <<1, base, base, a, b, rk, rv>>)
       [] OTHER -> BinStep(M, 1, base, sym, a, b, rk, rv)
StemOf(M, base) == IF base = "/" /\ M.ver < 300 THEN "div" ELSE OpName[base]
ProperSub(h, c, d) == c # d /\ SubClass(h, c, d)
(* Then, by step ph:                                                        *)
(*  1  the reflected method, if b's class is derived from a's and has its   *)
(*     own one;                                                             *)
(*  2  the method of a;  3  the same, without a reflected one afterwards;   *)
(*  4  the reflected method of b, if the classes differ;                    *)
(*  5  what builtin classes do.                                             *)
BinStep(M, ph, base, sym, a, b, rk, rv) ==
  LET h == M.heap
      st == StemOf(M, base)
      ca == TypeOf(h, a)
      cb == TypeOf(h, b)
      m == Special(h, a, "__" \o st \o "__")
      r == Special(h, b, "__r" \o st \o "__")
      ra == Special(h, a, "__r" \o st \o "__")
      next(n) == BinStep(M, n, base, sym, a, b, rk, rv)
      call(f, x, y, n) == Invoke(M, f, <<x, y>>, <<>>, "binop", <<n, base, sym, a, b, rk, rv>>)
      text == Canon(h, a) \o base \o Canon(h, b)
  IN
  CASE ph = 1 -> IF r.k # "unb" /\ (m.k # "unb" \/ ra.k # "unb") /\ ProperSub(h, cb, ca) /\ r # ra
                 THEN call(r, b, a, 3) ELSE next(2)
    [] ph = 2 -> IF m.k # "unb" THEN call(m, a, b, 4) ELSE next(4)
    [] ph = 3 -> IF m.k # "unb" THEN call(m, a, b, 5) ELSE next(5)
    [] base = "%" /\ a.k = "str" -> BinBuiltin(M, base, FALSE, a, b, rk, rv)
    [] ph = 4 -> IF b.k = "P" THEN ProbeOp(M, b, text, Probe("(" \o text \o ")", 0), rk, rv)
                 ELSE IF r.k # "unb" /\ ca # cb THEN call(r, b, a, 5) ELSE next(5)
    [] OTHER -> BinBuiltin(M, base, base # sym, a, b, rk, rv)
BinBuiltin(M, base, inpl, a, b, rk, rv) ==
  LET h == M.heap
      isl(v) == IsObj(h, v, "list")
      iss(v) == IsObj(h, v, "set")
  IN
  CASE Num(a) /\ Num(b) /\ base # "@" ->
         IF base \in {"/", "//", "%"} /\ b.n = 0 THEN RaiseBInto(M, rk, rv, "ZeroDivisionError")
         ELSE IF base \in {"<<", ">>"} /\ b.n < 0 THEN RaiseBInto(M, rk, rv, "ValueError")
         ELSE IF (base = "/" /\ M.ver >= 300) \/ (base = "**" /\ b.n < 0) THEN Unsup(M, "float")
         ELSE IF base \in {"&", "|", "^"} /\ a.k = "bool" /\ b.k = "bool"
              THEN Ret(M, rk, rv, BoolV(IntOp(base, a.n, b.n) = 1))
         ELSE Ret(M, rk, rv, IntV(IntOp(base, a.n, b.n)))
    [] base = "+" /\ a.k = "str" /\ b.k = "str" -> Ret(M, rk, rv, StrV(a.s \o b.s))
    [] base = "+" /\ a.k = "tup" /\ b.k = "tup" -> Ret(M, rk, rv, TupV(a.q \o b.q))
    [] base = "+" /\ isl(a) /\ inpl ->
         Collect(M, b, "iextend", a, -1, rk, rv)
    [] base = "+" /\ isl(a) /\ isl(b) ->
         Ret(Alloc(M, ListO(h[a.n].q \o h[b.n].q)), rk, rv, Ref(NewAddr(M)))
    [] base = "*" /\ a.k = "str" /\ Num(b) -> Ret(M, rk, rv, StrV(RepeatS(a.s, b.n)))
    [] base = "*" /\ Num(a) /\ b.k = "str" -> Ret(M, rk, rv, StrV(RepeatS(b.s, a.n)))
    [] base = "*" /\ a.k = "tup" /\ Num(b) -> Ret(M, rk, rv, TupV(Repeat(a.q, b.n)))
    [] base = "*" /\ Num(a) /\ b.k = "tup" -> Ret(M, rk, rv, TupV(Repeat(b.q, a.n)))
    [] base = "*" /\ isl(a) /\ Num(b) ->
         IF inpl THEN Ret([M EXCEPT !.heap[a.n].q = Repeat(@, b.n)], rk, rv, a)
         ELSE Ret(Alloc(M, ListO(Repeat(h[a.n].q, b.n))), rk, rv, Ref(NewAddr(M)))
    [] base = "*" /\ Num(a) /\ isl(b) ->
         Ret(Alloc(M, ListO(Repeat(h[b.n].q, a.n))), rk, rv, Ref(NewAddr(M)))
    [] base \in {"|", "&", "-", "^"} /\ iss(a) /\ iss(b) ->
         LET p == h[a.n].q q == h[b.n].q
             both == SelectSeq(p, LAMBDA v : InSeq(q, v))
             onlyp == SelectSeq(p, LAMBDA v : ~InSeq(q, v))
             onlyq == SelectSeq(q, LAMBDA v : ~InSeq(p, v))
             res == CASE base = "|" -> p \o onlyq [] base = "&" -> both
                      [] base = "-" -> onlyp [] OTHER -> onlyp \o onlyq
         IN IF inpl THEN Ret([M EXCEPT !.heap[a.n].q = res], rk, rv, a)
            ELSE Ret(Alloc(M, SetO(res)), rk, rv, Ref(NewAddr(M)))
    [] base = "%" /\ a.k = "str" -> \* no format is in the strings there are
         IF (IF b.k = "tup" THEN b.q = <<>>
             ELSE b.k = "P" \/ (b.k = "ref" /\ h[b.n].k \in {"list", "dict", "range"})
                  \/ Special(h, b, "__getitem__").k # "unb")
         THEN Ret(M, rk, rv, a) ELSE RaiseBInto(M, rk, rv, "TypeError")
    [] base = "|" /\ IsObj(h, a, "dict") /\ IsObj(h, b, "dict") -> Unsup(M, "dict union")
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

UnaryOp(M, sym, a, rk, rv) ==
  LET h == M.heap
      st == CASE sym = "+" -> "pos" [] sym = "-" -> "neg" [] OTHER -> "invert"
      m == Special(h, a, "__" \o st \o "__")
  IN CASE a.k = "P" -> ProbeOp(M, a, sym \o a.s, Probe("(" \o sym \o a.s \o ")", 0), rk, rv)
       [] m.k # "unb" -> Invoke(M, m, <<a>>, <<>>, rk, rv)
       [] Num(a) -> Ret(M, rk, rv, IntV(CASE sym = "+" -> a.n [] sym = "-" -> -a.n [] OTHER -> -1 - a.n))
       [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

(* comparison operators, by their symbol *)
Mirror == [x \in {"<", "<=", "==", "!=", ">", ">="} |->
            CASE x = "<" -> ">" [] x = "<=" -> ">=" [] x = ">" -> "<" [] x = ">=" -> "<=" [] OTHER -> x]
CmpName == [x \in {"<", "<=", "==", "!=", ">", ">="} |->
            CASE x = "<" -> "lt" [] x = "<=" -> "le" [] x = ">" -> "gt" [] x = ">=" -> "ge"
              [] x = "==" -> "eq" [] OTHER -> "ne"]
Ord(sym, less, same) ==
  CASE sym = "<" -> less [] sym = "<=" -> less \/ same
    [] sym = ">" -> ~less /\ ~same [] sym = ">=" -> ~less
    [] sym = "==" -> same [] OTHER -> ~same
(* x == y as a truth value, where an object always equals itself; the result *)
(* is used as ApplyTruth says for kind and arg                               *)
EqBool(M, x, y, kind, arg) ==
  IF SameV(x, y) THEN ApplyTruth(M, TRUE, kind, arg)
  ELSE CmpOp(M, "==", x, y, "truthof", <<kind, arg>>)
\* is v one of items, from the i-th on (neg: is it none)
InWalk(M, items, i, v, neg, rk, rv) ==
  IF i > Len(items) THEN Ret(M, rk, rv, BoolV(neg))
  ELSE EqBool(M, items[i], v, "inwalk", <<items, i, v, neg, rk, rv>>)
(* compares the sequences of items xs and ys from the i-th on: the first     *)
(* difference counts, or else the lengths                                    *)
SeqWalk(M, sym, xs, ys, i, rk, rv) ==
  IF i <= Len(xs) /\ i <= Len(ys) THEN EqBool(M, xs[i], ys[i], "seqwalk", <<sym, xs, ys, i, rk, rv>>)
  ELSE Ret(M, rk, rv, BoolV(Ord(sym, Len(xs) < Len(ys), Len(xs) = Len(ys))))
\* dictionaries of equal length: the values of the i-th key on
DictWalk(M, neg, d, e, i, rk, rv) ==
  IF i > Len(d) THEN Ret(M, rk, rv, BoolV(~neg))
  ELSE IF ~Has(e, d[i][1]) THEN Ret(M, rk, rv, BoolV(neg))
  ELSE EqBool(M, d[i][2], Get(e, d[i][1]), "dictwalk", <<neg, d, e, i, rk, rv>>)
\* what an except clause catches: in 2.x, whatever is no class catches nothing, and tuples nest
RECURSIVE Catches2(_, _, _)
Catches2(h, e, b) == IF b.k = "tup" THEN \E i \in DOMAIN b.q : Catches2(h, e, b.q[i])
                     ELSE IsClass(h, b) /\ SubClass(h, e, b)
Caught3(b) == IF b.k = "tup" THEN b.q ELSE <<b>>
CmpOp(M, sym, a, b, rk, rv) ==
  LET h == M.heap IN
  CASE sym = "is" -> Ret(M, rk, rv, BoolV(SameV(a, b)))
    [] sym = "is not" -> Ret(M, rk, rv, BoolV(~SameV(a, b)))
    [] sym \in {"in", "not in"} ->
         (CASE b.k = "P" ->
               ProbeOp(M, b, Canon(h, a) \o " in " \o b.s, BoolV((b.n # 1) = (sym = "in")), rk, rv)
            [] Special(h, b, "__contains__").k # "unb" ->
               Invoke(M, Special(h, b, "__contains__"), <<b, a>>, <<>>, "truthof",
                      <<"cbool", <<rk, rv, sym = "not in">>>>)
            [] b.k = "str" /\ a.k # "str" -> RaiseBInto(M, rk, rv, "TypeError")
            [] b.k \in {"str", "tup"} \/ (b.k = "ref" /\ h[b.n].k \in {"list", "dict", "set"}) ->
               IF b.k = "ref" /\ h[b.n].k \in {"dict", "set"} /\ ~Hashable(h, a)
               THEN RaiseBInto(M, rk, rv, "TypeError")
               ELSE IF b.k = "str"
               THEN Ret(M, rk, rv, BoolV((sym = "in") = \E i \in 0..(Len(b.s) - Len(a.s)) :
                                             SubSeq(b.s, i + 1, i + Len(a.s)) = a.s))
               ELSE IF b.k = "tup" THEN InWalk(M, b.q, 1, a, sym = "not in", rk, rv)
               ELSE IF h[b.n].k = "list" THEN InWalk(M, h[b.n].q, 1, a, sym = "not in", rk, rv)
               ELSE Ret(M, rk, rv, BoolV((sym = "in") = IF h[b.n].k = "dict" THEN Has(h[b.n].d, a)
                                                        ELSE InSeq(h[b.n].q, a)))
            [] IsObj(h, b, "range") /\ Num(a) ->
               Ret(M, rk, rv, BoolV((sym = "in") = InSeq(RangeItems(h[b.n].q), IntV(a.n))))
            [] b.k = "ref" /\ h[b.n].k \in {"gen", "it", "pit", "sit", "range", "inst"} ->
               \* one item after the other
               GetIter([M EXCEPT !.fr = Append(@, NatFrame("search", <<a, sym = "not in">>, -1, rk, rv))],
                       b, "natit", 0)
            [] OTHER -> RaiseBInto(M, rk, rv, "TypeError"))
    [] sym = "exception match" ->
         IF M.ver < 300 THEN Ret(M, rk, rv, BoolV(Catches2(h, a, b)))
         ELSE IF \A i \in DOMAIN Caught3(b) : IsExcClass(h, Caught3(b)[i])
         THEN Ret(M, rk, rv, BoolV(\E i \in DOMAIN Caught3(b) : SubClass(h, a, Caught3(b)[i])))
         ELSE RaiseBInto(M, rk, rv, "TypeError")
    [] OTHER -> CmpStep(M, 1, sym, a, b, rk, rv)
(* By step ph: 1  b first, if its class is derived from a's;  2  a, and then  *)
(* b;  3  a, and not b again;  4  b;  5  objects are equal only to themselves *)
CmpStep(M, ph, sym, a, b, rk, rv) ==
  LET h == M.heap
      go(x, y, s, n) == Rich(M, x, y, s, n, sym, a, b, rk, rv)
  IN CASE ph = 1 -> IF ProperSub(h, TypeOf(h, b), TypeOf(h, a)) THEN go(b, a, Mirror[sym], 3)
                    ELSE CmpStep(M, 2, sym, a, b, rk, rv)
       [] ph = 2 -> go(a, b, sym, 4)
       [] ph = 3 -> go(a, b, sym, 5)
       [] ph = 4 -> go(b, a, Mirror[sym], 5)
       [] sym \in {"==", "!="} -> Ret(M, rk, rv, BoolV(SameV(a, b) = (sym = "==")))
       [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")
\* x answers to its comparison (s) with y, or step n follows in the one of a and b
Rich(M, x, y, s, n, sym, a, b, rk, rv) ==
  LET h == M.heap
      t == Canon(h, x) \o s \o Canon(h, y)
      inst == x.k = "ref" /\ h[x.n].k = "inst"
      m == Special(h, x, "__" \o CmpName[s] \o "__")
      eq == Special(h, x, "__eq__")
      same(k) == IsObj(h, x, k) /\ IsObj(h, y, k)
      ret(v) == Ret(M, rk, rv, BoolV(v))
  IN
  CASE x.k = "P" -> ProbeOp(M, x, t, Probe("(" \o t \o ")", 0), rk, rv)
    [] m.k # "unb" -> Invoke(M, m, <<x, y>>, <<>>, "cmp", <<n, sym, a, b, rk, rv>>)
    [] s = "!=" /\ eq.k # "unb" ->
         Invoke(M, eq, <<x, y>>, <<>>, "cmpne", <<n, sym, a, b, rk, rv>>)
    [] Num(x) /\ Num(y) -> ret(Ord(s, x.n < y.n, x.n = y.n))
    [] x.k = "str" /\ y.k = "str" -> ret(Ord(s, Rank(x.s) < Rank(y.s), x.s = y.s))
    [] x.k = y.k /\ x.k \in {"tup", "slice"} -> SeqWalk(M, s, x.q, y.q, 1, rk, rv)
    [] same("list") ->
         IF s \in {"==", "!="} /\ Len(h[x.n].q) # Len(h[y.n].q) THEN ret(s = "!=")
         ELSE SeqWalk(M, s, h[x.n].q, h[y.n].q, 1, rk, rv)
    [] same("set") ->
         LET p == h[x.n].q
             q == h[y.n].q
             sub(u, w) == \A i \in DOMAIN u : InSeq(w, u[i])
         IN ret(CASE s = "<=" -> sub(p, q) [] s = "<" -> sub(p, q) /\ ~sub(q, p)
                  [] s = ">=" -> sub(q, p) [] s = ">" -> sub(q, p) /\ ~sub(p, q)
                  [] s = "==" -> sub(p, q) /\ sub(q, p) [] OTHER -> ~(sub(p, q) /\ sub(q, p)))
    [] same("dict") /\ s \in {"==", "!="} ->
         IF Len(h[x.n].d) # Len(h[y.n].d) THEN ret(s = "!=")
         ELSE DictWalk(M, s = "!=", h[x.n].d, h[y.n].d, 1, rk, rv)
    [] same("range") /\ s \in {"==", "!="} ->
         ret((RangeItems(h[x.n].q) = RangeItems(h[y.n].q)) = (s = "=="))
    [] inst /\ SameV(x, y) /\ s \in {"==", "!="} -> ret(s = "==")
    [] OTHER -> CmpStep(M, n, sym, a, b, rk, rv)

(********************** subscripts, slices and items ***********************)
\* the positions a slice selects of a sequence of length n
Clip(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
SliceIdx(n, sl) ==
  LET step == IF sl.q[3].k = "none" THEN 1 ELSE sl.q[3].n
      norm(v, lo, hi) == Clip(IF v.n < 0 THEN v.n + n ELSE v.n, lo, hi)
      a == IF sl.q[1].k = "none" THEN (IF step > 0 THEN 0 ELSE n - 1)
           ELSE IF step > 0 THEN norm(sl.q[1], 0, n) ELSE norm(sl.q[1], -1, n - 1)
      b == IF sl.q[2].k = "none" THEN (IF step > 0 THEN n ELSE -1)
           ELSE IF step > 0 THEN norm(sl.q[2], 0, n) ELSE norm(sl.q[2], -1, n - 1)
      cnt == IF step > 0 THEN (IF b > a THEN (b - a + step - 1) \div step ELSE 0)
             ELSE (IF a > b THEN (a - b + (-step) - 1) \div (-step) ELSE 0)
  IN [i \in 1..cnt |-> a + (i - 1) * step]
SliceOk(sl) == \A i \in 1..3 : sl.q[i].k \in {"none", "int", "bool"}
\* for assignment and deletion: the contiguous part [a, b)
SliceBounds(n, sl) ==
  LET norm(v, dflt) == IF v.k = "none" THEN dflt ELSE Clip(IF v.n < 0 THEN v.n + n ELSE v.n, 0, n)
      a == norm(sl.q[1], 0)
      b == norm(sl.q[2], n)
  IN <<a, IF b < a THEN a ELSE b>>
Chars(s) == [i \in 1..Len(s) |-> StrV(SubSeq(s, i, i))]
RECURSIVE JoinChars(_)
JoinChars(q) == IF q = <<>> THEN "" ELSE q[1].s \o JoinChars(Tail(q))

GetItem(M, c, i, rk, rv) ==
  LET h == M.heap
      items == CASE c.k = "tup" -> c.q [] c.k = "str" -> Chars(c.s)
                 [] IsObj(h, c, "list") -> h[c.n].q [] OTHER -> <<>>
      n == Len(items)
  IN
  CASE c.k = "P" -> LET t == c.s \o "[" \o Canon(h, i) \o "]"
                    IN ProbeOp(M, c, t, Probe(t, 0), rk, rv)
    [] Special(h, c, "__getitem__").k # "unb" ->
         Invoke(M, Special(h, c, "__getitem__"), <<c, i>>, <<>>, rk, rv)
    [] c.k \in {"tup", "str"} \/ IsObj(h, c, "list") ->
         IF i.k = "slice"
         THEN IF ~SliceOk(i) THEN RaiseBInto(M, rk, rv, "TypeError")
              ELSE IF Num(i.q[3]) /\ i.q[3].n = 0 THEN RaiseBInto(M, rk, rv, "ValueError")
              ELSE LET ix == SliceIdx(n, i)
                       q == [j \in DOMAIN ix |-> items[ix[j] + 1]]
                   IN CASE c.k = "tup" -> Ret(M, rk, rv, TupV(q))
                        [] c.k = "str" -> Ret(M, rk, rv, StrV(JoinChars(q)))
                        [] OTHER -> Ret(Alloc(M, ListO(q)), rk, rv, Ref(NewAddr(M)))
         ELSE IF ~Num(i) THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE LET j == IF i.n < 0 THEN i.n + n ELSE i.n
              IN IF j < 0 \/ j >= n THEN RaiseBInto(M, rk, rv, "IndexError")
                 ELSE Ret(M, rk, rv, items[j + 1])
    [] IsObj(h, c, "dict") ->
         IF ~Hashable(h, i) THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE IF Has(h[c.n].d, i) THEN Ret(M, rk, rv, Get(h[c.n].d, i))
         ELSE RaiseBInto(M, rk, rv, "KeyError")
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

SetItem(M, c, i, v, rk, rv) ==
  LET h == M.heap IN
  CASE c.k = "P" ->
         ProbeOp(M, c, c.s \o "[" \o Canon(h, i) \o "]=" \o Canon(h, v), None, rk, rv)
    [] Special(h, c, "__setitem__").k # "unb" ->
         Invoke(M, Special(h, c, "__setitem__"), <<c, i, v>>, <<>>, rk, rv)
    [] IsObj(h, c, "list") ->
         LET q == h[c.n].q n == Len(q) IN
         IF i.k = "slice" THEN
            IF ~SliceOk(i) THEN RaiseBInto(M, rk, rv, "TypeError")
            ELSE IF Num(i.q[3]) /\ i.q[3].n = 0 THEN RaiseBInto(M, rk, rv, "ValueError")
            ELSE IF Num(i.q[3]) /\ i.q[3].n # 1 THEN Collect(M, v, "setext", <<c, SliceIdx(n, i)>>, -1, rk, rv)
            ELSE Collect(M, v, "setslice", <<c, SliceBounds(n, i)>>, -1, rk, rv)
         ELSE IF ~Num(i) THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE LET j == IF i.n < 0 THEN i.n + n ELSE i.n
              IN IF j < 0 \/ j >= n THEN RaiseBInto(M, rk, rv, "IndexError")
                 ELSE Ret([M EXCEPT !.heap[c.n].q[j + 1] = v], rk, rv, None)
    [] IsObj(h, c, "dict") ->
         IF ~Hashable(h, i) THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE Ret([M EXCEPT !.heap[c.n].d = Put(@, i, v)], rk, rv, None)
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

DelItem(M, c, i, rk, rv) ==
  LET h == M.heap IN
  CASE c.k = "P" -> ProbeOp(M, c, "del " \o c.s \o "[" \o Canon(h, i) \o "]", None, rk, rv)
    [] Special(h, c, "__delitem__").k # "unb" ->
         Invoke(M, Special(h, c, "__delitem__"), <<c, i>>, <<>>, rk, rv)
    [] IsObj(h, c, "list") ->
         LET q == h[c.n].q n == Len(q) IN
         IF i.k = "slice" THEN
            IF ~SliceOk(i) THEN RaiseBInto(M, rk, rv, "TypeError")
            ELSE IF Num(i.q[3]) /\ i.q[3].n = 0 THEN RaiseBInto(M, rk, rv, "ValueError")
            ELSE LET ix == SliceIdx(n, i)
                     keep == SelectSeq([j \in 1..n |-> j], LAMBDA j : \A e \in DOMAIN ix : ix[e] + 1 # j)
                 IN Ret([M EXCEPT !.heap[c.n].q = [j \in DOMAIN keep |-> q[keep[j]]]], rk, rv, None)
         ELSE IF ~Num(i) THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE LET j == IF i.n < 0 THEN i.n + n ELSE i.n
              IN IF j < 0 \/ j >= n THEN RaiseBInto(M, rk, rv, "IndexError")
                 ELSE Ret([M EXCEPT !.heap[c.n].q = RemoveAt(q, j + 1)], rk, rv, None)
    [] IsObj(h, c, "dict") ->
         IF ~Hashable(h, i) THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE IF Has(h[c.n].d, i) THEN Ret([M EXCEPT !.heap[c.n].d = Del(@, i)], rk, rv, None)
         ELSE RaiseBInto(M, rk, rv, "KeyError")
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

(******************************* iteration *********************************)
Iterable(h, v) ==  \* its items are known without running anything
  v.k \in {"tup", "str"} \/ (v.k = "ref" /\ h[v.n].k \in {"list", "dict", "set", "range"})
RangeItems(q) ==
  LET n == IF q[3].n > 0 THEN (IF q[2].n > q[1].n THEN (q[2].n - q[1].n + q[3].n - 1) \div q[3].n ELSE 0)
           ELSE (IF q[1].n > q[2].n THEN (q[1].n - q[2].n - q[3].n - 1) \div (-q[3].n) ELSE 0)
  IN [i \in 1..n |-> IntV(q[1].n + (i - 1) * q[3].n)]
ItemsOf(h, v) ==
  CASE v.k = "tup" -> v.q [] v.k = "str" -> Chars(v.s)
    [] h[v.n].k = "dict" -> Keys(h[v.n].d)
    [] h[v.n].k = "set" -> SortVals(h[v.n].q)
    [] h[v.n].k = "range" -> RangeItems(h[v.n].q)
    [] OTHER -> h[v.n].q

GetIter(M, v, rk, rv) ==
  LET h == M.heap IN
  CASE v.k = "P" ->
         LET M1 == Alloc(M, [O("pit") EXCEPT !.c = v])
         IN ProbeOp(M1, v, "iter(" \o v.s \o ")", Ref(NewAddr(M)), rk, rv)
    [] Iterable(h, v) ->
         Ret(Alloc(M, ItO(IF IsObj(h, v, "list") THEN v ELSE TupV(ItemsOf(h, v)))), rk, rv, Ref(NewAddr(M)))
    [] v.k = "ref" /\ h[v.n].k \in {"gen", "it", "pit", "sit"} -> Ret(M, rk, rv, v)
    [] Special(h, v, "__iter__").k # "unb" ->
         Invoke(M, Special(h, v, "__iter__"), <<v>>, <<>>, "iterres", <<rk, rv>>)
    [] Special(h, v, "__getitem__").k # "unb" ->
         Ret(Alloc(M, [O("sit") EXCEPT !.c = v]), rk, rv, Ref(NewAddr(M)))
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

NextName(M) == IF M.ver < 300 THEN "next" ELSE "__next__"
IsIterator(M, v) ==
  v.k = "ref" /\ (M.heap[v.n].k \in {"gen", "it", "pit", "sit"} \/ Special(M.heap, v, NextName(M)).k # "unb")
NextOf(M, it, rk, rv) ==
  LET h == M.heap
      o == h[it.n]
  IN
  CASE it.k # "ref" -> RaiseBInto(M, rk, rv, "TypeError")
    [] o.k = "it" ->
         LET q == IF o.c.k = "ref" THEN h[o.c.n].q ELSE o.c.q
         IN IF o.n < Len(q) THEN Ret([M EXCEPT !.heap[it.n].n = @ + 1], rk, rv, q[o.n + 1])
            ELSE StopInto([M EXCEPT !.heap[it.n].c = TupV(<<>>)], rk, rv, None)
    [] o.k = "pit" ->
         LET M1 == Out(M, "!next(" \o o.c.s \o ")")
         IN IF o.n < 2 THEN Ret([M1 EXCEPT !.heap[it.n].n = @ + 1], rk, rv,
                                Probe(o.c.s \o "." \o ToString(o.n), 0))
            ELSE StopInto(M1, rk, rv, None)
    [] o.k = "sit" -> \* __getitem__ with 0, 1, 2, ...
         IF o.c = None THEN StopInto(M, rk, rv, None)
         ELSE Invoke(M, Special(h, o.c, "__getitem__"), <<o.c, IntV(o.n)>>, <<>>, "sitnext", <<it.n, rk, rv>>)
    [] o.k = "gen" -> Resume(M, it.n, None, rk, rv)
    [] Special(h, it, NextName(M)).k # "unb" ->
         Invoke(M, Special(h, it, NextName(M)), <<it>>, <<>>, rk, rv)
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

\* all items of v (at most lim, unless lim is -1) are needed for operation op
Collect(M, v, op, a, lim, rk, rv) ==
  IF Iterable(M.heap, v) THEN Fin(M, op, ItemsOf(M.heap, v), a, rk, rv)
  ELSE GetIter([M EXCEPT !.fr = Append(@, NatFrame(op, a, lim, rk, rv))], v, "natit", 0)

RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE q[1].n + SumOf(Tail(q))
Pairs2(q) == \A i \in DOMAIN q : q[i].k = "tup" /\ Len(q[i].q) = 2
Fin(M, op, q, a, rk, rv) ==
  LET h == M.heap IN
  CASE op = "list" -> Ret(Alloc(M, ListO(q)), rk, rv, Ref(NewAddr(M)))
    [] op = "tuple" -> Ret(M, rk, rv, TupV(q))
    [] op = "set" -> IF \A i \in DOMAIN q : Hashable(h, q[i])
                     THEN Ret(Alloc(M, SetO(AddAll(<<>>, q))), rk, rv, Ref(NewAddr(M)))
                     ELSE RaiseBInto(M, rk, rv, "TypeError")
    [] op = "sum" -> Ret(M, rk, rv, IntV(SumOf(q)))
    [] op = "sorted" -> Ret(Alloc(M, ListO(SortVals(q))), rk, rv, Ref(NewAddr(M)))
    [] op = "join" -> Ret(M, rk, rv, StrV(JoinChars(q)))
    [] op = "dict" ->
         IF Pairs2(q)
         THEN Ret(Alloc(M, DictO(PutAll(PutAll(<<>>, [i \in DOMAIN q |-> q[i].q]),
                                        [i \in DOMAIN a |-> <<StrV(a[i][1]), a[i][2]>>]))),
                  rk, rv, Ref(NewAddr(M)))
         ELSE Unsup(M, "dict()")
    [] op = "extend" -> Ret([M EXCEPT !.heap[a.n].q = @ \o q], rk, rv, None)
    [] op = "iextend" -> Ret([M EXCEPT !.heap[a.n].q = @ \o q], rk, rv, a)
    [] op = "update" ->
         IF \A i \in DOMAIN q : Hashable(h, q[i])
         THEN Ret([M EXCEPT !.heap[a.n].q = AddAll(@, q)], rk, rv, None)
         ELSE RaiseBInto(M, rk, rv, "TypeError")
    [] op = "setslice" ->
         Ret([M EXCEPT !.heap[a[1].n].q = SubSeq(@, 1, a[2][1]) \o q \o SubSeq(@, a[2][2] + 1, Len(@))],
             rk, rv, None)
    [] op = "search" -> Ret(M, rk, rv, BoolV(a[2]))
    [] op = "setext" -> \* a: list, positions
         IF Len(q) # Len(a[2]) THEN RaiseBInto(M, rk, rv, "ValueError")
         ELSE LET old == h[a[1].n].q
                  at(i) == {j \in DOMAIN a[2] : a[2][j] + 1 = i}
              IN Ret([M EXCEPT !.heap[a[1].n].q =
                        [i \in DOMAIN old |-> IF at(i) = {} THEN old[i] ELSE q[CHOOSE j \in at(i) : TRUE]]],
                     rk, rv, None)
    [] op = "unpack" ->
         IF Len(q) # a THEN RaiseBInto(M, rk, rv, "ValueError") ELSE PushAll(M, Rev(q))
    [] op = "unpackex" ->
         IF Len(q) < a[1] + a[2] THEN RaiseBInto(M, rk, rv, "ValueError")
         ELSE LET M1 == PushAll(M, Rev(SubSeq(q, Len(q) - a[2] + 1, Len(q))))
                  M2 == PushNew(M1, ListO(SubSeq(q, a[1] + 1, Len(q) - a[2])))
              IN PushAll(M2, Rev(SubSeq(q, 1, a[1])))
    [] op = "call" -> \* a: function, positional arguments before, keyword ones, mappings
         CallMerged(M, a[1], a[2] \o q, a[3], a[4], rk, rv)
    [] op = "flat" -> \* a: kind, values so far, iterables still to come
         LET acc == a[2] \o q
         IN IF a[3] = <<>> THEN Fin(M, a[1], acc, 0, rk, rv)
            ELSE Collect(M, Head(a[3]), "flat", <<a[1], acc, Tail(a[3])>>, -1, rk, rv)
    [] OTHER -> Unsup(M, "Fin " \o op)

(******************************* attributes ********************************)
ProbeAttrs == {"x", "y", "z", "m", "u", "w"}
ListMeths == {"append", "extend", "pop", "insert", "reverse"}
DictMeths == {"get", "keys", "values", "items", "update", "pop", "setdefault"}
SetMeths == {"add", "discard", "update"}
StrMeths == {"join", "upper"}
TupMeths == {"index", "count"}
GenMeths == {"next", "__next__", "send", "__iter__", "throw", "close"}
HasMeth(h, v, name) ==
  CASE v.k = "str" -> name \in StrMeths
    [] v.k = "tup" -> name \in TupMeths
    [] v.k = "ref" /\ h[v.n].k = "list" -> name \in ListMeths
    [] v.k = "ref" /\ h[v.n].k = "dict" -> name \in DictMeths
    [] v.k = "ref" /\ h[v.n].k = "set" -> name \in SetMeths
    [] v.k = "ref" /\ h[v.n].k = "gen" -> name \in GenMeths
    [] v.k = "ref" /\ h[v.n].k \in {"it", "pit"} -> name = "__next__"
    [] v.k = "P" -> name \in {"__enter__", "__exit__"}
    [] OTHER -> FALSE
\* attribute a of class c found through its instance o
Bind(M, a, o, c, rk, rv) ==
  CASE IsObj(M.heap, a, "func") -> Ret(M, rk, rv, MethV(a, o))
    [] a.k = "cmeth" -> Ret(M, rk, rv, MethV(a.q[1], c))
    [] a.k = "smeth" -> Ret(M, rk, rv, a.q[1])
    [] a.k = "prop" -> IF a.q[1] = None THEN RaiseBInto(M, rk, rv, "AttributeError")
                       ELSE Invoke(M, a.q[1], <<o>>, <<>>, rk, rv)
    [] Special(M.heap, a, "__get__").k # "unb" ->
         Invoke(M, Special(M.heap, a, "__get__"), <<a, o, c>>, <<>>, rk, rv)
    [] OTHER -> Ret(M, rk, rv, a)
\* found through the class itself
BindCls(M, a, c, rk, rv) ==
  CASE IsObj(M.heap, a, "func") -> Ret(M, rk, rv, IF M.ver < 300 THEN UMethV(a, c) ELSE a)
    [] a.k = "cmeth" -> Ret(M, rk, rv, MethV(a.q[1], c))
    [] a.k = "smeth" -> Ret(M, rk, rv, a.q[1])
    [] Special(M.heap, a, "__get__").k # "unb" ->
         Invoke(M, Special(M.heap, a, "__get__"), <<a, None, c>>, <<>>, rk, rv)
    [] OTHER -> Ret(M, rk, rv, a)
\* what object and type define
ObjMeths == {"__init__", "__setattr__", "__delattr__", "__getattribute__", "__init_subclass__"}
FuncAttr(M, f, name, rk, rv) ==
  LET o == M.heap[f.n] c == Code(M, o.n) IN
  CASE name = "__name__" \/ (name = "func_name" /\ M.ver < 300) -> Ret(M, rk, rv, StrV(o.s))
    [] name = "__defaults__" \/ (name = "func_defaults" /\ M.ver < 300) ->
         Ret(M, rk, rv, IF o.q = <<>> THEN None ELSE TupV(o.q))
    [] name = "__qualname__" /\ M.ver >= 303 -> Ret(M, rk, rv, StrV(c.qual))
    [] Has(o.d, name) -> Ret(M, rk, rv, Get(o.d, name))
    [] name = "__module__" -> Ret(M, rk, rv, StrV("__main__"))
    [] OTHER -> RaiseBInto(M, rk, rv, "AttributeError")

GetAttr(M, v, name, rk, rv) ==
  LET h == M.heap IN
  CASE v.k = "P" /\ name \in ProbeAttrs ->
         LET t == v.s \o "." \o name IN ProbeOp(M, v, t, Probe(t, 0), rk, rv)
    [] HasMeth(h, v, name) -> Ret(M, rk, rv, BmV(name, v))
    [] v.k = "mod" ->
         LET X == IF ModTab[v.s].dyn = <<>> THEN M ELSE Out(M, "getattr " \o v.s \o "." \o name)
         IN IF Has(M.mods[v.s], name) THEN Ret(M, rk, rv, Get(M.mods[v.s], name))
            ELSE IF InSeq(ModTab[v.s].dyn, name) THEN Ret(X, rk, rv, StrV(v.s \o "." \o name))
            ELSE RaiseBInto(X, rk, rv, "AttributeError")
    [] v.k = "super" ->
         LET o == v.q[2]
             cls == IsClass(h, o) /\ SubClass(h, o, v.q[1])
             c2 == IF cls THEN o ELSE TypeOf(h, o)
             rest == After(MroOf(h, c2), v.q[1])
             a == MroFind(h, rest, name)
         IN IF a.k # "unb" THEN (IF cls THEN BindCls(M, a, o, rk, rv) ELSE Bind(M, a, o, c2, rk, rv))
            ELSE IF name = "__new__"
                 THEN Ret(M, rk, rv, Bf(IF InSeq(rest, Cls("type")) THEN "type.__new__" ELSE "__new__"))
            ELSE IF name = "__call__" /\ InSeq(rest, Cls("type")) THEN Ret(M, rk, rv, BmV("__call__", o))
            ELSE IF name \in ObjMeths THEN Ret(M, rk, rv, BmV(name, o))
            ELSE RaiseBInto(M, rk, rv, "AttributeError")
    [] v.k = "bcls" ->
         IF name = "__name__" THEN Ret(M, rk, rv, StrV(v.s))
         ELSE IF v.s = "type" /\ name \in {"__new__", "__init__", "__call__"}
              THEN Ret(M, rk, rv, Bf("type." \o name))
         ELSE IF name \in {"__init__", "__new__"} \/ (name \in ObjMeths /\ v.s = "object")
              THEN Ret(M, rk, rv, Bf(name))
         ELSE IF v.s = "dict" /\ name = "fromkeys" THEN Unsup(M, "fromkeys")
         ELSE RaiseBInto(M, rk, rv, "AttributeError")
    [] v.k = "prop" /\ name \in {"getter", "setter", "deleter"} -> Ret(M, rk, rv, BmV(name, v))
    [] v.k = "meth" /\ name \in {"im_self", "__self__"} -> Ret(M, rk, rv, v.q[2])
    [] v.k = "umeth" /\ name \in {"im_self", "__self__"} -> Ret(M, rk, rv, None)
    [] v.k \in {"meth", "umeth"} /\ name \in {"im_func", "__func__"} -> Ret(M, rk, rv, v.q[1])
    [] v.k = "umeth" /\ name = "im_class" -> Ret(M, rk, rv, v.q[2])
    [] v.k \in {"meth", "umeth"} /\ IsObj(h, v.q[1], "func") -> FuncAttr(M, v.q[1], name, rk, rv)
    [] name = "__class__" /\ (v.k \in {"int", "bool", "str", "tup", "none", "bcls"}
                             \/ (v.k = "ref" /\ h[v.n].k \in {"list", "dict", "set"})) ->
         Ret(M, rk, rv, TypeOf(h, v))
    [] v.k # "ref" -> RaiseBInto(M, rk, rv, "AttributeError")
    [] h[v.n].k = "inst" ->
         LET gb == Special(h, v, "__getattribute__")
             hook == Special(h, v, "__getattr__").k # "unb"
         IN IF gb.k # "unb"
            THEN Invoke(M, gb, <<v, StrV(name)>>, <<>>, "getattribute", <<v, name, rk, rv>>)
            ELSE IF hook THEN GetAttrPlain(M, v, name, "getattribute", <<v, name, rk, rv>>)
            ELSE GetAttrPlain(M, v, name, rk, rv)
    [] h[v.n].k = "class" ->
         LET meta == TypeOf(h, v)
             a == ClsAttr(h, v, name)
             ma == ClsAttr(h, meta, name)
             hook == Special(h, v, "__getattr__").k # "unb"
             rk1 == IF hook THEN "getattribute" ELSE rk
             rv1 == IF hook THEN <<v, name, rk, rv>> ELSE rv
         IN CASE name = "__name__" -> Ret(M, rk, rv, StrV(h[v.n].s))
              [] name = "__bases__" -> Ret(M, rk, rv, TupV(h[v.n].q))
              [] name = "__mro__" -> Ret(M, rk, rv, TupV(h[v.n].x))
              [] name = "__class__" -> Ret(M, rk, rv, meta)
              [] IsData(h, ma) -> Bind(M, ma, v, meta, rk1, rv1)
              [] a.k # "unb" -> BindCls(M, a, v, rk1, rv1)
              [] name = "__doc__" -> Ret(M, rk, rv, None)
              [] name = "__qualname__" /\ M.ver >= 303 -> Ret(M, rk, rv, StrV(h[v.n].s))
              [] ma.k # "unb" -> Bind(M, ma, v, meta, rk1, rv1)
              [] name = "__new__" -> Ret(M, rk, rv, Bf(IF SubClass(h, v, Cls("type")) THEN "type.__new__" ELSE "__new__"))
              [] name = "__init__" /\ SubClass(h, v, Cls("type")) -> Ret(M, rk, rv, Bf("type.__init__"))
              [] name \in ObjMeths -> Ret(M, rk, rv, IF name = "__init_subclass__" THEN BmV(name, v) ELSE Bf(name))
              [] OTHER -> RaiseBInto(M, rk1, rv1, "AttributeError")
    [] h[v.n].k = "func" -> FuncAttr(M, v, name, rk, rv)
    [] OTHER -> RaiseBInto(M, rk, rv, "AttributeError")
\* object.__getattribute__
GetAttrPlain(M, v, name, rk, rv) ==
  LET h == M.heap
      o == h[v.n]
      ca == ClsAttr(h, o.c, name)
  IN CASE IsData(h, ca) /\ (ca.k = "prop" \/ Special(h, ca, "__get__").k # "unb") ->
            Bind(M, ca, v, o.c, rk, rv)
       [] Has(o.d, name) -> Ret(M, rk, rv, Get(o.d, name))
       [] ca.k # "unb" -> Bind(M, ca, v, o.c, rk, rv)
       [] name = "__class__" -> Ret(M, rk, rv, o.c)
       [] name = "__doc__" -> Ret(M, rk, rv, None)
       [] name = "args" /\ IsExc(h, v) ->
            IF o.n = 1 THEN Unsup(M, "args") ELSE Ret(M, rk, rv, TupV(o.q))
       [] name = "__cause__" /\ IsExc(h, v) ->
            Ret(M, rk, rv, IF o.x = <<>> THEN None ELSE o.x[1])
       [] name = "value" /\ IsExc(h, v) /\ SubClass(h, o.c, Cls("StopIteration")) ->
            Ret(M, rk, rv, IF o.q = <<>> THEN None ELSE o.q[1])
       [] name \in ObjMeths -> Ret(M, rk, rv, BmV(name, v))
       [] name = "__new__" -> Ret(M, rk, rv, Bf("__new__"))
       [] OTHER -> RaiseBInto(M, rk, rv, "AttributeError")
\* A special method of v: what v itself has is not looked at.
SpecialAttr(M, v, name, rk, rv) ==
  LET h == M.heap
      c == TypeOf(h, v)
      a == ClsAttr(h, c, name)
  IN CASE v.k = "mod" \/ (v.k = "ref" /\ h[v.n].k = "func") -> RaiseBInto(M, rk, rv, "AttributeError")
       [] v.k = "ref" /\ (h[v.n].k = "inst" \/ (h[v.n].k = "class" /\ h[v.n].c # None)) ->
            IF a.k = "unb" THEN RaiseBInto(M, rk, rv, "AttributeError") ELSE Bind(M, a, v, c, rk, rv)
       [] OTHER -> GetAttr(M, v, name, rk, rv)
SuperAttr(M, v, name, rk, rv) == GetAttr(M, v, name, rk, rv)

\* object.__setattr__, object.__delattr__
SetAttrPlain(M, v, name, val, rk, rv) ==
  LET h == M.heap
      ca == ClsAttr(h, TypeOf(h, v), name)
      st == Special(h, ca, "__set__")
  IN CASE ca.k = "prop" -> IF ca.q[2] = None THEN RaiseBInto(M, rk, rv, "AttributeError")
                           ELSE Invoke(M, ca.q[2], <<v, val>>, <<>>, rk, rv)
       [] st.k # "unb" -> Invoke(M, st, <<ca, v, val>>, <<>>, rk, rv)
       [] IsData(h, ca) -> RaiseBInto(M, rk, rv, "AttributeError")
       [] TypeOf(h, v) = Cls("object") -> RaiseBInto(M, rk, rv, "AttributeError")
       [] name = "__class__" /\ h[v.n].k = "inst" ->
            IF IsObj(h, val, "class") THEN Ret([M EXCEPT !.heap[v.n].c = val], rk, rv, None)
            ELSE RaiseBInto(M, rk, rv, "TypeError")
       [] name = "__name__" /\ h[v.n].k \in {"class", "func"} ->
            IF val.k = "str" THEN Ret([M EXCEPT !.heap[v.n].s = val.s], rk, rv, None)
            ELSE RaiseBInto(M, rk, rv, "TypeError")
       [] h[v.n].k = "func" /\ (name = "__defaults__" \/ (name = "func_defaults" /\ M.ver < 300)) ->
            IF val = None \/ val.k = "tup"
            THEN Ret([M EXCEPT !.heap[v.n].q = IF val = None THEN <<>> ELSE val.q], rk, rv, None)
            ELSE Unsup(M, "defaults")
       [] OTHER -> Ret([M EXCEPT !.heap[v.n].d = Put(@, name, val)], rk, rv, None)
DelAttrPlain(M, v, name, rk, rv) ==
  LET h == M.heap
      ca == ClsAttr(h, TypeOf(h, v), name)
      dl == Special(h, ca, "__delete__")
  IN CASE ca.k = "prop" -> IF ca.q[3] = None THEN RaiseBInto(M, rk, rv, "AttributeError")
                           ELSE Invoke(M, ca.q[3], <<v>>, <<>>, rk, rv)
       [] dl.k # "unb" -> Invoke(M, dl, <<ca, v>>, <<>>, rk, rv)
       [] IsData(h, ca) \/ ~Has(h[v.n].d, name) -> RaiseBInto(M, rk, rv, "AttributeError")
       [] OTHER -> Ret([M EXCEPT !.heap[v.n].d = Del(@, name)], rk, rv, None)

SetAttr(M, v, name, val, rk, rv) ==
  LET h == M.heap
      sa == Special(h, v, "__setattr__")
  IN CASE v.k = "P" -> ProbeOp(M, v, v.s \o "." \o name \o "=" \o Canon(h, val), None, rk, rv)
       [] sa.k # "unb" -> Invoke(M, sa, <<v, StrV(name), val>>, <<>>, rk, rv)
       [] v.k = "ref" /\ h[v.n].k \in {"inst", "class", "func"} -> SetAttrPlain(M, v, name, val, rk, rv)
       [] v.k = "mod" -> Ret([M EXCEPT !.mods[v.s] = Put(@, name, val)], rk, rv, None)
       [] v.k = "bcls" \/ name = "__class__" -> RaiseBInto(M, rk, rv, "TypeError")
       [] OTHER -> RaiseBInto(M, rk, rv, "AttributeError")
DelAttr(M, v, name, rk, rv) ==
  LET h == M.heap
      da == Special(h, v, "__delattr__")
  IN CASE v.k = "P" -> ProbeOp(M, v, "del " \o v.s \o "." \o name, None, rk, rv)
       [] da.k # "unb" -> Invoke(M, da, <<v, StrV(name)>>, <<>>, rk, rv)
       [] v.k = "ref" /\ h[v.n].k \in {"inst", "class", "func"} -> DelAttrPlain(M, v, name, rk, rv)
       [] v.k = "mod" /\ Has(M.mods[v.s], name) -> Ret([M EXCEPT !.mods[v.s] = Del(@, name)], rk, rv, None)
       [] v.k = "bcls" -> RaiseBInto(M, rk, rv, "TypeError")
       [] OTHER -> RaiseBInto(M, rk, rv, "AttributeError")

(********************************* calls ***********************************)
\* binds the arguments of a call of the function with code c; b.err says why not
BindArgs(M, c, fn, pos, kw) ==
  LET na == c.argcount
      nk == c.kwonly
      names == SubSeq(c.varnames, 1, na + nk)
      varargs == Bit(c.flags, 4)
      varkw == Bit(c.flags, 8)
      np == IF Len(pos) < na THEN Len(pos) ELSE na
      given == [i \in 1..np |-> <<names[i], pos[i]>>]
      byname == SubSeq(names, c.posonly + 1, na + nk)
      known == SelectSeq(kw, LAMBDA p : InSeq(byname, p[1]))
      others == SelectSeq(kw, LAMBDA p : ~InSeq(byname, p[1]))
      dup == \E i \in DOMAIN known : Has(given, known[i][1])
      all1 == given \o known
      nd == Len(fn.q)
      dflt == SelectSeq([i \in 1..nd |-> <<names[na - nd + i], fn.q[i]>>], LAMBDA p : ~Has(all1, p[1]))
      kwd == Get(fn.d, "__kwdefaults__")
      kdflt == IF kwd.k # "ref" THEN <<>>
               ELSE SelectSeq([i \in DOMAIN M.heap[kwd.n].d |-> <<M.heap[kwd.n].d[i][1].s, M.heap[kwd.n].d[i][2]>>],
                              LAMBDA p : ~Has(all1, p[1]) /\ InSeq(SubSeq(names, na + 1, na + nk), p[1]))
      all2 == all1 \o dflt \o kdflt
      missing == \E i \in 1..(na + nk) : ~Has(all2, names[i])
      bad == (Len(pos) > na /\ ~varargs) \/ (others # <<>> /\ ~varkw) \/ dup \/ missing
      inorder == [i \in 1..(na + nk) |-> <<names[i], Get(all2, names[i])>>]
      extra == IF varargs THEN <<<<c.varnames[na + nk + 1], TupV(SubSeq(pos, np + 1, Len(pos)))>>>> ELSE <<>>
      kwname == c.varnames[na + nk + 1 + (IF varargs THEN 1 ELSE 0)]
      M1 == IF bad \/ ~varkw THEN M ELSE Alloc(M, DictO([i \in DOMAIN others |-> <<StrV(others[i][1]), others[i][2]>>]))
      kws == IF varkw THEN <<<<kwname, Ref(NewAddr(M))>>>> ELSE <<>>
  IN [err |-> bad, m |-> M1, v |-> IF bad THEN <<>> ELSE inorder \o extra \o kws]

\* the cells of a new frame: those of its own variables, then those it gets
RECURSIVE OwnCells(_, _, _)
OwnCells(M, names, v) ==
  IF names = <<>> THEN M ELSE OwnCells(Alloc(M, CellO(Get(v, Head(names)))), Tail(names), v)
NewCells(M, c, closure) == [i \in DOMAIN c.cellvars |-> Len(M.heap) + i] \o closure

CallFunc(M, a, pos, kw, rk, rv) ==
  LET fn == M.heap[a]
      c == Code(M, fn.n)
      b == BindArgs(M, c, fn, pos, kw)
      closure == IF fn.c.k = "tup" THEN [i \in DOMAIN fn.c.q |-> fn.c.q[i].n] ELSE <<>>
      M1 == OwnCells(b.m, c.cellvars, b.v)
      cells == NewCells(b.m, c, closure)
      optim == Bit(c.flags, 1)
      M2 == IF optim THEN M1 ELSE Alloc(M1, DictO([i \in DOMAIN b.v |-> <<StrV(b.v[i][1]), b.v[i][2]>>]))
      f == PyFrame(fn.n, IF optim THEN 0 ELSE NewAddr(M1), b.v, cells, rk, rv)
  IN IF b.err THEN RaiseBInto(M, rk, rv, "TypeError")
     ELSE IF Bit(c.flags, 32)
     THEN LET g == NewAddr(M2)
          IN Ret(Alloc(M2, [O("gen") EXCEPT !.s = fn.s, !.x = <<[f EXCEPT !.gen = g, !.ln = c.first]>>]),
                 rk, rv, Ref(g))
     ELSE PushFrame(M2, f, "call")

\* class c is called: __new__, then __init__ if that gave an instance of c
NewMeth(M, c) == LET a == ClsAttr(M.heap, c, "__new__") IN IF a.k = "smeth" THEN a.q[1] ELSE a
Instantiate(M, c, pos, kw, rk, rv) ==
  LET h == M.heap
      nw == NewMeth(M, c)
      exc == SubClass(h, c, Cls("BaseException"))
      M1 == Alloc(M, [O("inst") EXCEPT !.c = c, !.q = IF exc THEN pos ELSE <<>>])
  IN CASE nw.k # "unb" -> Invoke(M, nw, <<c>> \o pos, kw, "newinst", <<c, pos, kw, rk, rv>>)
       [] SubClass(h, c, Cls("type")) ->
            Invoke(M, Bf("type.__new__"), <<c>> \o pos, kw, "newinst", <<c, pos, kw, rk, rv>>)
       [] ClsAttr(h, c, "__init__").k = "unb" /\ (kw # <<>> \/ (pos # <<>> /\ ~exc)) ->
            RaiseBInto(M, rk, rv, "TypeError")
       [] OTHER -> InitInst(M1, Ref(NewAddr(M)), pos, kw, rk, rv)
InitInst(M, o, pos, kw, rk, rv) ==
  LET init == Special(M.heap, o, "__init__")
  IN IF init.k # "unb" THEN Invoke(M, init, <<o>> \o pos, kw, "init", <<o, rk, rv>>)
     ELSE IF NewMeth(M, TypeOf(M.heap, o)).k = "unb" \/ IsExc(M.heap, o) \/ IsClass(M.heap, o)
          THEN Ret(M, rk, rv, o)
     ELSE Ret(M, rk, rv, o)

\* the most derived of the metaclass m and those of the bases; <<>> if there is none
RECURSIVE Winner(_, _, _)
Winner(h, m, bs) ==
  IF bs = <<>> THEN <<m>>
  ELSE LET t == TypeOf(h, Head(bs))
       IN IF SubClass(h, m, t) THEN Winner(h, m, Tail(bs))
          ELSE IF SubClass(h, t, m) THEN Winner(h, t, Tail(bs))
          ELSE <<>>
\* type.__new__(meta, name, bases, namespace, **kw)
TypeNew(M, meta, name, bases, nsa, kw, rk, rv) ==
  LET h == M.heap
      self == Ref(NewAddr(M))
      bs == IF bases = <<>> THEN <<Cls("object")>> ELSE bases
      w == Winner(h, meta, bs)
      ns == SelectSeq(h[nsa].d, LAMBDA p : p[1] # StrV("__classcell__") /\ p[1] # StrV("__qualname__"))
      implicit(n, a) ==
        IF ~IsObj(h, a, "func") THEN a
        ELSE IF n = "__new__" THEN SMethV(a)
        ELSE IF n = "__init_subclass__" /\ M.ver >= 306 THEN CMethV(a)
        ELSE a
      at == [i \in DOMAIN ns |-> <<ns[i][1].s, implicit(ns[i][1].s, ns[i][2])>>]
      mro == Linearize(h, self, bs)
      M1 == Alloc(M, [O("class") EXCEPT !.s = name, !.q = bs, !.x = mro,
                                        !.c = IF meta = Cls("type") THEN None ELSE meta,
                                        !.d = (IF Has(at, "__doc__") THEN at ELSE Append(at, <<"__doc__", None>>))
                                              \o (IF Has(h[nsa].d, StrV("__qualname__"))
                                                  THEN <<<<"__qualname__", Get(h[nsa].d, StrV("__qualname__"))>>>>
                                                  ELSE <<>>)])
  IN IF w = <<>> \/ \E i \in DOMAIN bs : ~IsClass(h, bs[i]) THEN RaiseBInto(M, rk, rv, "TypeError")
     ELSE IF w # <<meta>> /\ NewMeth(M, w[1]).k # "unb"
          THEN Invoke(M, NewMeth(M, w[1]), <<w[1], StrV(name), TupV(bases), Ref(nsa)>>, kw, rk, rv)
     ELSE IF w # <<meta>> THEN TypeNew(M, w[1], name, bases, nsa, kw, rk, rv)
     ELSE IF InSeq(mro, Unb) \/ \E i \in DOMAIN bs : bs[i].k = "bcls" /\ bs[i].s \in {"bool", "NoneType", "range", "slice"}
          THEN RaiseBInto(M, rk, rv, "TypeError")
     ELSE IF \E i \in DOMAIN mro : mro[i].k = "bcls" /\ mro[i].s \in {"int", "str", "tuple", "list", "dict", "set", "float"}
          THEN Unsup(M, "subclass of a builtin class")
     ELSE SetNames(M1, self, at, kw, rk, rv)
\* __set_name__ of the attributes at of the new class c, then __init_subclass__
SetNames(M, c, at, kw, rk, rv) ==
  LET h == M.heap
      is == MroFind(h, Tail(h[c.n].x), "__init_subclass__")
  IN IF at # <<>> /\ M.ver >= 306
     THEN LET sn == Special(h, at[1][2], "__set_name__")
          IN IF sn.k = "unb" THEN SetNames(M, c, Tail(at), kw, rk, rv)
             ELSE Invoke(M, sn, <<at[1][2], c, StrV(at[1][1])>>, <<>>, "setname", <<c, Tail(at), kw, rk, rv>>)
     ELSE IF is.k = "cmeth" /\ M.ver >= 306
          THEN Invoke(M, is.q[1], <<c>>, kw, "constant", <<rk, rv, c>>)
     ELSE IF kw # <<>> THEN RaiseBInto(M, rk, rv, "TypeError")
     ELSE Ret(M, rk, rv, c)

\* the body of the class has run and returned v; nsa is its namespace;
\* mk is the metaclass and the other keywords
MakeClass(M, name, bases, nsa, v, mk, rk, rv) ==
  Invoke(M, mk[1], <<StrV(name), TupV(bases), Ref(nsa)>>, mk[2], "setcell", <<v, rk, rv>>)
\* BUILD_CLASS of 2.x
OldClass(M, name, bases, nsa, rk, rv) ==
  LET own == Get(M.heap[nsa].d, StrV("__metaclass__"))
      glb == Get(M.heap[M.glb].d, StrV("__metaclass__"))
      meta == IF own.k # "unb" THEN own
              ELSE IF bases # <<>> THEN TypeOf(M.heap, bases[1])
              ELSE IF glb.k # "unb" THEN glb ELSE Cls("type")
  IN MakeClass(M, name, bases, nsa, None, <<meta, <<>>>>, rk, rv)

BuildClass(M, pos, kw, rk, rv) ==
  LET h == M.heap
      bases == SubSeq(pos, 3, Len(pos))
      given == Get(kw, "metaclass")
      m0 == IF given.k # "unb" THEN given ELSE IF bases = <<>> THEN Cls("type") ELSE TypeOf(h, bases[1])
      w == IF IsClass(h, m0) THEN Winner(h, m0, bases) ELSE <<m0>>
      kw1 == SelectSeq(kw, LAMBDA p : p[1] # "metaclass")
      pr == IF IsClass(h, m0) /\ w # <<>> THEN ClsAttr(h, w[1], "__prepare__") ELSE Unb
      prf == IF pr.k = "cmeth" THEN MethV(pr.q[1], w[1]) ELSE IF pr.k = "smeth" THEN pr.q[1] ELSE pr
      goon == <<pos[2].s, bases, w, kw1, pos[1].n, rk, rv>>
  IN IF w = <<>> THEN RaiseBInto(M, rk, rv, "TypeError")
     ELSE IF pr.k # "unb" THEN Invoke(M, prf, <<pos[2], TupV(bases)>>, kw1, "prepared", <<0, goon>>)
     ELSE RunClassBody(Alloc(M, DictO(<<>>)), NewAddr(M), 0, goon)
\* the body runs in the namespace at address ns
RunClassBody(M, ns, z, g) ==
  LET fn == M.heap[g[5]]
      c == Code(M, fn.n)
      closure == IF fn.c.k = "tup" THEN [i \in DOMAIN fn.c.q |-> fn.c.q[i].n] ELSE <<>>
      v == IF M.ver < 304 THEN <<<<"__locals__", Ref(ns)>>>> ELSE <<>>
      M2 == OwnCells(M, c.cellvars, <<>>)
      cells == NewCells(M, c, closure)
  IN PushFrame(M2, PyFrame(fn.n, ns, v, cells, "class",
                           <<g[1], g[2], ns, g[3][1], g[4], g[6], g[7]>>), "call")

Invoke(M, f, pos, kw, rk, rv) ==
  LET h == M.heap IN
  CASE f.k = "ref" ->
        (CASE h[f.n].k = "func" -> CallFunc(M, f.n, pos, kw, rk, rv)
           [] h[f.n].k = "class" /\ Special(h, f, "__call__").k = "unb" -> Instantiate(M, f, pos, kw, rk, rv)
           [] Special(h, f, "__call__").k # "unb" ->
                Invoke(M, Special(h, f, "__call__"), <<f>> \o pos, kw, rk, rv)
           [] OTHER -> RaiseBInto(M, rk, rv, "TypeError"))
    [] f.k = "meth" -> Invoke(M, f.q[1], <<f.q[2]>> \o pos, kw, rk, rv)
    [] f.k = "drop" -> Invoke(M, f.q[1], Tail(pos), kw, rk, rv)
    [] f.k = "umeth" ->
         IF pos # <<>> /\ InstOf(h, pos[1], f.q[2]) THEN Invoke(M, f.q[1], pos, kw, rk, rv)
         ELSE IF pos # <<>> THEN IsInst(M, pos[1], <<f.q[2]>>, "unbound", <<f.q[1], pos, kw, rk, rv>>)
         ELSE RaiseBInto(M, rk, rv, "TypeError")
    [] f.k = "P" ->
         LET t == f.s \o "(" \o ArgText(h, pos, kw) \o ")"
         IN ProbeOp(M, f, t, Probe(t, 0), rk, rv)
    [] f.k = "bcls" /\ IsExcClass(h, f) ->
         IF kw # <<>> THEN RaiseBInto(M, rk, rv, "TypeError")
         ELSE Ret(Alloc(M, [O("inst") EXCEPT !.c = f, !.q = pos]), rk, rv, Ref(NewAddr(M)))
    [] f.k \in {"bcls", "bf", "bm"} -> BuiltinCall(M, f, pos, kw, rk, rv)
    [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

\* call of f where the mappings maps still have to be added to the keywords
MergeKw(M, kw, map, dup) == \* the keywords with those of map; <<Unb>> marks an error
  IF ~IsObj(M.heap, map, "dict") THEN <<Unb>>
  ELSE LET d == M.heap[map.n].d
           e == [i \in DOMAIN d |-> <<d[i][1].s, d[i][2]>>]
       IN IF dup /\ \E i \in DOMAIN e : Has(kw, e[i][1]) THEN <<Unb>> ELSE kw \o e
CallMerged(M, f, pos, kw, maps, rk, rv) ==
  IF maps = <<>> THEN Invoke(M, f, pos, kw, rk, rv)
  ELSE LET k2 == MergeKw(M, kw, Head(maps), TRUE)
       IN IF k2 = <<Unb>> THEN RaiseBInto(M, rk, rv, "TypeError")
          ELSE CallMerged(M, f, pos, k2, Tail(maps), rk, rv)

(**************************** builtin functions ****************************)
BTrue(M, cond, rk, rv) == Ret(M, rk, rv, BoolV(cond))
ClassArg(h, o, c) == \* isinstance(o, c) for a class or a tuple of classes
  IF c.k = "tup" THEN \E i \in DOMAIN c.q : InstOf(h, o, c.q[i]) ELSE InstOf(h, o, c)
\* isinstance(o, cs): what is not an instance is asked for its class
IsInst(M, o, cs, rk, rv) ==
  LET h == M.heap IN
  IF cs = <<>> THEN BTrue(M, FALSE, rk, rv)
  ELSE IF InstOf(h, o, cs[1]) THEN BTrue(M, TRUE, rk, rv)
  ELSE IF IsClass(h, cs[1]) /\ IsObj(h, o, "inst")
          /\ (Special(h, o, "__getattribute__").k # "unb" \/ ClsAttr(h, TypeOf(h, o), "__class__").k # "unb")
       THEN GetAttr(M, o, "__class__", "instclass", <<o, cs, rk, rv>>)
  ELSE IsInst(M, o, Tail(cs), rk, rv)
LocalsPairs(M) ==
  LET f == Fr(M) IN [i \in DOMAIN f.v |-> <<StrV(f.v[i][1]), f.v[i][2]>>]
NArgs(pos, lo, hi) == Len(pos) >= lo /\ Len(pos) <= hi

\* repr() or str() of a value
TextOf(M, v, rep, rk, rv) ==
  LET h == M.heap
      st == IF rep THEN Unb ELSE Special(h, v, "__str__")
      rp == Special(h, v, "__repr__")
  IN CASE ReprOk(h, v) -> Ret(M, rk, rv, StrV(IF rep THEN ReprOf(h, v) ELSE StrOf(h, v)))
       [] st.k # "unb" -> Invoke(M, st, <<v>>, <<>>, "strres", <<rk, rv>>)
       [] ~rep /\ IsExc(h, v) /\ h[v.n].n = 0 /\ (h[v.n].q = <<>> \/ (Len(h[v.n].q) = 1 /\ ReprOk(h, h[v.n].q[1]))) /\ rp.k = "unb" ->
            Ret(M, rk, rv, StrV(IF h[v.n].q = <<>> THEN "" ELSE StrOf(h, h[v.n].q[1])))
       [] rp.k # "unb" /\ (rep \/ ~IsExc(h, v)) -> Invoke(M, rp, <<v>>, <<>>, "strres", <<rk, rv>>)
       [] OTHER -> Unsup(M, "str")
\* The print statement of Python 2; f is a file, None for sys.stdout.
\* The flag softspace of f is set; what it was before is what it goes on with
SoftSpace(M, f, new, rk, rv) ==
  IF f = None THEN Ret([M EXCEPT !.soft = new = 1], rk, rv, BoolV(M.soft))
  ELSE GetAttr(M, f, "softspace", "softgot", <<f, new, rk, rv>>)
WriteTo(M, f, s, rk, rv) ==
  IF f = None THEN Ret(IF s = "" THEN M ELSE Out(M, "write " \o s), rk, rv, None)
  ELSE GetAttr(M, f, "write", "writeto", <<s, rk, rv>>)
PrintText(M, f, v) ==
  IF f = None THEN TextOf(M, v, FALSE, "printtext", <<f, v>>)
  ELSE GetAttr(M, f, "write", "printwriter", <<f, v>>)
\* is a space written between this item and the next one?
LeavesSpace(v) ==
  v.k = "str" => (v.s = "" \/ SubSeq(v.s, Len(v.s), Len(v.s)) \notin {"\n", "\t", "\r", "\f"})
PrintItem(M, f, v) == SoftSpace(M, f, 0, "printsoft", <<f, v>>)
PrintLine(M, f) == WriteTo(M, f, "\n", "printline", f)
\* format(v, spec)
FormatOf(M, v, spec, rk, rv) ==
  LET m == Special(M.heap, v, "__format__")
      int == Num(v)
  IN CASE m.k # "unb" -> Invoke(M, m, <<v, StrV(spec)>>, <<>>, "strres", <<rk, rv>>)
       [] spec = "" -> TextOf(M, v, FALSE, rk, rv)
       [] v.k = "str" \/ int ->
            LET r == Formatted(IF int THEN ToString(v.n) ELSE v.s, int, spec)
            IN IF r.ok THEN Ret(M, rk, rv, StrV(r.s)) ELSE RaiseBInto(M, rk, rv, "ValueError")
       [] OTHER -> RaiseBInto(M, rk, rv, "TypeError")

BuiltinCall(M, f, pos, kw, rk, rv) ==
  LET h == M.heap
      nm == IF f.k = "bm" THEN "." \o f.q[1].s ELSE f.s
      self == IF f.k = "bm" THEN f.q[2] ELSE None
      n == Len(pos)
      p1 == pos[1]
      p2 == pos[2]
      ret(v) == Ret(M, rk, rv, v)
      new(o) == Ret(Alloc(M, o), rk, rv, Ref(NewAddr(M)))
      terr == RaiseBInto(M, rk, rv, "TypeError")
  IN
  CASE nm = "out" -> Ret(Out(M, CanonSeq(h, pos)), rk, rv, None)
    [] nm = "P" -> ret(Probe(p1.s, IF n > 1 THEN p2.n ELSE 0))
    [] nm = "__build_class__" -> BuildClass(M, pos, kw, rk, rv)
    \* of object and BaseException; the argument list of an exception is set
    [] nm \in {"__init__", ".__init__"} ->
         LET o == IF nm = "__init__" THEN p1 ELSE self
             args == IF nm = "__init__" THEN Tail(pos) ELSE pos
         IN IF nm = "__init__" /\ n = 0 THEN terr
            ELSE IF kw # <<>> THEN terr
            ELSE IF IsExc(h, o) THEN Ret([M EXCEPT !.heap[o.n].q = args], rk, rv, None)
            ELSE IF IsObj(h, o, "class") THEN ret(None)
            ELSE IF IsObj(h, o, "inst") /\ args # <<>>
                    /\ (ClsAttr(h, TypeOf(h, o), "__init__").k # "unb" \/ NewMeth(M, TypeOf(h, o)).k = "unb") THEN terr
            ELSE ret(None)
    [] nm = "__new__" -> \* of object and BaseException
         IF n = 0 \/ ~IsClass(h, p1) \/ SubClass(h, p1, Cls("type")) THEN terr
         ELSE IF IsExcClass(h, p1) THEN new([O("inst") EXCEPT !.c = p1, !.q = Tail(pos)])
         ELSE IF (kw # <<>> \/ n > 1) /\ (NewMeth(M, p1).k # "unb" \/ ClsAttr(h, p1, "__init__").k = "unb") THEN terr
         ELSE new([O("inst") EXCEPT !.c = p1])
    [] nm = "type.__new__" \/ (nm = "type" /\ n = 3) ->
         LET a == IF nm = "type" THEN pos ELSE Tail(pos)
         IN IF n = 0 \/ Len(a) # 3 THEN terr
            ELSE IF a[1].k # "str" \/ a[2].k # "tup" \/ ~IsObj(h, a[3], "dict") THEN terr
            ELSE IF nm = "type"
            THEN TypeNew(M, Cls("type"), a[1].s, a[2].q, a[3].n, kw, "newinst", <<Cls("type"), pos, kw, rk, rv>>)
            ELSE TypeNew(M, p1, a[1].s, a[2].q, a[3].n, kw, rk, rv)
    [] nm = "type.__init__" -> ret(None)
    [] nm = "type.__call__" -> Instantiate(M, p1, Tail(pos), kw, rk, rv)
    [] nm = ".__call__" -> Instantiate(M, self, pos, kw, rk, rv)
    [] nm = ".__init_subclass__" -> IF n # 0 \/ kw # <<>> THEN terr ELSE ret(None)
    [] kw # <<>> /\ nm # "dict" -> terr
    [] nm \in {"__getattribute__", "__setattr__", "__delattr__", ".__getattribute__", ".__setattr__", ".__delattr__"} ->
         LET bound == SubSeq(nm, 1, 1) = "."
             o == IF bound THEN self ELSE p1
             a == IF bound THEN pos ELSE Tail(pos)
             op == IF bound THEN SubSeq(nm, 2, Len(nm)) ELSE nm
         IN IF (~bound /\ n = 0) \/ Len(a) # (IF op = "__setattr__" THEN 2 ELSE 1) \/ ~IsObj(h, o, "inst") THEN terr
            ELSE CASE op = "__getattribute__" -> GetAttrPlain(M, o, a[1].s, rk, rv)
                   [] op = "__setattr__" -> SetAttrPlain(M, o, a[1].s, a[2], rk, rv)
                   [] OTHER -> DelAttrPlain(M, o, a[1].s, rk, rv)
    [] nm = "len" ->
         (CASE n # 1 -> terr
            [] Iterable(h, p1) -> ret(IntV(Len(ItemsOf(h, p1))))
            [] Special(h, p1, "__len__").k # "unb" ->
                 Invoke(M, Special(h, p1, "__len__"), <<p1>>, <<>>, "lenres", <<rk, rv>>)
            [] OTHER -> terr)
    [] nm = "iter" -> IF n # 1 THEN terr ELSE GetIter(M, p1, rk, rv)
    [] nm = "next" -> IF n = 1 THEN NextOf(M, p1, rk, rv)
                      ELSE IF n = 2 THEN NextOf(M, p1, "nextdef", <<rk, rv, p2>>) ELSE terr
    [] nm \in {"list", "tuple", "set"} /\ n <= 1 ->
         IF n = 0 THEN Fin(M, nm, <<>>, 0, rk, rv) ELSE Collect(M, p1, nm, 0, -1, rk, rv)
    [] nm = "dict" /\ n <= 1 ->
         IF n = 0 THEN Fin(M, "dict", <<>>, kw, rk, rv)
         ELSE IF IsObj(h, p1, "dict")
              THEN new(DictO(PutAll(h[p1.n].d, [i \in DOMAIN kw |-> <<StrV(kw[i][1]), kw[i][2]>>])))
              ELSE Collect(M, p1, "dict", kw, -1, rk, rv)
    [] nm = "sum" /\ n = 1 -> Collect(M, p1, "sum", 0, -1, rk, rv)
    [] nm = "sorted" /\ n = 1 -> Collect(M, p1, "sorted", 0, -1, rk, rv)
    [] nm = "range" /\ n >= 1 /\ n <= 3 ->
         IF \E i \in DOMAIN pos : ~Num(pos[i]) THEN terr
         ELSE new([O("range") EXCEPT !.q = <<IF n = 1 THEN IntV(0) ELSE IntV(p1.n),
                                             IF n = 1 THEN IntV(p1.n) ELSE IntV(p2.n),
                                             IF n = 3 THEN IntV(pos[3].n) ELSE IntV(1)>>])
    [] nm = "isinstance" /\ n = 2 -> IsInst(M, p1, IF p2.k = "tup" THEN p2.q ELSE <<p2>>, rk, rv)
    [] nm = "issubclass" /\ n = 2 ->
         IF ~IsClass(h, p1) THEN terr ELSE BTrue(M, SubClass(h, p1, p2), rk, rv)
    [] nm = "getattr" /\ n = 2 -> GetAttr(M, p1, p2.s, rk, rv)
    [] nm = "getattr" /\ n = 3 -> GetAttr(M, p1, p2.s, "getdef", <<rk, rv, pos[3]>>)
    [] nm = "hasattr" /\ n = 2 -> GetAttr(M, p1, p2.s, "hasattr", <<rk, rv, False>>)
    [] nm = "setattr" /\ n = 3 -> SetAttr(M, p1, p2.s, pos[3], rk, rv)
    [] nm = "delattr" /\ n = 2 -> DelAttr(M, p1, p2.s, rk, rv)
    [] nm = "super" ->
         LET of(c, o) == IF IsClass(h, c) /\ ((IsClass(h, o) /\ SubClass(h, o, c)) \/ InstOf(h, o, c))
                         THEN ret(SuperV(c, o))
                         ELSE IF IsClass(h, c) THEN IsInst(M, o, <<c>>, "supercheck", <<rk, rv>>)
                         ELSE terr
         IN
         IF n = 2 THEN of(p1, p2)
         ELSE LET fr == Fr(M)
                  c == Code(M, fr.co)
                  names == c.cellvars \o c.freevars
                  I == {i \in DOMAIN names : names[i] = "__class__"}
                  a1 == c.varnames[1]
                  self1 == IF Has(fr.v, a1) /\ ~InSeq(c.cellvars, a1) THEN Get(fr.v, a1)
                           ELSE h[fr.cells[IdxOf([i \in DOMAIN names |-> <<names[i], 0>>], a1)]].c
              IN IF n # 0 THEN Unsup(M, "super(1)")
                 ELSE IF I = {} \/ c.argcount = 0 THEN RaiseBInto(M, rk, rv, "RuntimeError")
                 ELSE LET cl == h[fr.cells[CHOOSE i \in I : TRUE]].c
                      IN IF cl.k = "unb" THEN RaiseBInto(M, rk, rv, "RuntimeError")
                         ELSE of(cl, self1)
    [] nm = "staticmethod" /\ n = 1 -> ret(SMethV(p1))
    [] nm = "classmethod" /\ n = 1 -> ret(CMethV(p1))
    [] nm = "property" /\ n <= 4 ->
         ret(PropV(IF n > 0 THEN p1 ELSE None, IF n > 1 THEN p2 ELSE None, IF n > 2 THEN pos[3] ELSE None))
    [] nm = ".getter" /\ n = 1 -> ret(PropV(p1, self.q[2], self.q[3]))
    [] nm = ".setter" /\ n = 1 -> ret(PropV(self.q[1], p1, self.q[3]))
    [] nm = ".deleter" /\ n = 1 -> ret(PropV(self.q[1], self.q[2], p1))
    [] nm = "type" /\ n = 1 -> ret(TypeOf(h, p1))
    [] nm = "bool" /\ n = 1 -> Truth(M, p1, "bool", <<rk, rv>>)
    [] nm = "bool" /\ n = 0 -> ret(False)
    [] nm = "int" /\ n = 0 -> ret(IntV(0))
    [] nm = "int" /\ n = 1 /\ Num(p1) -> ret(IntV(p1.n))
    [] nm = "str" /\ n = 0 -> ret(StrV(""))
    [] nm = "str" /\ n = 1 -> TextOf(M, p1, FALSE, rk, rv)
    [] nm = "repr" /\ n = 1 -> TextOf(M, p1, TRUE, rk, rv)
    [] nm = "object" /\ n = 0 -> new([O("inst") EXCEPT !.c = Cls("object")])
    [] nm = "globals" /\ n = 0 -> ret(Ref(M.glb))
    [] nm = "locals" /\ n = 0 ->
         IF Fr(M).l # 0 THEN ret(Ref(Fr(M).l)) ELSE new(DictO(LocalsPairs(M)))
    [] nm = "exc_info" /\ n = 0 ->
         ret(IF M.hx = None THEN TupV(<<None, None, None>>)
             ELSE TupV(<<h[M.hx.n].c, M.hx, Tb>>))
    [] nm = "exit" /\ n <= 1 ->
         ExcInto(Alloc(M, [O("inst") EXCEPT !.c = Cls("SystemExit"), !.q = pos]), rk, rv, Ref(NewAddr(M)))
    [] nm = ".append" /\ n = 1 -> Ret([M EXCEPT !.heap[self.n].q = Append(@, p1)], rk, rv, None)
    [] nm = ".insert" /\ n = 2 /\ Num(p1) ->
         LET q == h[self.n].q
             i == Clip(IF p1.n < 0 THEN p1.n + Len(q) ELSE p1.n, 0, Len(q))
         IN Ret([M EXCEPT !.heap[self.n].q = SubSeq(q, 1, i) \o <<p2>> \o SubSeq(q, i + 1, Len(q))], rk, rv, None)
    [] nm = ".reverse" /\ n = 0 -> Ret([M EXCEPT !.heap[self.n].q = Rev(@)], rk, rv, None)
    [] nm = ".extend" /\ n = 1 -> Collect(M, p1, "extend", self, -1, rk, rv)
    [] nm = ".pop" /\ IsObj(h, self, "list") ->
         LET q == h[self.n].q
             i == IF n = 0 THEN Len(q) - 1 ELSE IF p1.n < 0 THEN p1.n + Len(q) ELSE p1.n
         IN IF i < 0 \/ i >= Len(q) THEN RaiseBInto(M, rk, rv, "IndexError")
            ELSE Ret([M EXCEPT !.heap[self.n].q = RemoveAt(@, i + 1)], rk, rv, q[i + 1])
    [] nm = ".pop" /\ IsObj(h, self, "dict") ->
         IF Has(h[self.n].d, p1)
         THEN Ret([M EXCEPT !.heap[self.n].d = Del(@, p1)], rk, rv, Get(h[self.n].d, p1))
         ELSE IF n = 2 THEN ret(p2) ELSE RaiseBInto(M, rk, rv, "KeyError")
    [] nm = ".get" -> IF Has(h[self.n].d, p1) THEN ret(Get(h[self.n].d, p1))
                      ELSE ret(IF n = 2 THEN p2 ELSE None)
    [] nm = ".setdefault" ->
         IF Has(h[self.n].d, p1) THEN ret(Get(h[self.n].d, p1))
         ELSE Ret([M EXCEPT !.heap[self.n].d = Put(@, p1, IF n = 2 THEN p2 ELSE None)], rk, rv,
                  IF n = 2 THEN p2 ELSE None)
    [] nm = ".keys" -> ret(TupV(Keys(h[self.n].d)))
    [] nm = ".values" -> ret(TupV(Vals(h[self.n].d)))
    [] nm = ".items" -> ret(TupV([i \in DOMAIN h[self.n].d |-> TupV(h[self.n].d[i])]))
    [] nm = ".update" /\ IsObj(h, self, "dict") /\ n = 1 /\ IsObj(h, p1, "dict") ->
         Ret([M EXCEPT !.heap[self.n].d = PutAll(@, h[p1.n].d)], rk, rv, None)
    [] nm = ".update" /\ IsObj(h, self, "set") /\ n = 1 -> Collect(M, p1, "update", self, -1, rk, rv)
    [] nm = ".add" /\ n = 1 ->
         IF Hashable(h, p1) THEN Ret([M EXCEPT !.heap[self.n].q = AddAll(@, <<p1>>)], rk, rv, None) ELSE terr
    [] nm = ".join" /\ n = 1 /\ self.s = "" -> Collect(M, p1, "join", 0, -1, rk, rv)
    [] nm = ".throw" /\ n \in 1..3 -> GenThrow(M, self.n, pos, rk, rv)
    [] nm = ".close" /\ n = 0 -> GenClose(M, self.n, rk, rv)
    [] nm = ".send" /\ n = 1 -> Resume(M, self.n, p1, rk, rv)
    [] nm \in {".next", ".__next__"} /\ n = 0 -> NextOf(M, self, rk, rv)
    [] nm = ".__iter__" /\ n = 0 -> ret(self)
    [] nm = ".__enter__" ->
         IF self.n = 4 THEN ProbeOp(M, [self EXCEPT !.n = 2], "enter(" \o self.s \o ")", None, rk, rv)
         ELSE ProbeOp(M, self, "enter(" \o self.s \o ")", Probe(self.s \o "^", 0), rk, rv)
    [] nm = ".__exit__" /\ n = 3 ->
         LET t == "exit(" \o self.s \o "," \o (IF p1 = None THEN "None" ELSE ClsName(h, p1)) \o ")"
             ok == (p1 = None) = (p2 = None)
         IN ProbeOp(M, IF self.n = 5 THEN [self EXCEPT !.n = 2] ELSE self, t,
                    BoolV(self.n = 3), rk, rv)
    [] OTHER -> terr

(******************************** raising **********************************)
\* the exception instance (or the class, to be called) v is raised, with cause
DoRaise(M, v, cause) ==
  IF ~IsExc(M.heap, v) THEN RaiseB(M, "TypeError")
  ELSE IF cause.k = "unb" THEN Raise(M, v)
  ELSE IF IsExcClass(M.heap, cause) THEN Invoke(M, cause, <<>>, <<>>, "cause", v)
  ELSE DoRaise2(M, v, cause)
DoRaise2(M, e, cause) ==
  IF cause = None THEN Raise([M EXCEPT !.heap[e.n].x = <<>>], e)
  ELSE IF ~IsExc(M.heap, cause) THEN RaiseB(M, "TypeError")
  ELSE Raise([M EXCEPT !.heap[e.n].x = <<cause>>], e)

(************************ leaving a with statement *************************)
\* __exit__ has returned v; exc tells whether there was an exception
AfterWith(M, exc, v) ==
  IF M.ver >= 305
  THEN \* WITH_CLEANUP_START
       PushAll(M, <<exc, v>>)
  ELSE IF exc = None THEN M ELSE Truth(M, v, "with", 0)

(******************************* unwinding *********************************)
\* one step of leaving blocks of the innermost frame because of M.why
UnwindStep(M) ==
  LET f == Top(M)
      b == Last(f.blk)
      why == M.why
      cls == M.heap[M.wv.n].c
      hcls == IF M.hx = None THEN None ELSE M.heap[M.hx.n].c
      htb == IF M.hx = None THEN None ELSE Tb
      out(t) == [M EXCEPT !.st = "run", !.why = "", !.fr[Len(M.fr)].pc = t]
  IN
  IF f.blk = <<>> \/ (why = "return" /\ M.ver >= 308)
  THEN ExitFrame(M, why, IF why = "exception" THEN M.wv ELSE M.rvl)
  ELSE IF b.t = "loop" /\ why = "continue" THEN out(M.rvl.n)
  ELSE
  LET cut == IF b.t = "eh" THEN b.lv + 3 ELSE b.lv
      s0 == SubSeq(f.stk, 1, cut)
      \* a handler is left: the exception handled before is handled again
      s1 == IF b.t = "eh" THEN SubSeq(s0, 1, cut - 3) ELSE s0
      hx1 == IF b.t = "eh" THEN s0[cut - 1] ELSE M.hx
      M1 == [SetTop(M, [f EXCEPT !.blk = Front(@), !.stk = s1]) EXCEPT !.hx = hx1]
      go(M2) == [M2 EXCEPT !.st = "run", !.why = "", !.fr[Len(M2.fr)].pc = b.h]
  IN
  CASE b.t = "loop" /\ why = "break" -> go(M1)
    [] M.ver < 300 /\ (b.t \in {"finally", "with"} \/ (b.t = "except" /\ why = "exception")) ->
         IF why = "exception"
         THEN go(PushAll([M1 EXCEPT !.hx = M.wv], <<Tb, M.wv, cls>>))
         ELSE go(PushAll(M1, IF why \in {"return", "continue"} THEN <<M.rvl, Why(why)>> ELSE <<Why(why)>>))
    [] M.ver >= 300 /\ b.t \in {"finally", "except"} /\ why = "exception" ->
         LET M2 == PushBlock(M1, "eh", 0, Len(s1))
             M3 == PushAll(M2, <<htb, M.hx, hcls, Tb, M.wv, cls>>)
         IN go([M3 EXCEPT !.hx = M.wv])
    [] M.ver >= 300 /\ b.t = "finally" ->
         go(PushAll(M1, IF why \in {"return", "continue"} THEN <<M.rvl, Why(why)>> ELSE <<Why(why)>>))
    [] OTHER -> M1

StartUnwind(M, why) == [M EXCEPT !.st = "unwind", !.why = why]
=============================================================================
