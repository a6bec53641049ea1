-------------------------------- MODULE PyVM --------------------------------
(***************************************************************************)
(* The transition system of the interpreter: one action per opcode of the  *)
(* Python versions 2.4 to 3.10 (and of PyPy), plus one for each step of    *)
(* leaving blocks and for each step of builtin code that calls back.       *)
(*                                                                         *)
(* vm   the machine of PyMachine, its ev and out always empty              *)
(* cur  the instruction the innermost frame executes next                  *)
(* em   the trace events and the output of the last step                   *)
(***************************************************************************)
EXTENDS PyMachine

VARIABLES vm, cur, em

(* Actions have a parameter they do not need: for definitions without any,  *)
(* TLC finds out at the start whether they are constant, by following every *)
(* path through the (mutually recursive) operators of PyMachine.            *)

(******************************* decoding **********************************)
\* from offset off of code c on, with the line ln found so far (0: none)
RECURSIVE DecodeAt(_, _, _, _, _, _)
DecodeAt(M, c, tab, off, ext, ln) ==
  LET op == c.code[off + 1]
      name == tab.name[op + 1]
      word == M.ver >= 306
      has == op >= tab.have
      size == IF word THEN 2 ELSE IF has THEN 3 ELSE 1
      raw == IF ~has THEN 0
             ELSE IF word THEN c.code[off + 2] + ext
             ELSE c.code[off + 2] + 256 * c.code[off + 3] + ext
      ln2 == IF ln # 0 THEN ln ELSE c.lines[off + 1]
  IN IF name = "EXTENDED_ARG"
     THEN DecodeAt(M, c, tab, off + size, raw * (IF word THEN 256 ELSE 65536), ln2)
     ELSE [op |-> name, a |-> raw, has |-> has, off |-> off, nx |-> off + size,
           line |-> ln2, kind |-> tab.kind[op + 1]]
Decode(M) == LET c == Co(M) IN DecodeAt(M, c, OpTab[M.vs], Top(M).pc, 0, 0)
\* the target of a jump instruction
Target(M, d) ==
  LET scaled == IF M.ver >= 310 THEN 2 * d.a ELSE d.a
  IN IF d.kind = "jrel" THEN d.nx + scaled ELSE scaled
ConstOf(c, i) == c.consts[i + 1]
FreeName(c, i) == IF i < Len(c.cellvars) THEN c.cellvars[i + 1]
                  ELSE c.freevars[i - Len(c.cellvars) + 1]
ArgOf(M, c, d) ==
  CASE ~d.has -> "-"
    [] d.kind = "const" -> Canon(M.heap, ConstOf(c, d.a))
    [] d.kind = "name" -> c.names[d.a + 1]
    [] d.kind = "local" -> c.varnames[d.a + 1]
    [] d.kind = "free" -> FreeName(c, d.a)
    [] d.kind \in {"jrel", "jabs"} -> ToString(Target(M, d))
    [] OTHER -> ToString(d.a)

\* instructions a callback may skip without putting the stack in disorder
Skippable == {"NOP", "UNARY_NOT", "UNARY_NEGATIVE", "UNARY_POSITIVE", "UNARY_INVERT", "LOAD_ATTR",
              "DELETE_NAME", "DELETE_FAST", "DELETE_GLOBAL",
              "PRINT_NEWLINE", "SETUP_ANNOTATIONS", "JUMP_IF_FALSE", "JUMP_IF_TRUE", "LIST_TO_TUPLE"}
Idle(op) == [op |-> op, a |-> 0, t |-> 0]

\* The state to stop in until the next step: the innermost frame has reached
\* an instruction, and the callback has been told so.
RECURSIVE Settle(_), AtBreakpoint(_, _, _)
Settle(M) ==
  IF M.st = "done" THEN [m |-> M, c |-> Idle("DONE")]
  ELSE IF M.st = "unwind" THEN [m |-> M, c |-> Idle("UNWIND")]
  ELSE IF Top(M).k = "nat" THEN [m |-> M, c |-> Idle("NATIVE")]
  ELSE
  LET d == Decode(M)
      f == Top(M)
      c == Co(M)
      ln == IF d.line # 0 THEN d.line ELSE f.ln
      brk == d.off \in f.bp
      op == IF brk THEN "BRKPT" ELSE d.op
      M1 == SetTop(M, [f EXCEPT !.li = d.off, !.pc = d.nx, !.lop = op, !.lln = d.line, !.ln = ln])
      kind == IF ~(M.tr /\ f.tf) THEN ""
              ELSE IF d.line # 0 /\ f.fl % 4 # 0 THEN "line"
              ELSE IF Bit(f.fl, 1) THEN "instruction" ELSE ""
      text == kind \o "|" \o ToString(d.off) \o "|" \o op \o "|" \o Num0(d.line) \o "|"
              \o (IF brk THEN "-" ELSE ArgOf(M, c, d)) \o "|" \o c.name \o "|" \o ToString(ln)
      M2 == IF kind = "" THEN M1 ELSE Ev(M1, text)
      ans == IF kind = "" THEN "" ELSE Answer(M2, M2.nc)
      cur1 == [op |-> d.op, a |-> d.a, t |-> Target(M, d)]
      go(M3) == IF brk THEN AtBreakpoint(M3, d, cur1) ELSE [m |-> M3, c |-> cur1]
      top == Len(M2.fr)
  IN CASE ans = "" -> go(M2)
       [] ans = "none" -> go([M2 EXCEPT !.fr[top].fl = 0])
       [] ans = "flags" -> go([M2 EXCEPT !.fr[top].fl = AnswerInt(M2, M2.nc)])
       [] ans = "brk" -> go(AddBreaks(M2, AnswerInt(M2, M2.nc)))
       [] ans = "unbrk" -> go(DelBreaks(M2, AnswerInt(M2, M2.nc)))
       [] ans = "finish" -> go([M2 EXCEPT !.fr[top].tf = FALSE])
       [] ans = "skip" /\ d.op \in Skippable /\ ~brk -> Settle(M2)
       [] ans = "return" /\ Returnable(M2) -> Settle(ExitFrame(M2, "early", IntV(AnswerInt(M2, M2.nc))))
       [] OTHER -> go(M2)
\* instruction d, to be executed as cur1 says, has a breakpoint
AtBreakpoint(M, d, cur1) ==
  LET M1 == Ev(M, "breakpoint|" \o ToString(d.off) \o "|" \o d.op \o "|" \o Num0(d.line))
      ans == Answer(M1, M1.nc)
      v == AnswerInt(M1, M1.nc)
      go(M2) == [m |-> M2, c |-> cur1]
      top == Len(M1.fr)
  IN CASE ans = "flags" -> go([M1 EXCEPT !.fr[top].fl = v])
       [] ans = "brk" -> go(AddBreaks(M1, v))
       [] ans = "unbrk" -> go(DelBreaks(M1, v))
       [] ans = "finish" -> go([M1 EXCEPT !.fr[top].tf = FALSE, !.fr[top].fl = 40])
       [] ans = "skip" /\ d.op \in Skippable -> Settle(M1)
       [] ans = "return" /\ Returnable(M1) -> Settle(StartUnwind([M1 EXCEPT !.rvl = IntV(v)], "return"))
       [] OTHER -> go(M1)

\* the instruction op leads to machine state M
Do(M) == LET s == Settle(M)
         IN /\ vm' = [s.m EXCEPT !.ev = <<>>, !.out = <<>>]
            /\ cur' = s.c
            /\ em' = [ev |-> s.m.ev, out |-> s.m.out]
On(op, M) == cur.op = op /\ Do(M)
OnAny(ops, M) == cur.op \in ops /\ Do(M)

(****************************** operands ***********************************)
a == cur.a
t == cur.t
code == Co(vm)
name == code.names[a + 1]
local == code.varnames[a + 1]
cellAddr == Top(vm).cells[a + 1]
TOS == S(vm, 1)
TOS1 == S(vm, 2)
TOS2 == S(vm, 3)
P1 == PopN(vm, 1)
P2 == PopN(vm, 2)
P3 == PopN(vm, 3)
\* stack entry a-th from the top as left by popping n values
Below(M, n) == S(M, n)

(****************************** stack **************************************)
NOP(step) == On("NOP", vm)
POP_TOP(step) == On("POP_TOP", P1)
ROT_TWO(step) == On("ROT_TWO", PushAll(P2, <<TOS, TOS1>>))
ROT_THREE(step) == On("ROT_THREE", PushAll(P3, <<TOS, TOS2, TOS1>>))
ROT_FOUR(step) == On("ROT_FOUR", PushAll(PopN(vm, 4), <<TOS>> \o SubSeq(TopN(vm, 4), 1, 3)))
ROT_N(step) == On("ROT_N", PushAll(PopN(vm, a), <<TOS>> \o SubSeq(TopN(vm, a), 1, a - 1)))
DUP_TOP(step) == On("DUP_TOP", Push(vm, TOS))
DUP_TOP_TWO(step) == On("DUP_TOP_TWO", PushAll(vm, TopN(vm, 2)))
DUP_TOPX(step) == On("DUP_TOPX", PushAll(vm, TopN(vm, a)))
LOAD_CONST(step) == On("LOAD_CONST", Push(vm, ConstOf(code, a)))

(**************************** operators ************************************)
BinTab ==
  [ BINARY_ADD |-> "+", BINARY_SUBTRACT |-> "-", BINARY_MULTIPLY |-> "*", BINARY_DIVIDE |-> "/",
    BINARY_TRUE_DIVIDE |-> "/", BINARY_FLOOR_DIVIDE |-> "//", BINARY_MODULO |-> "%",
    BINARY_POWER |-> "**", BINARY_LSHIFT |-> "<<", BINARY_RSHIFT |-> ">>", BINARY_AND |-> "&",
    BINARY_OR |-> "|", BINARY_XOR |-> "^", BINARY_MATRIX_MULTIPLY |-> "@",
    INPLACE_ADD |-> "+=", INPLACE_SUBTRACT |-> "-=", INPLACE_MULTIPLY |-> "*=",
    INPLACE_DIVIDE |-> "/=", INPLACE_TRUE_DIVIDE |-> "/=", INPLACE_FLOOR_DIVIDE |-> "//=",
    INPLACE_MODULO |-> "%=", INPLACE_POWER |-> "**=", INPLACE_LSHIFT |-> "<<=",
    INPLACE_RSHIFT |-> ">>=", INPLACE_AND |-> "&=", INPLACE_OR |-> "|=", INPLACE_XOR |-> "^=",
    INPLACE_MATRIX_MULTIPLY |-> "@=" ]
BINARY(step) == cur.op \in DOMAIN BinTab /\ Do(BinOp(P2, BinTab[cur.op], TOS1, TOS, "push", 0))
UNARY_NEGATIVE(step) == On("UNARY_NEGATIVE", UnaryOp(P1, "-", TOS, "push", 0))
UNARY_POSITIVE(step) == On("UNARY_POSITIVE", UnaryOp(P1, "+", TOS, "push", 0))
UNARY_INVERT(step) == On("UNARY_INVERT", UnaryOp(P1, "~", TOS, "push", 0))
UNARY_NOT(step) == On("UNARY_NOT", Truth(P1, TOS, "not", 0))
UNARY_CONVERT(step) == On("UNARY_CONVERT", BuiltinCall(P1, Bf("repr"), <<TOS>>, <<>>, "push", 0))
CmpSym == <<"<", "<=", "==", "!=", ">", ">=", "in", "not in", "is", "is not", "exception match">>
COMPARE_OP(step) == On("COMPARE_OP", CmpOp(P2, CmpSym[a + 1], TOS1, TOS, "push", 0))
IS_OP(step) == On("IS_OP", CmpOp(P2, IF a = 1 THEN "is not" ELSE "is", TOS1, TOS, "push", 0))
CONTAINS_OP(step) == On("CONTAINS_OP", CmpOp(P2, IF a = 1 THEN "not in" ELSE "in", TOS1, TOS, "push", 0))

(************************** subscripts and slices **************************)
BINARY_SUBSCR(step) == On("BINARY_SUBSCR", GetItem(P2, TOS1, TOS, "push", 0))
STORE_SUBSCR(step) == On("STORE_SUBSCR", SetItem(P3, TOS1, TOS, TOS2, "ignore", 0))
DELETE_SUBSCR(step) == On("DELETE_SUBSCR", DelItem(P2, TOS1, TOS, "ignore", 0))
BUILD_SLICE(step) == On("BUILD_SLICE",
  IF a = 3 THEN Push(P3, SliceV(TOS2, TOS1, TOS)) ELSE Push(P2, SliceV(TOS1, TOS, None)))
\* SLICE+n: bit 1 of n tells whether there is a lower bound, bit 2 an upper one
SliceOf(n) == CASE n = 0 -> SliceV(None, None, None) [] n = 1 -> SliceV(TOS, None, None)
                [] n = 2 -> SliceV(None, TOS, None) [] OTHER -> SliceV(TOS1, TOS, None)
NBound(n) == CASE n = 0 -> 0 [] n = 3 -> 2 [] OTHER -> 1
SLICE(n) == On("SLICE+" \o ToString(n),
  GetItem(PopN(vm, NBound(n) + 1), S(vm, NBound(n) + 1), SliceOf(n), "push", 0))
STORE_SLICE(n) == On("STORE_SLICE+" \o ToString(n),
  SetItem(PopN(vm, NBound(n) + 2), S(vm, NBound(n) + 1), SliceOf(n), S(vm, NBound(n) + 2), "ignore", 0))
DELETE_SLICE(n) == On("DELETE_SLICE+" \o ToString(n),
  DelItem(PopN(vm, NBound(n) + 1), S(vm, NBound(n) + 1), SliceOf(n), "ignore", 0))

(**************************** containers ***********************************)
BUILD_TUPLE(step) == On("BUILD_TUPLE", Push(PopN(vm, a), TupV(TopN(vm, a))))
BUILD_LIST(step) == On("BUILD_LIST", PushNew(PopN(vm, a), ListO(TopN(vm, a))))
BUILD_LIST_FROM_ARG(step) == On("BUILD_LIST_FROM_ARG",
  PushAll(Alloc(P1, ListO(<<>>)), <<Ref(NewAddr(vm)), TOS>>))
BUILD_SET(step) == On("BUILD_SET", Fin(PopN(vm, a), "set", TopN(vm, a), 0, "push", 0))
\* from keys and values in turn; <<>> if one of the keys cannot be a key
RECURSIVE PairUp(_)
PairUp(q) == IF q = <<>> THEN <<>> ELSE <<<<q[1], q[2]>>>> \o PairUp(SubSeq(q, 3, Len(q)))
NewDict(M, pairs) ==
  IF \A i \in DOMAIN pairs : Hashable(M.heap, pairs[i][1])
  THEN PushNew(M, DictO(PutAll(<<>>, pairs))) ELSE RaiseB(M, "TypeError")
BUILD_MAP(step) == On("BUILD_MAP",
  IF vm.ver < 305 THEN PushNew(vm, DictO(<<>>))
  ELSE NewDict(PopN(vm, 2 * a), PairUp(TopN(vm, 2 * a))))
BUILD_CONST_KEY_MAP(step) == On("BUILD_CONST_KEY_MAP",
  LET vals == TopN(P1, a)
  IN NewDict(PopN(vm, a + 1), [i \in 1..a |-> <<TOS.q[i], vals[i]>>]))
STORE_MAP(step) == On("STORE_MAP", SetItem(P2, TOS2, TOS, TOS1, "ignore", 0))
LIST_APPEND(step) == On("LIST_APPEND",
  LET at == IF vm.ver < 207 THEN TOS1 ELSE S(P1, a)
  IN [(IF vm.ver < 207 THEN P2 ELSE P1) EXCEPT !.heap[at.n].q = Append(@, TOS)])
SET_ADD(step) == On("SET_ADD",
  IF Hashable(vm.heap, TOS) THEN [P1 EXCEPT !.heap[S(P1, a).n].q = AddAll(@, <<TOS>>)]
  ELSE RaiseB(P1, "TypeError"))
\* the key is below the value since 3.8
MAP_ADD(step) == On("MAP_ADD",
  LET key == IF vm.ver >= 308 THEN TOS1 ELSE TOS
      val == IF vm.ver >= 308 THEN TOS ELSE TOS1
  IN SetItem(P2, S(P2, a), key, val, "ignore", 0))
LIST_EXTEND(step) == On("LIST_EXTEND", Collect(P1, TOS, "extend", S(P1, a), -1, "ignore", 0))
SET_UPDATE(step) == On("SET_UPDATE", Collect(P1, TOS, "update", S(P1, a), -1, "ignore", 0))
LIST_TO_TUPLE(step) == On("LIST_TO_TUPLE", Push(P1, TupV(vm.heap[TOS.n].q)))
DICT_UPDATE(step) == On("DICT_UPDATE",
  IF IsObj(vm.heap, TOS, "dict")
  THEN [P1 EXCEPT !.heap[S(P1, a).n].d = PutAll(@, vm.heap[TOS.n].d)] ELSE RaiseB(P1, "TypeError"))
DICT_MERGE(step) == On("DICT_MERGE",
  LET d == S(P1, a)
      old == vm.heap[d.n].d
  IN IF IsObj(vm.heap, TOS, "dict")
        /\ \A i \in DOMAIN vm.heap[TOS.n].d : ~Has(old, vm.heap[TOS.n].d[i][1])
     THEN [P1 EXCEPT !.heap[d.n].d = @ \o vm.heap[TOS.n].d] ELSE RaiseB(P1, "TypeError"))
Flat(kind) == LET q == TopN(vm, a)
              IN Collect(PopN(vm, a), q[1], "flat", <<kind, <<>>, Tail(q)>>, -1, "push", 0)
BUILD_TUPLE_UNPACK(step) == OnAny({"BUILD_TUPLE_UNPACK", "BUILD_TUPLE_UNPACK_WITH_CALL"}, Flat("tuple"))
BUILD_LIST_UNPACK(step) == On("BUILD_LIST_UNPACK", Flat("list"))
BUILD_SET_UNPACK(step) == On("BUILD_SET_UNPACK", Flat("set"))
RECURSIVE Union(_, _), Disjoint(_, _)
Union(h, q) == IF q = <<>> THEN <<>> ELSE PutAll(Union(h, Front(q)), h[Last(q).n].d)
Disjoint(h, q) == \* no key is in two of the dictionaries
  q = <<>> \/ (/\ Disjoint(h, Front(q))
               /\ \A i \in DOMAIN h[Last(q).n].d : ~Has(Union(h, Front(q)), h[Last(q).n].d[i][1]))
BUILD_MAP_UNPACK(step) == On("BUILD_MAP_UNPACK",
  LET q == TopN(vm, a)
  IN IF \A i \in DOMAIN q : IsObj(vm.heap, q[i], "dict")
     THEN PushNew(PopN(vm, a), DictO(Union(vm.heap, q))) ELSE RaiseB(PopN(vm, a), "TypeError"))
BUILD_MAP_UNPACK_WITH_CALL(step) == On("BUILD_MAP_UNPACK_WITH_CALL",
  LET n == a % 256
      q == TopN(vm, n)
  IN IF (\A i \in DOMAIN q : IsObj(vm.heap, q[i], "dict")) /\ Disjoint(vm.heap, q)
     THEN PushNew(PopN(vm, n), DictO(Union(vm.heap, q))) ELSE RaiseB(PopN(vm, n), "TypeError"))
UNPACK_SEQUENCE(step) == On("UNPACK_SEQUENCE", Collect(P1, TOS, "unpack", a, a + 1, "push", 0))
UNPACK_EX(step) == On("UNPACK_EX", Collect(P1, TOS, "unpackex", <<a % 256, a \div 256>>, -1, "push", 0))

(******************************* strings ***********************************)
FORMAT_VALUE(step) == On("FORMAT_VALUE",
  LET conv == a % 4
      sp == a \div 4 = 1
      M == IF sp THEN P2 ELSE P1
      v == IF sp THEN TOS1 ELSE TOS
      spec == IF sp THEN TOS.s ELSE ""
  IN IF conv = 0 THEN FormatOf(M, v, spec, "push", 0)
     ELSE TextOf(M, v, conv >= 2, "format", <<spec, "push", 0>>))
BUILD_STRING(step) == On("BUILD_STRING", Push(PopN(vm, a), StrV(JoinChars(TopN(vm, a)))))

(******************************** names ************************************)
BfNames == {"out", "len", "iter", "next", "sum", "sorted", "isinstance", "issubclass", "getattr",
            "hasattr", "setattr", "delattr", "repr", "globals", "locals", "__build_class__"}
ClsNames == DOMAIN BParent \cup {"object"}
BuiltinOf(M, nm) ==
  IF nm \in BfNames THEN Bf(nm)
  ELSE IF nm = "NotImplemented" THEN V("nimp", 0, "")
  ELSE IF nm \in {"True", "False", "None"} THEN (IF nm = "None" THEN None ELSE BoolV(nm = "True"))
  ELSE IF nm \in ClsNames THEN Cls(nm) ELSE Unb
GlobalOf(M, nm) == LET v == Get(M.heap[M.glb].d, StrV(nm)) IN IF v.k # "unb" THEN v ELSE BuiltinOf(M, nm)
LocalDict(M) == M.heap[Top(M).l].d
LOAD_NAME(step) == On("LOAD_NAME",
  LET v == Get(LocalDict(vm), StrV(name))
      w == IF v.k # "unb" THEN v ELSE GlobalOf(vm, name)
  IN IF w.k # "unb" THEN Push(vm, w) ELSE RaiseB(vm, "NameError"))
STORE_NAME(step) == On("STORE_NAME", [P1 EXCEPT !.heap[Top(vm).l].d = Put(@, StrV(name), TOS)])
DELETE_NAME(step) == On("DELETE_NAME",
  IF Has(LocalDict(vm), StrV(name)) THEN [vm EXCEPT !.heap[Top(vm).l].d = Del(@, StrV(name))]
  ELSE RaiseB(vm, "NameError"))
LOAD_GLOBAL(step) == On("LOAD_GLOBAL",
  LET w == GlobalOf(vm, name) IN IF w.k # "unb" THEN Push(vm, w) ELSE RaiseB(vm, "NameError"))
STORE_GLOBAL(step) == On("STORE_GLOBAL", [P1 EXCEPT !.heap[vm.glb].d = Put(@, StrV(name), TOS)])
DELETE_GLOBAL(step) == On("DELETE_GLOBAL",
  IF Has(vm.heap[vm.glb].d, StrV(name)) THEN [vm EXCEPT !.heap[vm.glb].d = Del(@, StrV(name))]
  ELSE RaiseB(vm, "NameError"))
LOAD_FAST(step) == On("LOAD_FAST",
  IF Has(Top(vm).v, local) THEN Push(vm, Get(Top(vm).v, local)) ELSE RaiseB(vm, "UnboundLocalError"))
STORE_FAST(step) == On("STORE_FAST", [P1 EXCEPT !.fr[Len(vm.fr)].v = Put(@, local, TOS)])
DELETE_FAST(step) == On("DELETE_FAST",
  IF Has(Top(vm).v, local) THEN [vm EXCEPT !.fr[Len(vm.fr)].v = Del(@, local)]
  ELSE RaiseB(vm, "UnboundLocalError"))
LOAD_CLOSURE(step) == On("LOAD_CLOSURE", Push(vm, Ref(cellAddr)))
CellErr(M) == RaiseB(M, IF a < Len(code.cellvars) THEN "UnboundLocalError" ELSE "NameError")
LOAD_DEREF(step) == On("LOAD_DEREF",
  LET v == vm.heap[cellAddr].c IN IF v.k = "unb" THEN CellErr(vm) ELSE Push(vm, v))
STORE_DEREF(step) == On("STORE_DEREF", [P1 EXCEPT !.heap[cellAddr].c = TOS])
DELETE_DEREF(step) == On("DELETE_DEREF",
  IF vm.heap[cellAddr].c.k = "unb" THEN CellErr(vm) ELSE [vm EXCEPT !.heap[cellAddr].c = Unb])
LOAD_CLASSDEREF(step) == On("LOAD_CLASSDEREF",
  LET v == Get(LocalDict(vm), StrV(FreeName(code, a)))
      w == IF v.k = "unb" THEN vm.heap[cellAddr].c ELSE v
  IN IF w.k = "unb" THEN CellErr(vm) ELSE Push(vm, w))
LOAD_LOCALS(step) == On("LOAD_LOCALS", Push(vm, Ref(Top(vm).l)))
STORE_LOCALS(step) == On("STORE_LOCALS", [P1 EXCEPT !.fr[Len(vm.fr)].l = TOS.n])
SETUP_ANNOTATIONS(step) == On("SETUP_ANNOTATIONS",
  LET k == StrV("__annotations__")
  IN IF Has(LocalDict(vm), k) THEN vm
     ELSE [Alloc(vm, DictO(<<>>)) EXCEPT !.heap[Top(vm).l].d = Put(@, k, Ref(NewAddr(vm)))])
STORE_ANNOTATION(step) == On("STORE_ANNOTATION",
  LET d == Get(LocalDict(vm), StrV("__annotations__"))
  IN [P1 EXCEPT !.heap[d.n].d = Put(@, StrV(name), TOS)])

(****************************** attributes *********************************)
LOAD_ATTR(step) == On("LOAD_ATTR", GetAttr(P1, TOS, name, "push", 0))
STORE_ATTR(step) == On("STORE_ATTR", SetAttr(P2, TOS, name, TOS1, "ignore", 0))
DELETE_ATTR(step) == On("DELETE_ATTR", DelAttr(P1, TOS, name, "ignore", 0))
LOAD_METHOD(step) == OnAny({"LOAD_METHOD", "LOOKUP_METHOD"}, GetAttr(P1, TOS, name, "loadmethod", TRUE))

(******************************** jumps ************************************)
JUMP_FORWARD(step) == OnAny({"JUMP_FORWARD", "JUMP_ABSOLUTE"}, Jump(vm, t))
POP_JUMP_IF_TRUE(step) == On("POP_JUMP_IF_TRUE", Truth(P1, TOS, "popif", <<TRUE, t>>))
POP_JUMP_IF_FALSE(step) == On("POP_JUMP_IF_FALSE", Truth(P1, TOS, "popif", <<FALSE, t>>))
JUMP_IF_TRUE(step) == On("JUMP_IF_TRUE", Truth(vm, TOS, "jumpif", <<TRUE, t>>))
JUMP_IF_FALSE(step) == On("JUMP_IF_FALSE", Truth(vm, TOS, "jumpif", <<FALSE, t>>))
JUMP_IF_TRUE_OR_POP(step) == On("JUMP_IF_TRUE_OR_POP", Truth(vm, TOS, "orpop", <<TRUE, t>>))
JUMP_IF_FALSE_OR_POP(step) == On("JUMP_IF_FALSE_OR_POP", Truth(vm, TOS, "orpop", <<FALSE, t>>))
JUMP_IF_NOT_EXC_MATCH(step) == On("JUMP_IF_NOT_EXC_MATCH",
  LET ok(c) == SubClass(vm.heap, TOS1, c)
      all == IF TOS.k = "tup" THEN TOS.q ELSE <<TOS>>
  IN IF \E i \in DOMAIN all : ~IsExcClass(vm.heap, all[i]) THEN RaiseB(P2, "TypeError")
     ELSE IF \E i \in DOMAIN all : ok(all[i]) THEN P2 ELSE Jump(P2, t))
GET_ITER(step) == On("GET_ITER", GetIter(P1, TOS, "push", 0))
FOR_ITER(step) == On("FOR_ITER", NextOf(vm, TOS, "foriter", t))

(******************************** blocks ***********************************)
SETUP_LOOP(step) == On("SETUP_LOOP", PushBlock(vm, "loop", t, Depth(vm)))
SETUP_EXCEPT(step) == On("SETUP_EXCEPT", PushBlock(vm, "except", t, Depth(vm)))
SETUP_FINALLY(step) == On("SETUP_FINALLY", PushBlock(vm, "finally", t, Depth(vm)))
\* Python 3.6 looks for __enter__ first (PyPy does not)
SETUP_WITH(step) == On("SETUP_WITH",
  IF vm.ver < 306 \/ vm.pp THEN SpecialAttr(P1, TOS, "__exit__", "exitof", <<TOS, t>>)
  ELSE SpecialAttr(P1, TOS, "__enter__", "enterof", <<TOS, t>>))
POP_BLOCK(step) == On("POP_BLOCK", PopBlock(vm))
BREAK_LOOP(step) == On("BREAK_LOOP", StartUnwind(vm, "break"))
CONTINUE_LOOP(step) == On("CONTINUE_LOOP", StartUnwind([vm EXCEPT !.rvl = IntV(t)], "continue"))
\* the handler whose block is on top is left, normally
LeaveHandler(M) ==
  LET f == Top(M)
      s == SubSeq(f.stk, 1, Last(f.blk).lv + 3)
  IN [SetTop(M, [f EXCEPT !.blk = Front(@), !.stk = SubSeq(s, 1, Len(s) - 3)]) EXCEPT !.hx = s[Len(s) - 1]]
\* From 3.8 on a value to return can be below the three values.
PopHandler(M) ==
  LET f == Top(M)
      s == f.stk
  IN [SetTop(M, [f EXCEPT !.blk = Front(@), !.stk = SubSeq(s, 1, Len(s) - 3)]) EXCEPT !.hx = s[Len(s) - 1]]
POP_EXCEPT(step) == On("POP_EXCEPT", IF vm.ver < 308 THEN LeaveHandler(vm) ELSE PopHandler(vm))
END_FINALLY(step) == On("END_FINALLY",
  CASE TOS.k = "none" -> P1
    [] TOS.k = "int" -> Jump(P1, TOS.n)
    [] TOS.k = "why" /\ TOS.s \in {"return", "continue"} -> StartUnwind([P2 EXCEPT !.rvl = TOS1], TOS.s)
    [] TOS.k = "why" /\ TOS.s = "silenced" -> LeaveHandler(P1)
    [] TOS.k = "why" -> StartUnwind(P1, TOS.s)
    [] OTHER -> StartUnwind([P3 EXCEPT !.wv = TOS1], "exception"))
RERAISE(step) == On("RERAISE", StartUnwind([P3 EXCEPT !.wv = TOS1], "exception"))
BEGIN_FINALLY(step) == On("BEGIN_FINALLY", Push(vm, None))
CALL_FINALLY(step) == On("CALL_FINALLY", Jump(Push(vm, IntV(Top(vm).pc)), t))
POP_FINALLY(step) == On("POP_FINALLY",
  LET M == IF a = 0 THEN vm ELSE P1
      v == S(M, 1)
      M1 == IF v.k \in {"none", "int"} THEN PopN(M, 1) ELSE PopHandler(PopN(M, 3))
  IN IF a = 0 THEN M1 ELSE Push(M1, TOS))
\* what is on top when the block of a with statement has been left
WithTop(M) == IF S(M, 1).k \in {"none", "int"} THEN 1
              ELSE IF S(M, 1).k = "why" THEN (IF S(M, 1).s \in {"return", "continue"} THEN 2 ELSE 1)
              ELSE 3
WITH_CLEANUP(step) == OnAny({"WITH_CLEANUP", "WITH_CLEANUP_START"},
  LET ontop == vm.ver \in {205, 301}   \* __exit__ is on top
      M == IF ontop THEN P1 ELSE vm
      n == WithTop(M)
      exc == n = 3
      stk == Top(M).stk
      d == Len(stk)
      \* 3.x: the three values that restore the handled exception are in between
      at == IF exc /\ M.ver >= 300 THEN d - 6 ELSE d - n
      exit == IF ontop THEN TOS ELSE stk[at]
      M1 == IF ontop THEN M
            ELSE IF exc /\ M.ver >= 300
            THEN SetTop(M, [Top(M) EXCEPT
                   !.stk = SubSeq(@, 1, at - 1) \o SubSeq(@, at + 1, d - 3) \o <<None>> \o SubSeq(@, d - 2, d),
                   !.blk = Front(@) \o <<[Last(@) EXCEPT !.lv = @ - 1]>>])
            ELSE SetTop(M, [Top(M) EXCEPT !.stk = RemoveAt(@, at)])
      args == IF exc THEN <<S(M, 1), S(M, 2), S(M, 3)>> ELSE <<None, None, None>>
  IN Invoke(M1, exit, args, <<>>, "withexit", IF exc THEN S(M, 1) ELSE None))
WITH_CLEANUP_FINISH(step) == On("WITH_CLEANUP_FINISH",
  IF TOS1 = None THEN P2 ELSE Truth(P2, TOS, "wcfinish", 0))
WITH_EXCEPT_START(step) == On("WITH_EXCEPT_START", Invoke(vm, S(vm, 7), <<TOS, TOS1, TOS2>>, <<>>, "push", 0))

(****************************** exceptions *********************************)
LOAD_ASSERTION_ERROR(step) == On("LOAD_ASSERTION_ERROR", Push(vm, Cls("AssertionError")))
\* raise in 2.x: class or instance, then a value for a class
RECURSIVE Raise2x(_, _, _)
Raise2x(M, v, val) ==
  IF v.k = "tup" /\ v.q # <<>> THEN Raise2x(M, v.q[1], val)
  ELSE IF IsExc(M.heap, v) THEN (IF val # None THEN RaiseB(M, "TypeError") ELSE Raise(M, v))
  ELSE IF ~IsExcClass(M.heap, v) THEN RaiseB(M, "TypeError")
  ELSE IF InstOf(M.heap, val, v) THEN Raise(M, val)
  ELSE Invoke(M, v, IF val = None THEN <<>> ELSE IF val.k = "tup" THEN val.q ELSE <<val>>, <<>>, "raise", Unb)
RAISE_VARARGS(step) == On("RAISE_VARARGS",
  CASE a = 0 -> IF vm.hx = None THEN RaiseB(vm, IF vm.ver < 300 THEN "TypeError" ELSE "RuntimeError")
                ELSE Raise(vm, vm.hx)
    [] vm.ver < 300 /\ a = 1 -> Raise2x(P1, TOS, None)
    [] vm.ver < 300 /\ a = 2 -> Raise2x(P2, TOS1, TOS)
    [] vm.ver < 300 -> Raise2x(P3, TOS2, TOS1)
    [] OTHER ->
        LET v == IF a = 1 THEN TOS ELSE TOS1
            M == PopN(vm, a)
            cause == IF a = 1 THEN Unb ELSE TOS
        IN IF IsExcClass(vm.heap, v) THEN Invoke(M, v, <<>>, <<>>, "raise", cause)
           ELSE DoRaise(M, v, cause))

(******************************** calls ************************************)
\* keyword arguments as they are on the stack before 3.6
OldCalls == vm.ver < 306 \/ (vm.pp /\ vm.ver = 306)
KwPairs(q) == [i \in 1..(Len(q) \div 2) |-> <<q[2 * i - 1].s, q[2 * i]>>]
CALL_FUNCTION(step) == On("CALL_FUNCTION",
  LET np == IF OldCalls THEN a % 256 ELSE a
      nk == IF OldCalls THEN a \div 256 ELSE 0
      M1 == PopN(vm, 2 * nk)
      M2 == PopN(M1, np)
      kw == KwPairs(TopN(vm, 2 * nk))
  IN IF Cardinality({kw[i][1] : i \in DOMAIN kw}) # Len(kw) THEN RaiseB(PopN(M2, 1), "TypeError")
     ELSE Invoke(PopN(M2, 1), S(M2, 1), TopN(M1, np), kw, "push", 0))
CALL_FUNCTION_VAR(step) == OnAny({"CALL_FUNCTION_VAR", "CALL_FUNCTION_VAR_KW"} \cup
                           (IF OldCalls THEN {"CALL_FUNCTION_KW"} ELSE {}),
  LET var == cur.op # "CALL_FUNCTION_KW"
      star == cur.op # "CALL_FUNCTION_VAR"
      np == a % 256
      nk == a \div 256
      M0 == IF star THEN P1 ELSE vm
      maps == IF star THEN <<TOS>> ELSE <<>>
      \* in 3.5, the sequence is below the keyword arguments
      late == vm.ver >= 305
      MA == IF var /\ ~late THEN PopN(M0, 1) ELSE M0
      kw == KwPairs(TopN(MA, 2 * nk))
      MB == PopN(MA, 2 * nk)
      MC == IF var /\ late THEN PopN(MB, 1) ELSE MB
      seq == IF ~var THEN TupV(<<>>) ELSE IF late THEN S(MB, 1) ELSE S(M0, 1)
      MD == PopN(MC, np)
      f == S(MD, 1)
  IN Collect(PopN(MD, 1), seq, "call", <<f, TopN(MC, np), kw, maps>>, -1, "push", 0))
CALL_FUNCTION_KW(step) == cur.op = "CALL_FUNCTION_KW" /\ ~OldCalls /\
  (LET names == TOS.q
       nk == Len(names)
       vals == TopN(P1, nk)
       M1 == PopN(P1, nk)
       np == a - nk
       M2 == PopN(M1, np)
   IN Do(Invoke(PopN(M2, 1), S(M2, 1), TopN(M1, np), [i \in 1..nk |-> <<names[i].s, vals[i]>>], "push", 0)))
CALL_FUNCTION_EX(step) == On("CALL_FUNCTION_EX",
  LET star == a % 2 = 1
      M1 == IF star THEN P1 ELSE vm
      M2 == PopN(M1, 2)
  IN Collect(M2, S(M1, 1), "call", <<S(M1, 2), <<>>, <<>>, IF star THEN <<TOS>> ELSE <<>> >>, -1, "push", 0))
\* of the two slots under the arguments, one has the method, and the other nothing
Method(M, args, kw) ==
  Invoke(PopN(M, 2), IF S(M, 1).k = "null" THEN S(M, 2) ELSE S(M, 1), args, kw, "push", 0)
CALL_METHOD(step) == On("CALL_METHOD",
  LET np == IF OldCalls THEN a % 256 ELSE a
      nk == IF OldCalls THEN a \div 256 ELSE 0
      M1 == PopN(vm, 2 * nk)
      M2 == PopN(M1, np)
      kw == KwPairs(TopN(vm, 2 * nk))
  IN IF Cardinality({kw[i][1] : i \in DOMAIN kw}) # Len(kw) THEN RaiseB(PopN(M2, 1), "TypeError")
     ELSE Method(M2, TopN(M1, np), kw))
CALL_METHOD_KW(step) == On("CALL_METHOD_KW",
  LET names == TOS.q
      nk == Len(names)
      M1 == PopN(P1, nk)
      np == a - nk
      M2 == PopN(M1, np)
  IN Method(M2, TopN(M1, np), [i \in 1..nk |-> <<names[i].s, TopN(P1, nk)[i]>>]))

DictKw(d) == [i \in DOMAIN d |-> <<d[i][1].s, d[i][2]>>]
NewFunc(M, c, dflts, kwd, closure, annot) ==
  LET M0 == IF M.ver >= 300 /\ annot.k = "unb" THEN Alloc(M, DictO(<<>>)) ELSE M
      an == IF M.ver >= 300 /\ annot.k = "unb" THEN Ref(NewAddr(M)) ELSE annot
      M1 == IF kwd = <<>> THEN M0 ELSE Alloc(M0, DictO([i \in DOMAIN kwd |-> <<StrV(kwd[i][1]), kwd[i][2]>>]))
      kd == IF kwd = <<>> THEN None ELSE Ref(NewAddr(M0))
      k0 == Code(M, c.n).consts
      doc == IF k0 # <<>> /\ k0[1].k = "str" THEN k0[1] ELSE None
      f == [O("func") EXCEPT !.s = Code(M, c.n).name, !.n = c.n, !.q = dflts, !.c = closure,
            !.d = <<<<"__doc__", doc>>>> \o (IF an.k = "unb" THEN <<>> ELSE <<<<"__annotations__", an>>>>)
                  \o (IF M.ver < 300 THEN <<>> ELSE <<<<"__kwdefaults__", kd>>>>)]
  IN PushNew(M1, f)
\* before 3.6: everything is counted in the argument; M is what is below the
\* code (and the name and the cells)
OldFunction(M, c, closure) ==
  LET nd == a % 256
      nk == (a \div 256) % 256
      na == (a \div 65536) % 32768
      Man == IF na > 0 THEN PopN(M, na) ELSE M       \* annotations and their names
      annames == IF na > 0 THEN S(M, 1).q ELSE <<>>
      anvals == IF na > 0 THEN SubSeq(TopN(M, na), 1, na - 1) ELSE <<>>
      kwfirst == vm.ver < 304
      MK == IF kwfirst THEN PopN(Man, nd) ELSE Man
      kw == KwPairs(TopN(MK, 2 * nk))
      MP == IF kwfirst THEN Man ELSE PopN(Man, 2 * nk)
      M9 == PopN(Man, nd + 2 * nk)
      M10 == IF na > 0 THEN Alloc(M9, DictO([i \in DOMAIN annames |-> <<annames[i], anvals[i]>>])) ELSE M9
  IN NewFunc(M10, c, TopN(MP, nd), kw, closure, IF na > 0 THEN Ref(NewAddr(M9)) ELSE Unb)
MAKE_FUNCTION(step) == On("MAKE_FUNCTION",
  IF vm.ver >= 306 THEN
     LET M0 == P2
         clo == IF Bit(a, 8) THEN S(M0, 1) ELSE None
         M1 == IF Bit(a, 8) THEN PopN(M0, 1) ELSE M0
         an == IF Bit(a, 4) THEN S(M1, 1) ELSE Unb
         M2 == IF Bit(a, 4) THEN PopN(M1, 1) ELSE M1
         kw == IF Bit(a, 2) THEN DictKw(vm.heap[S(M2, 1).n].d) ELSE <<>>
         M3 == IF Bit(a, 2) THEN PopN(M2, 1) ELSE M2
         df == IF Bit(a, 1) THEN S(M3, 1).q ELSE <<>>
         M4 == IF Bit(a, 1) THEN PopN(M3, 1) ELSE M3
         anpairs == IF an.k = "tup" THEN PairUp(an.q) ELSE <<>>
         M5 == IF an.k = "tup" THEN Alloc(M4, DictO(anpairs)) ELSE M4
     IN NewFunc(M5, TOS1, df, kw, clo, IF an.k = "tup" THEN Ref(NewAddr(M4)) ELSE an)
  ELSE IF vm.ver >= 303 THEN OldFunction(P2, TOS1, None)
  ELSE OldFunction(P1, TOS, None))
MAKE_CLOSURE(step) == On("MAKE_CLOSURE",
  LET named == vm.ver >= 303
      c == IF named THEN TOS1 ELSE TOS
      M == IF named THEN P2 ELSE P1
      n == Len(Code(vm, c.n).freevars)
  IN IF vm.ver = 204 THEN OldFunction(PopN(M, n), c, TupV(TopN(M, n)))
     ELSE OldFunction(PopN(M, 1), c, S(M, 1)))
LOAD_BUILD_CLASS(step) == On("LOAD_BUILD_CLASS", Push(vm, Bf("__build_class__")))
BUILD_CLASS(step) == On("BUILD_CLASS", OldClass(P3, TOS2.s, TOS1.q, TOS.n, "push", 0))
RETURN_VALUE(step) == On("RETURN_VALUE", StartUnwind([P1 EXCEPT !.rvl = TOS], "return"))

(***************************** generators **********************************)
GEN_START(step) == On("GEN_START", P1)
YIELD_VALUE(step) == On("YIELD_VALUE", ExitFrame(P1, "yield", TOS))
GET_YIELD_FROM_ITER(step) == On("GET_YIELD_FROM_ITER", GetIter(P1, TOS, "push", 0))
YIELD_FROM(step) == On("YIELD_FROM",
  IF TOS = None THEN NextOf(P1, TOS1, "yf", 0)
  ELSE IF IsObj(vm.heap, TOS1, "gen") THEN Resume(P1, TOS1.n, TOS, "yf", 0)
  ELSE GetAttr(P1, TOS1, "send", "sendto", TOS))

(******************************** imports **********************************)
\* the parts of a dotted name: "a.b.c" -> <<"a", "a.b", "a.b.c">>
RECURSIVE PathOf(_, _)
PathOf(s, i) == IF i > Len(s) THEN <<s>>
                ELSE IF SubSeq(s, i, i) = "." THEN <<SubSeq(s, 1, i - 1)>> \o PathOf(s, i + 1) ELSE PathOf(s, i + 1)
Path(s) == PathOf(s, 1)
ParentOf(s) == LET p == Path(s) IN IF Len(p) = 1 THEN "" ELSE p[Len(p) - 1]
LastOf(s) == LET p == ParentOf(s) IN IF p = "" THEN s ELSE SubSeq(s, Len(p) + 2, Len(s))

\* The code of modules is not the interpreter's business: importing is one step, whose effects are the
\* output of the modules it loads, their attributes, and the exception, e, it ends with.
Loaded(M, m) == m \in DOMAIN M.mods
Done(M) == [m |-> M, e |-> ""]
Failed(M, e) == [m |-> M, e |-> e]
RECURSIVE LoadAll(_, _), LoadOne(_, _)
\* the modules ms, one after the other
LoadAll(M, ms) ==
  IF ms = <<>> THEN Done(M)
  ELSE LET r == LoadOne(M, ms[1]) IN IF r.e # "" THEN r ELSE LoadAll(r.m, Tail(ms))
RECURSIVE Pre(_, _)
Pre(M, names) ==
  IF names = <<>> THEN Done(M)
  ELSE LET r == LoadAll(M, Path(names[1])) IN IF r.e # "" THEN r ELSE Pre(r.m, Tail(names))
LoadOne(M, m) ==
  IF Loaded(M, m) THEN Done(M)
  ELSE IF m \notin DOMAIN ModTab THEN Failed(M, "ModuleNotFoundError")
  ELSE LET tab == ModTab[m]
           M1 == [Out(M, "load " \o m) EXCEPT !.mods = (m :> <<>>) @@ @]
           r == Pre(M1, tab.pre)
           gone(X) == [X EXCEPT !.mods = [x \in DOMAIN @ \ {m} |-> @[x]]]
           M2 == [r.m EXCEPT !.mods[m] = PutAll(@, tab.d)]
           p == ParentOf(m)
       IN IF r.e # "" THEN Failed(gone(r.m), r.e)
          ELSE IF tab.fail # "" THEN Failed(gone(M2), tab.fail)
          ELSE Done(IF p = "" THEN M2 ELSE [M2 EXCEPT !.mods[p] = Put(@, LastOf(m), Mod(m))])
\* what `from m import names` loads; entries of __all__ if it is *
AllOf(M, m) == LET v == Get(M.mods[m], "__all__") IN [i \in DOMAIN v.q |-> v.q[i].s]
RECURSIVE FromList(_, _, _)
FromList(M, m, names) ==
  IF names = <<>> \/ ~ModTab[m].pkg THEN Done(M)
  ELSE LET x == names[1]
           sub == m \o "." \o x
           r == IF x = "*" THEN (IF Has(M.mods[m], "__all__") THEN FromList(M, m, AllOf(M, m)) ELSE Done(M))
                ELSE IF Has(M.mods[m], x) \/ (~Loaded(M, sub) /\ sub \notin DOMAIN ModTab) THEN Done(M)
                ELSE LoadOne(M, sub)
       IN IF r.e # "" THEN r ELSE FromList(r.m, m, Tail(names))
\* the module that a name with level leading dots means, in a package
RECURSIVE Up(_, _)
Up(s, n) == IF n = 0 \/ s = "" THEN s ELSE Up(ParentOf(s), n - 1)
Package(M) == Get(M.heap[M.glb].d, StrV("__package__"))
IMPORT_NAME(step) == On("IMPORT_NAME",
  LET M == IF vm.ver < 205 THEN P1 ELSE P2
      level == IF vm.ver < 205 \/ TOS1.n < 0 THEN 0 ELSE TOS1.n
      from == IF TOS = None THEN <<>> ELSE [i \in DOMAIN TOS.q |-> TOS.q[i].s]
      pk == Package(M)
      base == IF pk.k = "str" THEN Up(pk.s, level - 1) ELSE ""
      abs == IF level = 0 THEN name ELSE IF name = "" THEN base ELSE base \o "." \o name
      r == LoadAll(M, Path(abs))
      f == FromList(r.m, abs, from)
  IN IF level > 0 /\ base = "" THEN RaiseB(M, "ImportError")
     ELSE IF r.e # "" THEN RaiseB(r.m, r.e)
     ELSE IF from = <<>> THEN Push(r.m, Mod(Path(abs)[1]))
     ELSE IF f.e # "" THEN RaiseB(f.m, f.e) ELSE Push(f.m, Mod(abs)))
\* from 3.5 on, a submodule that is not an attribute of its package can still be had
IMPORT_FROM(step) == On("IMPORT_FROM",
  LET m == TOS.s
      sub == m \o "." \o name
      dyn == ModTab[m].dyn # <<>>
      M == IF dyn THEN Out(vm, "getattr " \o m \o "." \o name) ELSE vm
  IN IF Has(vm.mods[m], name) THEN Push(vm, Get(vm.mods[m], name))
     ELSE IF InSeq(ModTab[m].dyn, name) THEN Push(M, StrV(sub))
     ELSE IF vm.ver >= 305 /\ Loaded(vm, sub) THEN Push(M, Mod(sub))
     ELSE RaiseB(M, "ImportError"))
Public(d) == SelectSeq(d, LAMBDA e : SubSeq(e[1], 1, 1) # "_")
RECURSIVE Star(_, _, _, _)
Star(M, l, m, names) ==
  IF names = <<>> THEN M
  ELSE IF ~Has(M.mods[m], names[1]) THEN RaiseB(M, "AttributeError")
  ELSE Star([M EXCEPT !.heap[l].d = Put(@, StrV(names[1]), Get(M.mods[m], names[1]))], l, m, Tail(names))
IMPORT_STAR(step) == On("IMPORT_STAR",
  LET m == TOS.s IN
  IF Has(vm.mods[m], "__all__") THEN Star(P1, Top(vm).l, m, AllOf(vm, m))
  ELSE Star(P1, Top(vm).l, m, Keys(Public(vm.mods[m]))))

(******************************** printing *********************************)
PRINT_ITEM(step) == On("PRINT_ITEM", PrintItem(P1, None, TOS))
PRINT_NEWLINE(step) == On("PRINT_NEWLINE", PrintLine(vm, None))
PRINT_ITEM_TO(step) == On("PRINT_ITEM_TO", PrintItem(P2, TOS, TOS1))
PRINT_NEWLINE_TO(step) == On("PRINT_NEWLINE_TO", PrintLine(P1, TOS))

(********************** steps that are not instructions ********************)
UNWIND(step) == On("UNWIND", UnwindStep(vm))
START(step) == On("START",
  PushFrame([vm EXCEPT !.st = "run"], PyFrame(1, 1, <<>>, <<>>, "top", 0), "call"))
NATIVE(step) == On("NATIVE",
  NextOf(vm, Top(vm).it, "natnext", 0))
Next(step) ==
  \/ START(step)
  \/ NOP(step) \/ POP_TOP(step) \/ ROT_TWO(step) \/ ROT_THREE(step) \/ ROT_FOUR(step) \/ ROT_N(step) \/ DUP_TOP(step) \/ DUP_TOP_TWO(step) \/ DUP_TOPX(step)
  \/ LOAD_CONST(step) \/ BINARY(step) \/ UNARY_NEGATIVE(step) \/ UNARY_POSITIVE(step) \/ UNARY_INVERT(step) \/ UNARY_NOT(step) \/ UNARY_CONVERT(step)
  \/ COMPARE_OP(step) \/ IS_OP(step) \/ CONTAINS_OP(step) \/ BINARY_SUBSCR(step) \/ STORE_SUBSCR(step) \/ DELETE_SUBSCR(step) \/ BUILD_SLICE(step)
  \/ (\E n \in 0..3 : SLICE(n)) \/ (\E n \in 0..3 : STORE_SLICE(n)) \/ (\E n \in 0..3 : DELETE_SLICE(n))
  \/ BUILD_TUPLE(step) \/ BUILD_LIST(step) \/ BUILD_LIST_FROM_ARG(step) \/ BUILD_SET(step) \/ BUILD_MAP(step) \/ BUILD_CONST_KEY_MAP(step)
  \/ STORE_MAP(step) \/ LIST_APPEND(step) \/ SET_ADD(step) \/ MAP_ADD(step) \/ LIST_EXTEND(step) \/ SET_UPDATE(step) \/ LIST_TO_TUPLE(step)
  \/ DICT_UPDATE(step) \/ DICT_MERGE(step) \/ BUILD_TUPLE_UNPACK(step) \/ BUILD_LIST_UNPACK(step) \/ BUILD_SET_UNPACK(step)
  \/ BUILD_MAP_UNPACK(step) \/ BUILD_MAP_UNPACK_WITH_CALL(step) \/ UNPACK_SEQUENCE(step) \/ UNPACK_EX(step)
  \/ FORMAT_VALUE(step) \/ BUILD_STRING(step) \/ LOAD_NAME(step) \/ STORE_NAME(step) \/ DELETE_NAME(step) \/ LOAD_GLOBAL(step)
  \/ STORE_GLOBAL(step) \/ DELETE_GLOBAL(step) \/ LOAD_FAST(step) \/ STORE_FAST(step) \/ DELETE_FAST(step) \/ LOAD_CLOSURE(step)
  \/ LOAD_DEREF(step) \/ STORE_DEREF(step) \/ DELETE_DEREF(step) \/ LOAD_CLASSDEREF(step) \/ LOAD_LOCALS(step) \/ STORE_LOCALS(step)
  \/ SETUP_ANNOTATIONS(step) \/ STORE_ANNOTATION(step) \/ LOAD_ATTR(step) \/ STORE_ATTR(step) \/ DELETE_ATTR(step) \/ LOAD_METHOD(step)
  \/ JUMP_FORWARD(step) \/ POP_JUMP_IF_TRUE(step) \/ POP_JUMP_IF_FALSE(step) \/ JUMP_IF_TRUE(step) \/ JUMP_IF_FALSE(step)
  \/ JUMP_IF_TRUE_OR_POP(step) \/ JUMP_IF_FALSE_OR_POP(step) \/ JUMP_IF_NOT_EXC_MATCH(step) \/ GET_ITER(step) \/ FOR_ITER(step)
  \/ SETUP_LOOP(step) \/ SETUP_EXCEPT(step) \/ SETUP_FINALLY(step) \/ SETUP_WITH(step) \/ POP_BLOCK(step) \/ BREAK_LOOP(step) \/ CONTINUE_LOOP(step)
  \/ POP_EXCEPT(step) \/ END_FINALLY(step) \/ RERAISE(step) \/ BEGIN_FINALLY(step) \/ CALL_FINALLY(step) \/ POP_FINALLY(step)
  \/ WITH_CLEANUP(step) \/ WITH_CLEANUP_FINISH(step) \/ WITH_EXCEPT_START(step) \/ LOAD_ASSERTION_ERROR(step) \/ RAISE_VARARGS(step)
  \/ CALL_FUNCTION(step) \/ CALL_FUNCTION_VAR(step) \/ CALL_FUNCTION_KW(step) \/ CALL_FUNCTION_EX(step) \/ CALL_METHOD(step) \/ CALL_METHOD_KW(step)
  \/ MAKE_FUNCTION(step) \/ MAKE_CLOSURE(step) \/ LOAD_BUILD_CLASS(step) \/ BUILD_CLASS(step) \/ RETURN_VALUE(step)
  \/ GEN_START(step) \/ YIELD_VALUE(step) \/ GET_YIELD_FROM_ITER(step) \/ YIELD_FROM(step)
  \/ IMPORT_NAME(step) \/ IMPORT_FROM(step) \/ IMPORT_STAR(step) \/ PRINT_ITEM(step) \/ PRINT_NEWLINE(step)
  \/ PRINT_ITEM_TO(step) \/ PRINT_NEWLINE_TO(step)
  \/ UNWIND(step) \/ NATIVE(step)

(***************************** initial states ******************************)
\* program number i has not begun; START makes its first frame
BootOf(i) ==
  LET p == Progs[i]
      glb == DictO(<<<<StrV("__name__"), StrV("__main__")>>>>)
  IN [pid |-> i, ver |-> p.ver, vs |-> p.vs, pp |-> p.pp, fr |-> <<>>, heap |-> <<glb>>, glb |-> 1,
      hx |-> None, st |-> "boot", why |-> "", wv |-> None, rvl |-> None, tr |-> p.tr,
      mods |-> ("sys" :> ModTab["sys"].d), nc |-> 0, fl0 |-> p.mask, ev |-> <<>>, out |-> <<>>, soft |-> FALSE, res |-> ""]
InitOf(i) ==
  /\ vm = BootOf(i)
  /\ cur = Idle("START")
  /\ em = [ev |-> <<>>, out |-> <<>>]

(****************************** invariants *********************************)
\* blocks are nested, and what they say about the stack is there
BlockDiscipline ==
  \A i \in DOMAIN vm.fr : vm.fr[i].k = "py" =>
    LET f == vm.fr[i] IN
    /\ \A j \in DOMAIN f.blk : f.blk[j].lv + (IF f.blk[j].t = "eh" THEN 3 ELSE 0) <= Len(f.stk)
    /\ \A j \in DOMAIN f.blk : j > 1 => f.blk[j - 1].lv <= f.blk[j].lv
\* a generator is running exactly if its frame is on the stack, or what it delegates to is thrown an exception
GeneratorDiscipline ==
  \A x \in DOMAIN vm.heap : vm.heap[x].k = "gen" =>
    LET on == {i \in DOMAIN vm.fr : vm.fr[i].k = "py" /\ vm.fr[i].gen = x}
    IN (vm.heap[x].n = 2) = (on # {} \/ (vm.heap[x].n = 2 /\ vm.heap[x].q # <<>>)) /\ Cardinality(on) <= 1
\* in the end nothing is left, and no exception counts as being handled
CleanEnd == vm.st = "done" /\ vm.res \in {"ok"} => vm.fr = <<>> /\ vm.hx = None
\* while no handler is active anywhere on the stack, no exception is being handled
HandledDiscipline ==
  vm.ver >= 300 /\ vm.st = "run" /\ vm.hx # None =>
     \E i \in DOMAIN vm.fr : vm.fr[i].k = "py" /\ \E j \in DOMAIN vm.fr[i].blk : vm.fr[i].blk[j].t = "eh"
=============================================================================
