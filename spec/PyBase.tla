------------------------------- MODULE PyBase -------------------------------
(***************************************************************************)
(* Values, heap objects, namespaces, classes and their canonical text form *)
(* for the x-python specification.                                         *)
(*                                                                         *)
(* An immediate value is [k, n, s] (or [k, q] for the compound immediate   *)
(* values); "ref" values point into the heap, a sequence of objects which  *)
(* all have the same fields.                                               *)
(***************************************************************************)
EXTENDS PyInput

V(k, n, s) == [k |-> k, n |-> n, s |-> s]
None == V("none", 0, "")
True == V("bool", 1, "")
False == V("bool", 0, "")
BoolV(b) == IF b THEN True ELSE False
IntV(i) == V("int", i, "")
StrV(s) == V("str", 0, s)
Ref(a) == V("ref", a, "")
Cls(s) == V("bcls", 0, s)        \* builtin class
Bf(s) == V("bf", 0, s)           \* builtin function
Null == V("null", 0, "")         \* what LOAD_METHOD/LOOKUP_METHOD push
Why(s) == V("why", 0, s)         \* a reason for unwinding, on the stack
Tb == V("tb", 0, "")             \* a traceback
Unb == V("unb", 0, "")           \* no value
Probe(s, n) == V("P", n, s)      \* host object that reports every operation
Mod(s) == V("mod", 0, s)
TupV(q) == [k |-> "tup", q |-> q]
SliceV(a, b, c) == [k |-> "slice", q |-> <<a, b, c>>]
MethV(f, o) == [k |-> "meth", q |-> <<f, o>>]
UMethV(f, c) == [k |-> "umeth", q |-> <<f, c>>]
BmV(name, o) == [k |-> "bm", q |-> <<StrV(name), o>>]
SuperV(c, o) == [k |-> "super", q |-> <<c, o>>]
SMethV(f) == [k |-> "smeth", q |-> <<f>>]
CMethV(f) == [k |-> "cmeth", q |-> <<f>>]
PropV(g, s, d) == [k |-> "prop", q |-> <<g, s, d>>]
DropV(f) == [k |-> "drop", q |-> <<f>>]   \* to be called without its first argument

O(k) == [k |-> k, s |-> "", n |-> 0, q |-> <<>>, d |-> <<>>, c |-> None, x |-> <<>>]

(***************************** association lists **************************)
IdxOf(d, key) ==
  LET I == {i \in DOMAIN d : d[i][1] = key}
  IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : TRUE
Has(d, key) == \E i \in DOMAIN d : d[i][1] = key
Get(d, key) == LET i == IdxOf(d, key) IN IF i = 0 THEN Unb ELSE d[i][2]
Put(d, key, val) ==
  LET i == IdxOf(d, key)
  IN  IF i = 0 THEN Append(d, <<key, val>>) ELSE [d EXCEPT ![i] = <<key, val>>]
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Del(d, key) == RemoveAt(d, IdxOf(d, key))
RECURSIVE PutAll(_, _)
PutAll(d, e) == IF e = <<>> THEN d ELSE PutAll(Put(d, e[1][1], e[1][2]), Tail(e))
Keys(d) == [i \in DOMAIN d |-> d[i][1]]
Vals(d) == [i \in DOMAIN d |-> d[i][2]]
RECURSIVE AddAll(_, _)
AddAll(q, r) == IF r = <<>> THEN q
                ELSE AddAll(IF \E i \in DOMAIN q : q[i] = r[1] THEN q ELSE Append(q, r[1]), Tail(r))
InSeq(q, v) == \E i \in DOMAIN q : q[i] = v
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
Last(q) == q[Len(q)]
Front(q) == SubSeq(q, 1, Len(q) - 1)

(**************************** builtin classes *****************************)
BParent ==
  [ BaseException |-> "object", Exception |-> "BaseException",
    SystemExit |-> "BaseException", KeyboardInterrupt |-> "BaseException",
    GeneratorExit |-> "BaseException",
    ArithmeticError |-> "Exception", ZeroDivisionError |-> "ArithmeticError",
    OverflowError |-> "ArithmeticError",
    LookupError |-> "Exception", KeyError |-> "LookupError", IndexError |-> "LookupError",
    NameError |-> "Exception", UnboundLocalError |-> "NameError",
    TypeError |-> "Exception", ValueError |-> "Exception",
    AttributeError |-> "Exception", AssertionError |-> "Exception",
    RuntimeError |-> "Exception", NotImplementedError |-> "RuntimeError",
    StopIteration |-> "Exception", ImportError |-> "Exception",
    ModuleNotFoundError |-> "ImportError",
    OSError |-> "Exception", PErr |-> "Exception",
    int |-> "object", float |-> "object", bool |-> "int", str |-> "object", tuple |-> "object",
    list |-> "object", dict |-> "object", set |-> "object", range |-> "object",
    slice |-> "object", NoneType |-> "object", type |-> "object", super |-> "object",
    property |-> "object", staticmethod |-> "object", classmethod |-> "object",
    P |-> "object", other |-> "object" ]
RECURSIVE BMro(_)
BMro(s) == IF s = "object" THEN <<Cls("object")>> ELSE <<Cls(s)>> \o BMro(BParent[s])

IsObj(h, v, kind) == v.k = "ref" /\ h[v.n].k = kind
IsClass(h, v) == v.k = "bcls" \/ IsObj(h, v, "class")
MroOf(h, c) == IF c.k = "bcls" THEN BMro(c.s) ELSE h[c.n].x
SubClass(h, c, d) == InSeq(MroOf(h, c), d)
IsExcClass(h, v) == IsClass(h, v) /\ SubClass(h, v, Cls("BaseException"))
TypeOf(h, v) ==
  CASE v.k = "none" -> Cls("NoneType") [] v.k = "bool" -> Cls("bool")
    [] v.k = "int" -> Cls("int") [] v.k = "str" -> Cls("str")
    [] v.k = "tup" -> Cls("tuple") [] v.k = "slice" -> Cls("slice")
    [] v.k = "P" -> Cls("P") [] v.k = "bcls" -> Cls("type")
    [] v.k = "smeth" -> Cls("staticmethod") [] v.k = "cmeth" -> Cls("classmethod")
    [] v.k = "prop" -> Cls("property") [] v.k = "super" -> Cls("super")
    [] v.k = "ref" ->
         (CASE h[v.n].k = "inst" -> h[v.n].c
            [] h[v.n].k \in {"list", "dict", "set", "range"} -> Cls(h[v.n].k)
            [] h[v.n].k = "class" -> IF h[v.n].c = None THEN Cls("type") ELSE h[v.n].c
            [] OTHER -> Cls("other"))
    [] OTHER -> Cls("other")
IsExc(h, v) == v.k = "ref" /\ h[v.n].k = "inst" /\ SubClass(h, h[v.n].c, Cls("BaseException"))
InstOf(h, v, c) == SubClass(h, TypeOf(h, v), c)
ClsName(h, c) == IF c.k = "bcls" THEN c.s ELSE h[c.n].s
\* the first class of the method resolution order (from position i) with the name
RECURSIVE MroFind(_, _, _)
MroFind(h, mro, name) ==
  IF mro = <<>> THEN Unb
  ELSE IF Head(mro).k = "ref" /\ Has(h[Head(mro).n].d, name)
       THEN Get(h[Head(mro).n].d, name)
       ELSE MroFind(h, Tail(mro), name)
ClsAttr(h, c, name) == MroFind(h, MroOf(h, c), name)
\* the attribute a guest class defines for instances of it (operators, iteration, ...)
Special(h, v, name) ==
  IF v.k = "ref" /\ (h[v.n].k = "inst" \/ (h[v.n].k = "class" /\ h[v.n].c # None))
  THEN LET c == h[v.n].c
           a == ClsAttr(h, c, name)
       IN CASE a.k = "unb" \/ IsObj(h, a, "func") -> a
            [] a.k = "cmeth" -> DropV([k |-> "meth", q |-> <<a.q[1], c>>])
            [] a.k = "smeth" -> DropV(a.q[1])
            [] OTHER -> DropV(a)
  ELSE Unb
\* a descriptor that goes before the attributes of the instance
IsData(h, a) == a.k = "prop" \/ Special(h, a, "__set__").k # "unb" \/ Special(h, a, "__delete__").k # "unb"
RECURSIVE After(_, _)
After(q, v) == IF q = <<>> THEN <<>> ELSE IF Head(q) = v THEN Tail(q) ELSE After(Tail(q), v)

(* C3 linearization *)
RECURSIVE C3Merge(_)
C3Merge(ls) ==
  LET L == SelectSeq(ls, LAMBDA l : l # <<>>)
  IN  IF L = <<>> THEN <<>>
      ELSE LET ok(i) == \A j \in DOMAIN L : ~InSeq(Tail(L[j]), Head(L[i]))
               I == {i \in DOMAIN L : ok(i)}
           IN  IF I = {} THEN <<Unb>>
               ELSE LET m == CHOOSE i \in I : \A j \in I : i <= j
                        c == Head(L[m])
                    IN <<c>> \o C3Merge([j \in DOMAIN L |-> IF Head(L[j]) = c THEN Tail(L[j]) ELSE L[j]])
Linearize(h, self, bases) ==
  <<self>> \o C3Merge([i \in DOMAIN bases |-> MroOf(h, bases[i])] \o <<bases>>)

(****************************** canonical text *****************************)
Rank(s) == IF s \in DOMAIN RankTab THEN RankTab[s] ELSE 0
RECURSIVE Before(_, _)
Before(a, b) == \* order of set elements: integers, then strings; tuples by their elements
  IF a.k = "tup" /\ b.k = "tup"
  THEN IF a.q = <<>> \/ b.q = <<>> THEN a.q = <<>> /\ b.q # <<>>
       ELSE IF a.q[1] = b.q[1] THEN Before([a EXCEPT !.q = Tail(@)], [b EXCEPT !.q = Tail(@)])
       ELSE Before(a.q[1], b.q[1])
  ELSE IF a.k # b.k THEN a.k = "int"
  ELSE IF a.k = "int" THEN a.n < b.n ELSE Rank(a.s) < Rank(b.s)
RECURSIVE InsertSorted(_, _)
InsertSorted(q, v) ==
  IF q = <<>> THEN <<v>>
  ELSE IF Before(v, Head(q)) THEN <<v>> \o q ELSE <<Head(q)>> \o InsertSorted(Tail(q), v)
RECURSIVE SortVals(_)
SortVals(q) == IF q = <<>> THEN <<>> ELSE InsertSorted(SortVals(Tail(q)), Head(q))

RECURSIVE Canon(_, _), CanonSeq(_, _), CanonDict(_, _)
CanonSeq(h, q) ==
  IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN Canon(h, q[1])
  ELSE Canon(h, q[1]) \o "," \o CanonSeq(h, Tail(q))
CanonDict(h, d) ==
  IF d = <<>> THEN "" ELSE
  LET one == Canon(h, d[1][1]) \o ":" \o Canon(h, d[1][2])
  IN  IF Len(d) = 1 THEN one ELSE one \o "," \o CanonDict(h, Tail(d))
Canon(h, v) ==
  CASE v.k = "none" -> "None" [] v.k = "bool" -> IF v.n = 1 THEN "True" ELSE "False"
    [] v.k = "int" -> ToString(v.n) [] v.k = "str" -> "'" \o v.s \o "'"
    [] v.k = "P" -> v.s
    [] v.k = "tup" -> "T(" \o CanonSeq(h, v.q) \o ")"
    [] v.k = "slice" -> "slice(" \o CanonSeq(h, v.q) \o ")"
    [] v.k = "bcls" -> "<cls " \o v.s \o ">"
    [] v.k = "bf" -> "<bf>" [] v.k = "bm" -> "<bf>" [] v.k = "mod" -> "<mod " \o v.s \o ">"
    [] v.k = "meth" -> "<meth " \o (IF IsObj(h, v.q[1], "func") THEN h[v.q[1].n].s ELSE "?") \o ">"
    [] v.k = "umeth" -> "<meth " \o (IF IsObj(h, v.q[1], "func") THEN h[v.q[1].n].s ELSE "?") \o ">"
    [] v.k = "tb" -> "<tb>"
    [] v.k = "ell" -> "Ellipsis"
    [] v.k = "nimp" -> "NotImplemented"
    [] v.k = "code" -> "<code>"
    [] v.k \in {"smeth", "cmeth", "prop", "super"} -> "<" \o v.k \o ">"
    [] v.k = "ref" ->
        LET o == h[v.n] IN
        (CASE o.k = "list" -> "L[" \o CanonSeq(h, o.q) \o "]"
           [] o.k = "dict" -> "D{" \o CanonDict(h, o.d) \o "}"
           [] o.k = "set" -> "S{" \o CanonSeq(h, SortVals(o.q)) \o "}"
           [] o.k = "func" -> "<fn " \o o.s \o ">"
           [] o.k = "class" -> "<cls " \o o.s \o ">"
           [] o.k = "inst" ->
               IF SubClass(h, o.c, Cls("BaseException"))
               THEN IF o.c.k = "bcls" THEN "<E " \o o.c.s \o ">"
                    ELSE "<E " \o h[o.c.n].s \o "(" \o CanonSeq(h, o.q) \o ")>"
               ELSE "<I " \o (IF o.c.k = "bcls" THEN o.c.s ELSE h[o.c.n].s) \o ">"
           [] o.k = "gen" -> "<gen " \o o.s \o ">"
           [] o.k = "cell" -> "<cell>"
           [] o.k = "range" -> "range(" \o CanonSeq(h, o.q) \o ")"
           [] OTHER -> "<iter>")
    [] OTHER -> "<" \o v.k \o ">"

(* str() and repr() of the kinds of value programs convert to text *)
RECURSIVE ReprOk(_, _), ReprOf(_, _), ReprSeq(_, _), ReprDict(_, _)
ReprOk(h, v) ==
  CASE v.k \in {"none", "bool", "int", "str", "P"} -> TRUE
    [] v.k = "tup" -> \A i \in DOMAIN v.q : ReprOk(h, v.q[i])
    [] IsObj(h, v, "list") -> \A i \in DOMAIN h[v.n].q : ReprOk(h, h[v.n].q[i])
    [] IsObj(h, v, "dict") ->
         \A i \in DOMAIN h[v.n].d : ReprOk(h, h[v.n].d[i][1]) /\ ReprOk(h, h[v.n].d[i][2])
    [] OTHER -> FALSE
ReprSeq(h, q) ==
  IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN ReprOf(h, q[1])
  ELSE ReprOf(h, q[1]) \o ", " \o ReprSeq(h, Tail(q))
ReprDict(h, d) ==
  IF d = <<>> THEN "" ELSE
  LET one == ReprOf(h, d[1][1]) \o ": " \o ReprOf(h, d[1][2])
  IN  IF Len(d) = 1 THEN one ELSE one \o ", " \o ReprDict(h, Tail(d))
ReprOf(h, v) ==
  CASE v.k = "P" -> "R:" \o v.s
    [] v.k = "tup" -> IF Len(v.q) = 1 THEN "(" \o ReprOf(h, v.q[1]) \o ",)" ELSE "(" \o ReprSeq(h, v.q) \o ")"
    [] IsObj(h, v, "list") -> "[" \o ReprSeq(h, h[v.n].q) \o "]"
    [] IsObj(h, v, "dict") -> "{" \o ReprDict(h, h[v.n].d) \o "}"
    [] OTHER -> Canon(h, v)
StrOf(h, v) == IF v.k = "str" THEN v.s ELSE IF v.k = "P" THEN "S:" \o v.s ELSE ReprOf(h, v)

(* format() of text and integers: [[fill]align][0][width][type] *)
RECURSIVE Pad(_, _), DigitsEnd(_, _)
Pad(c, n) == IF n <= 0 THEN "" ELSE c \o Pad(c, n - 1)
Digit(c) == CHOOSE i \in 0..9 : ToString(i) = c
IsDigit(c) == \E i \in 0..9 : ToString(i) = c
DigitsEnd(s, i) == IF i > Len(s) \/ ~IsDigit(SubSeq(s, i, i)) THEN i ELSE DigitsEnd(s, i + 1)
RECURSIVE ToInt(_, _)
ToInt(s, acc) == IF s = "" THEN acc ELSE ToInt(SubSeq(s, 2, Len(s)), 10 * acc + Digit(SubSeq(s, 1, 1)))
Aligns == {"<", ">", "^", "="}
\* [ok, s]
Formatted(text, int, spec) ==
  LET ch(i) == SubSeq(spec, i, i)
      two == Len(spec) >= 2 /\ ch(2) \in Aligns
      one == ~two /\ Len(spec) >= 1 /\ ch(1) \in Aligns
      i0 == IF two THEN 3 ELSE IF one THEN 2 ELSE 1
      zero == i0 <= Len(spec) /\ ch(i0) = "0"
      i1 == IF zero THEN i0 + 1 ELSE i0
      i2 == DigitsEnd(spec, i1)
      width == ToInt(SubSeq(spec, i1, i2 - 1), 0)
      type == SubSeq(spec, i2, Len(spec))
      fill == IF two THEN ch(1) ELSE IF zero THEN "0" ELSE " "
      align == IF two THEN ch(2) ELSE IF one THEN ch(1) ELSE IF zero /\ int THEN "="
               ELSE IF int THEN ">" ELSE "<"
      n == width - Len(text)
      neg == int /\ SubSeq(text, 1, 1) = "-"
      res == CASE align = "<" -> text \o Pad(fill, n) [] align = ">" -> Pad(fill, n) \o text
               [] align = "^" -> Pad(fill, n \div 2) \o text \o Pad(fill, n - n \div 2)
               [] OTHER -> IF neg THEN "-" \o Pad(fill, n) \o SubSeq(text, 2, Len(text)) ELSE Pad(fill, n) \o text
  IN [ok |-> type \in (IF int THEN {"", "d"} ELSE {"", "s"}) /\ (align = "=" => int), s |-> res]

Num(v) == v.k \in {"int", "bool"}
(* Identity *)
SameV(a, b) == a = b
(* May be in a set or a key of a dictionary *)
RECURSIVE Hashable(_, _)
Hashable(h, v) ==
  CASE v.k = "ref" -> IF h[v.n].k = "inst" THEN Special(h, v, "__eq__").k = "unb" \/ Special(h, v, "__hash__").k # "unb"
                      ELSE h[v.n].k \notin {"list", "dict", "set"}
    [] v.k = "tup" -> \A i \in DOMAIN v.q : Hashable(h, v.q[i])
    [] v.k = "slice" -> FALSE
    [] OTHER -> TRUE

(******************************* integers **********************************)
Abs(i) == IF i < 0 THEN -i ELSE i
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FloorMod(a, b) == a - b * FloorDiv(a, b)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE BitOp(_, _, _, _)
\* bitwise operation of two's complement integers, w bits
BitOp(f(_, _), a, b, w) ==
  IF w = 0 THEN (IF f(FloorMod(a, 2), FloorMod(b, 2)) = 1 THEN -1 ELSE 0)
  ELSE f(FloorMod(a, 2), FloorMod(b, 2)) + 2 * BitOp(f, FloorDiv(a, 2), FloorDiv(b, 2), w - 1)
BAnd(x, y) == x * y
BOr(x, y) == IF x + y > 0 THEN 1 ELSE 0
BXor(x, y) == (x + y) % 2
Bit(n, b) == (n \div b) % 2 = 1     \* b a power of two
=============================================================================
