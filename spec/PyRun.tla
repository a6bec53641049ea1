-------------------------------- MODULE PyRun -------------------------------
(***************************************************************************)
(* Running programs: the command line, and run_python_file(),              *)
(* run_python_module(), run_python_string() in a process that goes on.     *)
(*                                                                         *)
(* A run finds its program (source, bytecode of a version, module, string),*)
(* gives it the environment of a main program, runs it, and ends with an   *)
(* outcome; the process then is as it was before.  Programs can start      *)
(* further runs, so the runs form a stack.  What a program does is chosen  *)
(* step by step: a behaviour is a history of runs together with the        *)
(* programs, all they write, all outcomes, and the state of the process    *)
(* after each of them.  TLC checks the invariants, and generates the       *)
(* behaviours which the harness replays in the implementation.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Num(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
RUNS == Num("RUNS", 2)          \* runs of a history
STEPS == Num("STEPS", 2)        \* steps of a program, besides its end
DEPTH == Num("DEPTH", 2)        \* runs within each other
CLI == Num("CLI", 0) = 1        \* the command line: one run in a process of its own
FOCUS == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE ""

VARIABLES host,    \* what runs have to restore
          loaded,  \* modules the process has imported
          stack,   \* the runs that have not ended, the innermost last
          hist,    \* what has happened
          nruns,   \* runs begun
          next     \* what is to be run next, if that has been chosen

vars == <<host, loaded, stack, hist, nruns, next>>

----------------------------------------------------------------------------
(* Programs and where they come from. *)

Two == {"2.4", "2.5", "2.6", "2.7", "2.7pypy"}
Three == {"3.1", "3.2", "3.3", "3.4", "3.5", "3.6", "3.7", "3.8", "3.9", "3.10", "3.6pypy", "3.7pypy", "3.9pypy"}
Native == "3.12"      \* sources are compiled by the Python that runs the interpreter

\* what is to be run
\* (bytecode whose source is gone, older, or newer)
Good == [how: {"file"}, src: {"pyc", "pycold", "pycnew"}, ver: Two \cup Three, dir: {"d1", "d2"}]
        \cup [how: {"file"}, src: {"py"}, ver: {Native}, dir: {"d1", "d2"}]
        \cup [how: {"module"}, src: {"mod", "pkg", "sub"}, ver: {Native}, dir: {"lib"}]
        \cup [how: {"string"}, src: {"text"}, ver: {Native}, dir: {""}]
\* what cannot be run
Bad == [how: {"file"}, src: {"missing", "directory", "nomagic", "corrupt", "oldpyc", "syntax"}, ver: {Native}, dir: {"d1"}]
       \cup [how: {"module"}, src: {"nomain", "missing", "noparent", "builtin", "syntaxmod"}, ver: {Native}, dir: {"lib"}]
       \cup [how: {"string"}, src: {"syntaxtext"}, ver: {Native}, dir: {""}]
\* only on the command line: neither a file nor a string, or both
Usage == [how: {"nothing", "both"}, src: {"usage"}, ver: {Native}, dir: {""}]
IsBad(q) == q.src \notin {"pyc", "pycold", "pycnew", "py", "mod", "pkg", "sub", "text"}
ArgLists == {<<>>, <<"a">>, <<"a b", "">>, <<"-x", "--", "c">>}
\* the environment a run starts with is that of the command line, if it is one
Attributes == { [args |-> a, traced |-> t, verbose |-> v, rel |-> r] :
                a \in ArgLists, t \in IF CLI THEN {FALSE} ELSE BOOLEAN, v \in IF CLI THEN 0..2 ELSE {0},
                r \in BOOLEAN }                        \* files can be given relative to the current directory, @/h0
What == Good \cup Bad \cup (IF CLI THEN Usage ELSE {})
Request(w, a) == [how |-> w.how, src |-> w.src, ver |-> w.ver, dir |-> w.dir,
                  args |-> a.args, traced |-> a.traced, verbose |-> a.verbose, rel |-> a.rel]

\* the name of the file, or what stands for it
Pyc(q) == q.src \in {"pyc", "pycold", "pycnew"}
Root(q) == IF q.rel THEN "../" ELSE "@/"
FileOf(q, id) ==
  CASE q.how = "string" -> "<string>"
    [] Pyc(q) -> Root(q) \o q.dir \o "/r" \o ToString(id) \o ".pyc"
    [] q.src = "pkg" -> "@/lib/k" \o ToString(id) \o "/__main__.py"
    [] q.src = "sub" -> "@/lib/k" \o ToString(id) \o "/sub.py"
    [] q.how = "module" -> "@/lib/r" \o ToString(id) \o ".py"
    [] OTHER -> Root(q) \o q.dir \o "/r" \o ToString(id) \o ".py"
\* __file__ is the source of bytecode
SourceOf(q, id) ==
  CASE q.src = "pyc" -> "orig.py"
    [] Pyc(q) -> "@/" \o q.dir \o "/r" \o ToString(id) \o ".py"
    [] OTHER -> FileOf(q, id)
\* what is written before the program begins
Warning(q, id) == IF q.src = "pycnew" THEN <<"Warning: source file " \o SourceOf(q, id) \o " is newer than bytecode " \o FileOf(q, id)>> ELSE <<>>
PackageOf(q, id) == IF q.src \in {"pkg", "sub"} THEN "k" \o ToString(id) ELSE ""

\* why something that cannot be run is not run
Refusal(q) ==
  CASE q.src \in {"missing", "directory", "nomagic", "corrupt", "nomain", "noparent", "builtin"} -> "error:NoSourceError"
    [] q.src = "oldpyc" -> "error:WrongBytecodeError"
    [] q.src = "usage" -> "error:usage"
    [] OTHER -> "error:SyntaxError"

\* builtin functions that only Python 2 has
Old == <<"apply", "basestring", "cmp", "long", "reduce", "unichr", "unicode", "xrange">>
OldNames(ver) == IF ver \in Two THEN Old ELSE <<>>

----------------------------------------------------------------------------
(* What programs do. *)

Helpers == [h1 |-> "@/d1", h2 |-> "@/d2", hl |-> "@/lib", hp |-> "@/p"]   \* modules, and where they are

Top1 == stack[Len(stack)]
Argv(f) == IF f.argv = <<"host">> THEN host.argv ELSE f.argv
Join(s) == FoldLeft(LAMBDA acc, x : IF acc = "" THEN x ELSE acc \o "|" \o x, "", s)
JoinAll(s) == IF s = <<>> THEN "" ELSE FoldLeft(LAMBDA acc, x : acc \o "|" \o x, s[1], Tail(s))

Simple(v) == v = Native     \* source programs stay simple: the interpreter supports part of 3.12 only
StepKinds(f) == {"out", "view", "argvadd", "argvset", "pathadd", "pathpop", "main", "global", "name"}
                \cup (IF Simple(f.req.ver) THEN {} ELSE {"builtins", "version", "h1", "h2", "hl", "hp"})

Ends(f) == {[kind |-> k, how |-> w] : k \in {"none", "ValueError", "Own", "exit", "exit None", "exit 0", "exit 3", "exit -1",
                                             "exit 300", "exit True", "exit 'msg'"},
                                       w \in IF Simple(f.req.ver) THEN {"top"}
                                             ELSE {"top", "func", "finally", "bare", "gen", "class"}
                                                       \* in 2.4 SystemExit is an Exception
                                                       \cup (IF f.req.ver = "2.4" THEN {} ELSE {"except"})}
\* the exception that ends the program, and its text
Raised(e) == IF e.kind = "none" THEN "" ELSE IF e.kind = "ValueError" THEN "ValueError"
             ELSE IF e.kind = "Own" THEN "Own" ELSE "SystemExit"
\* what handlers around the end write
EndOut(e) ==
  CASE e.how = "finally" -> <<"fin">>
    [] e.how = "except" /\ Raised(e) \in {"ValueError", "Own"} -> <<"caught " \o Raised(e)>>
    [] e.how = "bare" /\ Raised(e) # "" -> <<"caught " \o Raised(e)>>
    [] OTHER -> <<>>
Caught(e) == e.how = "bare" \/ (e.how = "except" /\ Raised(e) \in {"ValueError", "Own"})
Outcome(e) ==
  IF Raised(e) = "" \/ Caught(e) THEN "exit:0"
  ELSE IF Raised(e) # "SystemExit" THEN "exit:1"
  ELSE CASE e.kind \in {"exit", "exit None"} -> "exit:None"
         [] e.kind = "exit 0" -> "exit:0"
         [] e.kind = "exit 3" -> "exit:3"
         [] e.kind = "exit -1" -> "exit:-1"
         [] e.kind = "exit 300" -> "exit:300"
         [] e.kind = "exit True" -> "exit:True"
         [] OTHER -> "exit:msg"
\* the report of an exception nobody handles
Report(e) == IF Raised(e) \in {"ValueError", "Own"} /\ ~Caught(e) THEN Raised(e) \o ": boom" ELSE ""

\* the exit status of the command
Status(o, verbose) ==
  CASE verbose > 1 /\ o = "error:WrongBytecodeError" -> 1     \* the error itself, for a report
    [] o \in {"exit:0", "exit:None"} -> 0
    [] o = "exit:3" -> 3
    [] o = "exit:-1" -> 255
    [] o = "exit:300" -> 44
    [] o = "error:NoSourceError" -> 2
    [] o = "error:WrongBytecodeError" -> 3
    [] o = "error:usage" -> 4
    [] OTHER -> 1

----------------------------------------------------------------------------
Host0 == [argv |-> <<"host", "arg">>, path |-> <<"@/h0", "@/lib">>, main |-> 0, names |-> <<>>]

Init == /\ host = Host0 /\ loaded = {} /\ stack = <<>> /\ hist = <<>> /\ nruns = 0 /\ next = <<>>

Event(ev, run, what, out, res) ==
  [ev |-> ev, run |-> run, what |-> what, out |-> out, res |-> res,
   status |-> IF res = "" THEN -1 ELSE Status(res, IF ev = "refuse" THEN what.verbose ELSE 0),
   log |-> IF ev = "end" THEN Top1.req.verbose ELSE 0,
   argv |-> host'.argv, path |-> host'.path, main |-> host'.main, names |-> host'.names]
Log(ev, run, what, out, res) == hist' = Append(hist, Event(ev, run, what, out, res))

\* What is to be run (a step of its own, for the sake of the generation only).
Choose(w) ==
  /\ nruns < RUNS /\ Len(stack) < DEPTH /\ next = <<>>
  /\ stack # <<>> => Top1.left > 0
  /\ next' = <<w>>
  /\ UNCHANGED <<host, loaded, stack, hist, nruns>>

\* A run begins: the program is found, and gets the environment of a main program.
Begin(q, n) ==
  /\ ~IsBad(q) /\ next' = <<>>
  /\ nruns' = nruns + 1
  /\ host' = [argv |-> <<FileOf(q, nruns + 1)>> \o q.args,
              path |-> IF q.how = "string" THEN host.path
                       ELSE <<IF PackageOf(q, nruns + 1) # "" THEN "" ELSE "@/" \o q.dir>> \o Tail(host.path),
              main |-> nruns + 1,
              names |-> IF q.ver \in Two THEN OldNames(q.ver) ELSE host.names]
  /\ stack' = Append([i \in DOMAIN stack |-> IF i = Len(stack) THEN [stack[i] EXCEPT !.left = @ - 1] ELSE stack[i]],
                     [id |-> nruns + 1, req |-> q, left |-> n, saved |-> host, argv |-> <<"host">>, global |-> FALSE])
  /\ Log("begin", nruns + 1, q, Warning(q, nruns + 1), "")
  /\ UNCHANGED loaded

\* There is nothing to run: an error, and all is as before.
Refuse(q) ==
  /\ IsBad(q) /\ next' = <<>>
  /\ nruns' = nruns + 1
  /\ stack' = [i \in DOMAIN stack |-> IF i = Len(stack) THEN [stack[i] EXCEPT !.left = @ - 1] ELSE stack[i]]
  /\ UNCHANGED <<host, loaded>>
  /\ Log("refuse", nruns + 1, q, <<>>, Refusal(q))

\* A step of the program.
Did(kind, out, h, f, l) ==
  /\ host' = h
  /\ stack' = [stack EXCEPT ![Len(stack)] = [f EXCEPT !.left = @ - 1]]
  /\ loaded' = l
  /\ Log("step", f.id, kind, out, "")
  /\ UNCHANGED <<nruns, next>>

View(f) == Did("view", <<"file=" \o SourceOf(f.req, f.id) \o " package=" \o PackageOf(f.req, f.id)
                        \o " argv=" \o JoinAll(Argv(f)) \o " path=" \o JoinAll(host.path)>>, host, f, loaded)
Out(f) == Did("out", <<"out " \o ToString(f.left)>>, host, f, loaded)
Name(f) == Did("name", <<"name=__main__">> \o (IF Simple(f.req.ver) THEN <<>> ELSE <<"module=__main__">>), host, f, loaded)
ArgvAdd(f) == Did("argvadd", <<>>, IF f.argv = <<"host">> THEN [host EXCEPT !.argv = Append(@, "more")] ELSE host,
                  IF f.argv = <<"host">> THEN f ELSE [f EXCEPT !.argv = Append(@, "more")], loaded)
ArgvSet(f) == Did("argvset", <<>>, host, [f EXCEPT !.argv = <<"mine">>], loaded)
PathAdd(f) == Did("pathadd", <<>>, [host EXCEPT !.path = <<"@/p">> \o @], f, loaded)
PathPop(f) == Did("pathpop", <<>>, [host EXCEPT !.path = Tail(@)], f, loaded)
Main(f) == Did("main", <<"main=" \o (IF host.main = f.id THEN "True" ELSE "False")>>, host, f, loaded)
Global(f) == Did("global", <<IF f.global THEN "global=1" ELSE "global=none">>, host, [f EXCEPT !.global = TRUE], loaded)
Builtins(f) == Did("builtins", <<"builtins=" \o JoinAll(host.names)>>, host, f, loaded)
Version(f) == Did("version", <<"version=" \o (IF f.req.ver = "2.7pypy" THEN "2.7" ELSE IF f.req.ver = "3.6pypy" THEN "3.6"
                                              ELSE IF f.req.ver = "3.7pypy" THEN "3.7" ELSE IF f.req.ver = "3.9pypy" THEN "3.9"
                                              ELSE f.req.ver)>>, host, f, loaded)
Import(f, m) ==
  LET found == Helpers[m] \in ToSet(host.path)
  IN Did(m, IF m \in loaded THEN <<m \o " ok">> ELSE IF found THEN <<"load " \o m \o " " \o JoinAll(host.argv), m \o " ok">> ELSE <<m \o " none">>,
         host, f, IF found THEN loaded \cup {m} ELSE loaded)

Step ==
  /\ stack # <<>> /\ Top1.left > 0 /\ next = <<>>
  /\ LET f == Top1
     IN \/ Out(f) \/ View(f) \/ Name(f) \/ ArgvAdd(f) \/ ArgvSet(f) \/ PathAdd(f)
        \/ (Len(host.path) > 1 /\ PathPop(f))
        \/ Main(f) \/ Global(f)
        \/ (~Simple(f.req.ver) /\ (Builtins(f) \/ Version(f) \/ \E m \in DOMAIN Helpers : Import(f, m)))

\* The program ends; the process is as it was before the run.
End(e) ==
  /\ stack # <<>> /\ Top1.left = 0
  /\ host' = Top1.saved
  /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
  /\ Log("end", Top1.id, e, EndOut(e) \o (IF Report(e) = "" THEN <<>> ELSE <<Report(e)>>), Outcome(e))
  /\ UNCHANGED <<loaded, nruns, next>>

\* Which runs a history consists of.
Wanted(w) ==
  /\ FOCUS = "bad" => IsBad(w)
  /\ FOCUS = "good" => ~IsBad(w)
  /\ FOCUS = "pyc" => Pyc(w)
Sensible(q) ==
  /\ CLI /\ q.how = "string" => q.args = <<>>
  /\ q.rel => q.how = "file"

Done == stack = <<>> /\ nruns = RUNS

Next == \/ \E w \in What : Wanted(w) /\ Choose(w)
        \/ (next # <<>> /\ \E a \in Attributes : LET q == Request(next[1], a)
                                                IN Sensible(q) /\ (Refuse(q) \/ \E n \in 0..STEPS : Begin(q, n)))
        \/ Step
        \/ (stack # <<>> /\ \E e \in Ends(Top1) : End(e))
        \/ (Done /\ PrintT("HIST " \o ToJson(hist)) /\ nruns' = RUNS + 1 /\ UNCHANGED <<host, loaded, stack, hist, next>>)

Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Invariants *)
Restored == stack = <<>> => host = Host0
OwnMain == stack # <<>> => host.main = Top1.id
Nested == \A i \in DOMAIN stack : /\ stack[i].saved.main = (IF i = 1 THEN 0 ELSE stack[i - 1].id)
                                  /\ (i = 1 => stack[i].saved = Host0)
Told == \A i \in DOMAIN hist : hist[i].ev \in {"end", "refuse"} => hist[i].status \in 0..255
=============================================================================
