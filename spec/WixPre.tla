------------------------------ MODULE WixPre ------------------------------
(* wixl's preprocessor.  A file is a sequence of tokens: elements opening    *)
(* and closing, text, and directives.  Preprocessing reads the tokens in     *)
(* order, keeps those in active branches and expands references.             *)
(*                                                                           *)
(* <<"open", name, <<<<attribute, template>>, ...>>>>, <<"close">>,          *)
(* <<"text", template>>, <<"comment", text>>, <<"define", name, template>>,  *)
(* <<"undef", name>>, <<"ifdef" | "ifndef", namespace, name>>,               *)
(* <<"if" | "elseif", condition>>, <<"else">>, <<"endif">>,                  *)
(* <<"include" | "require" | "warning" | "error", template>>                 *)
(*                                                                           *)
(* A template is a sequence of parts <<"lit", text>>, <<"ref", ns, name>>,   *)
(* <<"esc", ns, name>> (a reference behind $$), <<"two", text>> (text behind *)
(* $$) or <<"bad", kind>>.                                                   *)
(* A condition is a sequence of tokens <<"int", n>>, <<"str", text>>,        *)
(* <<"id", text>>, <<"ref", ns, name>>, <<"op", op>>, <<"and">>, <<"or">>,   *)
(* <<"not">>, <<"(">>, <<")">>, <<"junk">>.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

PreEmpty == [files |-> << >>]
Put1(f, k, v) == [ x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x] ]
Has(f, k) == k \in DOMAIN f
CharAt(q, i) == SubSeq(q, i, i)

(* ------------------------------ references ------------------------------ *)
Known(v) == [ok |-> TRUE, def |-> TRUE, v |-> v]
Undefined == [ok |-> TRUE, def |-> FALSE, v |-> ""]
Wrong == [ok |-> FALSE, def |-> FALSE, v |-> ""]
(* e: the definitions, environment, architecture and current file *)
Lookup(e, ns, n) ==
  CASE ns = "var" -> IF Has(e.vars, n) THEN Known(e.vars[n]) ELSE Undefined
    [] ns = "env" -> IF Has(e.env, n) THEN Known(e.env[n]) ELSE Undefined
    [] ns = "sys" /\ n = "BUILDARCH" -> Known(e.arch)
    [] ns = "sys" /\ n = "CURRENTDIR" -> Known("@")
    [] ns = "sys" /\ n = "SOURCEFILEPATH" -> Known("@/" \o e.file)
    [] OTHER -> Wrong
Part(e, p) ==
  CASE p[1] = "lit" -> Known(p[2])
    [] p[1] = "two" -> Known("$" \o p[2])
    [] p[1] = "ref" -> Lookup(e, p[2], p[3])
    [] p[1] = "esc" -> LET x == Lookup(e, p[2], p[3]) IN [x EXCEPT !.v = "$" \o @]
    [] OTHER -> Wrong
(* text with every reference expanded; an undefined one is an error *)
Expand(e, tpl) ==
  FoldLeft(LAMBDA a, p : IF ~a.ok THEN a ELSE LET x == Part(e, p) IN IF x.ok /\ x.def THEN Known(a.v \o x.v) ELSE Wrong, Known(""), tpl)

(* ------------------------------ conditions ------------------------------ *)
Digits == "0123456789"
Digit(c) == CHOOSE d \in 0..9 : CharAt(Digits, d + 1) = c
IsDigit(c) == \E d \in 1..10 : CharAt(Digits, d) = c
Number(q) ==
  LET neg == Len(q) > 0 /\ CharAt(q, 1) = "-"
      ds == FoldLeft(LAMBDA a, i : IF a.on /\ IsDigit(CharAt(q, i)) THEN [a EXCEPT !.n = @ * 10 + Digit(CharAt(q, i))] ELSE [a EXCEPT !.on = FALSE],
                     [on |-> TRUE, n |-> 0], [ i \in 1..(Len(q) - (IF neg THEN 1 ELSE 0)) |-> IF neg THEN i + 1 ELSE i ])
  IN  IF neg THEN 0 - ds.n ELSE ds.n
Letters == "abcdefghijklmnopqrstuvwxyz"
Capitals == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerC(c) == IF \E i \in 1..26 : CharAt(Capitals, i) = c THEN CharAt(Letters, CHOOSE i \in 1..26 : CharAt(Capitals, i) = c) ELSE c
Lower(q) == FoldLeft(LAMBDA a, i : a \o LowerC(CharAt(q, i)), "", [ i \in 1..Len(q) |-> i ])

(* values of terms: text, its number, whether it counts as true by itself *)
IntVal(n) == [def |-> TRUE, txt |-> ToString(n), num |-> n, yes |-> n # 0]
TxtVal(q) == [def |-> TRUE, txt |-> q, num |-> Number(q), yes |-> FALSE]
NoVal == [def |-> FALSE, txt |-> "", num |-> 0, yes |-> FALSE]
BoolVal(b) == [def |-> TRUE, txt |-> IF b THEN "TRUE" ELSE "FALSE", num |-> IF b THEN 1 ELSE 0, yes |-> b]
Got(v, rest) == [ok |-> TRUE, v |-> v, rest |-> rest]
Lost == [ok |-> FALSE, v |-> NoVal, rest |-> << >>]
Is(tk, k) == tk # << >> /\ Head(tk)[1] = k

Compared(op, a, b) ==
  CASE op = "=" -> a.def = b.def /\ a.txt = b.txt
    [] op = "!=" -> ~(a.def = b.def /\ a.txt = b.txt)
    [] op = "~=" -> a.def = b.def /\ Lower(a.txt) = Lower(b.txt)
    [] op = "<" -> a.num < b.num
    [] op = "<=" -> a.num <= b.num
    [] op = ">" -> a.num > b.num
    [] op = ">=" -> a.num >= b.num

RECURSIVE Term(_, _), Cmp(_, _), NotTerm(_, _), Chain(_, _, _), Cond(_, _)
Term(e, tk) ==
  IF tk = << >> THEN Lost
  ELSE LET h == Head(tk) r == Tail(tk) IN
    CASE h[1] = "(" -> LET x == Cond(e, r) IN IF x.ok /\ Is(x.rest, ")") THEN Got(x.v, Tail(x.rest)) ELSE Lost
      [] h[1] = "int" -> Got(IntVal(h[2]), r)
      [] h[1] \in {"str", "id"} -> Got(TxtVal(h[2]), r)
      [] h[1] = "ref" -> LET x == Lookup(e, h[2], h[3]) IN IF ~x.ok THEN Lost ELSE Got(IF x.def THEN TxtVal(x.v) ELSE NoVal, r)
      [] OTHER -> Lost
Cmp(e, tk) ==
  LET a == Term(e, tk) IN
  IF ~a.ok \/ ~Is(a.rest, "op") THEN a
  ELSE LET b == Term(e, Tail(a.rest)) IN IF b.ok THEN Got(BoolVal(Compared(Head(a.rest)[2], a.v, b.v)), b.rest) ELSE Lost
NotTerm(e, tk) == IF Is(tk, "not") THEN LET x == NotTerm(e, Tail(tk)) IN IF x.ok THEN Got(BoolVal(~x.v.yes), x.rest) ELSE Lost ELSE Cmp(e, tk)
(* and, or: of the same rank, grouped from the left *)
Chain(e, v, tk) ==
  IF Is(tk, "and") \/ Is(tk, "or")
  THEN LET x == NotTerm(e, Tail(tk)) IN
       IF ~x.ok THEN Lost ELSE Chain(e, BoolVal(IF Is(tk, "and") THEN v.yes /\ x.v.yes ELSE v.yes \/ x.v.yes), x.rest)
  ELSE Got(BoolVal(v.yes), tk)
Cond(e, tk) == LET x == NotTerm(e, tk) IN IF x.ok THEN Chain(e, x.v, x.rest) ELSE Lost
(* (a condition with text behind it is left out) *)
Holds(e, tk) == LET x == Cond(e, tk) IN [ok |-> x.ok, yes |-> x.ok /\ x.v.yes, left |-> x.ok /\ x.rest # << >>]

(* ------------------------------- includes ------------------------------- *)
DirOf(path) ==
  LET at == { i \in 1..Len(path) : CharAt(path, i) = "/" } IN
  IF at = {} THEN "" ELSE SubSeq(path, 1, CHOOSE i \in at : \A j \in at : j <= i)
BaseOf(path) == SubSeq(path, Len(DirOf(path)) + 1, Len(path))
(* as named, in the directories to search, beside the including file *)
Places(name, dirs, file) == << name >> \o [ i \in DOMAIN dirs |-> dirs[i] \o "/" \o name ] \o << DirOf(file) \o name >>
Found(files, name, dirs, file) ==
  LET ps == Places(name, dirs, file)
      hit == { i \in DOMAIN ps : Has(files, ps[i]) }
  IN  IF name = "" \/ hit = {} THEN "" ELSE ps[CHOOSE i \in hit : \A j \in hit : i <= j]

(* ------------------------------- the machine ---------------------------- *)
Ctx(en, yes) == [en |-> en, yes |-> yes, never |-> ~yes, in |-> TRUE]
Top == [en |-> TRUE, yes |-> TRUE, never |-> FALSE, in |-> FALSE]
Frame(file, inc) == [file |-> file, pc |-> 1, ctx |-> Top, stack |-> << >>, inc |-> inc, depth |-> 0]
Begin(main, defs, env, arch, dirs) ==
  [vars |-> defs, env |-> env, arch |-> arch, dirs |-> dirs, file |-> main, req |-> {}, frames |-> << Frame(main, FALSE) >>,
   out |-> << >>, msgs |-> << >>, run |-> TRUE, ok |-> TRUE, odd |-> FALSE, deep |-> FALSE]
Active(f) == f.ctx.en /\ f.ctx.yes
Failed(m) == [m EXCEPT !.run = FALSE, !.ok = FALSE]
WithTop(m, f) == [m EXCEPT !.frames[1] = f]
Push(m, f, en, yes) == WithTop(m, [f EXCEPT !.stack = << f.ctx >> \o @, !.ctx = Ctx(en, yes)])
Text(out, q) == IF q = "" THEN out
                ELSE IF out # << >> /\ out[Len(out)][1] = "text" THEN [out EXCEPT ![Len(out)] = << "text", @[2] \o q >>] ELSE Append(out, << "text", q >>)
Opened(m, t) ==
  LET as == [ i \in DOMAIN t[3] |-> Expand(m, t[3][i][2]) ] IN
  IF \A i \in DOMAIN as : as[i].ok THEN [m EXCEPT !.out = Append(@, << "open", t[2], [ i \in DOMAIN as |-> << t[3][i][1], as[i].v >> ] >>)] ELSE Failed(m)
Said(m, kind, q) == [m EXCEPT !.msgs = Append(@, << kind, BaseOf(m.file), q >>)]
MaxDepth == 12

Included(m, f, t) ==
  LET x == Expand(m, t[2]) IN
  IF ~x.ok THEN Failed(m)
  ELSE IF Len(m.frames) > MaxDepth THEN [Failed(m) EXCEPT !.deep = TRUE]
  ELSE IF t[1] = "require" /\ x.v \in m.req THEN m
  ELSE LET p == Found(m.files, x.v, m.dirs, m.file)
           m2 == IF t[1] = "require" THEN [m EXCEPT !.req = @ \union {x.v}] ELSE m
       IN  IF p = "" THEN Failed(m)
           ELSE [m2 EXCEPT !.frames = << Frame(p, TRUE) >> \o @, !.file = p]

Directive(m, f, t) ==
  CASE t[1] = "open" ->
         LET g == [f EXCEPT !.depth = @ + 1] IN
         IF f.inc /\ f.depth = 0 /\ t[2] = "Include" THEN WithTop(m, g) ELSE Opened(WithTop(m, g), t)
    [] t[1] = "text" -> LET x == Expand(m, t[2]) IN IF x.ok THEN [m EXCEPT !.out = Text(@, x.v)] ELSE Failed(m)
    [] t[1] = "comment" -> m
    [] t[1] = "define" -> LET x == Expand(m, t[3]) IN IF x.ok /\ t[2] # "" THEN [m EXCEPT !.vars = Put1(@, t[2], x.v)] ELSE Failed(m)
    [] t[1] = "undef" -> [m EXCEPT !.vars = [ n \in DOMAIN @ \ {t[2]} |-> @[n] ]]
    [] t[1] \in {"include", "require"} -> Included(m, f, t)
    [] t[1] = "warning" -> LET x == Expand(m, t[2]) IN IF x.ok THEN Said(m, "warning", x.v) ELSE Failed(m)
    [] t[1] = "error" -> LET x == Expand(m, t[2]) IN IF x.ok THEN Failed(Said(m, "error", x.v)) ELSE Failed(m)

One(m, f, t) ==
  LET act == Active(f) IN
  CASE t[1] \in {"ifdef", "ifndef"} ->
         LET x == Lookup(m, t[2], t[3]) IN
         IF act /\ ~x.ok THEN Failed(m) ELSE Push(m, f, act, act /\ (x.def = (t[1] = "ifdef")))
    [] t[1] = "if" -> LET x == Holds(m, t[2]) IN IF act /\ ~x.ok THEN Failed(m) ELSE [Push(m, f, act, act /\ x.yes) EXCEPT !.odd = @ \/ (act /\ x.left)]
    [] t[1] = "elseif" ->
         IF f.stack = << >> \/ ~f.ctx.in THEN Failed(m)
         ELSE LET try == f.ctx.en /\ f.ctx.never
                  x == Holds(m, t[2])
              IN  IF try /\ ~x.ok THEN Failed(m)
                  ELSE [WithTop(m, [f EXCEPT !.ctx = [@ EXCEPT !.yes = try /\ x.yes, !.never = @ /\ ~(try /\ x.yes)]]) EXCEPT !.odd = @ \/ (try /\ x.left)]
    [] t[1] = "else" -> IF f.stack = << >> \/ ~f.ctx.in THEN Failed(m) ELSE WithTop(m, [f EXCEPT !.ctx = [@ EXCEPT !.yes = f.ctx.never, !.in = FALSE]])
    [] t[1] = "endif" -> IF f.stack = << >> THEN Failed(m) ELSE WithTop(m, [f EXCEPT !.ctx = Head(f.stack), !.stack = Tail(f.stack)])
    (* elements close where they were opened *)
    [] t[1] = "close" -> IF ~act THEN m
                         ELSE IF f.inc /\ f.depth = 1 /\ t[2] = "Include" THEN WithTop(m, [f EXCEPT !.depth = 0])
                         ELSE [WithTop(m, [f EXCEPT !.depth = @ - 1]) EXCEPT !.out = Append(@, << "close" >>)]
    [] OTHER -> IF act THEN Directive(m, f, t) ELSE m

Step(m) ==
  IF ~m.run THEN m
  ELSE LET f == m.frames[1] toks == m.files[f.file] IN
    IF f.pc > Len(toks)
    THEN IF f.stack # << >> THEN Failed(m)
         ELSE IF Len(m.frames) = 1 THEN [m EXCEPT !.run = FALSE]
         ELSE [m EXCEPT !.frames = Tail(@), !.file = m.frames[2].file]
    ELSE LET g == [f EXCEPT !.pc = @ + 1] IN One(WithTop(m, g), g, toks[f.pc])
RECURSIVE Run(_, _)
(* (in slices, which TLC evaluates faster than one deep recursion) *)
Run(m, n) == IF ~m.run \/ n = 0 THEN m ELSE Run(TLCEval(FoldLeft(LAMBDA a, i : IF a.run THEN TLCEval(Step(a)) ELSE a, m, [ i \in 1..40 |-> i ])), n - 1)
Fuel == 60

Processed(s, main, defs, env, arch, dirs) ==
  LET b == Begin(main, defs, env, arch, dirs)
      m == Run([ k \in DOMAIN b \union {"files"} |-> IF k = "files" THEN s.files ELSE b[k] ], Fuel)
  IN  IF m.odd THEN << "odd" >> ELSE IF m.deep \/ m.run THEN << "fail" >> ELSE IF ~m.ok THEN << "fail", m.msgs >> ELSE << "doc", m.out, m.msgs >>

(* definitions given as name, value pairs; later ones win *)
Pairs(q) == FoldLeft(LAMBDA a, d : Put1(a, d[1], d[2]), << >>, q)

PRes(s, r) == [s |-> s, r |-> r]
PreStep(s, op) ==
  CASE op[1] = "file" -> PRes([s EXCEPT !.files = Put1(@, op[2], op[3])], << "ok" >>)
    (* before the last tag *)
    [] op[1] = "add" -> PRes([s EXCEPT !.files = Put1(@, op[2], SubSeq(@[op[2]], 1, Len(@[op[2]]) - 1) \o op[3] \o << @[op[2]][Len(@[op[2]])] >>)], << "ok" >>)
    (* <<"pp", main, definitions, environment, architecture, directories>> *)
    [] op[1] = "pp" -> PRes(s, Processed(s, op[2], Pairs(op[3]), Pairs(op[4]), op[5], op[6]))
PreMatch(op, obs, r) == r = << "odd" >> \/ (r = << "fail" >> /\ obs[1] = "fail") \/ obs = r
PreOk(s) == TRUE

(* What has to hold of every result: text that no active branch carries does *)
(* not appear, elements balance, and a document without directives and       *)
(* references comes out as it is.                                            *)
Balanced(out) ==
  FoldLeft(LAMBDA a, t : IF ~a.ok THEN a ELSE IF t[1] = "open" THEN [a EXCEPT !.d = @ + 1]
                         ELSE IF t[1] = "close" THEN [d |-> a.d - 1, ok |-> a.d > 0] ELSE a, [d |-> 0, ok |-> TRUE], out) = [d |-> 0, ok |-> TRUE]
Directives == {"define", "undef", "ifdef", "ifndef", "if", "elseif", "else", "endif", "include", "require", "warning", "error"}
Plain(t) == t[1] \in {"close"} \/ (t[1] = "text" /\ \A i \in DOMAIN t[2] : t[2][i][1] = "lit") \/ (t[1] = "open" /\ \A i \in DOMAIN t[3] : \A j \in DOMAIN t[3][i][2] : t[3][i][2][j][1] = "lit")
PreStepOk(s, op, x) ==
  op[1] = "pp" =>
    LET r == x.r toks == s.files[op[2]] IN
    /\ r[1] = "doc" => Balanced(r[2])
    /\ (\A i \in DOMAIN toks : Plain(toks[i])) => r[1] = "doc" /\ Len(SelectSeq(r[2], LAMBDA t : t[1] = "open")) = Len(SelectSeq(toks, LAMBDA t : t[1] = "open"))
    /\ r[1] \in {"doc", "odd"} => Cardinality({ i \in DOMAIN toks : toks[i][1] \in {"if", "ifdef", "ifndef"} }) = Cardinality({ i \in DOMAIN toks : toks[i][1] = "endif" })
=============================================================================
