------------------------------- MODULE MC_Pre -------------------------------
(* Small documents over one family of directives at a time (PART).           *)
EXTENDS WixPre, MCRun
TheDepth == EnvInt("DEPTH", 5)
ThePart == EnvInt("PART", 1)
L(q) == << "lit", q >>
V(n) == << "ref", "var", n >>
T(q) == << "text", << L(q) >> >>
E(n, a, q) == << << "open", n, << << a, q >> >> >>, << "close", n >> >>
Tok(t) == << t >>
Yes == << << "int", 1 >> >>
No == << << "int", 0 >> >>
Bad == << << ")" >> >>

(* 1: conditionals *)
Conds == { Tok(T("a")), Tok(<< "if", Yes >>), Tok(<< "if", No >>), Tok(<< "if", Bad >>), Tok(<< "elseif", Yes >>), Tok(<< "elseif", No >>), Tok(<< "elseif", Bad >>),
           Tok(<< "else" >>), Tok(<< "endif" >>), Tok(<< "ifdef", "var", "A" >>), Tok(<< "ifndef", "var", "A" >>) }
(* 2: definitions and references *)
Vars == { Tok(<< "define", "A", << L("1") >> >>), Tok(<< "define", "A", << V("B"), L("x") >> >>), Tok(<< "define", "B", << V("A") >> >>), Tok(<< "define", "B", << L("") >> >>),
          Tok(<< "undef", "A" >>), Tok(<< "text", << L("$<"), V("A"), V("A"), << "two", "c" >> >> >>), E("b", "c", << V("B"), L("-$"), V("A") >>), Tok(<< "ifdef", "var", "A" >>), Tok(<< "ifndef", "var", "B" >>),
          Tok(<< "endif" >>), Tok(<< "if", << << "ref", "var", "A" >>, << "op", "=" >>, << "ref", "var", "B" >> >> >>), Tok(<< "text", << << "esc", "var", "A" >> >> >>),
          Tok(<< "warning", << V("B") >> >>) }
(* 3: includes *)
Root(q) == << << "open", "Include", << >> >> >> \o q \o << << "close", "Include" >> >>
World == << << "file", "c/m.wxs", << << "open", "a", << >> >>, << "close", "a" >> >> >>,
            << "file", "x.wxi", Root(<< T("cwd") >>) >>,
            << "file", "i/x.wxi", Root(<< T("i") >>) >>, << "file", "i/y.wxi", Root(Tok(<< "text", << L("iy"), V("A") >> >>) \o Tok(<< "include", << L("z.wxi") >> >>)) >>,
            << "file", "j/y.wxi", Root(<< T("jy") >>) >>, << "file", "j/z.wxi", Root(<< T("jz"), << "define", "A", << L("3") >> >> >>) >>, << "file", "c/z.wxi", Root(<< T("cz") >>) >>,
            << "file", "i/z.wxi", Root(Tok(<< "require", << L("x.wxi") >> >>) \o E("e", "f", << V("A") >>)) >>,
            << "file", "c/p.wxi", << << "open", "plain", << >> >>, << "open", "Include", << >> >>, << "close", "Include" >>, << "close", "plain" >> >> >>,
            << "file", "c/o.wxi", Root(<< << "if", Yes >> >>) >>, << "file", "c/e.wxi", Root(<< << "endif" >> >>) >>, << "file", "c/l.wxi", Root(<< << "include", << L("l.wxi") >> >> >>) >>,
            << "file", "c/g.wxi", Root(<< << "ifndef", "var", "G" >>, << "define", "G", << L("1") >> >>, T("g"), << "include", << L("g.wxi") >> >>, << "endif" >> >>) >> >>
Incs == { Tok(<< k, << L(n) >> >>) : k \in {"include", "require"}, n \in {"x.wxi", "y.wxi", "c/z.wxi", "p.wxi", "none.wxi"} }
        \union { Tok(<< "include", << L("z.wxi") >> >>), Tok(<< "include", << L("o.wxi") >> >>), Tok(<< "include", << L("e.wxi") >> >>), Tok(<< "include", << L("l.wxi") >> >>), Tok(<< "include", << L("g.wxi") >> >>),
                 Tok(<< "include", << V("A"), L(".wxi") >> >>), Tok(<< "define", "A", << L("z") >> >>), Tok(<< "if", No >>), Tok(<< "endif" >>), Tok(<< "include", << >> >>), Tok(T("t")) }
(* 4: conditions *)
Atoms == { << << "int", 0 >> >>, << << "int", 2 >> >>, << << "int", 10 >> >>, << << "str", "10" >> >>, << << "str", "2" >> >>, << << "id", "Ab" >> >>, << << "str", "aB" >> >>, << << "str", "" >> >>,
           << << "ref", "var", "TEN" >> >>, << << "ref", "var", "ab" >> >>, << << "ref", "var", "gone" >> >>, << << "ref", "env", "TWO" >> >>, << << "ref", "sys", "BUILDARCH" >> >>, << << "id", "x64" >> >> }
Cmps == { a \o << << "op", o >> >> \o b : a \in Atoms, b \in Atoms, o \in {"=", "!=", "~=", "<", "<=", ">", ">="} }
Par(x) == << << "(" >> >> \o x \o << << ")" >> >>
Bools == { Yes, No, << << "not" >> >> \o Yes, << << "int", 2 >>, << "op", "<" >>, << "int", 10 >> >>, << << "str", "t" >> >>, << << "ref", "var", "TEN" >> >> }
Joins == { a \o << << k >> >> \o b : a \in Bools, b \in Bools, k \in {"and", "or"} }
Threes == { a \o << << k >> >> \o b : a \in { Yes, No, << << "not" >> >> \o No }, b \in Joins, k \in {"and", "or"} }
          \union { Par(a) \o << << k >> >> \o b : a \in Joins, b \in {Yes, No}, k \in {"and", "or"} }
          \union { a \o << << k >> >> \o Par(b) : b \in Joins, a \in {Yes, No}, k \in {"and", "or"} }
          \union { << << "not" >> >> \o Par(b) : b \in Joins } \union { Par(Par(b)) : b \in Bools }
Wrongs == { << >>, << << "op", "=" >> >>, << << "int", 1 >>, << "op", "=" >> >>, << << "not" >> >>, << << "and" >> >>, << << "int", 1 >>, << "or" >> >>, << << "(" >>, << "int", 1 >> >>,
            << << "junk" >> >>, << << "ref", "", "A" >> >>, << << "ref", "fun", "A" >> >>, << << "ref", "sys", "NO" >> >>, << << "int", 0 >>, << "and" >>, << "junk" >> >>, << << "int", 1 >>, << "or" >>, << ")" >> >> }
AllConds == Atoms \union Cmps \union Joins \union Threes \union Wrongs
Shown(c) == << << "if", c >>, T("y"), << "else" >>, T("n"), << "endif" >> >>

Main == "c/m.wxs"
Blank == << "file", Main, << << "open", "a", << >> >>, << "close", "a" >> >> >>
ThePrelude == IF ThePart = 3 THEN World ELSE << Blank >>
Defs == << << "TEN", "10" >>, << "ab", "aB" >>, << "A", "0" >> >>
Env == << << "TWO", "2" >> >>
PPs == CASE ThePart = 1 -> { << "pp", Main, << >>, << >>, "x86", << >> >> }
         [] ThePart = 2 -> { << "pp", Main, d, << >>, "x86", << >> >> : d \in { << >>, << << "A", "9" >> >>, << << "B", "9=&" >>, << "B", "8" >> >> } }
         [] ThePart = 3 -> { << "pp", Main, << << "A", "y" >> >>, << >>, "x86", d >> : d \in { << >>, << "i" >>, << "j", "i" >> } }
         [] OTHER -> { << "pp", Main, Defs, Env, "x64", << >> >> }
Tokens == CASE ThePart = 1 -> Conds [] ThePart = 2 -> Vars [] ThePart = 3 -> Incs [] OTHER -> {}
(* what is certainly wrong already is not extended *)
Hopeless(x) == \A p \in PPs : LET r == DoStep(x, p).r IN r[1] = "fail" /\
                  (LET toks == x.files[Main]
                       open == Cardinality({ i \in DOMAIN toks : toks[i][1] \in {"if", "ifdef", "ifndef"} }) - Cardinality({ i \in DOMAIN toks : toks[i][1] = "endif" })
                   IN  open <= 0 \/ DoStep([x EXCEPT !.files[Main] = SubSeq(@, 1, Len(@) - 1) \o [ i \in 1..open |-> << "endif" >> ] \o << @[Len(@)] >>], p).r[1] = "fail")
LastTok(x) == LET t == x.files[Main] IN t[Len(t) - 1]
TheOps(x) ==
  PPs \union
  (IF ThePart = 4 THEN (IF Len(x.files[Main]) > 2 THEN {} ELSE { << "add", Main, Shown(c) >> : c \in AllConds })
   ELSE IF Hopeless(x) THEN {} ELSE { << "add", Main, t >> : t \in { y \in Tokens : ~(y[1][1] = "text" /\ LastTok(x) = y[1]) } })
=============================================================================
