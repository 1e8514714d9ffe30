------------------------------- MODULE MC_Ids -------------------------------
(* Every short history of edits and builds over a few things (PART: which).  *)
EXTENDS WixIds, MCRun
TheDepth == EnvInt("DEPTH", 3)
ThePart == EnvInt("PART", 1)
F(n) == << "file", n >>
R(root, key, name, form) == << "reg", root, key, name, form >>
G1 == "aBcDeF01-2345-6789-abcd-EF0123456789"
G2 == "{ABCDEF01-2345-6789-ABCD-EF0123456780}"
Comps ==
  CASE ThePart = 1 -> { << "comp", i, p, F(n), "*" >> : i \in {"A", "B"}, p \in {"D1", "ref:D2", "group"}, n \in {"a", "b"} }
    [] ThePart = 2 -> { << "comp", "A", p, R(r, k, n, f), "*" >> : p \in {"D1"}, r \in {"HKLM", "HKCU"}, k \in {"K", "K\\L"}, n \in {"none", "N"}, f \in {"direct", "nested", "split", "over"} }
    [] ThePart = 3 -> { << "comp", "A", "D1", F("a"), g >> : g \in {"*", "", G1, G2} }
    [] OTHER -> {}
Values == CASE ThePart = 2 -> { << "value", "A", "HKLM", "K", n, f >> : n \in {"none", "n", "L"}, f \in {"direct", "nested"} }
            [] ThePart = 4 -> { << "value", "A", r, k, n, "direct" >> : r \in {"HKCR"}, k \in {"P", ".x", "a|b", "a"}, n \in {"none", "b", "|b", "Content Type"} } \union { << "value", "A", "HKLM", "a", "none", "direct" >> }
            [] OTHER -> {}
Progs == IF ThePart = 4 THEN { << "prog", "A", g, e, c, v, m >> : g \in {"P", ".x"}, e \in {"", "x"}, c \in {"", "P"}, v \in {"", "open"}, m \in {"", "P"} } \ { << "prog", "A", g, "", c, v, m >> : g \in {"P", ".x"}, c \in {"", "P"}, v \in {"", "open"}, m \in {"P"} } ELSE {}
Codes == IF ThePart = 3 THEN { << "codes", a, b >> : a \in {"*", G1, G2}, b \in {"", G1, G2} } \union { << "upgrade", g >> : g \in {G1, G2} } ELSE {}
Moves == IF ThePart = 1 THEN { << "move", "A", p >> : p \in {"TARGETDIR", "D1", "D2", "D3", "D4", "ref:D1", "ref:D3", "group"} } ELSE {}
ThePrelude == IF ThePart = 4 THEN << << "comp", "A", "D1", F("a"), "*" >> >> ELSE << >>
Has(x, i) == \E k \in DOMAIN x.comps : x.comps[k][1] = i
TheOps(x) ==
  { << "build", a >> : a \in {"x86", "x64"} } \union
  (IF Len(hist) + 1 >= TheDepth THEN {}
   ELSE { c \in Comps : ~Has(x, c[2]) } \union { v \in Values \union Progs : Has(x, v[2]) /\ \A k \in DOMAIN x.progs : v[1] # "prog" }
        \union { c \in Codes : c[1] = "codes" \/ Len(x.ups) = 0 } \union { m \in Moves : Has(x, m[2]) } \union { << "drop", x.comps[k][1] >> : k \in DOMAIN x.comps })
=============================================================================
