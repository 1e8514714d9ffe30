------------------------------ MODULE DecText ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
(* ------------------------------------------------ text that is an integer *)
DigVal == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
ChAt(t, k) == SubSeq(t, k, k)
(* modulo 2^32, in two halves, because TLC's integers have 32 bits *)
RECURSIVE Limbs(_, _, _)
Limbs(t, k, x) ==
  IF k > Len(t) THEN x
  ELSE LET lo == x[2] * 10 + DigVal[ChAt(t, k)] IN
       Limbs(t, k + 1, << (x[1] * 10 + lo \div 65536) % 65536, lo % 65536 >>)
Negate(x) == IF x = <<0, 0>> THEN x
             ELSE IF x[2] = 0 THEN << (65536 - x[1]) % 65536, 0 >> ELSE << 65535 - x[1], 65536 - x[2] >>
Signed(x) == IF x[1] >= 32768 THEN (x[1] - 65536) * 65536 + x[2] ELSE x[1] * 65536 + x[2]
IsDecimal(t) ==
  LET from == IF Len(t) > 0 /\ ChAt(t, 1) = "-" THEN 2 ELSE 1 IN
  \A k \in from..Len(t) : ChAt(t, k) \in DOMAIN DigVal
DecimalOf(t) == IF ChAt(t, 1) = "-" THEN Signed(Negate(Limbs(t, 2, <<0, 0>>))) ELSE Signed(Limbs(t, 1, <<0, 0>>))
NullInt == -2147483647 - 1
(* the integer a text stands for in a record's field, or none *)
TextIsInt(t) == IsDecimal(t) /\ DecimalOf(t) # NullInt
=============================================================================
