-------------------------------- MODULE Strs --------------------------------
(* Character-level operators on strings (TLC evaluates Len and SubSeq on     *)
(* strings), used for domain names and wildcard patterns.                    *)
EXTENDS Integers, Sequences

Ch(s, i) == SubSeq(s, i, i)

UpperChars == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerChars == "abcdefghijklmnopqrstuvwxyz"
UpperSet == {Ch(UpperChars, i) : i \in 1..26}
LowerOf == [c \in UpperSet |->
              LET i == CHOOSE k \in 1..26 : Ch(UpperChars, k) = c IN Ch(LowerChars, i)]

HasUpper(s) == \E i \in 1..Len(s) : Ch(s, i) \in UpperSet

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Ch(s, i) \in UpperSet THEN LowerOf[Ch(s, i)] ELSE Ch(s, i)) \o LowerFrom(s, i + 1)

\* DNS names compare case-insensitively
Lower(s) == IF HasUpper(s) THEN LowerFrom(s, 1) ELSE s

HasWild(p) == \E i \in 1..Len(p) : Ch(p, i) \in {"*", "?", "["}

\* characters of names in their order, for ranges
Ordered == "-.0123456789_abcdefghijklmnopqrstuvwxyz"
Ord(c) == IF \E i \in 1..Len(Ordered) : Ch(Ordered, i) = c THEN CHOOSE i \in 1..Len(Ordered) : Ch(Ordered, i) = c ELSE 0

\* c is one of the characters p[i..k]: single ones and ranges
RECURSIVE InSet(_, _, _, _)
InSet(p, i, k, c) ==
  IF i > k THEN FALSE
  ELSE IF i + 2 <= k /\ Ch(p, i + 1) = "-" THEN (Ord(Ch(p, i)) <= Ord(c) /\ Ord(c) <= Ord(Ch(p, i + 2))) \/ InSet(p, i + 3, k, c)
  ELSE Ch(p, i) = c \/ InSet(p, i + 1, k, c)

\* where the set of characters that begins at i ends
SetEnd(p, i) == CHOOSE k \in i..Len(p) : Ch(p, k) = "]" /\ \A n \in i..(k - 1) : Ch(p, n) # "]"

\* shell-style wildcard match: * any run of characters, ? any one character,
\* [...] one of the set, [!...] one not of it
RECURSIVE GlobAt(_, _, _, _)
GlobAt(p, i, s, j) ==
  IF i > Len(p) THEN j > Len(s)
  ELSE IF Ch(p, i) = "*" THEN \E k \in j..(Len(s) + 1) : GlobAt(p, i + 1, s, k)
  ELSE IF j > Len(s) THEN FALSE
  ELSE IF Ch(p, i) = "["
       THEN LET k == SetEnd(p, i)  not == Ch(p, i + 1) = "!"
            IN InSet(p, IF not THEN i + 2 ELSE i + 1, k - 1, Ch(s, j)) # not /\ GlobAt(p, k + 1, s, j + 1)
  ELSE IF Ch(p, i) = "?" \/ Ch(p, i) = Ch(s, j) THEN GlobAt(p, i + 1, s, j + 1)
  ELSE FALSE

Glob(p, s) == IF p = "*" THEN TRUE ELSE GlobAt(p, 1, s, 1)

\* the proper parent domains of s, longest first: positions after each dot
\* (a dot in the first position is not a label boundary)
RECURSIVE ParentsFrom(_, _)
ParentsFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF Ch(s, i) = "." THEN <<SubSeq(s, i + 1, Len(s))>> \o ParentsFrom(s, i + 1)
  ELSE ParentsFrom(s, i + 1)

Parents(s) == ParentsFrom(s, 2)

\* s itself, then its parents
DomainPath(s) == <<s>> \o Parents(s)

\* d is s or a subdomain of it
RECURSIVE Under(_, _)
Under(d, s) == \E k \in 1..Len(DomainPath(d)) : DomainPath(d)[k] = s
=============================================================================
