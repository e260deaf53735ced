-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Decimal arithmetic for the specification.  TLC has 32-bit integers only *)
(* while every quantity of the modelled system is a real number.  A number *)
(* is the string of its decimal representation ("0.25", "-3e-7", "inf",    *)
(* "nan"); the operators below are evaluated by Num.java (java.math        *)
(* BigDecimal, 34 significant digits), loaded by TLC as a module override. *)
(* They are declared, not defined: their meaning is ordinary arithmetic    *)
(* over the reals extended with inf.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Num == STRING                       \* (a subset of)

NAdd(a, b)    == CHOOSE r \in STRING : TRUE       \* a + b
NSub(a, b)    == CHOOSE r \in STRING : TRUE       \* a - b
NMul(a, b)    == CHOOSE r \in STRING : TRUE       \* a * b      (0 * inf = 0)
NDiv(a, b)    == CHOOSE r \in STRING : TRUE       \* a / b      (x/0 = inf, 0/0 = nan, x/inf = 0)
NSqrt(a)      == CHOOSE r \in STRING : TRUE
NCosDeg(a)    == CHOOSE r \in STRING : TRUE
NSinDeg(a)    == CHOOSE r \in STRING : TRUE
NInt(i)       == CHOOSE r \in STRING : TRUE       \* TLC integer -> number
NLt(a, b)     == CHOOSE r \in BOOLEAN : TRUE      \* exact comparisons
NLe(a, b)     == CHOOSE r \in BOOLEAN : TRUE
NEq(a, b)     == CHOOSE r \in BOOLEAN : TRUE      \* numeric equality ("1.0" = "1")
NClose(a, b)  == CHOOSE r \in BOOLEAN : TRUE      \* |a-b| <= 1e-9 + 1e-9 max(|a|,|b|)
NCloseT(a, b, tol) == CHOOSE r \in BOOLEAN : TRUE \* |a-b| <= tol (1 + max(|a|,|b|))
NIsNum(a)     == CHOOSE r \in BOOLEAN : TRUE      \* the string reads as a number other than nan
NIsInt(a)     == CHOOSE r \in BOOLEAN : TRUE      \* ... an optional sign and digits
NToInt(a)     == CHOOSE r \in Int : TRUE          \* integer value (of an integral number)
NRound(a, k)  == CHOOSE r \in STRING : TRUE       \* a rounded half-up to k decimals
\* Text helpers (TLC has no string indexing)
SSplit(s, sep)   == CHOOSE r \in Seq(STRING) : TRUE  \* pieces of s between occurrences of sep
SWords(s)        == CHOOSE r \in Seq(STRING) : TRUE  \* whitespace separated words
SLower(s)        == CHOOSE r \in STRING : TRUE
SStarts(s, p)    == CHOOSE r \in BOOLEAN : TRUE
STrim(s)         == CHOOSE r \in STRING : TRUE
SCat(s, t)       == CHOOSE r \in STRING : TRUE

NLtTol(a, b)  == NLt(a, b) /\ ~NClose(a, b)       \* clearly smaller
NLeTol(a, b)  == NLe(a, b) \/ NClose(a, b)        \* not clearly larger
NMax(a, b)    == IF NLt(a, b) THEN b ELSE a
NMin(a, b)    == IF NLt(b, a) THEN b ELSE a
NNeg(a)       == NSub("0", a)

RECURSIVE NSumTo(_, _)
NSumTo(s, k)  == IF k = 0 THEN "0" ELSE NAdd(NSumTo(s, k - 1), s[k])
NSum(s)       == NSumTo(s, Len(s))                \* sum of a sequence

RECURSIVE NSumSet(_, _)
NSumSet(f, S) == IF S = {} THEN "0"               \* sum of f[x] for x \in S
                 ELSE LET x == CHOOSE x \in S : TRUE IN NAdd(f[x], NSumSet(f, S \ {x}))
RECURSIVE NMaxSet(_, _)
NMaxSet(f, S) == IF S = {} THEN "0"               \* max of 0 and f[x]
                 ELSE LET x == CHOOSE x \in S : TRUE IN NMax(f[x], NMaxSet(f, S \ {x}))
=============================================================================
