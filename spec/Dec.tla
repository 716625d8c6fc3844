-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Real-number arithmetic for specifications that are checked against      *)
(* traces of a numerical program.  A number is a decimal string, an        *)
(* integer, or the result of one of these operators.  TLC's integers are   *)
(* 32 bit, so the operators are implemented by spec/java/Dec.java with 34  *)
(* significant digits (transcendental functions: IEEE double).  The        *)
(* definitions below only fix the arity; the override gives the meaning.   *)
(* Comparisons with NaN are FALSE, hence every judgement is total.         *)
(***************************************************************************)
DAdd(x, y) == CHOOSE z \in STRING : TRUE
DSub(x, y) == CHOOSE z \in STRING : TRUE
DMul(x, y) == CHOOSE z \in STRING : TRUE
DDiv(x, y) == CHOOSE z \in STRING : TRUE
DNeg(x) == CHOOSE z \in STRING : TRUE
DAbs(x) == CHOOSE z \in STRING : TRUE
DSqrt(x) == CHOOSE z \in STRING : TRUE
DExp(x) == CHOOSE z \in STRING : TRUE
DLn(x) == CHOOSE z \in STRING : TRUE
DSin(x) == CHOOSE z \in STRING : TRUE
DCos(x) == CHOOSE z \in STRING : TRUE
DAtan2(y, x) == CHOOSE z \in STRING : TRUE
DPi == CHOOSE z \in STRING : TRUE
DMax(x, y) == CHOOSE z \in STRING : TRUE
DMin(x, y) == CHOOSE z \in STRING : TRUE
DMod(x, y) == CHOOSE z \in STRING : TRUE
DLe(x, y) == CHOOSE z \in BOOLEAN : TRUE
DLt(x, y) == CHOOSE z \in BOOLEAN : TRUE
DEq(x, y) == CHOOSE z \in BOOLEAN : TRUE
DFinite(x) == CHOOSE z \in BOOLEAN : TRUE
DSum(s) == CHOOSE z \in STRING : TRUE
DDot(s, t) == CHOOSE z \in STRING : TRUE
DStr(x) == CHOOSE z \in STRING : TRUE

(* |x - y| <= eps *)
DNear(x, y, eps) == DLe(DAbs(DSub(x, y)), eps)
(* |x - y| <= rel * |y| + abs *)
DClose(x, y, rel, abs) == DLe(DAbs(DSub(x, y)), DAdd(DMul(rel, DAbs(y)), abs))
DSq(x) == DMul(x, x)
=============================================================================
