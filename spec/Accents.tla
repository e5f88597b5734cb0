------------------------------ MODULE Accents -------------------------------
(* The letters an accent can be applied to, and what they become.             *)
EXTENDS Integers, Sequences, FiniteSets

(* <<accent, letter, accented letter>>                                        *)
AccentTable == {
  <<96, 97, 224>>, <<96, 101, 232>>, <<96, 105, 236>>, <<96, 111, 242>>, <<96, 117, 249>>,
  <<96, 65, 192>>, <<96, 69, 200>>, <<96, 73, 204>>, <<96, 79, 210>>, <<96, 85, 217>>,
  <<39, 97, 225>>, <<39, 101, 233>>, <<39, 105, 237>>, <<39, 111, 243>>, <<39, 117, 250>>, <<39, 121, 253>>,
  <<39, 65, 193>>, <<39, 69, 201>>, <<39, 73, 205>>, <<39, 79, 211>>, <<39, 85, 218>>, <<39, 89, 221>>,
  <<94, 97, 226>>, <<94, 101, 234>>, <<94, 105, 238>>, <<94, 111, 244>>, <<94, 117, 251>>,
  <<94, 65, 194>>, <<94, 69, 202>>, <<94, 73, 206>>, <<94, 79, 212>>, <<94, 85, 219>>,
  <<34, 97, 228>>, <<34, 101, 235>>, <<34, 105, 239>>, <<34, 111, 246>>, <<34, 117, 252>>,
  <<34, 65, 196>>, <<34, 69, 203>>, <<34, 73, 207>>, <<34, 79, 214>>, <<34, 85, 220>>,
  <<126, 97, 227>>, <<126, 110, 241>>, <<126, 111, 245>>, <<126, 65, 195>>, <<126, 78, 209>>, <<126, 79, 213>>,
  <<99, 99, 231>>, <<99, 67, 199>>,
  <<46, 99, 267>>, <<46, 101, 279>>, <<46, 103, 289>>, <<46, 105, 305>>, <<46, 122, 380>>,
  <<46, 67, 266>>, <<46, 69, 278>>, <<46, 71, 288>>, <<46, 73, 304>>, <<46, 90, 379>> }

Accented(a, s) == IF Len(s) # 1 THEN {} ELSE {x[3] : x \in {y \in AccentTable : y[1] = a /\ y[2] = s[1]}}
CanAccent(a, s) == Accented(a, s) # {}
AccentOf(a, s) == CHOOSE c \in Accented(a, s) : TRUE

(* No letter has two accented forms, no two combinations look the same.       *)
ASSUME \A x, y \in AccentTable : (x[1] = y[1] /\ x[2] = y[2]) \/ x[3] = y[3] => x = y
ASSUME Cardinality(AccentTable) = 60
=============================================================================
