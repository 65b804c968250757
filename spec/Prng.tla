------------------------------- MODULE Prng -------------------------------
(* Deterministic choices: a state is a pair; Sub derives independent        *)
(* states, Below draws a number, so that every generated document is a      *)
(* function of its seed.                                                    *)
EXTENDS Integers, Sequences, TLC
Sub(s, k) == << (s[1] * 31421 + (k % 60000) * 613 + s[2]) % 65521, (s[2] * 27091 + (k % 60000) * 1327 + s[1]) % 65519 >>
Seed(a, b) == Sub(Sub(<<(a * 7919 + 17) % 65521, (b * 7877 + 91) % 65519>>, a % 59999), b % 59999)
Below(s, n) == ((s[1] * 17 + s[2] * 5) \div 3) % n
Coin(s, k, num, den) == Below(Sub(s, k), den) < num
Pick(s, k, q) == q[Below(Sub(s, k), Len(q)) + 1]
RECURSIVE Shuffle(_, _)
Shuffle(s, q) == IF Len(q) <= 1 THEN q
                 ELSE LET i == Below(Sub(s, 7), Len(q)) + 1 IN
                      <<q[i]>> \o Shuffle(Sub(s, 11), SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1]
              ELSE LET h == Len(qs) \div 2 IN Concat(SubSeq(qs, 1, h)) \o Concat(SubSeq(qs, h + 1, Len(qs)))
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
============================================================================
