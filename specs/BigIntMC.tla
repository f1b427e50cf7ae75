------------------------------ MODULE BigIntMC ------------------------------
(* The definitions of BigInt agree with TLC's integers (on pairs a, b around the
   digit boundaries), and the schoolbook algorithms of multi-part integers
   (long division with normalisation and estimated digits; two's complement
   arithmetic in parts) agree with plain arithmetic for all values of a small
   number of small parts.                                                     *)
EXTENDS BigInt, TLC, FiniteSets
CONSTANTS Part, Parts       \* base of a part in the algorithm model, number of parts
VARIABLES a, b, z
Near == {0, 1, 2, 3, 7, 32766, 32767, 32768, 32769, 65535, 65536, 1073741823}
Vals == Near \cup {-x : x \in Near}
Lim == Part ^ Parts
Init == z = FALSE /\ \/ a \in Vals /\ b \in Vals
                     \/ a \in 0..(Lim - 1) /\ b \in 0..(Lim - 1)
Next == UNCHANGED <<a, b, z>>
Spec == Init /\ [][Next]_<<a, b, z>>
Small(x) == x < 16000 /\ x > -16000
Agree ==
    /\ Add(Big(a), Big(b)) = Big(a + b) /\ Sub(Big(a), Big(b)) = Big(a - b)
    /\ (Small(a) /\ Small(b)) => Mul(Big(a), Big(b)) = Big(a * b)
    /\ Cmp(Big(a), Big(b)) = (IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0)
    /\ b > 0 => /\ FMod(Big(a), Big(b)) = Big(a % b) /\ FDiv(Big(a), Big(b)) = Big(a \div b)
    /\ b # 0 => /\ Add(Mul(Quot(Big(a), Big(b)), Big(b)), Rem(Big(a), Big(b))) = Big(a)
                /\ LET r == Rem(Big(a), Big(b)) IN CompareM(r.m, Big(b).m) < 0 /\ r.s \in {0, Big(a).s}
    /\ (a >= 0 /\ b >= 0) => /\ AndN(Big(a), Big(b)) = Big(a & b) /\ OrN(Big(a), Big(b)) = Big(a | b)
                             /\ XorN(Big(a), Big(b)) = Big(a ^^ b)
    /\ \A n \in {1, 4, 15, 16, 29} : LET w == Wrap(Big(a), n, TRUE) IN
          /\ In(w, Neg(Pow2(n - 1)), Sub(Pow2(n - 1), One)) /\ FMod(Sub(Big(a), w), Pow2(n)) = Zero
          /\ Pow2(n) = Big(2 ^ n)
    /\ (a >= 0 /\ a < 32768 /\ b \in 0..5) => PowN(Big(a), b) = (IF b = 0 THEN One ELSE Mul(PowN(Big(a), b - 1), Big(a)))
    /\ NumDigits(Big(a), 10) = (IF a = 0 THEN 0 ELSE CHOOSE k \in 1..11 : LET x == IF a < 0 THEN -a ELSE a IN
                                   (k = 1 \/ x >= 10 ^ (k - 1)) /\ (k >= 10 \/ x < 10 ^ k))
    /\ BitLen(Big(a)) = (IF a = 0 THEN 0 ELSE CHOOSE k \in 1..31 : LET x == IF a < 0 THEN -a ELSE a IN x >= 2 ^ (k - 1) /\ (k = 31 \/ x < 2 ^ k))

\* ---- Algorithms on parts -------------------------------------------------
D(x, i) == (x \div (Part ^ i)) % Part             \* i-th digit from 0
Digits(x, n) == [i \in 0..(n - 1) |-> D(x, i)]
Val(d) == LET n == Cardinality(DOMAIN d)
              RECURSIVE S(_)
              S(i) == IF i = n THEN 0 ELSE d[i] * Part ^ i + S(i + 1)
          IN S(0)
\* Addition and subtraction with carry, product truncated to the number of parts
RECURSIVE PartAdd(_, _, _, _)
PartAdd(x, y, i, c) == IF i = Parts THEN 0
    ELSE LET s1 == (D(x, i) + D(y, i)) % Part
             s2 == (s1 + c) % Part
             c2 == IF s1 < D(x, i) \/ s2 < s1 THEN 1 ELSE 0
         IN s2 * Part ^ i + PartAdd(x, y, i + 1, c2)
RECURSIVE PartSub(_, _, _, _)
PartSub(x, y, i, c) == IF i = Parts THEN 0
    ELSE LET s1 == (D(x, i) - D(y, i)) % Part
             s2 == (s1 - c) % Part
             c2 == IF s1 > D(x, i) \/ s2 > s1 THEN 1 ELSE 0
         IN s2 * Part ^ i + PartSub(x, y, i + 1, c2)
\* Knuth's algorithm D
RECURSIVE NumD(_)
NumD(x) == IF x = 0 THEN 0 ELSE 1 + NumD(x \div Part)
RECURSIVE Norm(_)
Norm(t) == IF t * 2 >= Part THEN 1 ELSE 2 * Norm(t * 2)     \* factor that makes the top digit large
RECURSIVE KD(_, _, _, _, _)
KD(u, v, n, j, q) ==        \* u: normalised remaining dividend, v: normalised divisor of n digits
    IF j < 0 THEN <<q, u>>
    ELSE LET e  == D(u, j + n) * Part + D(u, j + n - 1)
             f  == D(v, n - 1)
             q0 == e \div f
             r0 == e % f
             ok(qq, rr) == qq < Part /\ qq * D(v, n - 2) <= Part * rr + D(u, j + n - 2)
             q1 == IF ok(q0, r0) THEN q0
                   ELSE IF r0 + f >= Part THEN q0 - 1
                   ELSE IF ok(q0 - 1, r0 + f) THEN q0 - 1 ELSE q0 - 2
             d  == u - q1 * v * Part ^ j
             q2 == IF d < 0 THEN q1 - 1 ELSE q1
         IN KD(IF d < 0 THEN d + v * Part ^ j ELSE d, v, n, j - 1, q + q2 * Part ^ j)
LongDiv(x, y) == LET n == NumD(y)
                     k == Norm(D(y, n - 1))
                     w == KD(x * k, y * k, n, Parts - n, 0)
                 IN <<w[1], w[2] \div k>>
Algorithms == (a \in 0..(Lim - 1) /\ b \in 0..(Lim - 1)) =>
    /\ PartAdd(a, b, 0, 0) = (a + b) % Lim
    /\ PartSub(a, b, 0, 0) = (a - b) % Lim
    /\ NumD(b) > 1 => LongDiv(a, b) = <<a \div b, a % b>>
=============================================================================
