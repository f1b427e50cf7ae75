----------------------------- MODULE AlgebraMC -----------------------------
(* Laws of the algebra, over all small matrices and quaternions: they tie the
   definitions to each other. *)
EXTENDS Algebra, Randomization
CONSTANTS Nums, Size, Many, Few, QNums   \* numbers are displaced by one: 0 stands for -1
VARIABLES A, B, v
Vals == {x - 1 : x \in Nums}
QVals == {x - 1 : x \in QNums}
Mats(n) == [1..n -> [1..n -> Vals]]
\* All matrices if there are no more than so many, and otherwise some of them
Init == A \in RandomSubset(Many, Mats(Size)) /\ B \in RandomSubset(Few, Mats(Size)) /\ v \in {[i \in 1..Size |-> i - 2], [i \in 1..Size |-> 3 - 2 * i]}
Spec == Init /\ [][UNCHANGED <<A, B, v>>]_<<A, B, v>>
MultiplicativeDet == Det(MatMat(A, B)) = Det(A) * Det(B)
TransposeLaws == Tr(Tr(A)) = A /\ Det(Tr(A)) = Det(A) /\ Tr(MatMat(A, B)) = MatMat(Tr(B), Tr(A))
AdjLaw == MatMat(A, Adj(A)) = MMul(Ident(Size, Size), Det(A)) /\ MatMat(Adj(A), A) = MMul(Ident(Size, Size), Det(A))
TraceLaw == Trace_(MatMat(A, B)) = Trace_(MatMat(B, A))
AssocLaw == MatVec(MatMat(A, B), v) = MatVec(A, MatVec(B, v)) /\ VecMat(v, MatMat(A, B)) = VecMat(VecMat(v, A), B) /\ MatVec(A, v) = VecMat(v, Tr(A))
OuterLaw == Trace_(Outer(v, A[1])) = Dot(v, A[1]) /\ Outer(v, A[1]) = Tr(Outer(A[1], v))
OrderLaw == MCmp(A, B) = 0 - MCmp(B, A) /\ (MCmp(A, B) = 0) = (A = B)
SwapLaw == Det(SwapRows(A, 1, Size)) = IF Size = 1 THEN Det(A) ELSE 0 - Det(A)
CornerLaw == SetSub(A, 1, 0, Sub(B, 1, 0, Size - 1, Size)) = [i \in 1..Size |-> IF i = 1 THEN A[1] ELSE B[i]]

(* Quaternions, in A[1] and B[1], with the other rows unused *)
QInit == A \in {<<x>> : x \in RandomSubset(Many, [1..4 -> QVals])} /\ B \in {<<x>> : x \in RandomSubset(Few, [1..4 -> QVals])} /\ v = <<1, 2, -1>>
QSpec == QInit /\ [][UNCHANGED <<A, B, v>>]_<<A, B, v>>
p == A[1]
q == B[1]
NormLaw == SqSum(QMul(p, q)) = SqSum(p) * SqSum(q)
ConjLaw == QMul(q, QConj(q)) = <<SqSum(q), 0, 0, 0>> /\ QConj(QMul(p, q)) = QMul(QConj(q), QConj(p))
RotLaw == /\ MatMat(RotMat(p), RotMat(q)) = RotMat(QMul(p, q))
          /\ MatMat(RotMat(q), Tr(RotMat(q))) = MMul(Ident(3, 3), SqSum(q) * SqSum(q))
          /\ MatVec(RotMat(q), v) = QVec(QSand(<<0>> \o v, q))
CrossLaw == LET a == QVec(p) b == QVec(q) IN /\ Dot(Cross(a, b), a) = 0 /\ Dot(Cross(a, b), b) = 0
               /\ SqSum(Cross(a, b)) + Dot(a, b) * Dot(a, b) = SqSum(a) * SqSum(b)
               /\ Det(<<a, b, v>>) = Dot(Cross(a, b), v)
PerpLaw == LET a == <<p[1], p[2]>> IN Dot(a, Perp(a)) = 0 /\ Det(<<a, Perp(a)>>) = SqSum(a)
TurnLaw == \A ax \in 1..3 : Turn(ax, 4) = Ident(3, 3) /\ Turn(ax, -1) = Turn(ax, 3) /\ SqSum(q) * Det(Turn(ax, 1)) = SqSum(q)
              /\ RotMat([i \in 1..4 |-> IF i = 1 \/ i = ax + 1 THEN 1 ELSE 0]) = MMul(Turn(ax, 1), 2)
=============================================================================
