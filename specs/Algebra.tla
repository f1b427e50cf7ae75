------------------------------ MODULE Algebra ------------------------------
(* Property M01: the algebra of vectors, matrices, quaternions and rotations.

   A vector is a sequence of numbers and a matrix a sequence of rows.  Everything
   is stated over the integers: the components of the library are floating-point
   numbers, but integers of modest size are represented exactly in them, so results
   that are integers have to come out as those integers (up to rounding errors where
   the computation goes by way of a division). *)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
RECURSIVE ProdOf(_)
ProdOf(s) == IF s = <<>> THEN 1 ELSE Head(s) * ProdOf(Tail(s))
Sgn(x) == IF x < 0 THEN 0 - 1 ELSE IF x > 0 THEN 1 ELSE 0
Lo(a, b) == IF a < b THEN a ELSE b

(* Vectors *)
VAdd(a, b) == [i \in 1..Len(a) |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
VNeg(a) == [i \in 1..Len(a) |-> 0 - a[i]]
VMul(a, k) == [i \in 1..Len(a) |-> a[i] * k]
Dot(a, b) == SumOf([i \in 1..Len(a) |-> a[i] * b[i]])
SqSum(a) == Dot(a, a)
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* Turned a quarter of a turn counterclockwise
Perp(a) == <<0 - a[2], a[1]>>

(* Matrices *)
NRows(A) == Len(A)
NCols(A) == Len(A[1])
Gen(m, n, f) == [i \in 1..m |-> [j \in 1..n |-> f[<<i, j>>]]]
Zero(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
Ident(m, n) == [i \in 1..m |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
MAdd(A, B) == [i \in 1..Len(A) |-> VAdd(A[i], B[i])]
MSub(A, B) == [i \in 1..Len(A) |-> VSub(A[i], B[i])]
MNeg(A) == [i \in 1..Len(A) |-> VNeg(A[i])]
MMul(A, k) == [i \in 1..Len(A) |-> VMul(A[i], k)]
Col(A, j) == [i \in 1..NRows(A) |-> A[i][j]]
Tr(A) == [j \in 1..NCols(A) |-> Col(A, j)]
Diag(A) == [i \in 1..Lo(NRows(A), NCols(A)) |-> A[i][i]]
Trace_(A) == SumOf(Diag(A))
MatVec(A, v) == [i \in 1..NRows(A) |-> Dot(A[i], v)]
VecMat(v, A) == [j \in 1..NCols(A) |-> Dot(v, Col(A, j))]
MatMat(A, B) == [i \in 1..NRows(A) |-> [j \in 1..NCols(B) |-> Dot(A[i], Col(B, j))]]
Outer(a, b) == [i \in 1..Len(a) |-> [j \in 1..Len(b) |-> a[i] * b[j]]]
\* The p by q part of A of which the upper left corner is at row i and column j (from zero)
Sub(A, i, j, p, q) == [k \in 1..p |-> [l \in 1..q |-> A[i + k][j + l]]]
SetSub(A, i, j, B) == [k \in 1..NRows(A) |-> [l \in 1..NCols(A) |->
    IF k - i \in 1..NRows(B) /\ l - j \in 1..NCols(B) THEN B[k - i][l - j] ELSE A[k][l]]]
SetCol(A, j, v) == [k \in 1..NRows(A) |-> [A[k] EXCEPT ![j + 1] = v[k]]]
SetDiag(A, v) == [k \in 1..NRows(A) |-> [l \in 1..NCols(A) |-> IF k = l THEN v[k] ELSE A[k][l]]]
\* Without row i and column j
Minor(A, i, j) == [k \in 1..(NRows(A) - 1) |-> [l \in 1..(NCols(A) - 1) |-> A[IF k < i THEN k ELSE k + 1][IF l < j THEN l ELSE l + 1]]]
Alt(k) == IF k % 2 = 0 THEN 1 ELSE 0 - 1
RECURSIVE Det(_)
Det(A) == IF Len(A) = 1 THEN A[1][1]
          ELSE SumOf([j \in 1..Len(A) |-> IF A[1][j] = 0 THEN 0 ELSE Alt(1 + j) * A[1][j] * Det(Minor(A, 1, j))])
\* The adjugate, which is the inverse times the determinant
Adj(A) == IF Len(A) = 1 THEN <<<<1>>>> ELSE [i \in 1..Len(A) |-> [j \in 1..Len(A) |-> Alt(i + j) * Det(Minor(A, j, i))]]
\* The triangular parts of A, with the diagonal of A, or with one of ones
Lower(A, unit) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> IF i > j THEN A[i][j] ELSE IF i < j THEN 0 ELSE IF unit THEN 1 ELSE A[i][j]]]
Upper(A, unit) == [i \in 1..NRows(A) |-> [j \in 1..NCols(A) |-> IF i < j THEN A[i][j] ELSE IF i > j THEN 0 ELSE IF unit THEN 1 ELSE A[i][j]]]
\* P_0 * P_1 * ... applied to the rows of A: the last transposition takes effect first
SwapRows(A, i, j) == [k \in 1..NRows(A) |-> IF k = i THEN A[j] ELSE IF k = j THEN A[i] ELSE A[k]]
RECURSIVE Permute(_, _, _)
Permute(A, p, k) == IF k = 0 THEN A ELSE Permute(SwapRows(A, k, p[k] + 1), p, k - 1)
IsPivots(p, m, n) == Len(p) = Lo(m, n) /\ \A k \in 1..Len(p) : p[k] \in (k - 1)..(m - 1)

(* Order: -1, 0, or 1 *)
RECURSIVE VCmp(_, _)
VCmp(a, b) == IF a = <<>> THEN 0 ELSE IF Head(a) # Head(b) THEN Sgn(Head(a) - Head(b)) ELSE VCmp(Tail(a), Tail(b))
RECURSIVE MCmp(_, _)
MCmp(A, B) == IF A = <<>> THEN 0 ELSE LET c == VCmp(Head(A), Head(B)) IN IF c # 0 THEN c ELSE MCmp(Tail(A), Tail(B))
\* Equal, unequal, less, less or equal, greater, greater or equal
Cmps(c) == <<c = 0, c # 0, c < 0, c <= 0, c > 0, c >= 0>>

(* Text *)
RECURSIVE Listed(_)
Listed(s) == IF s = <<>> THEN "" ELSE Head(s) \o (IF Len(s) = 1 THEN "" ELSE ", ") \o Listed(Tail(s))
VText(a) == "[" \o Listed([i \in 1..Len(a) |-> ToString(a[i])]) \o "]"
MText(A) == "[" \o Listed([i \in 1..Len(A) |-> VText(A[i])]) \o "]"

(* Quaternions: the scalar part, and then the three components of the vector part *)
QVec(q) == <<q[2], q[3], q[4]>>
QConj(q) == <<q[1], 0 - q[2], 0 - q[3], 0 - q[4]>>
\* i * i = j * j = k * k = i * j * k = -1
QMul(a, b) == <<a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4],
                a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3],
                a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2],
                a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1]>>
\* b a b*
QSand(a, b) == QMul(QMul(b, a), QConj(b))
QText(a) == "[" \o ToString(a[1]) \o "; " \o Listed([i \in 1..3 |-> ToString(a[i + 1])]) \o "]"
\* The rotation of q as a matrix, times the norm of q
Unit3 == <<<<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>>>
RotMat(q) == Tr([j \in 1..3 |-> QVec(QSand(Unit3[j], q))])

(* Rotations by quarters of a turn around the axes of the coordinate system: the
   axis is 1, 2 or 3, and the number of quarters is positive for right-handed. *)
Quarter(ax) == [i \in 1..3 |-> [j \in 1..3 |->
    IF i = ax \/ j = ax THEN (IF i = j THEN 1 ELSE 0)
    ELSE IF i = j THEN 0
    ELSE IF i = (j % 3) + 1 THEN 1 ELSE 0 - 1]]
RECURSIVE Turn(_, _)
Turn(ax, n) == IF n < 0 THEN Tr(Turn(ax, 0 - n)) ELSE IF n = 0 THEN Ident(3, 3) ELSE MatMat(Quarter(ax), Turn(ax, n - 1))
=============================================================================
