---------------------------- MODULE AlgebraTrace ----------------------------
(* The recorded results of the operations.  M is a matrix that is modified in
   place, by a history of assignments to parts of it and compound assignments. *)
EXTENDS Algebra, TraceBase
VARIABLE M
TraceInit == l = 1 /\ M = <<>>
R(x) == Match("result", Ev.r, x)
Pure(x) == R(x) /\ M' = M
Becomes(x) == R(x) /\ M' = x
Op(n) == IsEvent("op") /\ Ev.o = n
Close(x, y, d) == x - y <= d /\ y - x <= d
MClose(X, Y, d) == \A i \in 1..Len(X) : \A j \in 1..Len(X[1]) : Close(X[i][j], Y[i][j], d)
Max3(a, b) == IF a > b THEN a ELSE b
TraceNext ==
    \/ IsEvent("reset") /\ M' = <<>>
    \/ Op("vadd") /\ Pure(VAdd(Ev.a, Ev.b))
    \/ Op("vsub") /\ Pure(VSub(Ev.a, Ev.b))
    \/ Op("vneg") /\ Pure(VNeg(Ev.a))
    \/ Op("vmul") /\ Pure(VMul(Ev.a, Ev.b))
    \* The quotient is known to be whole
    \/ Op("vdiv") /\ Match("quotient", VMul(Ev.r, Ev.b), Ev.a) /\ M' = M
    \/ Op("dot") /\ Pure(Dot(Ev.a, Ev.b))
    \/ Op("sum") /\ Pure(SumOf(Ev.a))
    \/ Op("sqsum") /\ Pure(SqSum(Ev.a))
    \* Square of the length
    \/ Op("len") /\ Pure(SqSum(Ev.a))
    \* Projection on b, times the square of the length of b
    \/ Op("proj") /\ Pure(VMul(Ev.b, Dot(Ev.a, Ev.b)))
    \/ Op("perp") /\ Pure(Perp(Ev.a))
    \/ Op("cross") /\ Pure(Cross(Ev.a, Ev.b))
    \/ Op("vcmp") /\ Pure(Cmps(VCmp(Ev.a, Ev.b)))
    \/ Op("vtext") /\ Pure(VText(Ev.a))
    \/ Op("same") /\ Pure(Ev.a)
    \/ Op("outer") /\ Pure(Outer(Ev.a, Ev.b))
    \/ Op("madd") /\ Pure(MAdd(Ev.a, Ev.b))
    \/ Op("msub") /\ Pure(MSub(Ev.a, Ev.b))
    \/ Op("mneg") /\ Pure(MNeg(Ev.a))
    \/ Op("mmul") /\ Pure(MMul(Ev.a, Ev.b))
    \/ Op("mdiv") /\ Match("quotient", MMul(Ev.r, Ev.b), Ev.a) /\ M' = M
    \/ Op("matvec") /\ Pure(MatVec(Ev.a, Ev.b))
    \/ Op("vecmat") /\ Pure(VecMat(Ev.a, Ev.b))
    \/ Op("matmat") /\ Pure(MatMat(Ev.a, Ev.b))
    \/ Op("mcmp") /\ Pure(Cmps(MCmp(Ev.a, Ev.b)))
    \/ Op("mtext") /\ Pure(MText(Ev.a))
    \/ Op("transpose") /\ Pure(Tr(Ev.a))
    \/ Op("tr") /\ Pure(Trace_(Ev.a))
    \/ Op("det") /\ Pure(Det(Ev.a))
    \* The inverse times what the library gave as determinant; nothing is known of the inverse of a
    \* matrix without one, unless the library says that there is none: then it is zero
    \/ IsEvent("inv") /\ M' = M /\ LET d == Det(Ev.a) IN
            IF d # 0 THEN /\ Match("determinant", Ev.d, d) /\ Match("regular", Ev.ok, TRUE) /\ Match("inverse", Ev.r, Adj(Ev.a))
                          /\ Match("in place", Ev.p, Adj(Ev.a))
                          /\ Match("divided by", Ev.q, MatMat(Ev.b, Adj(Ev.a)))
                          /\ Match("reciprocal", Ev.s, MMul(Adj(Ev.a), 3))
            ELSE (Ev.ok => Match("zero row or column", \E i \in 1..Len(Ev.a) : Ev.a[i] = [j \in 1..Len(Ev.a) |-> 0] \/ Col(Ev.a, i) = [j \in 1..Len(Ev.a) |-> 0], FALSE))
                 /\ (~Ev.ok => Match("no inverse", Ev.z, TRUE))
    \* Inversion of a triangular matrix; the other triangle, and an assumed diagonal, are left alone
    \/ IsEvent("triinv") /\ M' = M /\ LET T == IF Ev.low THEN Lower(Ev.a, Ev.unit) ELSE Upper(Ev.a, Ev.unit)
                                          d == ProdOf(Diag(T)) IN
            /\ Match("regular", Ev.ok, d # 0)
            /\ (Ev.ok => (/\ Match("inverse", Ev.r, LET I == Adj(T) IN
                               [i \in 1..Len(T) |-> [j \in 1..Len(T) |-> IF (Ev.low /\ i < j) \/ (~Ev.low /\ i > j) \/ (Ev.unit /\ i = j) THEN Ev.a[i][j] * d ELSE I[i][j]]])))
    \* A = P * L * U, with no element of L beyond 1
    \/ IsEvent("lu") /\ M' = M /\ Match("pivots", IsPivots(Ev.p, NRows(Ev.a), NCols(Ev.a)), TRUE)
            /\ Match("permuted product", Permute(Ev.lu, Ev.p, Len(Ev.p)), Ev.a)
            /\ Match("pivots largest", Ev.part, TRUE)
    \/ Op("row") /\ Pure(Ev.a[Ev.i + 1])
    \/ Op("col") /\ Pure(Col(Ev.a, Ev.i + 1))
    \/ Op("diag") /\ Pure(Diag(Ev.a))
    \/ Op("sub") /\ Pure(Sub(Ev.a, Ev.i, Ev.j, NRows(Ev.r), NCols(Ev.r)))
    \/ Op("ident") /\ Pure(Ident(NRows(Ev.r), NCols(Ev.r)))
    \/ Op("default") /\ Pure(Zero(NRows(Ev.r), NCols(Ev.r)))
    \* Component i, j, from zero, is 10 * i + j
    \/ Op("gen") /\ Pure([i \in 1..NRows(Ev.r) |-> [j \in 1..NCols(Ev.r) |-> 10 * (i - 1) + j - 1]])
    \/ Op("extend") /\ Pure(SetSub(Zero(NRows(Ev.r), NCols(Ev.r)), Ev.i, Ev.j, Ev.a))
    \* The matrix that is modified in place
    \/ IsEvent("mod") /\
        CASE Ev.o = "new" -> Becomes(Ev.a)
          [] Ev.o = "elem" -> Becomes([M EXCEPT ![Ev.i + 1][Ev.j + 1] = Ev.a])
          [] Ev.o = "row" -> Becomes([M EXCEPT ![Ev.i + 1] = Ev.a])
          [] Ev.o = "col" -> Becomes(SetCol(M, Ev.i, Ev.a))
          [] Ev.o = "rowcol" -> Becomes(SetCol(M, Ev.i, M[Ev.j + 1]))
          [] Ev.o = "diag" -> Becomes(SetDiag(M, Ev.a))
          [] Ev.o = "sub" -> Becomes(SetSub(M, Ev.i, Ev.j, Ev.a))
          [] Ev.o = "add" -> Becomes(MAdd(M, Ev.a))
          [] Ev.o = "subtract" -> Becomes(MSub(M, Ev.a))
          [] Ev.o = "scale" -> Becomes(MMul(M, Ev.a))
          [] Ev.o = "times" -> Becomes(MatMat(M, Ev.a))
          \* Multiplied by itself, and added to itself, in place
          [] Ev.o = "square" -> Becomes(MatMat(M, M))
          [] Ev.o = "double" -> Becomes(MAdd(M, M))
          [] Ev.o = "rowadd" -> Becomes([M EXCEPT ![Ev.i + 1] = VAdd(M[Ev.i + 1], M[Ev.j + 1])])
          [] Ev.o = "rowscale" -> Becomes([M EXCEPT ![Ev.i + 1] = VMul(M[Ev.i + 1], Ev.a)])
          [] Ev.o = "rowtimes" -> Becomes([M EXCEPT ![Ev.i + 1] = VecMat(M[Ev.i + 1], Ev.a)])
          [] OTHER -> FALSE
    (* Quaternions *)
    \/ Op("qmul") /\ Pure(QMul(Ev.a, Ev.b))
    \/ Op("qconj") /\ Pure(QConj(Ev.a))
    \/ Op("qsand") /\ Pure(QSand(Ev.a, Ev.b))
    \* Divided by b, times the norm of b
    \/ Op("qdiv") /\ Pure(QMul(Ev.a, QConj(Ev.b)))
    \/ Op("qtext") /\ Pure(QText(Ev.a))
    \/ Op("qmat") /\ Pure(RotMat(Ev.a))
    (* Rotations by quarters of a turn: each is an axis and a number, and the result a matrix *)
    \/ Op("turn") /\ Pure(Turn(Ev.a[1], Ev.a[2]))
    \/ Op("turns") /\ Pure(MatMat(Turn(Ev.b[1], Ev.b[2]), Turn(Ev.a[1], Ev.a[2])))
    \/ Op("unturn") /\ Pure(MatMat(Tr(Turn(Ev.b[1], Ev.b[2])), Turn(Ev.a[1], Ev.a[2])))
    \* First around z, then around the new x, then around the new z
    \/ Op("euler") /\ Pure(MatMat(Turn(3, Ev.a[1]), MatMat(Turn(1, Ev.a[2]), Turn(3, Ev.a[3]))))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, M>>
=============================================================================
