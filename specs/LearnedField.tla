---------------------------- MODULE LearnedField ----------------------------
(* Motion learned from demonstrations: the data, the weights of the Gaussians,  *)
(* the conditional mean of the direction and the field it describes.            *)
EXTENDS FixMath, TraceLib
VARIABLE i
Image(m, v) == [j \in 1..Len(m) |-> Dot(m[j], v)]
\* the lower triangle r.chol[g] and the solution r.u[g] come with the record
Product(l) == [a \in 1..Len(l) |-> [b \in 1..Len(l) |-> Dot(l[a], l[b])]]
\* ---- inputs: the velocity of a sample is at most one
Cropped(r) == IF Len(r.x) = r.dim THEN r.x
  ELSE LET p == SubSeq(r.x, 1, r.dim)
           v == SubSeq(r.x, r.dim + 1, 2 * r.dim)
       IN p \o (IF Norm(v) > S THEN Unit(v) ELSE v)
Oracle(r, x) == \A g \in 1..Len(r.mean) :
    /\ NearVec(Image(r.cov[g], r.u[g]), Sub(x, r.mean[g]), 12)
    /\ \A a \in 1..Len(x) : NearVec(Product(r.chol[g])[a], r.cov[g][a], 4)
\* ---- logarithm of prior times probability, relative to the largest prior
MaxSeq(s) == CHOOSE m \in {s[k] : k \in 1..Len(s)} : \A k \in 1..Len(s) : s[k] <= m
LnRaw(r, x, lnFactor) ==
  LET n == Len(x) top == Ln(MaxSeq(r.prior)) IN
  TLCEval([g \in 1..Len(r.mean) |->
     Ln(r.prior[g]) - top + n * lnFactor - n * 9189
       - SumSeq([k \in 1..n |-> Ln(r.chol[g][k][k])]) - Dot(Sub(x, r.mean[g]), r.u[g])])
\* exponentials relative to the largest one
Relative(ln) == LET m == MaxSeq(ln) IN TLCEval([g \in 1..Len(ln) |-> Exp(ln[g] - m)])
LnSum(ln) == MaxSeq(ln) + Ln(SumSeq(Relative(ln)))
Shares(ln) == LET e == Relative(ln) s == SumSeq(e) IN TLCEval([g \in 1..Len(ln) |-> DivR(e[g] * S, s)])
\* weights sum to at most one; far from all Gaussians they fade
Weights(ln) == LET t == Exp(Min(LnSum(ln), 0)) IN TLCEval([g \in 1..Len(ln) |-> Mul(Shares(ln)[g], t)])
\* ---- direction: weighted sum of the conditional means
LnFour == 13863
Power == 500   \* the weights fade with the twentieth root
Conditional(r, g) == Add(r.meany[g], Image(r.cross[g], r.u[g]))
Blend(r, w) == LET n == Len(r.meany[1]) IN
  [k \in 1..n |-> SumSeq([g \in 1..Len(w) |-> Mul(w[g], Conditional(r, g)[k])])]
Total(ln) == Exp(DivR(Min(LnSum(ln), 0), 20))
\* the attractor draws with 1 / (distance / 0.3)^2 + 1 / 2
Angle(r) ==
  LET x == Cropped(r)
      ln == LnRaw(r, x, LnFour)
  IN IF ~r.converge THEN Blend(r, [g \in 1..Len(ln) |-> Mul(Shares(ln)[g], Total(ln))])
     ELSE LET d == Sub(x, r.attractor)
              d2 == Dot(d, d)
              q == DivR(d2 * S, 900 + DivR(d2, 2))
              b == TLCEval([g \in 1..Len(ln) |-> Mul(Weights(ln)[g], q)])
          IN Blend(r, [g \in 1..Len(ln) |-> DivR(b[g] * S, SumSeq(b) + S)])
\* the field is the null dynamics turned by that angle
Turned(base, a) ==
  LET n == Norm(a) IN
  IF n <= 2 THEN base[1]
  ELSE LET c == Cos(n) s == Sin(n)
           rest == [k \in 1..Len(base[1]) |->
                      SumSeq([j \in 1..Len(a) |-> Mul(DivR(a[j] * S, n), base[j + 1][k])])]
       IN Add(Scale(c, base[1]), Scale(s, rest))
\* one demonstrated sample as it is learned
Learned(r) == LET m == Max(r.speed, Norm(r.v)) IN
  r.p \o [k \in 1..Len(r.v) |-> DivR(r.v[k] * S, m)]
Judge(r) ==
  CASE r.f = "weights" ->
         LET ln == LnRaw(r, Cropped(r), r.factor)
             w == IF r.normalize THEN Shares(ln) ELSE Weights(ln) IN
         Clause("oracle", Oracle(r, Cropped(r)))
    \cup Clause("weights", NearVec(r.out, w, 40))
    \cup Clause("at-most-one", SumSeq(r.out) <= S + 3 /\ \A g \in 1..Len(r.out) : r.out[g] >= 0)
    [] r.f = "angle" ->
         Clause("oracle", Oracle(r, Cropped(r)))
    \cup Clause("direction", NearVec(r.out, Angle(r), 60))
    \cup Clause("kept", r.kept)
    [] r.f = "predict" ->
         Clause("oracle", Oracle(r, Cropped(r)))
    \cup Clause("direction", NearVec(r.out, Turned(r.base, Angle(r)), 60))
    \cup Clause("kept", r.kept)
    [] r.f = "conditional" ->
         Clause("oracle", Oracle(r, r.x))
    \cup Clause("mean", \A g \in 1..Len(r.mean) : NearVec(r.out[g], Conditional(r, g), 25))
    \* covariance of the output, given the input: r.sol solves cov sol = cross'
    [] r.f = "covariance" ->
         LET n == Len(r.cross) IN
         Clause("oracle", \A k \in 1..n : NearVec(Image(r.cov, r.sol[k]), r.cross[k], 8))
    \cup Clause("covariance", \A a, b \in 1..n :
                   Near(r.out[a][b], r.covy[a][b] - Dot(r.cross[a], r.sol[b]), 15))
    [] r.f = "fade" -> Clause("null", NearVec(r.out, r.base[1], 3))
    [] r.f = "decode" -> Clause("direction", NearVec(r.out, Turned(r.base, r.angle), 12))
    [] r.f = "data" ->
         LET n == Len(r.p) IN
         Clause("sample", r.speed = 0 \/ NearVec(SubSeq(r.row, 1, 2 * n), Learned(r), 4 + S \div Max(r.speed, 1)))
    \cup Clause("demonstrated", Norm(r.v) < 30 \/
               NearVec(Turned(r.base, SubSeq(r.row, 2 * n + 1, 3 * n - 1)), Unit(r.v), 400 \div Max(1, Norm(r.v) \div 100) + 12))
    [] r.f = "target" ->
         Clause("attractor", NearVec(r.out, [k \in 1..Len(r.out) |->
             DivR(SumSeq([j \in 1..Len(r.ends) |-> r.ends[j][k]]), Len(r.ends))], 3))
    \* a trajectory: once near the attractor it stays
    [] r.f = "path" ->
         LET near(k) == Norm(Sub(r.points[k], r.attractor))
             inside == {k \in r.first..Len(r.points) : near(k) < r.margin - 2} IN
         Clause("start", NearVec(r.points[1], r.start, 1))
    \cup Clause("steps", \A k \in 2..Len(r.points) :
             \/ NearVec(r.points[k], r.expected[k], 6)
             \/ (\E j \in 2..(k - 1) : near(j) < r.margin + 2))
    \cup Clause("rest", \A k \in inside : k = Len(r.points) \/ NearVec(r.points[k + 1], r.points[k], 1))
TraceInit == i = 0
TraceNext == /\ i < Len0 /\ i' = i + 1
             /\ Report(i + 1, Judge(Recs[i + 1])) /\ Final(i + 1)
TraceSpec == TraceInit /\ [][TraceNext]_i
=============================================================================
