-------------------------------- MODULE Scene --------------------------------
(* Shapes and distances, in millimetres; directions in units of 1/S.            *)
(* shape: k kind, c centre, ax half axes, m rows of its frame (1/S)             *)
EXTENDS FixMath
Local(sh, p) == LET d == Sub(p, sh.c) IN [j \in 1..Len(p) |-> DivR(RawDot(sh.m[j], d), S)]
ToGlobal(sh, v) == [j \in 1..Len(v) |-> DivR(SumSeq([k \in 1..Len(v) |-> sh.m[k][j] * v[k]]), S)]
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE Max(s[1], MaxSeq(Tail(s)))
\* ball: relative radius (1000 on the surface) of a local position
Relative(sh, x) == ISqrt(SumSeq([j \in 1..Len(x) |->
     LET u == DivR(x[j] * 1000, sh.ax[j]) IN u * u]))
Far(sh, x) == \E j \in 1..Len(x) : Abs(x[j]) > 3 * sh.ax[j]
BoxGap(sh, x) == MaxSeq([j \in 1..Len(x) |-> Abs(x[j]) - sh.ax[j]])
\* signed distance, positive outside: a lower bound outside, exact for boxes inside
Gap(sh, p) ==
  LET x == Local(sh, p) IN
  IF Far(sh, x) THEN MaxSeq(sh.ax)
  ELSE IF sh.k = "box" THEN BoxGap(sh, x)
  ELSE LET q == Relative(sh, x)
           least == -MaxSeq([j \in 1..Len(x) |-> -sh.ax[j]])
       IN DivR((q - 1000) * least, 1000)
\* outward normal in the global frame
Normal(sh, p) ==
  LET x == Local(sh, p) n == Len(x) IN
  ToGlobal(sh,
    IF sh.k = "box" THEN
      (IF BoxGap(sh, x) > 0
       THEN Unit([j \in 1..n |-> Sgn(x[j]) * Max(0, Abs(x[j]) - sh.ax[j])])
       ELSE LET w == CHOOSE j \in 1..n : Abs(x[j]) - sh.ax[j] = BoxGap(sh, x)
            IN [j \in 1..n |-> IF j = w THEN Sgn(x[j]) * S ELSE 0])
    ELSE Unit([j \in 1..n |-> DivR(DivR(x[j] * 1000, sh.ax[j]) * 1000, sh.ax[j])]))
SceneGap(scene, p) == -MaxSeq([j \in 1..Len(scene) |-> -Gap(scene[j], p)])
=============================================================================
