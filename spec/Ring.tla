-------------------------------- MODULE Ring --------------------------------
(* Exact arithmetic in Z[w, 1/sqrt2, 1/5],  w = exp(i pi/4).                 *)
(* An element is <<a,b,c,d,k,m>> = (a + b w + c w^2 + d w^3)/(sqrt2^k 5^m).  *)
(* Norm gives a unique normal form, so = is structural equality.             *)
EXTENDS Integers, Sequences, TLC

RZero == <<0,0,0,0,0,0>>
ROne  == <<1,0,0,0,0,0>>
RI    == <<0,0,1,0,0,0>>
ROmega == <<0,1,0,0,0,0>>
RInvSqrt2 == <<1,0,0,0,1,0>>
RHalf == <<1,0,0,0,2,0>>
RInt(z) == <<z,0,0,0,0,0>>
RGauss(re, im) == <<re,0,im,0,0,0>>

RECURSIVE RUp2(_, _)
RUp2(x, j) ==      \* multiply numerator and denominator by sqrt2^j
  IF j = 0 THEN x
  ELSE IF j >= 2 THEN RUp2(<<2*x[1],2*x[2],2*x[3],2*x[4],x[5]+2,x[6]>>, j-2)
  ELSE <<x[2]-x[4], x[1]+x[3], x[2]+x[4], x[3]-x[1], x[5]+1, x[6]>>

RECURSIVE RUp5(_, _)
RUp5(x, j) == IF j = 0 THEN x
              ELSE RUp5(<<5*x[1],5*x[2],5*x[3],5*x[4],x[5],x[6]+1>>, j-1)

RECURSIVE RNorm(_)
RNorm(x) ==
  IF x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 THEN RZero
  ELSE IF x[5] >= 2 /\ x[1]%2 = 0 /\ x[2]%2 = 0 /\ x[3]%2 = 0 /\ x[4]%2 = 0
    THEN RNorm(<<x[1]\div 2, x[2]\div 2, x[3]\div 2, x[4]\div 2, x[5]-2, x[6]>>)
  ELSE IF x[5] >= 1 /\ (x[1]+x[3])%2 = 0 /\ (x[2]+x[4])%2 = 0
    THEN RNorm(<<(x[2]-x[4])\div 2, (x[1]+x[3])\div 2, (x[2]+x[4])\div 2,
                 (x[3]-x[1])\div 2, x[5]-1, x[6]>>)
  ELSE IF x[6] >= 1 /\ x[1]%5 = 0 /\ x[2]%5 = 0 /\ x[3]%5 = 0 /\ x[4]%5 = 0
    THEN RNorm(<<x[1]\div 5, x[2]\div 5, x[3]\div 5, x[4]\div 5, x[5], x[6]-1>>)
  ELSE IF x[5] < 0 THEN RNorm(RUp2(x, -x[5]))
  ELSE IF x[6] < 0 THEN RNorm(RUp5(x, -x[6]))
  ELSE x

RIsZero(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] = 0

\* raw (unnormalised) operations, then the normalised ones
RawMul(x, y) ==
  << x[1]*y[1] - x[2]*y[4] - x[3]*y[3] - x[4]*y[2],
     x[1]*y[2] + x[2]*y[1] - x[3]*y[4] - x[4]*y[3],
     x[1]*y[3] + x[2]*y[2] + x[3]*y[1] - x[4]*y[4],
     x[1]*y[4] + x[2]*y[3] + x[3]*y[2] + x[4]*y[1],
     x[5]+y[5], x[6]+y[6] >>

RawAdd(x, y) ==
  IF RIsZero(x) THEN y
  ELSE IF RIsZero(y) THEN x
  ELSE IF x[5] = y[5] /\ x[6] = y[6]
    THEN <<x[1]+y[1], x[2]+y[2], x[3]+y[3], x[4]+y[4], x[5], x[6]>>
  ELSE LET k == IF x[5] > y[5] THEN x[5] ELSE y[5]
           m == IF x[6] > y[6] THEN x[6] ELSE y[6]
           p == RUp5(RUp2(x, k - x[5]), m - x[6])
           q == RUp5(RUp2(y, k - y[5]), m - y[6])
       IN <<p[1]+q[1], p[2]+q[2], p[3]+q[3], p[4]+q[4], k, m>>

RMul(x, y) == IF RIsZero(x) \/ RIsZero(y) THEN RZero
              ELSE IF x = ROne THEN y ELSE IF y = ROne THEN x
              ELSE RNorm(RawMul(x, y))
RAdd(x, y) == IF RIsZero(x) THEN y ELSE IF RIsZero(y) THEN x ELSE RNorm(RawAdd(x, y))
RNeg(x) == <<-x[1], -x[2], -x[3], -x[4], x[5], x[6]>>
RSub(x, y) == RAdd(x, RNeg(y))
RConj(x) == RNorm(<<x[1], -x[4], -x[3], -x[2], x[5], x[6]>>)
RAbs2(x) == RMul(x, RConj(x))

RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN ROne ELSE RMul(x, RPow(x, n-1))

\* exp(i (p pi/4 + q alpha)), alpha = atan2(3,4)
RPhase(p, q) ==
  LET pp == p % 8
      base == CASE pp = 0 -> <<1,0,0,0,0,0>>  [] pp = 1 -> <<0,1,0,0,0,0>>
                [] pp = 2 -> <<0,0,1,0,0,0>>  [] pp = 3 -> <<0,0,0,1,0,0>>
                [] pp = 4 -> <<-1,0,0,0,0,0>> [] pp = 5 -> <<0,-1,0,0,0,0>>
                [] pp = 6 -> <<0,0,-1,0,0,0>> [] pp = 7 -> <<0,0,0,-1,0,0>>
      rat == IF q >= 0 THEN <<4,0,3,0,0,1>> ELSE <<4,0,-3,0,0,1>>
  IN RMul(base, RPow(rat, IF q >= 0 THEN q ELSE -q))
RCos(p, q) == RMul(RHalf, RAdd(RPhase(p, q), RPhase(-p, -q)))
RSin(p, q) == RMul(<<0,0,-1,0,2,0>>, RSub(RPhase(p, q), RPhase(-p, -q)))

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))
=============================================================================
