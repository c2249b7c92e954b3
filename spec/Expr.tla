-------------------------------- MODULE Expr --------------------------------
(* Values of arithmetic expressions in the prime field F_P: + - * / and      *)
(* integer powers are exact, other functions (and roots) are uninterpreted,  *)
(* i.e. fixed arbitrary functions.  Two expressions with equal values at     *)
(* random points are equal as expressions (up to the field laws).            *)
(* Node: [t |-> "n", a, b] number a/b, [t |-> "s", i] symbol, [t |-> "i"]    *)
(* imaginary unit, [t |-> "f", f, args].                                     *)
EXTENDS Integers, Sequences, SequencesExt, TLC
P == 46337
IUnit == 2601            \* a square root of -1 mod P
Md(x) == x % P
RECURSIVE FPow(_, _)
FPow(x, n) == IF n = 0 THEN 1
              ELSE LET h == FPow(x, n \div 2)  q == (h * h) % P IN IF n % 2 = 1 THEN (q * x) % P ELSE q
FInv(x) == FPow(x, P - 2)
FNum(a, b) == (Md(a) * FInv(Md(b))) % P
\* uninterpreted function number k
Hash(k, v) == LET u == Md(v + 977 * k + 13) IN Md(((u * u) % P) * u + 5 * k + 3)
FunNo(f) == CASE f = "sin" -> 1 [] f = "cos" -> 2 [] f = "tan" -> 3 [] f = "exp" -> 4 [] f = "foo" -> 5 [] OTHER -> 9
Root(q, v) == IF q = 1 THEN v ELSE Hash(20 + q, v)
FPowS(x, n) == IF n >= 0 THEN FPow(x, n) ELSE FInv(FPow(x, -n))
RECURSIVE Val(_, _)
Val(e, env) ==
  CASE e.t = "n" -> FNum(e.a, e.b)
    [] e.t = "s" -> env[e.i]
    [] e.t = "i" -> IUnit
    [] e.t = "f" ->
       IF e.f = "add" THEN FoldLeft(LAMBDA acc, x: (acc + Val(x, env)) % P, 0, e.args)
       ELSE IF e.f = "mul" THEN FoldLeft(LAMBDA acc, x: (acc * Val(x, env)) % P, 1, e.args)
       ELSE IF e.f = "sub" THEN Md(Val(e.args[1], env) - Val(e.args[2], env))
       ELSE IF e.f = "div" THEN (Val(e.args[1], env) * FInv(Val(e.args[2], env))) % P
       ELSE IF e.f = "sqrt" THEN Root(2, Val(e.args[1], env))
       ELSE IF e.f = "pow" THEN
            (IF e.args[2].t = "n" THEN FPowS(Root(e.args[2].b, Val(e.args[1], env)), e.args[2].a)
             ELSE Hash(40, (Val(e.args[1], env) * 3 + 31 * Val(e.args[2], env)) % P))
       ELSE Hash(FunNo(e.f), Val(e.args[1], env))
=============================================================================
