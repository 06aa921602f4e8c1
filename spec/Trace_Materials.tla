--------------------------- MODULE Trace_Materials -----------------------------
EXTENDS Materials, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, def
E == Trace[l]
NoDef == [M |-> <<<<1>>>>, n |-> 1, mu |-> 0, lam |-> 0]
TInit == l = 1 /\ def = NoDef
New == l <= Len(Trace) /\ E.op = "F" /\ l' = l + 1 /\ def' = [M |-> E.M, n |-> E.n, mu |-> E.mu, lam |-> E.lam]
M == def.M
n == def.n
Kind(e) == IF e.kind = "custom" THEN "stvk" ELSE e.kind
Blocks(e) == Len(e.as)
Row(d, i) == ((i - 1) \div d) + 1
Off(d, i) == ((i - 1) % d) + 1
\* documented panic: output of the wrong size, or vectors that are not stacks
Fits(e) == LET d == Len(M) IN Len(e.out) = d * Len(e.as) /\ \A i \in Dom(e.out) : Len(e.out[i]) = d * Len(e.bs)
ContractOk(e, r, a, b) == IF e.kind = "nh" THEN NHContractOk(r, M, n, def.mu, def.lam, a, b) ELSE r = Contract2(Kind(e), M, n, def.mu, def.lam, a, b)
\* entries of a block that the contract fixes (those on and above the diagonal of the output)
BatchOk(e) == LET d == Len(M) IN
  /\ Len(e.r) = Len(e.out) /\ \A i \in Dom(e.out) : Len(e.r[i]) = Len(e.out[i])
  /\ \A I \in Dom(e.as), J \in Dom(e.bs) : I <= J =>
       LET got == Mat(d, LAMBDA i, j : e.r[d * (I - 1) + i][d * (J - 1) + j])
           a == [k \in 1..d |-> e.alpha * e.as[I][k]]
           sub(i, j) == I < J \/ i <= j
       IN IF e.kind = "nh"
          \* below the diagonal of the output the transposed entry stands in, the blocks on it are symmetric if a = b
          THEN LET full == Mat(d, LAMBDA i, j : IF sub(i, j) THEN got[i][j] ELSE got[j][i]) IN
               IF I = J /\ e.as[I] # e.bs[J] THEN TRUE ELSE NHContractOk(full, M, n, def.mu, def.lam, a, e.bs[J])
          ELSE LET want == Contract2(Kind(e), M, n, def.mu, def.lam, a, e.bs[J]) IN \A i, j \in 1..d : sub(i, j) => got[i][j] = want[i][j]
\* mu = E / (2 (1 + nu)), lambda = E nu / ((1 + nu) (1 - 2 nu)), nu = p / q; recorded with 10^5
LameOk(e) == LET mu5 == e.r[1]  la5 == e.r[2]  p == e.pn  q == e.pd IN
  /\ Close(2 * mu5 * (q + p), e.young * q * 100000, 2 * (q + Abs(p)))
  /\ Close(la5 * (q - 2 * p), 2 * mu5 * p, 2 * q + 6 * Abs(p))
Right(e) ==
  CASE e.op = "energy" -> IF e.kind = "nh" THEN NHEnergyOk(e.r, M, n, def.mu, def.lam) ELSE e.r = Energy8(Kind(e), M, n, def.mu, def.lam)
    [] e.op = "barrier" -> Det(M) <= 0 /\ e.r = "inf"
    [] e.op = "stress" -> IF e.kind = "nh" THEN NHStressOk(e.r, M, n, def.mu, def.lam) ELSE e.r = Stress2(Kind(e), M, n, def.mu, def.lam)
    [] e.op = "contract" -> ContractOk(e, e.r, e.a, e.b)
    [] e.op = "batch" -> BatchOk(e)
    [] e.op = "sym" -> e.r = "yes"
    [] e.op = "grad" -> e.r = << MAdd(MT(e.G), Sc(Len(M), n)), MT(MAdd(M, Sc(Len(M), 0 - n))) >>
    [] e.op = "logdet" -> IF Det(M) <= 0 THEN e.r = <<>> ELSE Len(e.r) = 1 /\ Close(e.r[1], LogDet(M, n), 2)
    [] e.op = "logsmall" -> Len(e.r) = 1 /\ Close(e.r[1], 1000000 * Tr(e.H), 4)
    [] e.op = "gravity" -> e.r = [i \in 1..Len(M) |-> e.rho * e.g[i]]
    [] e.op = "lame" -> LameOk(e)
    [] e.op = "default" -> e.r = <<0, 0>>
Call == /\ l <= Len(Trace) /\ E.op # "F" /\ l' = l + 1 /\ UNCHANGED def
        /\ IF E.op = "batch" /\ ~Fits(E) THEN E.ok = 0 ELSE E.ok = 1 /\ (Right(E) = TRUE)
TNext == New \/ Call
TSpec == TInit /\ [][TNext]_<<l, def>>
TraceAccepted ==
  LET d == TLCGet("stats").diameter IN
  IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("STUCK " \o ToString(d)) /\ FALSE
=============================================================================
