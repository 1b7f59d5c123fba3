------------------------------ MODULE Symmetry ------------------------------
(***************************************************************************)
(* The symmetries of the equations, acting on Fourier coefficients.  A     *)
(* transformation maps the point x to x', x'_i = sgn_i x_perm(i) + one     *)
(* quarter of the side times quarter_i, and multiplies velocities by scale *)
(* (with viscosity by scale and time step by 1/scale).  A field f has      *)
(*   axis    the direction of a vector component (0: a scalar)             *)
(*   axial   whether mirrors and exchanges turn it as a vorticity          *)
(*   power   the power of scale it takes                                   *)
(*   flip    a direction whose mirror also changes its sign (0: none)      *)
(* and layers: its Chebyshev coefficients in the first direction of a      *)
(* channel (one layer otherwise), which a mirror there turns by parity.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Rat, Fourier
Det(t) == LET p == t.perm
              even == p \in { <<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>> } IN
          (IF even THEN 1 ELSE -1) * t.sgn[1] * t.sgn[2] * t.sgn[3]
RECURSIVE Pow(_, _)
Pow(s, k) == IF k = 0 THEN R(1) ELSE RMul(s, Pow(s, k - 1))
\* what the mode k' of the new field takes from: the old mode with k_perm(i) = sgn_i k'_i
Old(t, k) == [j \in 1..3 |-> LET i == CHOOSE m \in 1..3 : t.perm[m] = j IN t.sgn[i] * k[i]]
\* multiplication by (-i)^q
Turn(q, z) == CASE q % 4 = 0 -> z
                [] q % 4 = 1 -> << z[2], RNeg(z[1]) >>
                [] q % 4 = 2 -> << RNeg(z[1]), RNeg(z[2]) >>
                [] q % 4 = 3 -> << RNeg(z[2]), z[1] >>
At(n, f, k) == IF k[3] >= 0 THEN f[HIdx(n, k)] ELSE Conj(f[HIdx(n, Neg(k))])
Factor(t, a, layer) ==
    LET s == (IF a.axis > 0 THEN t.sgn[a.axis] ELSE 1) * (IF a.axial THEN Det(t) ELSE 1)
             * (IF a.flip > 0 /\ t.sgn[a.flip] = -1 THEN -1 ELSE 1)
             * (IF t.sgn[1] = -1 /\ layer % 2 = 0 THEN -1 ELSE 1) IN         \* layer 1 is T_0
    RMul(R(s), Pow(R(t.scale), a.power))
\* the field that the transformation makes of fields f (mesh n), on the new mesh m; kinds describes the fields
From(kinds, t, j) == IF kinds[j].axis = 0 THEN j
                     ELSE CHOOSE i \in 1..Len(kinds) : kinds[i].axis = t.perm[kinds[j].axis] /\ kinds[i].set = kinds[j].set
Image(kinds, t, n, m, f) ==
    TLCEval([j \in 1..Len(f) |-> LET src == f[From(kinds, t, j)] IN
       TLCEval([l \in 1..Len(src) |-> LET c == Factor(t, kinds[j], IF Len(src) = 1 THEN 1 ELSE l) IN
          TLCEval([h \in 1..Size(m) |-> LET k == Mode(m, h) IN
             IF OnNyquist(m, k) THEN C0
             ELSE CScale(c, Turn(k[1] * t.quarter[1] + k[2] * t.quarter[2] + k[3] * t.quarter[3], At(n, src[l], Old(t, k))))])])])
\* the transformations that leave n points along every direction possible
Fits(t, n, m) == \A i \in 1..3 : m[i] = n[t.perm[i]] /\ (t.quarter[i] % 4 # 0 => m[i] % 4 = 0)
=============================================================================
