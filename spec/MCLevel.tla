------------------------------- MODULE MCLevel ------------------------------
(* Design model of the level functions: the state walks a grid of amounts   *)
(* and words; laws are checked against independent formulations, and wrong  *)
(* outcomes are shown to be rejected.                                       *)
EXTENDS Level
VARIABLES n, w
mv == <<ref, n, w>>
Amounts == { i * 524288 : i \in -32..32 } \cup {16777215, -16777215, 16777218, -16777218, 1, -1}
WordSet == { <<s * 32768 + e * 128 + (m \div 65536), m % 65536>> :
              s \in {0, 1}, e \in {0, 1, 2, 60, 100, 126, 127, 128, 150, 200, 253, 254, 255},
              m \in {0, 1, 4194304, 8388607, 1234567, 5000000} }
MCInit == LevelInit /\ n \in Amounts /\ w \in WordSet
PanStep == Mono(<<n, 0>>, 32768, IF Abs(n) > Full THEN "err" ELSE "ok", IF n < 0 - Full THEN "TooLeft" ELSE IF n > Full THEN "TooRight" ELSE "",
                <<<<Linear(n, 32768, TRUE), 0>>, <<Linear(n, 32768, FALSE), 0>>>>, <<<<Linear(n, 32768, TRUE), 0>>, <<Linear(n, 32768, FALSE), 0>>>>)
DbStep == IsNormal(w) /\ ~Neg(w) /\ ToDb(w, "ok", "", <<DbOf(w), 1>>, "ok", "", <<DbOf(w), 1>>, <<DbOf(w), 1>>)
MCNext == UNCHANGED <<n, w>> /\ (PanStep \/ DbStep)
MCSpec == MCInit /\ [][MCNext]_mv
\* every amount has exactly one outcome
OneOutcome == LET v == <<<<Linear(n, 32768, TRUE), 0>>, <<Linear(n, 32768, FALSE), 0>>>>
                  acc == { o \in {<<"ok", "">>, <<"err", "TooLeft">>, <<"err", "TooRight">>} : ENABLED Mono(<<n, 0>>, 32768, o[1], o[2], v, v) }
              IN Cardinality(acc) = 1
Valid == Abs(n) <= Full
SumsUp == Valid => \A s \in {32768, -32768, 100000, 7, 0} : Abs(Linear(n, s, TRUE) + Linear(n, s, FALSE) - s) <= 6
\* equal power: the squared roots add up to one
EqualPower == Valid => LET l == Power(n, TRUE) r == Power(n, FALSE) IN Abs(l * l + r * r - 268435456) <= 70000
Mirror == Valid => Linear(n, 4096, TRUE) = Linear(0 - n, 4096, FALSE) /\ Power(n, TRUE) = Power(0 - n, FALSE)
SwapRejected == (Valid /\ Abs(n) > 4096) => LET v == <<<<Linear(n, 32768, FALSE), 0>>, <<Linear(n, 32768, TRUE), 0>>>>
                                            IN ~ENABLED Mono(<<n, 0>>, 32768, "ok", "", v, v)
\* infinite samples: the sum is symmetric, a difference of infinities is
\* nothing, and a channel made by subtraction would be rejected
InfFacts == Valid => LET F(c) == <<0, c>> IN
  /\ \A c, d \in {0, 2, 3, 4} : SumClass(c, d) = SumClass(d, c) /\ SumClass(c, 0) = c /\ SumClass(c, c) = c
  /\ \A c \in {0, 2, 3, 4} : ENABLED PanClass("m", <<n, 0>>, F(c), F(0), "ok", "", <<F(c), F(c)>>, <<F(c), F(c)>>)
  /\ Abs(n) < Full => \A c \in {3, 4} : ~ENABLED PanClass("m", <<n, 0>>, F(c), F(0), "ok", "", <<F(c), F(2)>>, <<F(c), F(2)>>)
  /\ Abs(n) < Full => ~ENABLED PanClass("x", <<n, 0>>, F(3), F(4), "ok", "", <<F(3), F(0)>>, <<F(3), F(0)>>)
\* decibels: doubling adds 6.0206 dB; classification is total and exclusive
Double(x) == <<x[1] + 128, x[2]>>
Doubling == (IsNormal(w) /\ ~Neg(w) /\ ExpOf(w) < 254) => Abs(DbOf(Double(w)) - DbOf(w) - 394566) <= 8
Results == {<<"ok", "", <<0, 4>>>>, <<"ok", "", <<DbOf(w), 1>>>>, <<"err", "Nan", <<0, 0>>>>, <<"err", "Infinite", <<0, 0>>>>, <<"ok", "", <<0, 2>>>>}
Total == \A strict \in BOOLEAN :
  LET acc == { o \in Results : Classified(w, o[1], o[2], o[3], strict) }
  IN acc # {} /\ <<"ok", "", <<0, 2>>>> \notin acc /\ (\E o \in acc : o[1] = "ok") # (\E o \in acc : o[1] = "err")
RoundSelf == (IsNormal(w) /\ ~Neg(w)) => RelOne(w, w) /\ ~RelOne(w, Double(w))
\* the oracle of the way back agrees with the way there
BackOk == (IsNormal(w) /\ ~Neg(w) /\ Abs(DbOf(w)) <= 45875200) => ENABLED ToRatio(<<DbOf(w), 1>>, w)
\* clippers
ClipTotal == ~IsNaNW(w) => /\ ENABLED Digital(w, IF AboveOne(w) THEN (IF Neg(w) THEN <<49024, 0>> ELSE OneW) ELSE w)
                           /\ (AboveOne(w) => ~ENABLED Digital(w, w) /\ ~ENABLED Shaped(w, <<0, 0>>))
\* interpolation: exactly one class for every triple
LerpClasses == \A b \in {<<0, 0>>, <<32704, 0>>, <<65408, 0>>, w} : \A t \in {<<0, 0>>, <<32768, 0>>, OneW, <<16256, 1>>, <<32768, 1>>, <<16000, 0>>} :
  LerpErr(w, b, t) \in {"", "InputNaN", "InputInfinite", "InterpolationRange"} /\
  (LerpErr(w, b, t) = "") = (~IsNaNW(w) /\ ~IsNaNW(b) /\ ~IsInfW(w) /\ ~IsInfW(b) /\ t \notin {<<16256, 1>>, <<32768, 1>>})
\* products: x * 1000 / 1000
F(x) == <<IF Neg(x) THEN -1 ELSE 1, Unit + MantOf(x), ExpOf(x) - 150>>
MulFacts == IsNormal(w) => /\ EqF(MulF(F(w), <<1, Unit, -23>>), F(w), 4)
                           /\ EqF(MulF(F(w), <<1, Unit, -22>>), <<F(w)[1], F(w)[2], F(w)[3] + 1>>, 4)
                           /\ EqF(MulF(MulF(F(w), Thousand), <<1, 8589935, -33>>), F(w), 12)
                           /\ ~EqF(F(w), <<F(w)[1], F(w)[2], F(w)[3] + 1>>, 12)
                           /\ ~EqF(F(w), <<0 - F(w)[1], F(w)[2], F(w)[3]>>, 12)
=============================================================================
