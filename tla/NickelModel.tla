---------------------------- MODULE NickelModel ----------------------------
(* The published power is the one of the decay chain: nuclei of nickel and   *)
(* cobalt per initial nickel nucleus (ni, co) obey the rate equations, each  *)
(* decay releases its energy, and over all time both energies are released.  *)
EXTENDS Nickel, Integers, TLC
CONSTANT Days
VARIABLE day
Init == day \in 0..Days
Next == FALSE /\ UNCHANGED day
Spec == Init /\ [][Next]_day
T == RMul(day, Day)
Ni(t) == Left(t, TauNi)
Co(t) == RMul(RDiv(TauCo, RSub(TauCo, TauNi)), RSub(Left(t, TauCo), Left(t, TauNi)))
Chain(t) == RDiv(RAdd(RDiv(RMul(QNi, Ni(t)), TauNi), RDiv(RMul(QCo, Co(t)), TauCo)), Mass)
(* energy still to be released *)
Stock(t) == RDiv(RAdd(RMul(RAdd(QNi, QCo), Ni(t)), RMul(QCo, Co(t))), Mass)
h == RPow10(-6)
Slope(f(_), t) == RDiv(RSub(f(RAdd(t, h)), f(RSub(t, h))), RMul(2, h))
Exact == /\ RClose(Power(T), Chain(T), RPow10(-30), 0)
         /\ RClose(Slope(Ni, T), RNeg(RDiv(Ni(T), TauNi)), RPow10(-20), RPow10(-30))
         /\ RClose(Slope(Co, T), RSub(RDiv(Ni(T), TauNi), RDiv(Co(T), TauCo)), RPow10(-20), RPow10(-26))
         /\ RClose(Slope(Stock, T), RNeg(Power(T)), RPow10(-18), 0)
         /\ RClose(Stock(0), RDiv(RAdd(QNi, QCo), Mass), RPow10(-30), 0)
         /\ RLt(0, Power(T)) /\ RLt(Power(RAdd(T, Day)), Power(T))
=============================================================================
