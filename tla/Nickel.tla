------------------------------- MODULE Nickel -------------------------------
(* Heating by the decay chain nickel 56 -> cobalt 56 -> iron 56: the power   *)
(* released per kilogram of initial nickel at time t (SI units).             *)
EXTENDS RealArith
Day == 86400
MeV == RMul(RPow10(6), "1.602176634e-19")
AtomicMass == "1.66053906660e-27"
TauNi == RMul("8.8", Day)
TauCo == RMul("111.3", Day)
QNi == RMul("1.75", MeV)
QCo == RMul("3.73", MeV)
Mass == RMul("55.9421278", AtomicMass)
Left(t, tau) == RExp(RNeg(RDiv(t, tau)))
Power(t) == RDiv(RAdd(RMul(RSub(RMul(QNi, RSub(RDiv(TauCo, TauNi), 1)), QCo), Left(t, TauNi)), RMul(QCo, Left(t, TauCo))), RMul(Mass, RSub(TauCo, TauNi)))
=============================================================================
