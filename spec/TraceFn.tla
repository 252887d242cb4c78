------------------------------ MODULE TraceFn -------------------------------
EXTENDS EngabraFn, TraceBase
\* operands the functions leave alone: the recorded arguments are the ones passed
Fn(e) ==
  CASE e.op = "magSq" -> MagSqOK(e.a, e.r, e.x = 1)
    [] e.op = "magnitude" -> MagnitudeOK(e.a, e.r)
    [] e.op = "pairMagDir" -> PairMagDirOK(e.a, e.r, e.d)
    [] e.op = "direction" -> DirectionOK(e.a, e.r)
    [] e.op = "ampSq" -> AmpSqOK(e.a, e.r, e.x = 1)
    [] e.op = "amplitude" -> AmplitudeOK(e.a, e.r)
    [] e.op = "inverse" -> InverseOK(e.a, e.r, e.x = 1)
    [] e.op = "exp" -> ExpOK(e.a, e.r)
    [] e.op = "log" -> LogOK(e.a, e.p, e.r)
    [] e.op = "sqrt" -> SqrtOK(e.a, e.p, e.r)
    [] OTHER -> FALSE
=============================================================================
