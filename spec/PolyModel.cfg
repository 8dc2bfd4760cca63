SPECIFICATION Spec
INVARIANTS BasisLaw OrthoLaw PiecewiseLaw QuadratureLaw
CHECK_DEADLOCK FALSE
