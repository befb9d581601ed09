SPECIFICATION Spec
INVARIANTS NaturalsAgree NaturalLaws
CHECK_DEADLOCK FALSE
