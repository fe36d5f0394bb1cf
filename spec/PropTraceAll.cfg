SPECIFICATION Spec
CHECK_DEADLOCK FALSE
ALIAS Brief
INVARIANTS iC01 iC02 iC03 iC04 iC05 iC06 iC07 iC08 iC09 iC10 iC11 iC12 iC13 iC14 iC15 iC18 iC19
