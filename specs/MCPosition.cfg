CONSTANTS W = 3 H = 3 Neg = 2
SPECIFICATION Spec
INVARIANTS Safe Nothing Possible Unique Back Bijection Surjection Flips Rotations Isometry Metric Box
PROPERTIES Arrives Progress
CHECK_DEADLOCK FALSE
