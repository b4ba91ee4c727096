SPECIFICATION Spec
CONSTANTS B = 3
INVARIANTS Linear Power Felt Slider Cubic
CHECK_DEADLOCK FALSE
