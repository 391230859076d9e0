SPECIFICATION Spec
CONSTANTS
Vels = {100, 250, 1000}
Ths = {2, 20}
Rhos = {1, 2}
N = 2
Fs = {"0.5", "5", "20"}
INVARIANTS Converges Defined Ended Bounded Uniform InBand Found Splits Scales Monotonic
CHECK_DEADLOCK FALSE
