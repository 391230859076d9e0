SPECIFICATION Spec
CONSTANTS
Vels = {100, 150, 400, 1000}
Ths = {2, 8, 30}
Rhos = {2}
N = 3
Fs = {"0.5", "5", "20"}
INVARIANTS Converges Defined Ended Bounded Uniform InBand Found Splits Scales Monotonic
CHECK_DEADLOCK FALSE
