SPECIFICATION Spec
CONSTANTS
Vels = {200, 1500}
Ths = {5, 20}
Damps = {"0.01", "0.03"}
N = 2
Targets = {"0.001", "0.02"}
Steps = 2
INVARIANTS Hits Inverse OnlySelected RefusedKeeps Damped NoContrast
CHECK_DEADLOCK FALSE
