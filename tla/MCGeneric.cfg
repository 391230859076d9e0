SPECIFICATION Spec
CONSTANTS
    Vels = {500, 507, 520}
    Ths = {1, 4}
    Weights = {18, 22}
    N = 3
    Tols = {"0", "0.02"}
    Waters = {0, 3, 100}
INVARIANTS Partition Tops Preserved Within Maximal Averages NothingToMerge Stress Regional
CHECK_DEADLOCK FALSE
