SPECIFICATION Spec
CONSTANTS
    Stresses = {"25", "100", "400"}
    PIs = {"5", "30"}
    OCRs = {"1", "4"}
    Cus = {"3", "20"}
    D50s = {"0.5", "10"}
    Dmins = {"-", "0.02"}
    OCs = {"15", "60"}
    Voids = {"0.5", "0.8"}
    Fines = {"20", "40"}
    Waters = {"15"}
    Steps = 20
    Kinds = {"darendeli", "menq", "rollins", "two", "alemu", "kishida", "wang"}
INVARIANTS Reduction AtLeastMinimum GivenMinimum Physical HalfAtRef Confined Levels Insufficient Stiff Organic
PROPERTIES Monotone NoLoss
CHECK_DEADLOCK FALSE
