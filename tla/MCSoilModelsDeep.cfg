SPECIFICATION Spec
CONSTANTS
    Stresses = {"25", "60", "100", "250", "400", "1000"}
    PIs = {"2", "5", "15", "30"}
    OCRs = {"1", "2", "4", "8"}
    Cus = {"2", "3", "8", "20"}
    D50s = {"0.5", "10"}
    Dmins = {"-", "0.02"}
    OCs = {"15", "60"}
    Voids = {"0.5", "0.65", "0.8"}
    Fines = {"20", "40"}
    Waters = {"10", "20"}
    Steps = 20
    Kinds = {"darendeli", "menq", "rollins", "two", "alemu", "kishida", "wang"}
INVARIANTS Reduction AtLeastMinimum GivenMinimum Physical HalfAtRef Confined Levels Insufficient Stiff Organic
PROPERTIES Monotone NoLoss
CHECK_DEADLOCK FALSE
