SPECIFICATION TSpec11
CONSTANTS NReg = 1 Labels = {1}
CHECK_DEADLOCK FALSE
