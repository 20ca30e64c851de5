SPECIFICATION Spec
CONSTANTS Years = {1896, 1899, 1900, 1904, 1995, 1996, 1997, 1998, 1999, 2000, 2019, 2020, 2023, 2024, 2100} Steps = 60 StepMin = 90 Laws = FALSE
INVARIANTS KeyIsClock Emit
CHECK_DEADLOCK FALSE
