SPECIFICATION TraceSpec
CONSTANT InitSt <- LabInit
CONSTANT Judge <- LabJudge
CHECK_DEADLOCK FALSE
