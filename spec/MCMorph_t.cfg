SPECIFICATION Spec
INVARIANTS AtTemplates Fixed Moments Shift Quantiles QuantileLaws QuantileShift EmitBeh
CHECK_DEADLOCK FALSE
CONSTANT Emit = TRUE
NB = 4
MaxH = 2
