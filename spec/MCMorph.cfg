SPECIFICATION Spec
INVARIANTS AtTemplates Fixed Moments Shift Quantiles QuantileLaws QuantileShift EmitBeh
CHECK_DEADLOCK FALSE
CONSTANT Emit = TRUE
NB = 3
MaxH = 2
