SPECIFICATION Spec
INVARIANT MachineInv
CHECK_DEADLOCK FALSE
