SPECIFICATION Spec
CONSTANTS W = 2
 NB = 2
INVARIANTS EncodeOk DecodeOk ParentOk OrderOk BatchOk Agree
CHECK_DEADLOCK FALSE
