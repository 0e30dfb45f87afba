INIT Init
NEXT Next
CONSTANT Verdict <- BankVerdict
CHECK_DEADLOCK FALSE
POSTCONDITION AllRead
