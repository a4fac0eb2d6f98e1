SPECIFICATION Spec
INVARIANT ExitRight
INVARIANT TargetRight
INVARIANT SolRight
INVARIANT BudgetRight
INVARIANT OnceRight
PROPERTY StepsRight
CONSTANT Pts = {0, 1}
CONSTANT Vals = {0, 1, 2}
CONSTANT MaxReq = 3
CHECK_DEADLOCK FALSE
