CONSTANTS T = 5
 Leads = {0, 1, 3}
 Inits = {0, 1, 2}
SPECIFICATION Spec
INVARIANTS SplitInvisible NothingInvented RefusedIffMissing PersistenceAtZero Emit
