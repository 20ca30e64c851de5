CONSTANTS T = 7
 Leads = {0, 1, 2, 4}
 Inits = {0, 1, 2, 3}
SPECIFICATION Spec
INVARIANTS SplitInvisible NothingInvented RefusedIffMissing PersistenceAtZero
