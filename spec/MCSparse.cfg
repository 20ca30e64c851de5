CONSTANTS T = 7
 U = 3
 Tol = 1
 Width = 2
SPECIFICATION Spec
INVARIANTS ExactlyOnce OwnWindow Emit
