CONSTANTS T = 12
 U = 3
 Tol = 2
 Width = 5
SPECIFICATION Spec
INVARIANTS ExactlyOnce OwnWindow
