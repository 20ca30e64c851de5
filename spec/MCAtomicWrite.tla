---- MODULE MCAtomicWrite ----
EXTENDS AtomicWrite
====
