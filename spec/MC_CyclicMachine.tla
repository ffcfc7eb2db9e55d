-------------------------- MODULE MC_CyclicMachine --------------------------
EXTENDS CyclicMachine
=============================================================================
