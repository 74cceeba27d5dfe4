------------------------------ MODULE Sampling ------------------------------
\* Simulated behaviours choose each step among a few possibilities picked at random, so that the simulator, which
\* looks at all successors of a state, gets through many different behaviours. Few = 0: no choice is left out.
EXTENDS Naturals, FiniteSets, Randomization
CONSTANT Few
AFew(S) == IF Few = 0 \/ Cardinality(S) <= Few THEN S ELSE RandomSubset(Few, S)
=============================================================================
