"Deterministic simulation of trusspy with fault injection."
