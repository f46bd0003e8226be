"""dv: contract-based deductive verifier for the labelled-array code of PyPSA."""
