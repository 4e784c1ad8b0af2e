"""pyvc: a contract verifier for a subset of Python (AST symbolic execution + z3)."""
