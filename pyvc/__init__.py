"""A contract-based deductive verifier for the Python/numpy subset of SeismoStats."""
