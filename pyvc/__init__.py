"""pyvc: a small deductive verifier for the Python subset used by atoparser."""
