"""pyded: a deductive verifier for Python that symbolically executes the real source."""
