"""pyvc: a deductive verifier for a subset of Python, over the real sources in /repo.  See DESIGN.md."""
