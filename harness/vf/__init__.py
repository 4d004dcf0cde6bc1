"""Verification framework for foxes: TLA+ specifications bound to the code."""
