"""Bounded model checking of PYPOWER: explorer, reference models and checks."""
