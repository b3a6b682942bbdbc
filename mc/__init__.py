"""Bounded-exhaustive model checking machinery for SuMPF (see /verif/DESIGN.md)."""
