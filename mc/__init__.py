"""Bounded exhaustive model checking of oelint_parser against executable reference models."""
