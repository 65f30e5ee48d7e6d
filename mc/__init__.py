"""Bounded model checking machinery for ddmarshall/IBL."""
