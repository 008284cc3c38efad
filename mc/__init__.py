"""Bounded model checking of causalnex: explorers, reference models and stand-ins."""
