"""Recorder with the interface networkx.nx_agraph.to_agraph needs."""
from . import agraph
from .agraph import AGraph

__all__ = ["AGraph", "agraph"]
