"""Deterministic simulation with fault injection for Parquery/mapry."""
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MAPRY_REPO', '/repo')
