"""Imports done once before the per-contract processes are forked."""
import importlib

MODS = {}


def need(prop, *mods):
    MODS.setdefault(prop, []).extend(mods)


def sym(prop):
    for m in MODS.get(prop, []):
        importlib.import_module(m)


conc = sym
