"""Stands in for UManSysProp: every estimate is looked up in a table and depends on its
arguments the way module Selection says, so that a wrong argument shows."""
import sys, types
DATA = {}


def method(table, f=lambda v, *a: v):
    def make(name):
        return lambda c, *a: f(float(DATA[c.smiles][table][name]), *a)
    return make


def module(name, make, names):
    m = types.ModuleType("umansysprop." + name)
    for n in names:
        setattr(m, n, make(n))
    return m


def install(data, by=lambda s: s):
    DATA.clear()
    DATA.update(data)
    top = types.ModuleType("umansysprop")
    top.__path__ = []
    vap = lambda n: (lambda c, T: float(DATA[c.smiles]["vp"][n]) + 0.013 * (T - 298.15)) if n == "evaporation" else \
        (lambda c, T, b: float(DATA[c.smiles]["vp"][n]) + 0.013 * (T - 298.15) - 0.0021 * b)
    den = lambda n: (lambda c: float(DATA[c.smiles]["dens"][n])) if n == "girolami" else \
        (lambda c, T, p: float(DATA[c.smiles]["dens"][n]) + 0.00011 * p - 0.0007 * (T - 298.15))
    groups = types.ModuleType("umansysprop.groups")
    groups.composition = lambda c: {k: float(DATA[c.smiles][k]) for k in "CHO"}
    mods = dict(boiling_points=module("boiling_points", method("bp"), ["joback_and_reid", "stein_and_brown", "nannoolal"]),
                vapour_pressures=module("vapour_pressures", vap, ["nannoolal", "myrdal_and_yalkowsky", "evaporation"]),
                critical_properties=module("critical_properties", method("crit", lambda v, b: v + 0.37 * b), ["nannoolal", "joback_and_reid"]),
                liquid_densities=module("liquid_densities", den, ["girolami", "schroeder", "le_bas", "tyn_and_calus"]),
                groups=groups, partition_models=types.ModuleType("umansysprop.partition_models"),
                activity_coefficient_models_dev=types.ModuleType("umansysprop.activity_coefficient_models_dev"),
                forms=types.ModuleType("umansysprop.forms"))
    mods["forms"].CoreAbundanceField = object
    sys.modules["umansysprop"] = top
    for k, m in mods.items():
        sys.modules["umansysprop." + k] = m
        setattr(top, k, m)
    import compat
    compat.Molecule.molwt = property(lambda self: float(DATA[self.smiles]["mw"]) if self.smiles in DATA else 1.0, lambda self, v: None)
