"""What PyBox expects of older Python, numpy and Open Babel; no change in /repo.

- open() accepts mode 'rU'; numpy.save() stores ragged lists as object arrays;
- "import pybel" works (a stand-in object per SMILES string unless the real one is wanted)."""
import builtins, sys, types
import numpy


def install(real_pybel=False):
    if real_pybel:
        from openbabel import pybel
        sys.modules["pybel"] = pybel
    else:
        m = types.ModuleType("pybel")
        m.readstring = lambda fmt, s: Molecule(s)
        m.Molecule = Molecule
        sys.modules["pybel"] = m
    _open, _save = builtins.open, numpy.save

    def open_(file, mode="r", *a, **k):
        if isinstance(mode, str) and sorted(mode) == ["U", "r"]:
            mode = "r"
        return _open(file, mode, *a, **k)

    def save_(file, arr, *a, **k):
        if isinstance(arr, list):
            try:
                arr = numpy.array(arr)
            except ValueError as e:
                if "inhomogeneous" not in str(e):
                    raise
                arr = numpy.array(arr, dtype=object)
        return _save(file, arr, *a, **k)

    builtins.open, numpy.save = open_, save_


class Molecule:
    """Stands for an Open Babel molecule; identity matters, as with the real one."""
    def __init__(self, smiles):
        self.smiles = smiles
        self.molwt = 40.0 + 7.0 * len(smiles) + sum(map(ord, smiles)) % 13

    def __repr__(self):
        return "Molecule(%r)" % self.smiles
