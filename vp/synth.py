"""Synthetic IIASA-format databases and parameter files in a scratch directory."""
import atexit
import csv
import os
import random
import shutil
import tempfile

from vp.core import REPO

_dir = None
_count = 0


def scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        parent = os.environ.get("VERIF_SCRATCH")  # created and removed by vp.main
        d = tempfile.mkdtemp(prefix="verif-", dir=parent)
        _dir = (os.getpid(), d)
        if parent is None:
            atexit.register(shutil.rmtree, d, True)
    return _dir[1]


def write_csv(header, rows, name=None, same_name=False):
    """`same_name`: a folder of its own for a file that is named like others."""
    global _count
    _count += 1
    if same_name:
        name = f"dir{os.getpid()}_{_count}/output.csv"
    path = os.path.join(scratch(), name or f"db{os.getpid()}_{_count}.csv")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf8") as fh:
        fh.write(",".join(map(str, header)) + "\n")
        for r in rows:
            fh.write(",".join(repr(x) if isinstance(x, float) else str(x) for x in r) + "\n")
    return path


_unusual = {}


def unusual(kind, seed):
    """A copy of the shipped database in which the emissions of some regions are not positive: (negative, zero, negative
    from some year on, negative up to some year)."""
    key = (kind, seed, os.getpid())
    if key not in _unusual:
        with open(os.path.join(REPO, "mimosa/inputdata/data/data_IMAGE_SSP.csv"), encoding="utf8") as fh:
            header, *rows = csv.reader(fh)
        first = next(i for i, h in enumerate(header) if h.isdigit())
        var, reg = header.index("Variable"), header.index("Region")
        rnd = random.Random(seed)
        chosen = {r: (rnd.random() < 0.4, rnd.randint(1, 8)) for r in sorted({x[reg] for x in rows})}
        for x in rows:
            hit, turn = chosen[x[reg]]
            if x[var] == "Emissions|CO2" and hit:
                for j in range(first, len(x)):
                    f = {"negative": -0.2, "zero": 0.0, "late": 1.0 if j - first < turn else -0.1, "early": -0.1 if j - first < turn else 1.0}[kind]
                    x[j] = repr(float(x[j]) * f)
        _unusual[key] = write_csv(header, rows)
    return _unusual[key]
