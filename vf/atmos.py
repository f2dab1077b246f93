"""The synthetic atmosphere database whose contents spec/gen_atmosphere.qnt defines."""
import os

import numpy as np

ROWS = [0, 1, 685, 1370]
_row = np.arange(1371)


def raw(rec):
    """Values of record `rec` as stored: 1371 x 5, exactly representable in 32 bits."""
    t = np.empty((1371, 5))
    t[:, 0] = ((rec * 389 + _row * 57) % 1024) / 1024
    for j in range(1, 5):
        t[:, j] = (1 + (rec * (97 + j * 1201) + _row * (31 + 7 * j) + j * 4099) % 65521) / 2.0 ** (30 - 4 * ((rec + _row) % 5))
    return t


def table(rec):
    """What a lookup of record `rec` returns."""
    t = raw(rec)
    t[:, 1:] *= 1e10
    return np.column_stack((1e-6 * (0.3 + 0.01 * _row), t))


def path(atms, rec):
    return os.path.join(atms, "%d.bin" % rec)


def write(atms, rec):
    with open(path(atms, rec), "wb") as fh:
        fh.write(raw(rec).T.astype(np.float32).tobytes())


def write_all(atms, absent=()):
    absent = set(absent)
    for rec in range(1, 3431):
        if rec not in absent:
            write(atms, rec)


def check(core, name, got, rows, full=None):
    """A looked-up table against the specification's rows and, where given, in full."""
    got = np.asarray(got)
    if got.shape != (1371, 6):
        raise core.Mismatch(name + ".shape", "the atmosphere has shape %r" % (got.shape,))
    have = got[ROWS]
    for col in range(6):
        core.compare("%s.column%d" % (name, col), have[:, col], rows[col::6], rtol=1e-6, atol=1e-9 if col == 1 else 0)
    if full is not None:
        bad = ~np.isclose(got, full, rtol=1e-6, atol=1e-14)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            raise core.Mismatch(name + ".table", "row %d column %d is %r, the database has %r" % (i, j, got[i, j], full[i, j]))



def write_rows(atms, rec, first, columns, mult):
    """Record `rec` holding `mult` eighths of the given columns from row `first` on; outside them
    values no evaluation limited to these rows may use."""
    t = np.empty((1371, 5))
    t[:, 0], t[:, 1:] = 0.9, 0.5
    n = len(columns[0])
    for j, c in enumerate(columns):
        t[first:first + n, j] = c * mult / 8
    with open(path(atms, rec), "wb") as fh:
        fh.write(t.T.astype(np.float32).tobytes())
