"""Order preserving integer encoding of raw values for TLC (32 bit integers)."""
import math
NULL = -2000000000
BAD = 1999999999
STR0 = 1000000000
ID0 = 0
NUM_RANK0 = 500000000
SCALE = 8000  # multiples of 1/64 and of 1/1000 are exact


def native(v):
    """Python value of a value returned by the library."""
    if hasattr(v, 'item') and not isinstance(v, (str, bytes)):
        v = v.item()
    if isinstance(v, float) and math.isnan(v):
        return None
    return v


def number(v):
    """A number as the rank key: floats up to the rounding of a text round trip."""
    if isinstance(v, float):
        if math.isinf(v):
            return v
        return int(v) if v.is_integer() and abs(v) < 2**53 else float('%.14g' % v)
    return v


class Codec:
    """Built from every raw value occurring in a trace: strings and numbers become ranks, so comparisons carry over.
    Interaction values, which are added up, are fixed point numbers."""

    def __init__(self):
        self.strs, self.idnums, self.scale = set(), set(), SCALE

    def add(self, col, v):
        v = native(v)
        if isinstance(v, str):
            self.strs.add(v)
        elif isinstance(v, (int, float)) and not isinstance(v, bool):
            if col == 'interaction':
                if 10000 < abs(v) < 2 * 10**8:
                    self.scale = 4
            else:
                self.idnums.add(number(v))

    def freeze(self):
        self.srank = {s: k for k, s in enumerate(sorted(self.strs))}
        self.irank = {}
        for v in sorted(self.idnums):
            if v not in self.irank:
                self.irank[v] = len(self.irank)
        return self

    def enc(self, col, v):
        v = native(v)
        if v is None:
            return NULL
        if isinstance(v, str):
            return STR0 + self.srank[v] if v in self.srank else BAD
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return BAD
        if col in ('rid', 'uid', 'iid'):
            return int(v) if v == int(v) and abs(v) < 10**6 else BAD
        if col == 'interaction':
            return self.scaled(v)
        return ID0 + self.irank.get(number(v), BAD)

    def scaled(self, v):
        return scaled(v, self.scale)


def scaled(v, scale=SCALE):
    """Fixed point value; values that are not multiples of 1/scale are no value the specification can produce."""
    v = native(v)
    if v is None:
        return NULL
    if isinstance(v, bool) or not isinstance(v, (int, float)) or math.isinf(v):
        return BAD
    if abs(v) * scale > 1840000000:
        return BAD if v > 0 else -BAD
    x = v * scale
    return int(round(x)) if abs(x - round(x)) < 1e-6 else BAD
