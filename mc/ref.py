"""Independent reference semantics and comparison helpers, written from the documentation."""

import itertools
import math
import numpy
from mc.core import Mismatch

NAN = float("nan")


def same_number(a, b, rtol=1e-9, atol=1e-12):
    """True, if two (complex) numbers agree; nan agrees with nan, inf with inf of the same sign."""
    a, b = complex(a), complex(b)
    return _same_real(a.real, b.real, rtol, atol, abs(b)) and _same_real(a.imag, b.imag, rtol, atol, abs(b))


def _same_real(a, b, rtol, atol, scale):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    if math.isinf(scale) or math.isnan(scale):
        scale = abs(b)
    return abs(a - b) <= atol + rtol * max(abs(b), scale)


def same_array(a, b, rtol=1e-9, atol=1e-12):
    """Shape and values of two arrays agree (nan == nan)."""
    a = numpy.asarray(a)
    b = numpy.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    return bool(numpy.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def expect(condition, message, *args):
    if not condition:
        raise Mismatch(message.format(*args) if args else message)


def expect_equal(actual, expected, what):
    if isinstance(actual, numpy.ndarray) or isinstance(expected, numpy.ndarray):
        ok = same_array(actual, expected)
    elif isinstance(actual, (float, numpy.floating)) and isinstance(expected, (float, int, numpy.floating)) and not isinstance(expected, bool):
        ok = same_number(actual, expected, rtol=1e-12, atol=0.0)     # not exact, because algebraically equal formulas may round differently
    else:
        ok = actual == expected
    if not ok:
        raise Mismatch(f"{what}: got {actual!r}, expected {expected!r}")


def expect_array(actual, expected, what, rtol=1e-9, atol=1e-12):
    if not same_array(actual, expected, rtol, atol):
        raise Mismatch(f"{what}: got {numpy.asarray(actual)!r}, expected {numpy.asarray(expected)!r}")


def scaled_atol(*arrays, rel=1e-10):
    """An absolute tolerance, that is relative to the largest finite magnitude in the arrays."""
    m = 1e-300
    for a in arrays:
        a = numpy.abs(numpy.asarray(a)).ravel()
        a = a[numpy.isfinite(a)]
        if a.size:
            m = max(m, float(a.max()))
    return rel * m


def rounded(array):
    """A hashable canonical form of an array for state keys."""
    a = numpy.asarray(array)
    flat = a.ravel()
    if numpy.iscomplexobj(flat):
        return (a.shape, tuple((_r(v.real), _r(v.imag)) for v in flat))
    return (a.shape, tuple(_r(v) for v in flat))


def _r(v):
    v = float(v)
    if v == 0.0:
        return 0.0
    return float(f"{v:.8g}")


# distinct, "symbolic" sample values: no two positions hold the same value and no
# simple arithmetic relation between different positions exists

_PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107,
           109, 113, 127, 131, 137, 139, 149, 151, 157, 163, 167, 173, 179, 181, 191, 193, 197, 199, 211, 223, 227, 229]


SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.0, 2.0, -2.5, 3.0, math.inf, -math.inf, math.nan, 1e-9, 1e6]
SPECIAL_COMPLEX = [0j, 1 + 0j, -1 + 0j, 1j, -1j, 2 + 0j, 0.5 - 0.5j, -3 + 0j, 0.25j, -2 - 1j]
FIRST_SPECIAL, SECOND_SPECIAL = 100, 101    # tags of arrays, whose combination contains all pairs of special values


def special(pool, channels, length, tag):
    k = len(pool)
    return numpy.array([[pool[(i // k + c) % k if tag == FIRST_SPECIAL else i % k] for i in range(length)] for c in range(channels)],
                       dtype=type(pool[0])).reshape(channels, length)


def symbolic(channels, length, tag=0):
    """A real array with distinct values (mixed signs, not integer)."""
    if tag >= FIRST_SPECIAL:
        return special(SPECIAL, channels, length, tag)
    result = numpy.empty((channels, length))
    for c in range(channels):
        for i in range(length):
            k = (tag * 13 + c * 7 + i * 3) % len(_PRIMES)
            v = math.sqrt(_PRIMES[k]) + 0.25 * tag + 0.03125 * i
            result[c, i] = -v if (c + i + tag) % 3 == 1 else v
    return result


def symbolic_complex(channels, length, tag=0):
    if tag >= FIRST_SPECIAL:
        return special(SPECIAL_COMPLEX, channels, length, tag)
    result = numpy.empty((channels, length), dtype=numpy.complex128)
    result.real = symbolic(channels, length, tag)
    result.imag = symbolic(channels, length, tag + 5)[:, ::-1]
    return result


# sizes around those, at which implementations tend to switch their method or to split their work

SIZES = (63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193)
LARGE_SIZES = (10000, 16384, 16385, 32767, 32768, 32769, 44100, 65535, 65536, 65537)
MANY_CHANNELS = (4, 5, 7, 8, 9, 10, 11, 12, 16, 17, 32, 33, 130)


def labels_for(n, tag=""):
    return tuple(f"{tag}ch{i}" for i in range(n))


def all_tuples(*pools):
    return itertools.product(*pools)


def expect_phase(actual, values, what):
    """Compares phase angles with those of the given complex values; the sign of +-pi and the phase of zeros don't matter."""
    actual, values = numpy.asarray(actual), numpy.asarray(values)
    expect_equal(actual.shape, values.shape, what + ": shape")
    if actual.size and (numpy.abs(actual) > math.pi + 1e-9).any():
        raise Mismatch(f"{what}: got {actual!r}, which is not between -pi and pi")
    relevant = numpy.abs(values) > 0.0
    unit = numpy.array([complex(v) / abs(complex(v)) for v in values[relevant]])
    expect_array(numpy.array([complex(math.cos(p), math.sin(p)) for p in actual[relevant]]), unit, what, atol=1e-9)
