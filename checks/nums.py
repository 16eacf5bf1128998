"""Table of the numeric types pybindgen supports and in which passing modes."""
import struct

I8, U8 = (-2**7, 2**7 - 1), (0, 2**8 - 1)
I16, U16 = (-2**15, 2**15 - 1), (0, 2**16 - 1)
I32, U32 = (-2**31, 2**31 - 1), (0, 2**32 - 1)
I64, U64 = (-2**63, 2**63 - 1), (0, 2**64 - 1)

# spelling, range, forms: v value, V const value, r return, R const return,
# c const&, [&*][iob]: reference/pointer in/out/inout, p const pointer
_REF = 'c &i &o &b '
_PTR = '*i *o *b p '
INTS = [
    ('int', I32, 'v V r R ' + _REF + _PTR),
    ('int32_t', I32, 'v V r R'),
    ('unsigned int', U32, 'v V r R ' + _REF + _PTR),
    ('uint32_t', U32, 'v V r R ' + _PTR),
    ('int16_t', I16, 'v V r R ' + _REF),
    ('short', I16, 'v V r R ' + _REF),
    ('short int', I16, 'v V r R ' + _REF),
    ('uint16_t', U16, 'v V r R ' + _REF + _PTR),
    ('unsigned short', U16, 'v V r R ' + _REF),
    ('unsigned short int', U16, 'v V r R ' + _REF + _PTR),
    ('short unsigned int', U16, 'r R ' + _REF),
    ('int8_t', I8, 'v V r R ' + _REF + _PTR),
    ('signed char', I8, 'v V r R ' + _REF),
    ('uint8_t', U8, 'v V r R ' + _REF + _PTR),
    ('unsigned char', U8, 'v V r R ' + _REF),
    ('unsigned long long', U64, 'v V r R c &i'),
    ('uint64_t', U64, 'v V r R c &i'),
    ('long long unsigned int', U64, 'v V r R c &i'),
    ('unsigned long', U64, 'v V r R c &i'),
    ('long unsigned int', U64, 'v V r R c &i'),
    ('signed long', I64, 'v V r R c &i'),
    ('long', I64, 'v V r R c &i'),
    ('long int', I64, 'v V r R c &i'),
    ('long signed int', I64, 'v V r R c &i'),
    ('size_t', U64, 'v V r R'),
    ('std::size_t', U64, 'v V r R'),
    ('long long', I64, 'v V r R c &i'),
    ('int64_t', I64, 'v V r R c &i'),
    ('long long int', I64, 'v V r R c &i'),
]
# spellings accepted as parameters only
INTS_PARAM_ONLY = [
    ('unsigned long int', U64, 'v V c &i', 'unsigned long'),
    ('long unsigned', U64, 'v V c &i', 'unsigned long'),
    ('signed long int', I64, 'v V c &i', 'long'),
    ('long signed', I64, 'v V c &i', 'long'),
    ('unsigned long long int', U64, 'v V', 'uint64_t'),
    ('long long unsigned', U64, 'v V', 'uint64_t'),
    ('char signed', I8, 'v V ' + _REF, 'int8_t'),
]
OTHERS = [
    ('bool', None, 'v V r R ' + _REF + _PTR),
    ('float', None, 'v V r R ' + _REF + _PTR),
    ('double', None, 'v V r R ' + _REF + _PTR),
]


def strict(rng):
    """Does the conversion promise to reject values outside the range?"""
    return rng[0] < 0 or rng[1] < 2**16


def lattice(rng, full=False):
    lo, hi = rng
    vals = set()
    for k in (0, 7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-1, 0, 1):
            vals.add(2**k + d)
            vals.add(-2**k + d)
    for b in (lo, hi):
        for d in (-2, -1, 0, 1, 2):
            vals.add(b + d)
    vals |= {0, 42, -42, 100, 200, -100, 2**100, -2**100, 0x5a5a5a5a5a5a5a5a, 0x1234, 129, 65, 0xAB}
    if hi - lo < 2**9:
        vals |= set(range(lo - 3, hi + 300)) if full else set(range(lo - 2, hi + 3))
    elif hi - lo < 2**17:
        vals |= set(range(lo - 3, hi + 4)) if full else set(range(lo, hi, 1021))
    return sorted(vals)


def f32(x):
    return struct.unpack('f', struct.pack('f', x))[0]


FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 1.5, -2.25, 3.0, 1e10, -1e-10, 2.0**-149, 2.0**-126, 2.0**127, 16777217.0,
          3.4028234663852886e38, float('inf'), float('-inf'), float('nan'), 0.1, 1 / 3., 1e300, 5e-324,
          1.7976931348623157e308]


def inside(rng, v):
    return rng[0] <= v <= rng[1]
