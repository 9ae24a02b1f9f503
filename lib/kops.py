"""Reference semantics of Kos operators, written from doc/ and the language tests, independent of the C code."""
import math, struct
from kmodel import IMIN, IMAX, wrap, KosError

def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)

def truthy(v):
    if v is None or v is False: return False
    if v is True: return True
    if isinstance(v, (int, float)): return v != 0
    return True

def to_int(v):
    """Conversion of an operand of a bitwise operator: floats are floored; out of range throws."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        raise KosError("type")
    if isinstance(v, int): return v
    if v != v or not (-9223372036854775808.0 < v < 9223372036854775808.0):
        raise KosError("range")
    return math.floor(v)

def fdiv(a, b):
    return a / b

def _f(op, a, b):
    try:
        if op == "+": return a + b
        if op == "-": return a - b
        if op == "*": return a * b
        if op == "/":
            if b == 0: raise KosError("div0")
            return a / b
        if op == "%":
            if b == 0: raise KosError("div0")
            if math.isinf(a) or a != a or b != b: return float("nan")
            return math.fmod(a, b)
    except OverflowError:
        raise

def to_float(i):
    return float(i)

def arith(op, a, b):
    if op == "+" and isinstance(a, str) and isinstance(b, str):
        return a + b
    if not is_num(a) or not is_num(b):
        raise KosError("type")
    if isinstance(a, float) or isinstance(b, float):
        return _f(op, float(a), float(b))
    if op == "+": return wrap(a + b)
    if op == "-": return wrap(a - b)
    if op == "*": return wrap(a * b)
    if b == 0: raise KosError("div0")
    if b == -1 and a == IMIN: raise KosError("overflow")
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0): q = -q
    if op == "/": return q
    return a - q * b

def bitop(op, a, b):
    a = to_int(a); b = to_int(b)
    if op == "&": return a & b
    if op == "|": return a | b
    if op == "^": return a ^ b
    if op == "<<":
        return shl(a, b) if b >= 0 else sar(a, -b)
    if op == ">>":
        return sar(a, b) if b >= 0 else shl(a, -b)
    if op == ">>>":
        return shr(a, b) if b >= 0 else shl(a, -b)
    raise AssertionError(op)

def shl(a, n): return 0 if n > 63 else wrap(a << n)
def sar(a, n): return (-1 if a < 0 else 0) if n > 63 else a >> n
def shr(a, n): return 0 if n > 63 else wrap((a & ((1 << 64) - 1)) >> n)

def unary(op, a):
    if op == "!": return not truthy(a)
    if op == "~": return ~to_int(a)
    if op == "-":
        if not is_num(a): raise KosError("type")
        if isinstance(a, float): return -a
        return wrap(-a)
    if op == "+": return a
    raise AssertionError(op)

ORDER = {"void": 6, "boolean": 8, "string": 10, "object": 12, "array": 14, "buffer": 16, "function": 18, "class": 20}
