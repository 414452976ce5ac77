"""Symbolic digits inside ordinary strings.

Formatting a symbolic integer in binary or hexadecimal yields a plain ``str`` whose symbolic
digits are private-use characters; a table maps each of them to its z3 term.  The characters
survive concatenation, slicing, joining and f-strings."""
import re

import z3

from . import core
from .core import Unsupported
from .values import Sym, SymBool, SymInt

BASE = 0xE000
LIMIT = 0x1900


def _table():
    ex = core.current()
    t = getattr(ex, "digits", None)
    if t is None or ex.digits_pc is not ex.pc:
        ex.digits, ex.digits_pc, ex.digit_ids = [], ex.pc, {}
        t = ex.digits
    return t


def digit(e, radix):
    """A one-character string standing for the symbolic digit e (0 <= e < radix)."""
    e = _bit(e) if radix == 2 else e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return "0123456789ABCDEF"[e.as_long()]
    t = _table()
    ex = core.current()
    k = (e.get_id(), radix)
    if k in ex.digit_ids:
        return chr(BASE + ex.digit_ids[k])
    if len(t) >= LIMIT:
        raise Unsupported("too many symbolic digits")
    ex.digit_ids[k] = len(t)
    t.append((e, radix))
    return chr(BASE + len(t) - 1)


def _power(e):
    """k for the numeral 2**k"""
    if not z3.is_int_value(e) or e.as_long() <= 0 or e.as_long() & (e.as_long() - 1):
        return None
    return e.as_long().bit_length() - 1


def _view(e):
    """The binary digits of e >= 0, least significant first, for terms built from a bounded
    one by shifts and masks."""
    if z3.is_app_of(e, z3.Z3_OP_MOD):
        k = _power(e.arg(1))
        v = None if k is None else _view(e.arg(0))
        return None if v is None else v[:k]
    if z3.is_app_of(e, z3.Z3_OP_IDIV):
        k = _power(e.arg(1))
        v = None if k is None else _view(e.arg(0))
        return None if v is None else v[k:]
    ex = core.current()
    _table()
    key = ("view", e.get_id())
    if key not in ex.digit_ids:
        ex.keep.append(e)
        ex.digit_ids[key] = None
        for n in (8, 16, 32, 64):
            if not ex.warm and ex.check_sat(z3.Not(z3.And(e >= 0, e < 2 ** n)))[0] == z3.unsat:
                ex.digit_ids[key] = _digits(ex, e, n, 2)[::-1]
                break
    return ex.digit_ids[key]


def _bit(e):
    """A simpler form of the binary digit e, where it is one digit of a number."""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        flip = False
        while z3.is_not(c):
            c, flip = c.arg(0), not flip
        if z3.is_distinct(c) and c.num_args() == 2:
            flip = not flip
        elif not z3.is_eq(c):
            return e
        x, y = c.children()
        if z3.is_int_value(x):
            x, y = y, x
        if not (z3.is_int_value(y) and y.as_long() in (0, 1)
                and z3.is_int_value(a) and z3.is_int_value(b)):
            return e
        while y.as_long() == 0:          # x is 0 iff its symbolic factor is
            rest = [t for t in x.children() if not z3.is_int_value(t)] \
                if z3.is_mul(x) or z3.is_add(x) else []
            if len(rest) != 1 or z3.is_add(x) and any(
                    z3.is_int_value(t) and t.as_long() for t in x.children()) or \
                    z3.is_mul(x) and any(z3.is_int_value(t) and not t.as_long()
                                         for t in x.children()):
                break
            x = rest[0]
        d = _bit(x)
        if d is x:
            return e
        one = (y.as_long() == 1) != flip           # the condition says the digit is 1
        hi, lo = (a.as_long(), b.as_long()) if one else (b.as_long(), a.as_long())
        return d * (hi - lo) + lo
    if z3.is_app_of(e, z3.Z3_OP_MOD) and z3.is_int_value(e.arg(1)) and e.arg(1).as_long() == 2:
        v = _view(e.arg(0))
        if v is not None:
            return v[0] if v else z3.IntVal(0)
    return e


def is_sym_char(c):
    return BASE <= ord(c) < BASE + LIMIT


def has_sym(s):
    return isinstance(s, str) and any(is_sym_char(c) for c in s)


def digit_expr(c):
    """z3 integer of one digit character, symbolic or not."""
    if is_sym_char(c):
        return _table()[ord(c) - BASE][0]
    return z3.IntVal(int(c, 16))


def _digits(ex, e, n, radix):
    """The n digits of 0 <= e < radix**n, most significant first, as fresh variables tied
    to e by one linear equation."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        v = e.as_long()
        return [z3.IntVal((v // radix ** k) % radix) for k in range(n - 1, -1, -1)]
    _table()
    key = ("digits", e.get_id(), n, radix)
    if key in ex.digit_ids:
        return ex.digit_ids[key]
    ds = [z3.Int(ex.fresh_name("$digit")) for _ in range(n)]
    total = z3.IntVal(0)
    for d in ds:
        ex.add(z3.And(d >= 0, d < radix))
        total = total * radix + d
    ex.add(e == z3.simplify(total))
    ex.keep.append(e)
    ex.digit_ids[key] = ds
    return ds


_SPEC = re.compile(r"^(?:(.)?([<>=^]))?([+\- ])?(#)?(0)?(\d+)?([,_])?([bdoxX])?$")


def _below(e):
    """An upper bound of e (exclusive) that can be read off its form, for e >= 0."""
    if z3.is_int_value(e):
        return e.as_long() + 1 if e.as_long() >= 0 else None
    if z3.is_app_of(e, z3.Z3_OP_MOD) and z3.is_int_value(e.arg(1)):
        return e.arg(1).as_long() if e.arg(1).as_long() > 0 else None
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = _below(e.arg(1)), _below(e.arg(2))
        return None if a is None or b is None else max(a, b)
    return None


def one_digit(v):
    """The digit a symbolic integer is, where it can be seen to be one."""
    n = v.hi + 1 if v.lo is not None and v.hi is not None and v.lo >= 0 else _below(v.e)
    if n is None or n > 10:
        return None
    return digit(v.e, 2 if n <= 2 else 16)


def format_int(v, spec):
    if spec in ("", "d", "1d"):
        return one_digit(v) or "<symint>"
    m = _SPEC.match(spec)
    if m is None or m.group(8) in (None, "d", "o"):
        return "<symint>"
    width = int(m.group(6) or 0)
    zero = m.group(5) == "0" or m.group(1) == "0"
    radix = 2 if m.group(8) == "b" else 16
    ex = core.current()
    e = v.e
    mode = getattr(ex, "format_mode", "digits")
    if mode == "fork" and radix == 2:
        return format(ex.concretize(e), spec)
    if ex.branch(e < 0):
        return "-" + format_int(SymInt(-e), spec)
    # number of digits actually needed
    n = width if (zero and width) else 1
    while not ex.branch(e < radix ** n):
        n += 1
        if n >= 64:
            raise Unsupported("formatted integer too wide")
    s = "".join(digit(d, radix) for d in _digits(ex, e, n, radix))
    return s.rjust(width, "0" if zero else " ")


def value_of(s, radix=2):
    """Integer value of a digit string, as SymInt when it has symbolic digits."""
    if not has_sym(s):
        return int(s, radix) if s else 0
    t = z3.IntVal(0)
    for c in s:
        t = t * radix + digit_expr(c)
    return SymInt(z3.simplify(t))


def bit(c):
    """Truth value of a bit character."""
    if is_sym_char(c):
        return SymBool(digit_expr(c) == 1)
    return c == "1"


class int_shim_meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)


class int_shim(metaclass=int_shim_meta):
    """Stand-in for the builtin in modules that parse strings with symbolic digits."""
    def __new__(cls, x=0, base=None):
        if isinstance(x, str):
            b = 10 if base is None else base
            if has_sym(x):
                return value_of(x.strip(), b)
            return int(x, b)
        if isinstance(x, SymInt):
            return x
        if isinstance(x, Sym):
            if hasattr(x, "__trunc__"):
                return x.__trunc__()
            return x.as_int()
        return int(x) if base is None else int(x, base)
    from_bytes = int.from_bytes


def bin_shim(x):
    if isinstance(x, SymInt):
        ex = core.current()
        return "-0b" + format(-x, "b") if ex.branch(x.e < 0) else "0b" + format(x, "b")
    return bin(x)


def hex_shim(x):
    if isinstance(x, SymInt):
        ex = core.current()
        return "-0x" + format(-x, "x") if ex.branch(x.e < 0) else "0x" + format(x, "x")
    return hex(x)


def free_digit(ctx, name, radix=16):
    """A fresh symbolic digit character (a concrete one in replay)."""
    v = ctx.int(name, 0, radix - 1)
    if isinstance(v, Sym):
        return digit(v.e, radix)
    return "0123456789ABCDEF"[v]
