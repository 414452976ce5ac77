"""Bit strings, symbolic or not."""
from symx.strings import digit_expr, is_sym_char
from symx.values import SymInt


def bit(ch):
    """The integer value of one binary digit."""
    if is_sym_char(ch):
        return SymInt(digit_expr(ch), 0, 1)
    return int(ch)


def number(s):
    """Value of a bit string, most significant bit first."""
    v = 0
    for ch in s:
        v = v * 2 + bit(ch)
    return v


def is_bits(s):
    return isinstance(s, str) and all(is_sym_char(c) or c in "01" for c in s)


def ones(s):
    n = 0
    for ch in s:
        n = n + bit(ch)
    return n


def concrete_prefix(s, n):
    return s[:n] if not any(is_sym_char(c) for c in s[:n]) else None


DR = {"0": "DR_8", "1": "DR_643"}
M = {"00": "FM0", "01": "M2", "10": "M4", "11": "M8"}
SEL = {"00": "ALL", "10": "NOT_SEL", "11": "SEL"}
SESSION = {"00": "S0", "01": "S1", "10": "S2", "11": "S3"}
TARGET = {"0": "A", "1": "B"}
UPDN = {"110": 1, "000": 0, "011": -1}
BANK = {"00": "RESERVED", "01": "EPC", "10": "TID", "11": "USER"}


def decode(s):
    """Decode a command by the layout of the Gen2 air protocol; None if it is none."""
    if s.startswith("1000"):
        if len(s) != 22:
            return None
        return {"command": "QUERY", "dr": DR.get(s[4]), "m": M.get(s[5:7]),
                "trext": number(s[7]), "sel": SEL.get(s[8:10]), "session": SESSION.get(s[10:12]),
                "target": TARGET.get(s[12]), "q": number(s[13:17]), "crc": number(s[17:22])}
    if s.startswith("1001"):
        if len(s) != 9:
            return None
        return {"command": "QUERY_ADJUST", "session": SESSION.get(s[4:6]),
                "updn": UPDN.get(s[6:9])}
    if s.startswith("00"):
        if len(s) != 4:
            return None
        return {"command": "QUERY_REP", "session": SESSION.get(s[2:4])}
    if s.startswith("01"):
        if len(s) != 18:
            return None
        return {"command": "ACK", "rn": number(s[2:])}
    if s.startswith("11000001"):
        if len(s) != 40:
            return None
        return {"command": "REQ_RN", "rn": number(s[8:24]), "crc": number(s[24:])}
    if s.startswith("11000010"):
        bank = BANK.get(s[8:10])
        i, ptr, blocks = 10, 0, 0
        while True:
            block = s[i:i + 8]
            if len(block) != 8 or block[0] not in "01":
                return None
            ptr = ptr * 128 + number(block[1:])
            blocks += 1
            i += 8
            if block[0] == "0":
                break
        if len(s) != i + 40:
            return None
        return {"command": "READ", "bank": bank, "word_ptr": ptr, "blocks": blocks,
                "word_count": number(s[i:i + 8]), "rn": number(s[i + 8:i + 24]),
                "crc": number(s[i + 24:])}
    return None


# ---------------------------------------------------------------- reference encoder
CODE = {"DR_8": "0", "DR_643": "1", "FM0": "00", "M2": "01", "M4": "10", "M8": "11",
        "ALL": "00", "NOT_SEL": "10", "SEL": "11", "S0": "00", "S1": "01", "S2": "10",
        "S3": "11", "A": "0", "B": "1", "RESERVED": "00", "EPC": "01", "TID": "10",
        "USER": "11", 1: "110", 0: "000", -1: "011"}


def field(v, n):
    """v as n bits; v is an ordinary integer or a bit string of that width."""
    if isinstance(v, str):
        assert len(v) == n
        return v
    s = ""
    for k in range(n - 1, -1, -1):
        s += "1" if (v >> k) & 1 else "0"
    return s


def ebv_of(v):
    out, last = "", True
    while True:
        out = ("0" if last else "1") + field(v & 127, 7) + out
        v >>= 7
        last = False
        if v == 0:
            return out


def enc_query(dr, m, trext, sel, session, target, q, crc):
    return ("1000" + CODE[dr] + CODE[m] + ("1" if trext else "0") + CODE[sel] + CODE[session]
            + CODE[target] + field(q, 4) + field(crc, 5))


def enc_rep(session):
    return "00" + CODE[session]


def enc_adjust(session, updn):
    return "1001" + CODE[session] + CODE[updn]


def enc_ack(rn):
    return "01" + field(rn, 16)


def enc_req(rn, crc):
    return "11000001" + field(rn, 16) + field(crc, 16)


def enc_read(bank, ptr, wc, rn, crc):
    return "11000010" + CODE[bank] + ebv_of(ptr) + field(wc, 8) + field(rn, 16) + field(crc, 16)


def frame_time(s, tari, rtcal, trcal, delim):
    """Duration of the frame carrying the bit string s."""
    t = delim + tari + rtcal
    if s.startswith("1000"):
        t = t + trcal
    return t + s.count("0") * tari + s.count("1") * (rtcal - tari)
