import zlib

# --- forging a CRC-32 ---

_TABLE = []
for _n in range(256):
    _c = _n
    for _k in range(8):
        _c = (_c >> 1) ^ 0xEDB88320 if _c & 1 else _c >> 1
    _TABLE.append(_c)
_REV = {t >> 24: i for i, t in enumerate(_TABLE)}


def forge(data, at, crc):
    """ data with the four bytes at `at` replaced so that its CRC-32 is
    crc """
    # forward to the position
    state = zlib.crc32(data[:at]) ^ 0xffffffff
    # backward from the end
    back = crc ^ 0xffffffff
    for b in reversed(data[at + 4:]):
        i = _REV[back >> 24]
        back = ((back ^ _TABLE[i]) << 8 | (i ^ b)) & 0xffffffff
    # the four bytes
    ix = []
    for _n in range(4):
        i = _REV[back >> 24]
        ix.append(i)
        back = ((back ^ _TABLE[i]) << 8) & 0xffffffff
    out = bytearray()
    for i in reversed(ix):
        b = (state ^ i) & 0xff
        out.append(b)
        state = (state >> 8) ^ _TABLE[i]
    res = data[:at] + bytes(out) + data[at + 4:]
    assert zlib.crc32(res) == crc and len(res) == len(data)
    return res
