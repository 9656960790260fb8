"""Random changes of messages that tend to keep them nearly well formed."""

from pbt import model
from pbt.sut import DICT


def message(src, spec, res, most=3):
    wire = res.wire
    for _ in range(1 + src.draw(most)):
        k = src.draw(10)
        b = bytearray(wire)
        if not b:
            return bytes([src.draw(256)])
        if k <= 1:
            i = src.draw(len(b))
            b[i] = src.draw(256)
        elif k == 2:
            i = src.draw(len(b))
            b[i] ^= 1 << src.draw(8)
        elif k == 3:
            i = src.draw(len(b) + 1)
            b[i:i] = bytes([src.draw(256) for _ in range(1 + src.draw(4))])
        elif k == 4:
            i = src.draw(len(b))
            del b[i : i + 1 + src.draw(4)]
        elif k == 5:
            # another length for one field, with the data to match
            c = [p for p in res.parts if p.len and p.dstart + len(p.data) <= len(b)]
            if c:
                p = src.pick(c)
                fs = spec[p.key]
                n = src.draw(min(model.capacity(fs), fs["max_len"] + 2, 300) + 1)
                nb = (n + 1) // 2 if model.unit(fs) == "nibbles" else n
                data = (p.data * (nb // max(1, len(p.data)) + 1))[:nb] if p.data else bytes([src.draw(256) for _ in range(min(nb, 40))])
                b[p.start : p.dstart + len(p.data)] = model.len_bytes(n, fs) + data
                return bytes(b)
        elif k == 6:
            # a bit of a bitmap
            c = [p for p in res.parts if p.key in ("p", "1") and p.start + len(p.data) <= len(b)]
            p = src.pick(c) if c else None
            if p:
                i = src.draw(len(p.data))
                if model.is_bin(spec[p.key]):
                    b[p.start + i] ^= 1 << src.draw(8)
                else:
                    b[p.start + i] = src.pick("0123456789ABCDEFabcdef").encode(spec[p.key]["data_enc"])[0]
        elif k == 7:
            # contents of one data part
            c = [p for p in res.parts if p.data and p.key not in ("p", "1") and p.dstart + len(p.data) <= len(b)]
            if c:
                p = src.pick(c)
                for _ in range(1 + src.draw(3)):
                    b[p.dstart + src.draw(len(p.data))] = src.draw(256)
        elif k == 8 and DICT.bytes:
            i = src.draw(len(b) + 1)
            w = src.pick(DICT.bytes)
            b[i : i + len(w) * src.draw(2)] = w
        else:
            i = src.draw(len(b))
            j = src.draw(len(b))
            i, j = min(i, j), max(i, j)
            b[i:j] = b[i:j][::-1] if src.chance(1, 2) else b[i:j] * 2
        wire = bytes(b)
    return wire


def noise(src):
    k = src.draw(5)
    n = src.draw(80) if k < 4 else src.draw(600)
    if k == 0:
        return bytes([src.draw(256) for _ in range(n)])
    if k == 1:
        return bytes([src.pick(b"0123456789ABCDEFabcdef ") for _ in range(n)])
    if k == 2:
        return bytes([src.draw(256)]) * n
    if k == 3:
        return bytes([src.pick(b"\xf0\xf1\xf2\xf3\xf4\xf5\xf6\xf7\xf8\xf9\xc1\xc2\xc3\xc4\xc5\xc6\x40") for _ in range(n)])
    return bytes([src.pick((0, 0x30, 0x31, 0xFF, 0x80, 0x20, 0xF0, src.draw(256))) for _ in range(n)])
