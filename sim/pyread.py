"""Loads a log with the repository's Python reader and writes what it returned:
pyread.py REPO LOG NORMALIZE OUT"""
import struct, sys
sys.dont_write_bytecode = True
repo, log, normalize, out = sys.argv[1:5]
sys.path.insert(0, repo)
import numpy as np
from common.logging.log_reader import load

CODES = ["f8", "f4", "i8", "i4", "i2", "i1", "u8", "u4", "u2", "u1"]

def leaves(a, path, res):
    if a.dtype.names:
        for n in a.dtype.names:
            leaves(a[n], path + "." + n if path else n, res)
        return
    # as (record, element) with the elements of a matrix by columns
    if a.ndim == 3:
        flat = np.swapaxes(a, 1, 2).reshape(a.shape[0], a.shape[1] * a.shape[2])
    elif a.ndim == 2:
        flat = a
    else:
        flat = a.reshape(a.shape[0], 1)
    res.append((path, CODES.index(a.dtype.str[1:]), flat.shape[1], a.shape[1] if a.ndim > 1 else 1, np.ascontiguousarray(flat)))

try:
    data = load(log, normalize_time=normalize == "1")
except Exception as e:
    open(out, "wb").write(b"E" + repr(e).encode())
    sys.exit(0)
with open(out, "wb") as f:
    f.write(b"D" + struct.pack("<q", len(data)))
    for key, a in data.items():
        res = []
        leaves(a, "", res)
        f.write(struct.pack("<qqq", key, len(a), len(res)))
        for path, code, count, rows, flat in res:
            p = path.encode()
            f.write(struct.pack("<qqqq", len(p), code, count, rows) + p + flat.tobytes())
