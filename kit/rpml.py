"""Writer of rpm lists (the print and patch list given to drpm_make_options_add_patches)."""
import struct, stat, hashlib

def s8(b):
    return bytes([len(b)]) + b

class NameEnc:
    def __init__(self, share):
        self.prev = b''; self.share = share
    def __call__(self, n):
        k = 0
        if self.share:
            while k < min(len(n), len(self.prev), 255) and n[k] == self.prev[k]: k += 1
        r = n[k:]
        self.prev = n
        if len(r) >= 255: return bytes([k, 255]) + struct.pack('>H', len(r)) + r
        return bytes([k, len(r)]) + r

def write(name, evr, files, unpatched=(), patches=(), host=b'build', share=True, owners='short'):
    """files: list of (name, mode, rdev, size, md5)"""
    e = NameEnc(share)
    b = b'RPML' + s8(name) + s8(evr) + s8(host) + struct.pack('>IH', 1600000000, len(patches))
    if patches:
        b += b''.join(s8(p) for p in patches) + struct.pack('>I', len(unpatched))
        for n in unpatched: b += e(n)
    for n, mode, rdev, size, md5 in files:
        b += e(n) + struct.pack('>H', mode)
        if not mode: continue
        raw = struct.pack('>I', size).lstrip(b'\0') or b'\0'
        nb = len(raw) - 1
        if owners == 'none': b += bytes([nb])
        elif owners == 'short': b += bytes([nb | 2 << 5 | 3 << 2]) + b'usr' + b'grpx'
        elif owners == 'eight' and nb < 3: b += bytes([nb | 7 << 5 | 7 << 2]) + b'usernameoursmany'
        elif owners == 'eight': b += bytes([255, 7, nb | 7 << 2]) + b'usernameoursmany'
        elif owners == 'user': b += bytes([nb | 7 << 5]) + b'username'
        else: b += b'\xff' + bytes([19, nb | 62 << 2]) + b'u' * 20 + b'g' * 63
        if stat.S_ISCHR(mode) or stat.S_ISBLK(mode): b += struct.pack('>I', rdev)
        if stat.S_ISREG(mode) or stat.S_ISLNK(mode):
            b += raw
            if size: b += md5
    return b + b'\0\0'
