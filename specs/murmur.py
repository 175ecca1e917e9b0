"""Reference MurmurHash3 (published algorithm), over z3 terms."""
import z3
from llcv.sym import *
def rotl(x, r): return z3.RotateLeft(x, r) if False else (x << r) | z3.LShR(x, x.size() - r)
def c32(v): return z3.BitVecVal(v, 32)
def c64(v): return z3.BitVecVal(v, 64)
def fmix32(h):
    h = h ^ z3.LShR(h, 16); h = h * c32(0x85ebca6b); h = h ^ z3.LShR(h, 13); h = h * c32(0xc2b2ae35); return h ^ z3.LShR(h, 16)
def fmix64(k):
    k = k ^ z3.LShR(k, 33); k = k * c64(0xff51afd7ed558ccd); k = k ^ z3.LShR(k, 33); k = k * c64(0xc4ceb9fe1a85ec53); return k ^ z3.LShR(k, 33)
def le(bs, w):
    """little-endian value of up to w/8 bytes"""
    n = w // 8
    return z3.Concat(*[bv(b, 8) for b in reversed(list(bs) + [0] * (n - len(bs)))]) if n > 1 else bs[0]
class X86_32:
    width = 32; comps = 1; block = 4; pat = r'MurmurHash3_x86_32\(.*\)'
    @staticmethod
    def mixk(k, i): return rotl(k * c32(0xcc9e2d51), 15) * c32(0x1b873593)
    @classmethod
    def step(c, h, bs):
        h1 = h[0] ^ c.mixk(le(bs, 32), 0)
        return [rotl(h1, 13) * 5 + c32(0xe6546b64)]
    @classmethod
    def final(c, h, tail, ln):
        h1 = h[0]
        if tail: h1 = h1 ^ c.mixk(le(tail, 32), 0)
        return [fmix32(h1 ^ ln)]
class X86_128:
    width = 32; comps = 4; block = 16; pat = r'MurmurHash3_x86_128\(.*\)'
    C = [0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93]; R = [15, 16, 17, 18]; HR = [19, 17, 15, 13]; A = [0x561ccd1b, 0x0bcaa747, 0x96cd1c35, 0x32ac3b17]
    @classmethod
    def mixk(c, k, i): return rotl(k * c32(c.C[i]), c.R[i]) * c32(c.C[(i + 1) % 4])
    @classmethod
    def step(c, h, bs):
        h = list(h)
        for i in range(4):
            h[i] = h[i] ^ c.mixk(le(bs[4 * i:4 * i + 4], 32), i)
            h[i] = (rotl(h[i], c.HR[i]) + h[(i + 1) % 4]) * 5 + c32(c.A[i])
        return h
    @classmethod
    def final(c, h, tail, ln):
        h = list(h)
        for i in range(4):
            part = tail[4 * i:4 * i + 4]
            if part: h[i] = h[i] ^ c.mixk(le(part, 32), i)
        h = [x ^ ln for x in h]
        def mix(h):
            s = h[0] + h[1] + h[2] + h[3]; return [s] + [x + s for x in h[1:]]
        return mix([fmix32(x) for x in mix(h)])
class X64_128:
    width = 64; comps = 2; block = 16; pat = r'MurmurHash3_x64_128\(.*\)'
    C = [0x87c37b91114253d5, 0x4cf5ad432745937f]; R = [31, 33]; HR = [27, 31]; A = [0x52dce729, 0x38495ab5]
    @classmethod
    def mixk(c, k, i): return rotl(k * c64(c.C[i]), c.R[i]) * c64(c.C[1 - i])
    @classmethod
    def step(c, h, bs):
        h = list(h)
        for i in range(2):
            h[i] = h[i] ^ c.mixk(le(bs[8 * i:8 * i + 8], 64), i)
            h[i] = (rotl(h[i], c.HR[i]) + h[1 - i]) * 5 + c64(c.A[i])
        return h
    @classmethod
    def final(c, h, tail, ln):
        h = list(h)
        for i in range(2):
            part = tail[8 * i:8 * i + 8]
            if part: h[i] = h[i] ^ c.mixk(le(part, 64), i)
        h = [x ^ z3.SignExt(32, ln) for x in h]
        def mix(h): s = h[0] + h[1]; return [s, h[1] + s]
        return mix([fmix64(x) for x in mix(h)])
