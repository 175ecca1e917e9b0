"""C24: offset-tracking file and memory helpers."""
import sys, os, z3
from llcv.check import Check
from llcv.prog import HERE
from llcv.sym import *
from .lib import *
chk = Check('C24', [os.path.join(HERE, 'inst/helpers.cc')], harness='C24.cc', harness_srcs=['src/internal_helper.cc'],
            assumptions=['FileOps behaves as a byte file: a successful pwrite/append/pread transfers exactly the requested range (C11/C12)', 'offsets and sizes below 2^46', 'memory helpers are called with enough room (caller duty)'])
J = 'jungle::'
def env(t):
    ops = install_files(t); fh, fo = file_new(t); off, start = t.bvs('offset'), t.bvs('start')
    for v in (off, start): t.assume(z3.ULT(v, z3.BitVecVal(LIM, 64)))
    oc = t.obj('offset_cell', 8); t.put(oc, 8, off); return ops, fh, fo, off, start, oc
def file_put(w):
    @chk.task('append_file%s at offset' % (('_%d' % w) if w else ''))
    def _(t):
        ex = t.ex; ops, fh, fo, off, start, oc = env(t); x = t.bvs('any_pos')
        if w: v = t.bvs('val', w); n = w // 8; args = [ops, fh, v, start, oc]; exp = lambda i: None; pat = J + r'append_file_%d\(.*, unsigned long&\)' % w
        else: n = t.bvs('n'); t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64))); data = t.obj('data', n); args = [ops, fh, data, n, start, oc]; pat = J + r'append_file\(.*, unsigned long&\)'
        st0 = t.st.clone(); at = simp(start + off)
        def post(st, r):
            ok = eq(r, 0, 32); good = [e for e in events(st) if e[0] == 'pwrite' and e[4]]
            t.prove(st, implies(ok, eq(ex.rdv(st, oc, 8), add(off, n))), 'success: offset advances by the size'); t.prove(st, implies(b_not(ok), eq(ex.rdv(st, oc, 8), off)), 'failure: offset unchanged')
            t.prove(st, implies(bool(len(events(st)) == 1 and good), ok) , 'success of the file operation is reported'); t.prove(st, implies(ok, bool(len(events(st)) == 1 and good)), 'success only if the file operation succeeded')
            if w: 
                for i, b in enumerate(be_bytes(v, n)): t.prove(st, implies(ok, eq(ex.byte(st, fo, add(at, i)), b, 8)), 'big-endian byte %d' % i)
            else: t.prove(st, implies(b_and(ok, ult(x, n)), eq(ex.byte(st, fo, add(at, x)), ex.byte(st0, data.obj, x), 8)), 'exactly the given bytes')
            out = b_and(ok, ult(x, fsize(st0, fo)), b_or(ult(x, at), z3.UGE(x, bv(add(at, n), 64))))
            t.prove(st, implies(out, eq(ex.byte(st, fo, x), ex.byte(st0, fo, x), 8)), 'other file bytes unchanged')
        t.run(pat, args, post)
def file_app(w):
    @chk.task('append_file%s at the end' % (('_%d' % w) if w else ''))
    def _(t):
        ex = t.ex; ops, fh, fo, off, start, oc = env(t); x = t.bvs('any_pos')
        ty = {64: 'unsigned long', 32: 'unsigned int', 16: 'unsigned short', 8: 'unsigned char'}
        if w: v = t.bvs('val', w); n = w // 8; args = [ops, fh, v]; pat = J + r'append_file_%d\(jungle::FileOps\*, jungle::FileHandle\*, %s\)' % (w, ty[w])
        else: n = t.bvs('n'); t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64))); data = t.obj('data', n); args = [ops, fh, data, n]; pat = J + r'append_file\(jungle::FileOps\*, jungle::FileHandle\*, void const\*, unsigned long\)'
        st0 = t.st.clone(); at = fsize(st0, fo)
        def post(st, r):
            ok = eq(r, 0, 32); good = bool(len(events(st)) == 1 and events(st)[0][0] == 'append' and events(st)[0][4])
            t.prove(st, implies(good, ok), 'success of the file operation is reported'); t.prove(st, implies(ok, good), 'success only if the file operation succeeded')
            t.prove(st, implies(ok, eq(fsize(st, fo), add(at, n))), 'file grows by the size')
            if w:
                for i, b in enumerate(be_bytes(v, n)): t.prove(st, implies(ok, eq(ex.byte(st, fo, add(at, i)), b, 8)), 'big-endian byte %d' % i)
            else: t.prove(st, implies(b_and(ok, ult(x, n)), eq(ex.byte(st, fo, add(at, x)), ex.byte(st0, data.obj, x), 8)), 'exactly the given bytes')
            t.prove(st, implies(ult(x, at), eq(ex.byte(st, fo, x), ex.byte(st0, fo, x), 8)), 'earlier bytes unchanged')
        t.run(pat, args, post)
def file_get(w):
    @chk.task('read_file%s' % (('_%d' % w) if w else ''))
    def _(t):
        ex = t.ex; ops, fh, fo, off, start, oc = env(t); x = t.bvs('any_pos'); at = simp(start + off)
        if w: n = w // 8; out = t.obj('value', n); args = [ops, fh, out, start, oc]; pat = J + r'read_file_%d\(.*\)' % w
        else: n = t.bvs('n'); t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64))); out = t.obj('data', n); args = [ops, fh, out, n, start, oc]; pat = J + r'read_file\(.*\)'
        st0 = t.st.clone()
        def post(st, r):
            ok = eq(r, 0, 32); good = bool(len(events(st)) == 1 and events(st)[0][0] == 'pread' and events(st)[0][4])
            t.prove(st, implies(ok, eq(ex.rdv(st, oc, 8), add(off, n))), 'success: offset advances by the size'); t.prove(st, implies(b_not(ok), eq(ex.rdv(st, oc, 8), off)), 'failure: offset unchanged')
            t.prove(st, implies(good, ok), 'success of the file operation is reported'); t.prove(st, implies(ok, good), 'success only if the file operation succeeded')
            if w:
                val = be_val(bytes_at(ex, st0, Ptr(fo, at), n)); t.prove(st, implies(ok, eq(ex.rdv(st, out, n), val, w)), 'the value stored big-endian at the offset')
                if w > 8: t.prove(st, implies(b_not(ok), eq(ex.rdv(st, out, n), ex.rdv(st0, out, n), w)), 'failure: value unchanged')
            else: t.prove(st, implies(b_and(ok, ult(x, n)), eq(ex.byte(st, out.obj, x), ex.byte(st0, fo, add(at, x)), 8)), 'exactly the file bytes')
            t.prove(st, eq(ex.byte(st, fo, x), ex.byte(st0, fo, x), 8), 'file unchanged')
        t.run(pat, args, post)
def mem(w, put):
    @chk.task('%s_mem%s' % ('append' if put else 'read', ('_%d' % w) if w else ''))
    def _(t):
        ex = t.ex; off, start = t.bvs('offset'), t.bvs('start'); x = t.bvs('any_pos')
        for v in (off, start): t.assume(z3.ULT(v, z3.BitVecVal(LIM, 64)))
        oc = t.obj('offset_cell', 8); t.put(oc, 8, off); size = t.bvs('mem_size'); t.assume(z3.ULT(size, z3.BitVecVal(LIM, 64))); m = t.obj('memory', size); at = simp(start + off)
        n = w // 8 if w else t.bvs('n')
        if not w: t.assume(z3.ULT(n, z3.BitVecVal(LIM, 64)))
        t.assume(bo(ule(add(at, n), size)))
        if put and w: v = t.bvs('val', w); args = [m, v, start, oc]
        else: out = t.obj('data', n); args = [m, out, start, oc] if w else [m, out, n, start, oc]
        st0 = t.st.clone()
        def post(st, r):
            t.prove(st, eq(ex.rdv(st, oc, 8), add(off, n)), 'offset advances by the size')
            inside = b_and(z3.UGE(x, at), ult(x, add(at, n)))
            if put:
                if w:
                    for i, b in enumerate(be_bytes(v, n)): t.prove(st, eq(ex.byte(st, m.obj, add(at, i)), b, 8), 'big-endian byte %d' % i)
                else: t.prove(st, implies(inside, eq(ex.byte(st, m.obj, x), ex.byte(st0, out.obj, simp(x - at)), 8)), 'exactly the given bytes')
                t.prove(st, implies(b_not(inside), eq(ex.byte(st, m.obj, x), ex.byte(st0, m.obj, x), 8)), 'other bytes unchanged')
            else:
                if w: t.prove(st, eq(ex.rdv(st, out, n), be_val(bytes_at(ex, st0, Ptr(m.obj, at), n)), w), 'the value stored big-endian at the offset')
                else: t.prove(st, implies(ult(x, n), eq(ex.byte(st, out.obj, x), ex.byte(st0, m.obj, add(at, x)), 8)), 'exactly the bytes at the offset')
                t.prove(st, eq(ex.byte(st, m.obj, x), ex.byte(st0, m.obj, x), 8), 'memory unchanged')
        t.run(J + '%s_mem%s' % ('append' if put else 'read', ('_%d' % w) if w else '') + r'\(.*\)', args, post)
for w_ in (64, 32, 16, 8, 0):
    file_put(w_); file_app(w_); file_get(w_); mem(w_, True); mem(w_, False)
if __name__ == '__main__': sys.exit(chk.main())
