"""C13: backup and restore of manifest files."""
import sys, z3
from llcv.check import Check
from llcv.exe import Outcomes
from llcv.prog import VOIDV
from llcv.sym import *
from .lib import *
chk = Check('C13', ['src/internal_helper.cc'], harness='C13.cc', harness_srcs=['src/internal_helper.cc'],
            assumptions=['FileOps behaves as a byte file per name: a successful operation transfers exactly the requested range, a failed write may leave any part of it (C11/C12)', 'the file is not changed by others while it is copied; its name and the name with ".bak" appended denote different files',
                         'for a partial backup the existing backup already equals the skipped part (established by the previous successful backup)', 'sizes below 2^46; memory for one copy of the file can be allocated'])
BR = 'jungle::BackupRestore'; FO = 'jungle::FileOps'
class E: pass
def env(t, src_exists=True):
    e = E(); ex = t.ex; e.ops = install_files(t); st = t.st
    e.src = ex.new_obj(st, 'original_content', None, None, 'file').id; e.dst = ex.new_obj(st, 'copy_content', None, None, 'file').id
    for o, n in ((e.src, 'original_size'), (e.dst, 'copy_size')):
        v = t.bvs(n); t.assume(z3.ULT(v, z3.BitVecVal(LIM, 64))); st.ghost[('fsz', o)] = v
    e.sn, e.sd, e.sl = str_obj(t, 'name'); e.dn, e.dd, e.dl = str_obj(t, 'other_name'); e.x = t.bvs('any_pos')
    def which(ex, st, name):
        """a std::string object -> the file it names"""
        for s, o in ((e.sn, e.src), (e.dn, e.dst)):
            if name.obj == s.obj: return o
        return st.ghost.get(('bak', name.obj))
    e.which = which
    # <name> + ".bak" : the result object names the backup; any other concatenation names nothing known
    def cat(ex, st, a, f, i):
        out, l, r = a; o = st.objs.get(r.obj)
        s = bytes(ex.byte(st, r.obj, add(r.off, k)) if isint(ex.byte(st, r.obj, add(r.off, k))) else 0xff for k in range(5))
        n = ex.fresh('bak_len', 64); d = ex.new_obj(st, 'bak_chars', n, None, 'strdata'); ex.assume(st, z3.ULT(n, z3.BitVecVal(1 << 31, 64)))
        ex.store(st, out, 8, Ptr(d.id, 0)); ex.store(st, out.add(8), 8, n)
        if s == b'.bak\0' and l.obj == e.sn.obj: st.ghost[('bak', out.obj)] = e.dst
        return VOIDV
    t.prog.contract(r'std::__cxx11::basic_string<.*> std::operator\+<.*>\(std::__cxx11::basic_string<.*> const&, char const\*\)', cat, True)
    t.prog.contract(r'std::__cxx11::basic_string<.*>::~basic_string\(\)', lambda ex, st, a, f, i: VOIDV, True)
    e.exists = {e.src: z3.Bool('original_exists'), e.dst: z3.Bool('copy_exists')}
    for o in (e.src, e.dst): t.assume(z3.Or(e.exists[o], fsize(st, o) == 0))
    def exist(ex, st, a, f, i):
        o = which(ex, st, a[1])
        if o is None: raise EngineError('exist on an unknown name')
        c = e.exists[o]
        return Outcomes([(c, lambda s: 1), (z3.Not(c), lambda s: 0)])
    def open_(ex, st, a, f, i):
        o = which(ex, st, a[2])
        if o is None: raise EngineError('open of an unknown name')
        def ok(s):
            h = iface_in(t, s, 'jungle::FileHandle', 'handle'); s.ghost[('fof', h.obj)] = o; s.ghost[('open', h.obj)] = True; event(s, 'open', o, True); ex.store(s, a[1], 8, h); return 0
        def bad(s): event(s, 'open', o, False); return err(ex, s, 'open')
        return Outcomes([(True, ok), (True, bad)])
    def close(ex, st, a, f, i):
        h = a[1]; ex.prove(st, bool(st.ghost.get(('open', h.obj))), t.name + '/close of an open handle', 'requires'); st.ghost[('open', h.obj)] = False
        return Outcomes([(True, lambda s: 0), (True, lambda s: err(ex, s, 'close'))])
    def dtor(ex, st, a, f, i):
        h = a[0]; ex.prove(st, st.ghost.get(('open', h.obj)) is False and ('gone', h.obj) not in st.ghost, t.name + '/deleted handle was closed', 'requires'); st.ghost[('gone', h.obj)] = True; return VOIDV
    def eof(ex, st, a, f, i):
        o = st.ghost[('fof', a[1].obj)]
        def bad(s): r = ex.fresh('eof_error', 64); ex.assume(s, r < 0); event(s, 'eof', o, False); return r
        return Outcomes([(True, lambda s: fsize(s, o)), (True, bad)])
    v = t.prog.virt; v[(FO, 'exist')] = exist; v[(FO, 'open')] = open_; v[(FO, 'close')] = close; v[(FO, 'eof')] = eof
    v[('jungle::FileHandle', '~FileHandle')] = dtor; v[('jungle::FileHandle', '~FileHandle!delete')] = dtor
    e.st0 = t.st.clone(); return e
def iface_in(t, st, cls, name):
    old = t.st; t.st = st
    try: return iface(t, cls, name)
    finally: t.st = old
def failed(st): return any(ev[-1] is False for ev in events(st) if ev[0] != 'close')
def synced(st, o):
    ev = events(st); last = -1; s = False
    for k in ev:
        if k[1] == o and k[0] in ('pwrite', 'append', 'ftruncate'): s = False
        if k[1] == o and k[0] == 'fsync' and k[-1]: s = True
    return s
def handles(t, e, st, keep=()):
    for k, v in st.ghost.items():
        if isinstance(k, tuple) and k[0] == 'open' and k[1] not in keep: t.prove(st, v is False and ('gone', k[1]) in st.ghost, 'every handle is closed and released')
def common(t, e, st, r, sync, want, wsize, src):
    ex = t.ex; ok = eq(r, 0, 32); x = e.x; dst = e.dst if src == e.src else e.src
    t.prove(st, implies(ok, eq(fsize(st, dst), wsize)), 'success: full length'); t.prove(st, implies(b_and(ok, ult(x, wsize)), eq(ex.byte(st, dst, x), want(x), 8)), 'success: byte for byte')
    t.prove(st, implies(bool(failed(st)), b_not(ok)), 'a failed step is reported'); 
    if not synced(st, dst): t.prove(st, implies(ok, eq(sync, 0, 8)), 'success with sync: content synced after the last change')
    t.prove(st, b_and(eq(fsize(st, src), fsize(e.st0, src)), eq(ex.byte(st, src, x), ex.byte(e.st0, src, x), 8)), 'source unchanged')
def copy_task(name, pat, build, swap=False):
    @chk.task(name)
    def _(t):
        e = env(t); sync = t.bvs('sync', 8); t.assume(z3.ULE(sync, 1)); args, sy = build(t, e, sync); src = e.dst if swap else e.src
        def post(st, r):
            ok = eq(r, 0, 32); common(t, e, st, r, sy, lambda x: t.ex.byte(e.st0, src, x), fsize(e.st0, src), src); handles(t, e, st)
            t.prove(st, implies(ok, e.exists[src]), 'a missing source is an error')
            if not events(st, 'open'): t.prove(st, b_not(ok), 'no success without copying')
            if not [ev for ev in events(st) if ev[0] == 'open']: t.prove(st, b_and(eq(fsize(st, e.dst), fsize(e.st0, e.dst))), 'nothing touched')
            t.cover('ok') if t.ex.must(st, ok) else t.cover('error')
        t.run(pat, args, post)
copy_task('copyFile', BR + r'::copyFile\(.*\)', lambda t, e, s: ([e.ops, e.sn, e.dn, s], s))
copy_task('backup of a file', BR + r'::backup\(jungle::FileOps\*, std::.*string<.*> const&, bool\)', lambda t, e, s: ([e.ops, e.sn, s], s))
copy_task('restore', BR + r'::restore\(.*\)', lambda t, e, s: ([e.ops, e.sn], 1), swap=True)
def part_task(name, pat, with_handle):
    @chk.task(name)
    def _(t):
        e = env(t); ex = t.ex; st = t.st; sync = t.bvs('sync', 8); t.assume(z3.ULE(sync, 1)); n, skip, cap = t.bvs('length'), t.bvs('skip'), t.bvs('capacity', 32); x = e.x
        t.assume(z3.And(z3.ULE(n, z3.ZeroExt(32, cap)), z3.ULE(skip, n))); data = t.obj('content', zext(cap, 32, 64)); ctx = sb_make(t, 'ctx', cap, data)
        # the previous backup equals the skipped part, if the backup file is there
        t.assume(bo(implies(b_and(ult(x, skip), ult(x, fsize(st, e.dst))), eq(ex.byte(st, e.dst, x), ex.byte(st, data.obj, x), 8))))
        args = [e.ops]; hc = None
        if with_handle:
            hc = t.obj('handle_cell', 8); hs = [NULL]
            if with_handle >= 2:
                other = ex.new_obj(st, 'removed_content', None, None, 'file').id; v = t.bvs('removed_size'); t.assume(z3.ULT(v, z3.BitVecVal(LIM, 64))); st.ghost[('fsz', other)] = v; t.assume(e.exists[e.dst] if with_handle == 2 else z3.Not(e.exists[e.dst]))
                h0 = iface(t, 'jungle::FileHandle', 'kept_handle'); st.ghost[('fof', h0.obj)] = e.dst if with_handle == 2 else other; st.ghost[('open', h0.obj)] = True; t.put(hc, 8, h0)
            else: t.put(hc, 8, NULL)
            args.append(hc)
        args += [e.sn, ctx, n, skip, sync]; e.st0 = t.st.clone()
        def post(st, r):
            ok = eq(r, 0, 32)
            common(t, e, st, r, sync, lambda x: ex.byte(e.st0, data.obj, x), n, e.src)
            if not failed(st): t.prove(st, ok, 'success when every step succeeds')
            if hc is None: handles(t, e, st)
            else:
                p = t.ex.rdp(st, hc); handles(t, e, st, (p.obj,)); t.prove(st, b_or(p.obj == 0, bool(st.ghost.get(('open', p.obj))) and ('gone', p.obj) not in st.ghost), 'the returned handle is open or null')
                if p.obj: t.prove(st, st.ghost[('fof', p.obj)] == e.dst, 'the returned handle is the backup file')
            t.cover('ok') if t.ex.must(st, ok) else t.cover('error')
        t.run(pat, args, post)
part_task('partial backup', BR + r'::backup\(jungle::FileOps\*, std::.*string<.*> const&, jungle::SizedBuf const&, .*\)', 0)
part_task('partial backup, no handle yet', BR + r'::backup\(jungle::FileOps\*, jungle::FileHandle\*\*, .*\)', 1)
part_task('partial backup, handle kept', BR + r'::backup\(jungle::FileOps\*, jungle::FileHandle\*\*, .*\)', 2)
part_task('partial backup, handle kept but file removed', BR + r'::backup\(jungle::FileOps\*, jungle::FileHandle\*\*, .*\)', 3)
if __name__ == '__main__': sys.exit(chk.main())
