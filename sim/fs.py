"""Python side of the file-system/clock/randomness seam (simfs.c, loaded with LD_PRELOAD)."""
import ctypes
import errno
import hashlib

CLASSES = ['OPENR', 'OPENW', 'READ', 'WRITE', 'CLOSE', 'RENAME', 'UNLINK', 'FSYNC', 'TRUNC', 'LOCK',
           'STAT', 'MKDIR', 'LINK', 'CHMOD', 'READDIR']
KINDS = ['NONE', 'ERRNO', 'SHORT', 'EINTR', 'CRASH_BEFORE', 'CRASH_AFTER', 'CRASH_TORN', 'SIGINT',
         'PAUSE']
CLS = {n: i for i, n in enumerate(CLASSES)}
KIND = {n: i for i, n in enumerate(KINDS)}
JOPS = {1: 'create', 2: 'truncate0', 3: 'write', 4: 'ftruncate', 5: 'fsync', 6: 'rename', 7: 'unlink'}

L, I64 = ctypes.c_long, ctypes.c_int64


class SimFS:
    def __init__(self):
        lib = ctypes.CDLL(None)
        try:
            lib.sim_reset
        except AttributeError:
            raise RuntimeError('libsimfs.so is not preloaded')
        for name, res, *args in [
            ('sim_reset', None, ctypes.c_char_p, ctypes.c_char_p),
            ('sim_enable', None, ctypes.c_int),
            ('sim_slot', None, ctypes.c_int),
            ('sim_clock', None, ctypes.c_int, I64, I64),
            ('sim_now', I64),
            ('sim_set_now', None, I64),
            ('sim_jump', None, I64, I64),
            ('sim_rand', None, ctypes.c_int, ctypes.c_uint64),
            ('sim_opts', None, ctypes.c_int, ctypes.c_int, I64, I64, I64),
            ('sim_clear_faults', None, ctypes.c_int),
            ('sim_fault', ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_int, L, L, L),
            ('sim_pausefds', None, ctypes.c_int, ctypes.c_int, ctypes.c_int),
            ('sim_count', L, ctypes.c_int, ctypes.c_int),
            ('sim_kfired', L, ctypes.c_int, ctypes.c_int),
            ('sim_nospc', L),
            ('sim_stat_get', L, ctypes.c_int),
            ('sim_nlog', L),
            ('sim_logent', ctypes.c_int, L, ctypes.POINTER(L)),
            ('sim_path', ctypes.c_char_p, ctypes.c_int),
            ('sim_njent', L),
            ('sim_jent', ctypes.c_int, L, ctypes.POINTER(L)),
            ('sim_jdata', ctypes.c_void_p),
            ('sim_openfds', ctypes.c_int),
            ('sim_openfd_path', ctypes.c_char_p, ctypes.c_int),
            ('sim_lastpause', ctypes.c_int, ctypes.c_int, ctypes.POINTER(L)),
        ]:
            f = getattr(lib, name)
            f.restype = res
            f.argtypes = list(args)
            setattr(self, name[4:], f)

    def counts(self, slot=1):
        return {c: self.count(slot, i) for i, c in enumerate(CLASSES) if self.count(slot, i)}

    def fired(self, slot=1):
        return {k: self.kfired(slot, i) for i, k in enumerate(KINDS) if self.kfired(slot, i)}

    def add_fault(self, slot, f):
        arg = f.get('arg', 0)
        if isinstance(arg, str):
            arg = getattr(errno, arg)
        cls = f.get('cls')
        self.fault(slot, KIND[f['kind']], -1 if cls in (None, 'ANY') else CLS[cls],
                   int(f['at']), int(arg), int(f.get('times', 1)))

    def pathname(self, i):
        return self.path(i).decode('utf8', 'replace')

    def log(self, start=0):
        buf = (L * 7)()
        for i in range(start, self.nlog()):
            if self.logent(i, buf):
                break
            slot, cls, path, kind, a, b, res = buf
            yield slot, CLASSES[cls], self.pathname(path), KINDS[kind], a, b, res

    def digest(self, start=0):
        h = hashlib.blake2b(digest_size=8)
        for e in self.log(start):
            h.update(repr(e).encode())
        return h.hexdigest()

    def journal(self):
        buf = (L * 7)()
        base = self.jdata()
        for i in range(self.njent()):
            if self.jent(i, buf):
                break
            op, path, path2, off, ln, dataoff, ino = buf
            data = ctypes.string_at(base + dataoff, ln) if op == 3 else b''
            yield JOPS[op], self.pathname(path), self.pathname(path2) if op == 6 else None, off, data, ino

    def open_paths(self):
        return sorted(self.openfd_path(i).decode() for i in range(self.openfds()))
