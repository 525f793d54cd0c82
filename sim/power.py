"""Power loss: which disk states may be left, given the journal of writes, syncs and name changes of an execution.

Data written to a file survives if the file was synced afterwards; of later writes any subset of 512-byte sectors survives. Changes of
names (creation, rename, removal) survive in order: any prefix, which contains at least everything before the last sync of anything.
"""
import os

SECTOR = 512


class Disk:
    def __init__(self, root):
        self.root = str(root)
        self.base = []
        for d, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(d, f)
                with open(p, 'rb') as fp:
                    self.base.append((p, os.stat(p).st_ino, fp.read()))

    def load(self, journal):
        """Call after the execution."""
        self.objs, self.names, cur = [], [], {}
        self.basenames = {}
        for p, ino, data in self.base:
            self.objs.append({'base': data, 'ops': [], 'syncs': []})
            cur[ino] = self.basenames[p] = len(self.objs) - 1
        self.syncs = []
        self.n = 0
        for i, (op, path, path2, off, data, ino) in enumerate(journal):
            self.n = i + 1
            # names in the journal are relative to the root
            path = self.root + path
            path2 = path2 and self.root + path2
            if op == 'create':
                self.objs.append({'base': b'', 'ops': [], 'syncs': []})
                cur[ino] = len(self.objs) - 1
                self.names.append((i, 'create', path, cur[ino]))
            elif op in ('rename', 'unlink'):
                self.names.append((i, op, path, path2))
            elif op == 'fsync':
                self.syncs.append(i)
                if ino in cur:
                    self.objs[cur[ino]]['syncs'].append(i)
            elif ino in cur or op == 'truncate0':
                if op == 'truncate0':
                    if ino not in cur:
                        continue
                    self.objs[cur[ino]]['ops'].append((i, 'trunc', 0, b''))
                elif op == 'ftruncate':
                    self.objs[cur[ino]]['ops'].append((i, 'trunc', off, b''))
                else:
                    self.objs[cur[ino]]['ops'].append((i, 'write', off, data))
        return self

    def state(self, r, k):
        """A disk state that may be found when the power fails before event k."""
        last = max([i for i in self.syncs if i < k], default=0)
        upto = r.choice([last, k, r.randint(last, k)])
        names = dict(self.basenames)
        for i, op, a, b in self.names:
            if i >= upto:
                break
            if op == 'create':
                names[a] = b
            elif op == 'unlink':
                names.pop(a, None)
            elif a in names:
                names[b] = names.pop(a)
        p = r.choice([0, .3, .7, 1])
        res = {}
        for path, o in sorted(names.items()):
            o = self.objs[o]
            synced = max([i for i in o['syncs'] if i < k], default=-1)
            buf = bytearray(o['base'])
            for i, op, off, data in o['ops']:
                if i >= k:
                    break
                sure = i < synced
                if op == 'trunc':
                    if sure or r.random() < p:
                        if off < len(buf):
                            del buf[off:]
                        else:
                            buf.extend(b'\0' * (off - len(buf)))
                    continue
                pos = 0
                while pos < len(data):
                    n = min(len(data) - pos, SECTOR - (off + pos) % SECTOR)
                    if sure or r.random() < p:
                        end = off + pos + n
                        if end > len(buf):
                            buf.extend(b'\0' * (end - len(buf)))
                        buf[off + pos:end] = data[pos:pos + n]
                    pos += n
            res[path] = bytes(buf)
        return res

    def put(self, state):
        for d, _, files in os.walk(self.root):
            for f in files:
                os.unlink(os.path.join(d, f))
        for p, b in state.items():
            if not p.startswith(self.root + '/'):
                raise AssertionError(p)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as fp:
                fp.write(b)
