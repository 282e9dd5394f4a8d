"""A simulated disk and the checkpoint protocol of the simulated user.

Only synced data survives a crash for certain; of the rest a prefix chosen by
the plan does.  Faults: failing writes, full disk, short writes, a sync that
lies, torn writes, lost renames, rotten bits.
"""
import zlib


class DiskCrash(BaseException):
    """The process dies in the middle of a disk operation"""


class SimDisk:
    def __init__(self):
        self.durable, self.cache = {}, {}
        self.pending_rename = []

    def write(self, name, data, fault=None):
        k = fault["kind"] if fault else None
        n = len(data)
        cut = int((fault or {}).get("frac", 0) * n)
        if k == "enospc":
            self.cache[name] = data[:cut]
            raise OSError(28, "No space left on device")
        if k == "eio_write":
            self.cache[name] = data[:cut]
            raise OSError(5, "Input/output error")
        if k == "short_write":  # the client has to write the rest
            self.cache[name] = data[:cut]
            self.cache[name] += data[cut:]
        else:
            self.cache[name] = data
        if k == "crash_in_write":
            self.cache[name] = data[:cut]
            raise DiskCrash()

    def fsync(self, name, fault=None):
        k = fault["kind"] if fault else None
        if k == "crash_before_fsync":
            raise DiskCrash()
        if k == "lost_fsync":
            return
        if k == "eio_fsync":
            raise OSError(5, "Input/output error")
        self.durable[name] = self.cache[name]

    def rename(self, a, b, fault=None):
        k = fault["kind"] if fault else None
        if k == "crash_before_rename":
            raise DiskCrash()
        self.cache[b] = self.cache.pop(a)
        if k == "lost_rename":
            self.pending_rename.append((a, b))
        elif a in self.durable:
            self.durable[b] = self.durable.pop(a)
        else:  # metadata reached the disk before the data did
            self.durable[b] = None
        if k == "crash_after_rename":
            raise DiskCrash()

    def rot(self, name, frac):
        d = self.durable.get(name)
        if d:
            i = int(frac * len(d)) % len(d)
            self.durable[name] = d[:i] + bytes([d[i] ^ 0x10]) + d[i + 1 :]
            self.cache[name] = self.durable[name]

    def remove(self, name):
        self.cache.pop(name, None)
        self.durable.pop(name, None)

    def crash(self, frac):
        """Power failure: of unsynced files a prefix remains, at most"""
        new = dict(self.durable)
        for name, d in self.durable.items():
            if d is None:
                full = self.cache.get(name, b"")
                new[name] = full[: int(frac * len(full))]
        for name in self.cache:
            if name not in new and frac > 0.5:
                new[name] = self.cache[name][: int(frac * len(self.cache[name]))]
        self.durable, self.cache, self.pending_rename = dict(new), dict(new), []

    def read(self, name):
        return self.cache[name]

    def list(self):
        return sorted(self.cache)


MAGIC = b"CKPT1"


def save(disk, n, data, fault=None):
    """Write checkpoint number n; True once it is believed to be safe"""
    doc = MAGIC + len(data).to_bytes(8, "big") + zlib.crc32(data).to_bytes(4, "big") + data
    tmp, name = f"tmp-{n:06d}", f"ckpt-{n:06d}"
    try:
        disk.write(tmp, doc, fault)
        disk.fsync(tmp, fault)
    except OSError:
        disk.remove(tmp)
        return False
    disk.rename(tmp, name, fault)
    return True


def usable(disk):
    """Newest first: (number, data) of the checkpoints that are intact"""
    for name in reversed(disk.list()):
        if not name.startswith("ckpt-"):
            continue
        d = disk.read(name)
        if len(d) < 17 or d[:5] != MAGIC:
            continue
        n = int.from_bytes(d[5:13], "big")
        body = d[17:]
        if len(body) != n or zlib.crc32(body).to_bytes(4, "big") != d[13:17]:
            continue
        yield int(name[5:]), body
