"""Record which bytes of an HDF5 file are read, whatever API reads them.

The file is rewritten so that no two objects share an aligned block and opened through an
in-memory file object without sieve buffer: every transfer of raw data shows up as a read of
bytes that belong to one dataset, one chunk or one row.
"""
import bisect
import contextlib
import io
import os

import h5py
import numpy as np

ALIGN = 1024


class Recorder(io.RawIOBase):
    def __init__(self, data):
        self._data, self._pos, self.reads = data, 0, []

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self._pos

    def seek(self, off, whence=0):
        self._pos = off + (0, self._pos, len(self._data))[whence]
        return self._pos

    def readinto(self, b):
        n = max(0, min(len(b), len(self._data) - self._pos))
        b[:n] = self._data[self._pos:self._pos + n]
        self.reads.append((self._pos, n))
        self._pos += n
        return n

    def write(self, b):
        raise OSError("read only")

    def flush(self):
        pass


def spread(path, out):
    """Copy the file so that every object starts on its own aligned block."""
    fapl = h5py.h5p.create(h5py.h5p.FILE_ACCESS)
    fapl.set_alignment(1, ALIGN)
    fapl.set_libver_bounds(h5py.h5f.LIBVER_EARLIEST, h5py.h5f.LIBVER_LATEST)
    fid = h5py.h5f.create(os.fsencode(out), h5py.h5f.ACC_TRUNC, fapl=fapl)
    with h5py.File(path, "r") as src, h5py.File(fid) as dst:
        for k in src:
            src.copy(src[k], dst, k, expand_soft=False)
        for k, v in src.attrs.items():
            dst.attrs[k] = v


class Layout:
    """Where the rows of the datasets live: sorted extents (start, stop, name, row0, rowbytes)."""

    def __init__(self, path, names):
        ext = []
        self.size = {}
        with h5py.File(path, "r") as f:
            for name in names:
                d = f[name]
                self.size[name] = d.shape[0]
                if d.size == 0:
                    continue
                rowb = d.dtype.itemsize * int(np.prod(d.shape[1:], dtype=int))
                if d.chunks is None:
                    o = d.id.get_offset()
                    ext.append((o, o + d.shape[0] * rowb, name, 0, rowb))
                else:
                    for i in range(d.id.get_num_chunks()):
                        c = d.id.get_chunk_info(i)
                        # a chunk is read as a whole
                        ext.append((c.byte_offset, c.byte_offset + c.size, name, (c.chunk_offset[0], d.chunks[0]), 0))
        self.ext = sorted(ext)
        self.starts = [e[0] for e in self.ext]

    def rows(self, reads):
        """{dataset: list of (first row, last row + 1) transferred, in order}."""
        out = {}
        for off, n in reads:
            i = max(bisect.bisect_right(self.starts, off) - 1, 0)
            while i < len(self.ext) and self.ext[i][0] < off + n:
                s, e, name, r0, rowb = self.ext[i]
                i += 1
                a, b = max(s, off), min(e, off + n)
                if a >= b:
                    continue
                if rowb:
                    out.setdefault(name, []).append(((a - s) // rowb, -((s - b) // rowb)))
                else:
                    out.setdefault(name, []).append((r0[0], min(r0[0] + r0[1], self.size[name])))
        return out


class Traced:
    """A file whose reads are recorded, opened as an h5py.File or served to ``h5py.File(path)``."""

    def __init__(self, path, names):
        self.path = path
        self.layout = Layout(path, names)
        with open(path, "rb") as f:
            self.data = f.read()
        self.recorders = []
        self._mark = {}

    def open(self):
        rec = Recorder(self.data)
        self.recorders.append(rec)
        fapl = h5py.h5p.create(h5py.h5p.FILE_ACCESS)
        fapl.set_fileobj_driver(h5py.h5fd.fileobj_driver, rec)
        fapl.set_sieve_buf_size(0)
        fapl.set_fclose_degree(h5py.h5f.CLOSE_STRONG)
        fid = h5py.h5f.open(os.fsencode(self.path), h5py.h5f.ACC_RDONLY, fapl=fapl)
        return fid, rec

    def handle(self):
        return h5py.File(self.open()[0])

    def new_reads(self):
        """Rows transferred since the last call."""
        reads = []
        for i, r in enumerate(self.recorders):
            reads += r.reads[self._mark.get(i, 0):]
            self._mark[i] = len(r.reads)
        return self.layout.rows(reads)

    @contextlib.contextmanager
    def serving(self):
        """While active, opening the path for reading by ``h5py.File`` is recorded."""
        real = h5py.File
        me = self

        class TracedFile(real):
            def __init__(self, name, *a, **kw):
                if isinstance(name, (str, bytes, os.PathLike)) and \
                        os.path.abspath(os.fsdecode(name)) == os.path.abspath(me.path):
                    super().__init__(me.open()[0])
                else:
                    super().__init__(name, *a, **kw)

        h5py.File = TracedFile
        try:
            yield
        finally:
            h5py.File = real
