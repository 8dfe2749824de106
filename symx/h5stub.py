"""In-memory stand-in for h5py files, used during symbolic runs so that datasets can hold symbolic elements.

Modelled: groups and datasets by path, dtype conversion on writing, slicing on reading and writing, refusal to create a dataset
twice, group copy, modes r/w/a.  Files not written during the path are read (concretely) with the real h5py."""
import os
import types

import h5py as real_h5py
import numpy as np

from . import core, arr


def _files():
    return core.PATH.cache.setdefault('h5 files', {})


def _norm(path):
    return '/'.join(p for p in str(path).split('/') if p)


class Dataset(arr.SymArray):
    """array which is copied on reading, as h5py does"""

    def __getitem__(self, key):
        r = _plain(self)[key]
        return r.copy() if isinstance(r, np.ndarray) else r


    def __setitem__(self, key, value):
        f = getattr(self, '_file', None)
        if f is not None and (f.mode == 'r' or f.closed):
            raise OSError("Can't synchronously write data (no write intent on file)")
        _plain(self)[key] = value


def _plain(d):
    return arr.mk(arr.raw(d), d._dt)


def _dataset(a, file = None):
    r = arr.raw(a).view(Dataset)
    r._dt = a._dt
    r._file = file
    return r


class Group:

    def __init__(self, file, prefix):
        self.file = file
        self.prefix = prefix

    @property
    def name(self):
        return '/' + self.prefix

    def _full(self, name):
        n = _norm(name)
        if str(name).startswith('/'):
            return n
        return n if not self.prefix else (self.prefix + '/' + n if n else self.prefix)

    def _store(self):
        if self.file.closed:
            raise ValueError('Invalid location identifier (file closed)')
        return self.file.store

    def create_dataset(self, name, shape = None, dtype = None, data = None, chunks = None, compression = None, **kw):
        if self.file.mode == 'r':
            raise ValueError('Unable to create dataset (no write intent on file)')
        st = self._store()
        full = self._full(name)
        if full in st:
            raise ValueError('Unable to create dataset (name already exists)')
        if data is None:
            a = arr.as_sym(np.zeros(shape, dtype = dtype or 'f4'))
        else:
            if hasattr(type(data), '_stands_for_array'):
                data = data.data
            a = arr.as_sym(data if isinstance(data, np.ndarray) else np.array(data))
            if dtype is not None:
                a = a.astype(arr.norm_dtype(dtype))
            else:
                a = a.copy()
            if shape is not None:
                a = a.reshape(shape)
        if isinstance(chunks, tuple) and (len(chunks) != a.ndim or any(u > v or u < 1 for u, v in zip(chunks, a.shape))):
            raise ValueError(f'Chunk shape {chunks} does not suit the data shape')
        parts = full.split('/')
        for i in range(1, len(parts)):
            if st.setdefault('/'.join(parts[:i]), None) is not None:
                raise ValueError('Unable to create dataset (parent is not a group)')
        st[full] = a
        return _dataset(a, self.file)

    def create_group(self, name):
        st = self._store()
        full = self._full(name)
        if full in st:
            raise ValueError('Unable to create group (name already exists)')
        parts = full.split('/')
        for i in range(1, len(parts) + 1):
            st.setdefault('/'.join(parts[:i]), None)
        return Group(self.file, full)

    def require_group(self, name):
        return self[name] if name in self else self.create_group(name)

    def __contains__(self, name):
        return self._full(name) in self._store()

    def __getitem__(self, name):
        st = self._store()
        full = self._full(name)
        if full not in st:
            raise KeyError(f"Unable to synchronously open object (object '{full}' doesn't exist)")
        if st[full] is None:
            return Group(self.file, full)
        return _dataset(st[full], self.file)

    def __setitem__(self, name, obj):
        if isinstance(obj, Group):
            # a hard link: both names reach the same datasets
            st, tgt = self._store(), self._full(name)
            if tgt in st:
                raise ValueError('Unable to create link (name already exists)')
            for k, v in list(st.items()):
                if k == obj.prefix or k.startswith(obj.prefix + '/'):
                    st[tgt + k[len(obj.prefix):]] = v
        else:
            self.create_dataset(name, data = obj)

    def __delitem__(self, name):
        st = self._store()
        full = self._full(name)
        for k in [k for k in st if k == full or k.startswith(full + '/')]:
            del st[k]

    def keys(self):
        pre = self.prefix + '/' if self.prefix else ''
        return sorted({k[len(pre):].split('/')[0] for k in self._store() if k.startswith(pre) and len(k) > len(pre)})

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def get(self, name, default = None):
        return self[name] if name in self else default

    def copy(self, source, dest, name = None, **kw):
        src = self._full(source) if isinstance(source, str) else source.prefix
        base = name or (src.split('/')[-1])
        tgt = dest._full(base)
        st, ds = self._store(), dest._store()
        if tgt in ds:
            raise ValueError('Unable to copy object (destination object already exists)')
        for k, v in list(st.items()):
            if k == src or k.startswith(src + '/'):
                ds[tgt + k[len(src):]] = None if v is None else v.copy()


class File(Group):

    def __init__(self, path, mode = 'r', *a, **kw):
        self.path = os.path.abspath(str(path))
        self.filename = str(path)
        self.mode = mode
        self.closed = False
        files = _files()
        if mode == 'w':
            with real_h5py.File(self.path, 'w'):
                pass
            files[self.path] = {}
        elif mode in ('r', 'r+', 'a'):
            if not os.path.exists(self.path):
                if mode != 'a':
                    raise FileNotFoundError(f"Unable to open file (unable to open file: name = '{path}')")
                with real_h5py.File(self.path, 'w'):
                    pass
                files[self.path] = {}
            elif self.path not in files:
                files[self.path] = _load(self.path)
        else:
            raise ValueError(f'mode {mode}')
        self.store = files[self.path]
        self.attrs = {}
        Group.__init__(self, self, '')

    def close(self):
        self.closed = True

    def flush(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __bool__(self):
        return not self.closed


def _load(path):
    out = {}

    def visit(name, obj):
        if isinstance(obj, real_h5py.Dataset):
            v = obj[()]
            out[name] = arr.as_sym(np.array(v))
        else:
            out[name] = None

    with real_h5py.File(path, 'r') as f:
        f.visititems(visit)
    return out


def copyfile_hook(src, dst):
    """keeps the registry in step with files copied by the code under test"""
    if core.PATH is not None:
        f = _files()
        s = os.path.abspath(str(src))
        if s in f:
            f[os.path.abspath(str(dst))] = {k: (None if v is None else v.copy()) for k, v in f[s].items()}
        else:
            f.pop(os.path.abspath(str(dst)), None)


class _Fake(types.ModuleType):

    def __getattr__(self, n):
        return getattr(real_h5py, n)


fake_h5py = _Fake('h5py')
fake_h5py.File = File
fake_h5py.Group = Group
fake_h5py.Dataset = Dataset
fake_h5py._hl = types.SimpleNamespace(files = types.SimpleNamespace(File = File))
