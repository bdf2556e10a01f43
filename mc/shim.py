"""Restores the torch <-> numpy bridge that is missing from the prebuilt venv.

The torch 2.0.1 wheel in /opt/venv was linked against a numpy ABI the installed
numpy does not offer, so Tensor.numpy(), torch.from_numpy and torch.tensor(ndarray)
raise "Numpy is not available".  Large parts of yuca (parameter codecs, config
files, wrappers, evolution, CPPNs, clones) cannot execute at all without them.
The shim implements exactly the documented semantics of those entry points:
memory sharing for Tensor.numpy()/from_numpy, copies for torch.tensor.
It touches torch only, never yuca.
"""
import numpy as np
import torch

_installed = False
_DT = {
    torch.float64: np.float64, torch.float32: np.float32, torch.float16: np.float16,
    torch.int64: np.int64, torch.int32: np.int32, torch.int16: np.int16,
    torch.int8: np.int8, torch.uint8: np.uint8, torch.bool: np.bool_,
}
_TD = {np.dtype(v): k for k, v in _DT.items()}


def install():
    global _installed
    if _installed:
        return
    _installed = True
    try:
        torch.ones(1).numpy()
        torch.from_numpy(np.ones(1))
        torch.tensor(np.ones(1, dtype=np.float32))
        return                      # bridge works: nothing to do
    except Exception:
        pass

    orig_tensor = torch.tensor
    orig_as_tensor = torch.as_tensor

    class _Holder(object):
        pass

    def t_numpy(self, *, force=False):
        t = self
        if force:
            t = t.detach().cpu().resolve_conj().resolve_neg()
        if t.requires_grad:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. "
                               "Use tensor.detach().numpy() instead.")
        t = t.detach()
        if t.numel() == 0:
            return np.empty(tuple(t.shape), dtype=_DT[t.dtype])
        npd = np.dtype(_DT[t.dtype])
        h = _Holder()
        h._keep = t
        h.__array_interface__ = {
            "shape": tuple(t.shape), "typestr": npd.str,
            "data": (t.data_ptr(), False),
            "strides": tuple(s * npd.itemsize for s in t.stride()),
            "version": 3,
        }
        return np.asarray(h)

    def from_numpy(a):
        if not isinstance(a, np.ndarray):
            raise TypeError("expected np.ndarray (got %s)" % type(a).__name__)
        if a.dtype not in _TD:
            raise TypeError("can't convert np.ndarray of type %s." % a.dtype)
        if a.size == 0:
            return torch.empty(a.shape, dtype=_TD[a.dtype])
        if not a.flags.writeable:
            a = a.copy()
        if a.flags.c_contiguous:
            if a.dtype == np.bool_:
                return torch.frombuffer(a.view(np.uint8), dtype=torch.uint8).view(torch.bool).reshape(a.shape)
            return torch.frombuffer(a, dtype=_TD[a.dtype]).reshape(a.shape)
        if any(s < 0 for s in a.strides):
            raise ValueError("At least one stride in the given numpy array is negative")
        b = np.ascontiguousarray(a)     # non-contiguous: copy (sharing not needed by yuca)
        return from_numpy(b)

    def conv(data):
        if isinstance(data, np.ndarray):
            if data.dtype == object:
                return data.tolist()
            return from_numpy(np.array(data, order="C", copy=True))
        if isinstance(data, np.bool_):
            return bool(data)
        if isinstance(data, np.integer):
            return int(data)
        if isinstance(data, np.float64):
            return float(data)
        if isinstance(data, np.floating):
            return float(data)
        if isinstance(data, (list, tuple)):
            if any(isinstance(d, (np.ndarray, np.generic, list, tuple)) for d in data):
                return [x.tolist() if isinstance(x, torch.Tensor) and isinstance(d, np.ndarray) else x
                        for d in data for x in [conv(d)]]
        return data

    def tensor(data, *args, **kwargs):
        if isinstance(data, np.ndarray) or isinstance(data, np.generic):
            d = np.asarray(data)
            if d.dtype != object:
                t = from_numpy(np.array(d, order="C", copy=True))
                rg = kwargs.pop("requires_grad", False)
                kwargs.pop("pin_memory", None)
                if isinstance(data, np.generic) and "dtype" not in kwargs and d.dtype == np.float64:
                    # torch keeps float64 for numpy scalars
                    kwargs["dtype"] = torch.float64
                t = t.to(**kwargs) if kwargs else t
                t = t.clone()
                if rg:
                    t.requires_grad_(True)
                return t
        return orig_tensor(conv(data), *args, **kwargs)

    def as_tensor(data, dtype=None, device=None):
        if isinstance(data, np.ndarray):
            t = from_numpy(data)
            if dtype is not None:
                t = t.to(dtype)
            if device is not None:
                t = t.to(device)
            return t
        return orig_as_tensor(conv(data), dtype=dtype, device=device)

    def array_wrap(self, array):
        if array.dtype == bool:
            array = array.astype("uint8")
        return from_numpy(np.ascontiguousarray(array))

    def __array__(self, dtype=None):
        a = self.numpy()
        return a if dtype is None else a.astype(dtype, copy=False)

    torch.Tensor.numpy = t_numpy
    torch.Tensor.__array__ = __array__
    torch.Tensor.__array_wrap__ = array_wrap
    torch.tensor = tensor
    torch.as_tensor = as_tensor
    torch.from_numpy = from_numpy
    # indexing with numpy integers / arrays
    orig_get = torch.Tensor.__getitem__
    orig_set = torch.Tensor.__setitem__

    def ix(i):
        if isinstance(i, tuple):
            return tuple(ix(j) for j in i)
        if isinstance(i, np.integer):
            return int(i)
        if isinstance(i, np.ndarray):
            return from_numpy(np.ascontiguousarray(i))
        return i

    def __getitem__(self, i):
        return orig_get(self, ix(i))

    def __setitem__(self, i, v):
        if isinstance(v, np.generic):
            v = v.item()
        return orig_set(self, ix(i), v)

    torch.Tensor.__getitem__ = __getitem__
    torch.Tensor.__setitem__ = __setitem__
