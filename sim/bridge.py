"""torch <-> numpy bridge for this sandbox.

torch 2.0.1 here was built against a newer numpy C API than the installed
numpy 1.22, so `Tensor.numpy()` and friends are switched off inside torch.  The
code under test relies on them everywhere.  This shim gives the documented
semantics back (memory sharing included) without touching /repo.  It changes no
behaviour of yuca; with a working bridge it is not installed at all.
"""
import numpy as np
import torch

_T2N = {
    torch.float64: np.dtype("float64"), torch.float32: np.dtype("float32"),
    torch.float16: np.dtype("float16"), torch.int64: np.dtype("int64"),
    torch.int32: np.dtype("int32"), torch.int16: np.dtype("int16"),
    torch.int8: np.dtype("int8"), torch.uint8: np.dtype("uint8"),
    torch.bool: np.dtype("bool"), torch.complex64: np.dtype("complex64"),
    torch.complex128: np.dtype("complex128"),
}
_N2T = {v: k for k, v in _T2N.items()}

_orig_tensor = torch.tensor
_orig_as_tensor = torch.as_tensor


class _Holder:
    __slots__ = ("tensor", "__array_interface__")

    def __init__(self, tensor):
        self.tensor = tensor
        dt = _T2N[tensor.dtype]
        self.__array_interface__ = {
            "shape": tuple(tensor.shape), "typestr": dt.str,
            "data": (tensor.data_ptr(), False),
            "strides": tuple(s * dt.itemsize for s in tensor.stride()),
            "version": 3,
        }


def tensor_numpy(self, *, force=False):
    if force:
        self = self.detach().cpu().resolve_conj().resolve_neg()
    if self.requires_grad:
        raise RuntimeError("Can't call numpy() on Tensor that requires grad. "
                           "Use tensor.detach().numpy() instead.")
    if self.device.type != "cpu":
        raise TypeError("can't convert non-cpu tensor to numpy")
    if self.numel() == 0:
        return np.empty(tuple(self.shape), dtype=_T2N[self.dtype])
    return np.asarray(_Holder(self))


def from_numpy(arr):
    if not isinstance(arr, np.ndarray):
        raise TypeError(f"expected np.ndarray (got {type(arr).__name__})")
    if arr.dtype not in _N2T:
        raise TypeError(f"can't convert np.ndarray of type {arr.dtype}.")
    if arr.size == 0:
        return torch.empty(arr.shape, dtype=_N2T[arr.dtype])
    if any(s < 0 for s in arr.strides):
        raise ValueError("At least one stride in the given numpy array is negative")
    if arr.flags.c_contiguous and arr.flags.writeable:
        return torch.frombuffer(arr, dtype=_N2T[arr.dtype]).reshape(arr.shape)
    return torch.frombuffer(np.array(arr, order="C"), dtype=_N2T[arr.dtype]).reshape(arr.shape)


def _copy_from(arr):
    if arr.dtype not in _N2T:
        raise TypeError(
            f"can't convert np.ndarray of type {arr.dtype}. The only supported types "
            "are: float64, float32, float16, complex64, complex128, int64, int32, "
            "int16, int8, uint8, and bool.")
    if arr.size == 0:
        return torch.empty(arr.shape, dtype=_N2T[arr.dtype])
    c = np.array(arr, order="C", copy=True)
    # clone: the result must own its storage (frombuffer keeps `c` alive)
    return torch.frombuffer(c, dtype=_N2T[arr.dtype]).reshape(arr.shape).clone()


def _has_np(data, depth=0):
    if isinstance(data, (np.ndarray, np.generic)):
        return True
    if depth < 4 and isinstance(data, (list, tuple)) and len(data):
        return any(_has_np(d, depth + 1) for d in data)
    return False


def tensor(data, *args, dtype=None, device=None, requires_grad=False, pin_memory=False):
    if isinstance(data, (np.ndarray, np.generic)) or (
            isinstance(data, (list, tuple)) and _has_np(data)):
        if isinstance(data, (list, tuple)) and any(isinstance(d, torch.Tensor) for d in data):
            data = [d.detach().cpu().numpy() if isinstance(d, torch.Tensor) else d for d in data]
        t = _copy_from(np.asarray(data))
        if dtype is not None:
            t = t.to(dtype)
        if device is not None:
            t = t.to(device)
        t = t.detach()
        t.requires_grad_(requires_grad)
        return t
    return _orig_tensor(data, *args, dtype=dtype, device=device,
                        requires_grad=requires_grad, pin_memory=pin_memory)


def as_tensor(data, dtype=None, device=None):
    if isinstance(data, np.ndarray):
        t = from_numpy(data)
    elif isinstance(data, np.generic):
        t = _copy_from(np.asarray(data))
    else:
        return _orig_as_tensor(data, dtype=dtype, device=device)
    if dtype is not None:
        t = t.to(dtype)
    if device is not None:
        t = t.to(device)
    return t


def works():
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return float(torch.ones(1).numpy()[0]) == 1.0
    except Exception:
        return False


def install():
    if works():
        return False
    torch.Tensor.numpy = tensor_numpy
    torch.from_numpy = from_numpy
    torch.tensor = tensor
    torch.as_tensor = as_tensor
    return True
