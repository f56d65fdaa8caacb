"""A second device without second hardware.

`VDev` is a torch function mode: tensors really live in CPU memory, but every tensor carries a virtual device tag, results
inherit the tag of their operands, `.to()/.cpu()`/`device=` move it, and mixing operands of two devices raises like torch does
(0-dim CPU operands and CPU index tensors are accepted, as on a real accelerator; host conversions of device tensors raise).
The code under test runs unmodified inside the mode and sees `tensor.device`, so every missing or superfluous move shows.
"""
import torch
from torch.overrides import TorchFunctionMode

DEV = "hpu:0"  # a device type torch knows but gives no special treatment
CPU = torch.device("cpu")
T = torch.Tensor
_GET_DEV, _SET_DATA, _GET_GRAD = T.device.__get__, T.data.__set__, T.grad.__get__
_ISCPU = T.is_cpu.__get__
COPY_ACROSS = {"copy_", "set_"}
FREE = {"_has_compatible_shallow_copy_type", "is_same_size", "swap_tensors", "typename", "is_tensor"}
INDEXED = {"__getitem__", "__setitem__", "index_put_", "index_put"}
HOST = {"numpy", "__array__"}
SHAPE_ONLY = {"__deepcopy__", "view_as", "expand_as", "reshape_as", "type_as", "zeros_like", "ones_like", "empty_like", "full_like", "rand_like", "randn_like"}


def norm(d):
    d = torch.device(d)
    if d.type != "cpu" and d.index is None:
        d = torch.device(d.type, 0)
    return CPU if d.type == "cpu" else d


def _tag(t):
    return getattr(t, "_vd", CPU)


def set_tag(t, d):
    if d.type == "cpu":
        if hasattr(t, "_vd"):
            del t._vd
    else:
        t._vd = d


def _tensors(x, out):
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, (list, tuple, set)):
        for v in x:
            _tensors(v, out)
    elif isinstance(x, dict):
        for v in x.values():
            _tensors(v, out)
    return out


def _retag(x, d):
    if isinstance(x, T):
        set_tag(x, d)
    elif isinstance(x, (list, tuple)):
        for v in x:
            _retag(v, d)
    elif isinstance(x, dict):
        for v in x.values():
            _retag(v, d)
    return x


class Mixed(RuntimeError):
    pass


class VDev(TorchFunctionMode):
    def __init__(self):
        super().__init__()
        self.moves = 0
        self.ops = 0

    def __enter__(self):
        P = torch.nn.Parameter
        self._new = P.__new__

        def new(cls, data=None, requires_grad=True):
            p = self._new(cls, data, requires_grad)
            if data is not None and hasattr(data, "_vd"):
                p._vd = data._vd
            return p

        P.__new__ = staticmethod(new)
        return super().__enter__()

    def __exit__(self, *a):
        torch.nn.Parameter.__new__ = self._new
        return super().__exit__(*a)

    def _move(self, src, res, d):
        """res: the real result of a conversion of src; give it the device d without touching src"""
        if _tag(src) != d:
            self.moves += 1
            if res is src or (res.layout == torch.strided and res.data_ptr() == src.data_ptr() and src.layout == torch.strided):
                res = res.clone()
        set_tag(res, d)
        return res

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        name = getattr(func, "__name__", "")
        self.ops += 1
        if name == "__get__":
            if func == _GET_DEV:
                return _tag(args[0])
            if func == _ISCPU:
                return _tag(args[0]).type == "cpu"
            if func == _GET_GRAD:
                g = func(*args)
                return g if g is None else _retag(g, _tag(args[0]))
            r = func(*args, **kwargs)
            return _retag(r, _tag(args[0])) if isinstance(r, (T, tuple, list)) and args and isinstance(args[0], T) else r
        if name == "__set__":
            if func == _SET_DATA:
                func(*args)
                set_tag(args[0], _tag(args[1]))
                return None
            return func(*args)
        if name == "to" and args and isinstance(args[0], T):
            src, rest, d = args[0], list(args[1:]), _tag(args[0])
            if isinstance(kwargs.get("other"), T):
                d = _tag(kwargs["other"])
            elif "device" in kwargs:
                if kwargs["device"] is not None:
                    d = norm(kwargs["device"])
                kwargs["device"] = None if kwargs["device"] is None else CPU
            elif rest and isinstance(rest[0], T):
                d = _tag(rest[0])
            elif rest and isinstance(rest[0], (torch.device, str, int)) and not isinstance(rest[0], bool):
                d = norm(rest[0])
                rest[0] = CPU
            return self._move(src, func(src, *rest, **kwargs), d)
        if name in ("cpu", "cuda") and args and isinstance(args[0], T):
            d = CPU if name == "cpu" else norm("cuda" if len(args) < 2 and "device" not in kwargs else (args[1] if len(args) > 1 else kwargs["device"]))
            return self._move(args[0], T.to(args[0]), d)
        if name in FREE:
            return func(*args, **kwargs)
        ts = _tensors(args, _tensors(kwargs, []))
        if name in HOST and ts and _tag(ts[0]).type != "cpu":
            raise TypeError(f"can't convert {_tag(ts[0])} device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first.")
        if kwargs.get("device") is not None:
            d = norm(kwargs["device"])
            kwargs["device"] = CPU
            return _retag(func(*args, **kwargs), d)
        if not ts:
            return func(*args, **kwargs)
        if name in COPY_ACROSS or name in SHAPE_ONLY or name.startswith("new_"):
            d = _tag(args[1]) if name == "type_as" else _tag(args[0])
        elif name in INDEXED:
            d = _tag(args[0])
            for t in _tensors(args[1], []):
                if _tag(t) != d and (d.type == "cpu" or _tag(t).type != "cpu"):
                    raise Mixed("indices should be either on cpu or on the same device as the indexed tensor (virtual device)")
            for t in _tensors(list(args[2:]), []):
                if _tag(t) != d and not (t.ndim == 0):
                    raise Mixed(f"{name}: value on {_tag(t)}, tensor on {d} (virtual device)")
        elif name == "sparse_coo_tensor" and len(args) > 1 and isinstance(args[1], T):
            d = _tag(args[1])  # torch takes the indices along
        else:
            d = self._same(name, ts)
        r = func(*args, **kwargs)
        return _retag(r, d) if isinstance(r, (T, tuple, list, dict)) else r

    def _same(self, name, ts):
        devs = {_tag(t) for t in ts}
        if len(devs) == 1:
            return devs.pop()
        other = {_tag(t) for t in ts if not (t.ndim == 0 and _tag(t).type == "cpu" and t.layout == torch.strided)}
        if len(other) > 1:
            raise Mixed(f"Expected all tensors to be on the same device, but {name} got {sorted(map(str, devs))} (virtual device)")
        return other.pop()
