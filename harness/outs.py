"""Output factories and observation, shared by C12-C14."""
import numpy as np
from pystrata import output
from rec import FS

OL = output.OutputLocation


def factories(freqs, depth, shared=False):
    """name -> (factory, needs a time series, references are fixed). The outputs may share their locations."""
    keep = {}
    at = lambda f, **kw: keep.setdefault((f, *kw.items()), OL(f, **kw)) if shared else OL(f, **kw)      # noqa: E731
    surf = lambda: at("outcrop", index=0)                    # noqa: E731
    deep = lambda: at("within", depth=depth)                 # noqa: E731
    rock = lambda: at("outcrop", index=-1)                   # noqa: E731
    O = output
    return {
        "accel": (lambda: O.AccelerationTSOutput(surf()), True, False),
        "arias": (lambda: O.AriasIntensityTSOutput(surf()), True, False),
        "strain": (lambda: O.StrainTSOutput(deep()), True, False),
        "strainpct": (lambda: O.StrainTSOutput(deep(), in_percent=True), True, False),
        "stress": (lambda: O.StressTSOutput(deep(), damped=False), True, False),
        "stressnorm": (lambda: O.StressTSOutput(deep(), damped=True, normalized=True), True, False),
        "fas": (lambda: O.FourierAmplitudeSpectrumOutput(freqs, surf(), ko_bandwidth=20), False, True),
        "fasraw": (lambda: O.FourierAmplitudeSpectrumOutput(freqs, surf(), ko_bandwidth=None), False, True),
        "rs": (lambda: O.ResponseSpectrumOutput(freqs, surf(), 0.05), False, True),
        "tf": (lambda: O.AccelTransferFunctionOutput(freqs, rock(), surf()), False, True),
        "tfsmooth": (lambda: O.AccelTransferFunctionOutput(freqs, rock(), surf(), ko_bandwidth=20), False, True),
        "rsr": (lambda: O.ResponseSpectrumRatioOutput(freqs, rock(), surf(), 0.05), False, True),
        "maxstrain": (lambda: O.MaxStrainProfile(), False, False),
        "damping": (lambda: O.DampingProfile(), False, False),
        "modreduc": (lambda: O.ShearModReducProfile(), False, False),
        "initvel": (lambda: O.InitialVelProfile(), False, False),
        "compvel": (lambda: O.CompatVelProfile(), False, False),
        "csr": (lambda: O.CyclicStressRatioProfile(), False, False),
        "maxaccel": (lambda: O.MaxAccelProfile(), False, False),
    }


def columns(x):
    """A one or two dimensional array as a list of columns."""
    if x is None:
        return []
    x = np.asarray(x, dtype=float)
    if x.ndim == 1:
        return [FS(x)] if len(x) else []
    return [FS(x[:, i]) for i in range(x.shape[1])]


def out_obs(o):
    return {"names": [str(x) for x in o.names], "refs": columns(o.refs), "vals": columns(o.values),
            "it": [{"name": str(a), "refs": FS(b), "vals": FS(v)} for a, b, v in (o.iter_results() if o.values is not None else [])]}
