"""Shared encoding helpers for drivers (observation side only; no oracles)."""
import math
import numpy as np

NAN, PINF, NINF, BADNUM = 2000000001, 2000000002, 2000000003, 2000000004
LIM = 1900000000


def enc(x, scale=1, tol=1e-3):
  """Number -> int at the given scale; BADNUM when it is not (nearly) integral."""
  x = float(x)
  if math.isnan(x):
    return NAN
  if math.isinf(x):
    return PINF if x > 0 else NINF
  y = x * scale
  if abs(y) > LIM:
    return BADNUM
  r = round(y)
  if tol is not None and abs(y - r) > tol * max(1.0, abs(y) * 1e-3):
    return BADNUM
  return int(r)


def encr(x, scale):
  """Rounded encoding (the spec compares with a tolerance)."""
  return enc(x, scale, tol=None)


def encl(a, scale=1, tol=1e-3):
  return [enc(v, scale, tol) for v in np.asarray(a, dtype=float).ravel().tolist()]


def enclr(a, scale):
  return [encr(v, scale) for v in np.asarray(a, dtype=float).ravel().tolist()]


def err(e):
  return f'{type(e).__name__}: {str(e)[:400]}'


def guarded(fn, ev):
  """Runs fn() -> dict of outputs merged into ev; logs exceptions as outcomes."""
  try:
    out = fn()
    ev['ok'] = True
    ev.update(out)
  except Exception as e:  # pylint: disable=broad-except
    import traceback
    ev['ok'] = False
    ev['err'] = err(e)
    ev['errtype'] = type(e).__name__
    ev['tb'] = traceback.format_exc()[-1500:]
  return ev
