"""Labelled-array encoding shared by the drivers."""
import numpy as np
import xarray as xr
from vlib import enc, NAN, PINF, NINF


SPECIAL = {PINF: np.inf, NINF: -np.inf}


def coord(kind, labels):
  """Concrete coordinate values for small integer labels."""
  if kind == 'int':
    return np.asarray(labels, dtype='int64') * 10
  if kind == 'float':
    return np.asarray(labels, dtype='float64') / 4
  if kind == 'str':
    return np.asarray([f'L{v:03d}' for v in labels], dtype=object) if len(labels) else np.asarray([], dtype=object)
  if kind == 'dt':
    return np.datetime64('2020-01-01', 'ns') + np.asarray(labels, 'timedelta64[D]')
  if kind == 'td':
    return np.asarray(labels, 'timedelta64[h]').astype('timedelta64[ns]')
  if kind == 'dtm':   # minutes since 1970
    return np.asarray(labels, 'datetime64[m]').astype('datetime64[ns]')
  if kind == 'tdm':
    return np.asarray(labels, 'timedelta64[m]').astype('timedelta64[ns]')
  if kind == 'raw':
    return np.asarray(labels, dtype='int64')
  raise ValueError(kind)


def label(kind, values):
  out = []
  for v in np.asarray(values):
    try:
      if kind == 'int':
        out.append(int(v) // 10)
      elif kind == 'float':
        out.append(int(round(float(v) * 4)))
      elif kind == 'str':
        out.append(int(str(v)[1:]))
      elif kind == 'dt':
        out.append(int((np.datetime64(v, 'ns') - np.datetime64('2020-01-01', 'ns')) / np.timedelta64(1, 'D')))
      elif kind == 'td':
        out.append(int(np.timedelta64(v, 'ns') / np.timedelta64(1, 'h')))
      elif kind == 'dtm':
        out.append(int(np.datetime64(v, 'm').astype('int64')))
      elif kind == 'tdm':
        out.append(int(np.timedelta64(v, 'm').astype('int64')))
      elif kind == 'raw':
        out.append(int(v))
    except Exception:  # unknown label
      out.append(-999999)
  return out


def make(dims, labels, data, kinds, dtype='float64', nan=NAN, name=None):
  """DataArray from the abstract form; kinds[d] None -> dimension without coord."""
  a = np.array([np.nan if v == nan else SPECIAL.get(v, v) for v in data], dtype='float64').reshape([len(x) for x in labels])
  coords = {d: coord(kinds[d], ls) for d, ls in zip(dims, labels) if kinds.get(d)}
  return xr.DataArray(a.astype(dtype), dims=list(dims), coords=coords, name=name)


def show(da, kinds, scale=1, tol=1e-3):
  """Abstract (logged) form of a DataArray."""
  labels = []
  for d in da.dims:
    if kinds.get(d) and d in da.coords:
      labels.append(label(kinds[d], da.coords[d].values))
    elif kinds.get(d) and d not in da.coords:
      labels.append([-888000 - i for i in range(da.sizes[d])])   # lost its labels
    else:
      labels.append(list(range(1, da.sizes[d] + 1)))
  vals = np.asarray(da.values, dtype='float64').ravel().tolist()
  return dict(dims=[str(d) for d in da.dims], labels=labels, data=[enc(v, scale, tol) for v in vals])
