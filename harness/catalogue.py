"""Every metric of the library, with parameter variants, by kind of input data."""
import numpy as np
import xarray as xr

from weatherbenchX.metrics import categorical as cat
from weatherbenchX.metrics import deterministic as det
from weatherbenchX.metrics import probabilistic as prob
from weatherbenchX.metrics import spatial
from weatherbenchX.metrics import wrappers as wr

DOY = np.arange(1, 367)


def clim_data(seed, variables, hour=True, quantile=False, lat=None):
  r = np.random.RandomState(seed)
  dims, sizes, coords = ['dayofyear'], [366], {'dayofyear': DOY}
  if hour:
    dims.append('hour'); sizes.append(4); coords['hour'] = [0, 6, 12, 18]
  if quantile:
    dims.append('quantile'); sizes.append(4); coords['quantile'] = [0.1, 0.25, 0.75, 0.9]
  out = {}
  for v in variables:
    a = r.randint(-6, 7, size=sizes).astype(float)
    if quantile:
      a = np.sort(a, axis=-1)
    out[v] = xr.DataArray(a, dims=dims, coords=coords)
  return xr.Dataset(out)


def seeps_clim(seed, variables, lat, lon):
  r = np.random.RandomState(seed)
  out = {}
  dims = ['dayofyear', 'hour', 'latitude', 'longitude']
  sh = (366, 4, len(lat), len(lon))
  co = {'dayofyear': DOY, 'hour': [0, 6, 12, 18], 'latitude': lat, 'longitude': lon}
  for v in variables:
    out[f'{v}_seeps_threshold'] = xr.DataArray(r.randint(2, 6, size=sh) / 1000., dims=dims, coords=co)
    f = r.choice([0.0625, 0.25, 0.5, 0.75, 0.9375], size=sh[2:])
    out[f'{v}_seeps_dry_fraction'] = xr.DataArray(np.broadcast_to(f, sh).copy(), dims=dims, coords=co)
  return xr.Dataset(out)


def families():
  """family -> list of (class label, variant label, factory)."""
  V = ['u', 'v']
  q = lambda s: clim_data(s, V, quantile=True)
  c = lambda s, h=True: clim_data(s, V, hour=h)
  lat, lon = np.array([-10., 0., 10.]), np.array([0., 90., 180., 270.])
  pt = lambda d, vs: xr.DataArray(vs, dims=[d], coords={d: np.arange(len(vs))})
  F = {}
  F['cont'] = [
      ('Error', '', det.Error), ('AbsoluteError', '', det.AbsoluteError), ('MSE', '', det.MSE), ('RMSE', '', det.RMSE),
      ('RelativeIntensity', 'latlon', lambda: det.RelativeIntensity()),
      ('RelativeIntensity', 'lon', lambda: det.RelativeIntensity(['longitude'])),
      ('RelativeIntensity', 'lat', lambda: det.RelativeIntensity(['latitude'])),
      ('PredictionAverage', 'plain', lambda: det.PredictionAverage()),
      ('PredictionAverage', 'copynan', lambda: det.PredictionAverage(copy_nans_from_targets=True)),
      ('TargetAverage', 'plain', lambda: det.TargetAverage()),
      ('TargetAverage', 'copynan', lambda: det.TargetAverage(copy_nans_from_predictions=True)),
      ('WindVectorRMSE', 'uv', lambda: det.WindVectorRMSE('u', 'v', 'w')),
      ('WindVectorRMSE', 'uu', lambda: det.WindVectorRMSE('u', 'u', 'w')),
      ('WindVectorRMSE', 'vu-named', lambda: det.WindVectorRMSE(['u', 'v'], ['v', 'v'], ['w', 'w2'])),
      ('ErrorExceedance', '1,3', lambda: det.ErrorExceedance([1., 3.])),
      ('ErrorExceedance', '2,3', lambda: det.ErrorExceedance([2., 3.])),
      ('ErrorExceedance', '2', lambda: det.ErrorExceedance([2.])),
      ('ErrorExceedance', 'da', lambda: det.ErrorExceedance(xr.DataArray([1., 4.], dims='thr', coords={'thr': [10, 20]}))),
      ('ErrorExceedance', 'da2', lambda: det.ErrorExceedance(xr.DataArray([2., 4.], dims='thr', coords={'thr': [10, 20]}))),
      ('ACC', 'c1', lambda: det.ACC(c(1))), ('ACC', 'c2', lambda: det.ACC(c(2))),
      ('PredictionActivity', 'c1', lambda: det.PredictionActivity(c(1))),
      ('PredictionActivity', 'c3', lambda: det.PredictionActivity(c(3, False))),
      ('SEEPS', 'u', lambda: cat.SEEPS(['u'], seeps_clim(1, V, lat, lon), dry_threshold_mm=2., min_p1=0.1, max_p1=0.85)),
      ('SEEPS', 'u-dry', lambda: cat.SEEPS(['u'], seeps_clim(1, V, lat, lon), dry_threshold_mm=1., min_p1=0.1, max_p1=0.85)),
      ('SEEPS', 'u-min', lambda: cat.SEEPS(['u'], seeps_clim(1, V, lat, lon), dry_threshold_mm=2., min_p1=0.3, max_p1=0.85)),
      ('SEEPS', 'u-max', lambda: cat.SEEPS(['u'], seeps_clim(1, V, lat, lon), dry_threshold_mm=2., min_p1=0.1, max_p1=0.6)),
      ('SEEPS', 'v', lambda: cat.SEEPS(['v'], seeps_clim(1, V, lat, lon), dry_threshold_mm=2., min_p1=0.1, max_p1=0.85)),
      ('SEEPS', 'u-clim', lambda: cat.SEEPS(['u'], seeps_clim(2, V, lat, lon), dry_threshold_mm=2., min_p1=0.1, max_p1=0.85)),
      ('Sub-MAE', 'u', lambda: wr.SubselectVariables(det.MAE(), ['u'])),
      ('Sub-MAE', 'v', lambda: wr.SubselectVariables(det.MAE(), ['v'])),
      ('Sub-MAE', 'uv', lambda: wr.SubselectVariables(det.MAE(), ['u', 'v'])),
  ]
  def W(m, *t, **k):
    return lambda: wr.WrappedMetric(m(), list(t), **k)
  B = wr.ContinuousToBinary
  F['cont'] += [
      ('CSI', 'both0', W(cat.CSI, B('both', 0, 'thr'))),
      ('CSI', 'both1', W(cat.CSI, B('both', 1, 'thr'))),
      ('CSI', 'both01', W(cat.CSI, B('both', [0, 1], 'thr'))),
      ('CSI', 'dim', W(cat.CSI, B('both', [0, 1], 'thr2'))),
      ('CSI', 'p0t1', W(cat.CSI, B('predictions', 0, 'thr'), B('targets', 1, 'thr_t'))),
      ('CSI', 'p1t0', W(cat.CSI, B('predictions', 1, 'thr'), B('targets', 0, 'thr_t'))),
      ('CSI', 'da-a', W(cat.CSI, B('both', pt('thr', [0., 2.]), 'thr', unique_name_suffix='A'))),
      ('CSI', 'da-b', W(cat.CSI, B('both', pt('thr', [1., 2.]), 'thr', unique_name_suffix='B'))),
      ('CSI', 'named-x', W(cat.CSI, B('both', 0, 'thr'), unique_name_suffix='x')),
      ('CSI', 'named-y', W(cat.CSI, B('both', 1, 'thr'), unique_name_suffix='y')),
      ('Accuracy', 'both0', W(cat.Accuracy, B('both', 0, 'thr'))),
      ('Accuracy', 'both1', W(cat.Accuracy, B('both', 1, 'thr'))),
      ('wMSE', 'relu-p', W(det.MSE, wr.ReLU('predictions'))),
      ('wMSE', 'relu-t', W(det.MSE, wr.ReLU('targets'))),
      ('wMSE', 'relu-b', W(det.MSE, wr.ReLU('both'))),
      ('wMSE', 'inline-a', W(det.MSE, wr.Inline('predictions', lambda x: 2 * x, 'double'))),
      ('wMSE', 'inline-b', W(det.MSE, wr.Inline('predictions', lambda x: -x, 'negate'))),
      ('wMSE', 'inline-ab', W(det.MSE, wr.Inline('predictions', lambda x: x + 1, 'inc'), wr.Inline('predictions', lambda x: 2 * x, 'double'))),
      ('wMSE', 'inline-ba', W(det.MSE, wr.Inline('predictions', lambda x: 2 * x, 'double'), wr.Inline('predictions', lambda x: x + 1, 'inc'))),
      ('wMSE', 'shift-1', W(det.MSE, wr.ShiftAlongNewDim('predictions', [1, 2], 's', 'sh12'))),
      ('wMSE', 'shift-2', W(det.MSE, wr.ShiftAlongNewDim('predictions', [1, 3], 's', 'sh13'))),
      ('wMSE', 'sel-lat0', W(det.MSE, wr.Select('both', isel={'latitude': [0]}))),
      ('wMSE', 'sel-lat1', W(det.MSE, wr.Select('both', isel={'latitude': [1]}))),
      ('wMSE', 'sel-lon', W(det.MSE, wr.Select('both', sel={'longitude': [90.]}))),
      ('wMSE', 'sel-lon180', W(det.MSE, wr.Select('both', sel={'longitude': [180.]}))),
      ('wMSE', 'sel-lonn', W(det.MSE, wr.Select('both', sel={'longitude': [100.]}, sel_kwargs={'method': 'nearest'}))),
      ('wMSE', 'sel-lonp', W(det.MSE, wr.Select('predictions', sel={'longitude': 100.}, sel_kwargs={'method': 'nearest'}))),
      ('wMSE', 'sel-lonp2', W(det.MSE, wr.Select('predictions', sel={'longitude': 100.}, sel_kwargs={'method': 'bfill'}))),
      ('wMSE', 'cdf-r', W(det.MSE, wr.ContinuousToCDF('both', [0, 2], 'k', right_inclusive=True))),
      ('wMSE', 'cdf-l', W(det.MSE, wr.ContinuousToCDF('both', [0, 2], 'k', right_inclusive=False))),
      ('wMSE', 'cdf-2', W(det.MSE, wr.ContinuousToCDF('both', [1, 2], 'k', right_inclusive=False))),
      ('wMSE', 'cdf-dim', W(det.MSE, wr.ContinuousToCDF('both', [1, 2], 'k2', right_inclusive=False))),
      ('wMSE', 'bins-1', W(det.MSE, wr.ContinuousToBins('both', [-9, 0, 2, 9], 'b'))),
      ('wMSE', 'bins-2', W(det.MSE, wr.ContinuousToBins('both', [-9, 1, 2, 9], 'b'))),
      ('wMSE', 'bins-d', W(det.MSE, wr.ContinuousToBins('both', [-9, 1, 2, 9], 'b2'))),
  ]
  E = dict(ensemble_dim='number')
  F['ens'] = [
      ('CRPSEnsemble', 'fair', lambda: prob.CRPSEnsemble()),
      ('CRPSEnsemble', 'unfair', lambda: prob.CRPSEnsemble(fair=False)),
      ('CRPSEnsemble', 'sort', lambda: prob.CRPSEnsemble(use_sort=True)),
      ('CRPSEnsemble', 'skipna', lambda: prob.CRPSEnsemble(skipna_ensemble=True)),
      ('CRPSEnsemble', 'unfair-skipna', lambda: prob.CRPSEnsemble(fair=False, skipna_ensemble=True)),
      ('CRPSEnsemble', 'member', lambda: prob.CRPSEnsemble(ensemble_dim='member')),
      ('CRPSSkill', 'plain', lambda: prob.CRPSSkill()),
      ('CRPSSkill', 'skipna', lambda: prob.CRPSSkill(skipna_ensemble=True)),
      ('CRPSSkill', 'member', lambda: prob.CRPSSkill('member')),
      ('EnsVar', 'plain', lambda: prob.EnsembleRootMeanVariance()),
      ('EnsVar', 'skipna', lambda: prob.EnsembleRootMeanVariance(skipna_ensemble=True)),
      ('EnsVar', 'member', lambda: prob.EnsembleRootMeanVariance(ensemble_dim='member')),
      ('UnbRMSE', 'plain', lambda: prob.UnbiasedEnsembleMeanRMSE()),
      ('UnbRMSE', 'skipna', lambda: prob.UnbiasedEnsembleMeanRMSE(skipna_ensemble=True)),
      ('UnbRMSE', 'member', lambda: prob.UnbiasedEnsembleMeanRMSE(ensemble_dim='member')),
      ('SSR', 'plain', lambda: prob.UnbiasedSpreadSkillRatio()),
      ('SSR', 'skipna', lambda: prob.UnbiasedSpreadSkillRatio(skipna_ensemble=True)),
      ('EnsExc', '1', lambda: prob.EnsembleErrorExceedance([1.])),
      ('EnsExc', '2', lambda: prob.EnsembleErrorExceedance([2.])),
      ('EnsExc', 'member', lambda: prob.EnsembleErrorExceedance([1.], ensemble_dim='member')),
      ('Exc', '1', lambda: det.ErrorExceedance([1.])),
      ('RankHist', 'number', lambda: prob.RankHistogram()),
      ('RankHist', 'member', lambda: prob.RankHistogram(ensemble_dim='member')),
      ('EachMSE', 'plain', lambda: prob.EnsembleAveragedMetric(det.MSE())),
      ('EachMSE', 'skipna', lambda: prob.EnsembleAveragedMetric(det.MSE(), skipna_ensemble=True)),
      ('EachMSE', 'member', lambda: prob.EnsembleAveragedMetric(det.MSE(), ensemble_dim='member')),
      ('MeanMSE', 'plain', W(det.MSE, wr.EnsembleMean('predictions'))),
      ('MeanMSE', 'skipna', W(det.MSE, wr.EnsembleMean('predictions', skipna=True))),
      ('MeanMSE', 'member', W(det.MSE, wr.EnsembleMean('predictions', ensemble_dim='member'))),
      ('MSE', '', det.MSE),
      ('Weibull', 'number', W(det.MSE, B('both', 0, 'thr'), wr.WeibullEnsembleToProbabilistic('predictions'))),
      ('Weibull', 'member', W(det.MSE, B('both', 0, 'thr'), wr.WeibullEnsembleToProbabilistic('predictions', ensemble_dim='member'))),
      ('Weibull', 'skipna', W(det.MSE, B('both', 0, 'thr'), wr.WeibullEnsembleToProbabilistic('predictions', skipna=True))),
      ('EnsRPS', 'fair', lambda: rps(1)), ('EnsRPS', 'unfair', lambda: rps(1, fair=False)),
      ('EnsRPS', 'skipna', lambda: rps(1, skipna_ensemble=True)),
      ('EnsRPS', 'left', lambda: rps(1, right_inclusive=False)),
      ('EnsRPS', 'member', lambda: rps(1, ensemble_dim='member')),
      ('EnsRPS', 'other-thr', lambda: rps(2)),
      ('EnsRPS', 'unfair-left', lambda: rps(1, fair=False, right_inclusive=False)),
      ('Confident', 'base', lambda: cat.Confident('number', q(1))),
      ('Confident', 'thr', lambda: cat.Confident('number', q(1), confidence_threshold=0.3)),
      ('Confident', 'quant', lambda: cat.Confident('number', q(1), spread_quantile_boundaries=(0.25, 0.75))),
      ('Confident', 'member', lambda: cat.Confident('member', q(1))),
      ('Confident', 'clim', lambda: cat.Confident('number', q(2))),
      ('Covered', 'base', lambda: cat.Covered('number')),
      ('Covered', 'quant', lambda: cat.Covered('number', (0.25, 0.75))),
      ('Covered', 'member', lambda: cat.Covered('member')),
      ('Jaccard', 'base', lambda: cat.JaccardDistant('number', q(1))),
      ('Jaccard', 'thr', lambda: cat.JaccardDistant('number', q(1), threshold=0.25)),
      ('Jaccard', 'quant', lambda: cat.JaccardDistant('number', q(1), interval_quantile_boundaries=(0.25, 0.75))),
      ('Jaccard', 'member', lambda: cat.JaccardDistant('member', q(1))),
      ('Jaccard', 'clim', lambda: cat.JaccardDistant('number', q(2))),
      ('Opportunism', 'c', lambda: cat.Opportunism('number', q(1), True)),
      ('Opportunism', 'nc', lambda: cat.Opportunism('number', q(1), False, True)),
      ('Opportunism', 'ncj', lambda: cat.Opportunism('number', q(1), False, False, True)),
      ('Opportunism', 'quant', lambda: cat.Opportunism('number', q(1), True, True, coverage_quantile_boundaries=(0.25, 0.75))),
      ('Brier', 'plain', W(det.MSE, B('both', 0, 'thr'), wr.EnsembleMean('predictions'))),
      ('Brier', 'late', W(det.MSE, wr.EnsembleMean('predictions'), B('both', 0, 'thr'))),
  ]
  F['enst'] = [
      ('CRPSDist', 'fair', lambda: prob.CRPSEnsembleDistance()),
      ('CRPSDist', 'unfair', lambda: prob.CRPSEnsembleDistance(fair=False)),
      ('CRPSDist', 'sort', lambda: prob.CRPSEnsembleDistance(use_sort=True)),
      ('CRPSDist', 'member', lambda: prob.CRPSEnsembleDistance(ensemble_dim='member')),
      ('Wasserstein', 'number', lambda: prob.WassersteinDistance()),
      ('Wasserstein', 'member', lambda: prob.WassersteinDistance(ensemble_dim='member')),
      ('CRPSSpread', 'p', lambda: prob.CRPSSpread()),
      ('CRPSSpread', 't', lambda: prob.CRPSSpread(which='targets')),
      ('CRPSSpread', 'unfair', lambda: prob.CRPSSpread(fair=False)),
      ('CRPSSpread', 'skipna', lambda: prob.CRPSSpread(skipna_ensemble=True)),
      ('CRPSSpread', 'tskipna', lambda: prob.CRPSSpread(which='targets', skipna_ensemble=True)),
      ('CRPSSkill', 'plain', lambda: prob.CRPSSkill()),
      ('CRPSSkill', 'skipna', lambda: prob.CRPSSkill(skipna_ensemble=True)),
      ('UnbRMSE', 'plain', lambda: prob.UnbiasedEnsembleMeanRMSE()),
      ('UnbRMSE', 'skipna', lambda: prob.UnbiasedEnsembleMeanRMSE(skipna_ensemble=True)),
      ('MeanMSE', 'both', W(det.MSE, wr.EnsembleMean('both'))),
      ('MeanMSE', 'p', W(det.MSE, wr.EnsembleMean('predictions'))),
      ('MeanMSE', 't', W(det.MSE, wr.EnsembleMean('targets'))),
  ]
  F['bin'] = [(k, '', getattr(cat, k)) for k in ('CSI', 'Accuracy', 'Recall', 'FalseAlarmRate', 'Precision', 'F1Score',
                                                  'FrequencyBias', 'HSS', 'ETS', 'SEDI')]
  F['bin'] += [
      ('FSS', '1', lambda: spatial.FSS(1)), ('FSS', '3', lambda: spatial.FSS(3)), ('FSS', '[3]', lambda: spatial.FSS([3])),
      ('FSS', '13', lambda: spatial.FSS([1, 3])), ('FSS', '3w', lambda: spatial.FSS(3, wrap_longitude=True)),
      ('FSS', '13w', lambda: spatial.FSS([1, 3], wrap_longitude=True)),
      ('MSE', '', det.MSE),
  ]
  R = np.array([0.25, 0.5, 0.75])
  F['prob'] = [
      ('REV', 'n4', lambda: prob.RelativeEconomicValue(ensemble_size=4, cost_loss_ratios=R)),
      ('REV', 'n8', lambda: prob.RelativeEconomicValue(ensemble_size=8, cost_loss_ratios=R)),
      ('REV', 'pt', lambda: prob.RelativeEconomicValue(probability_thresholds=np.array([0.3, 0.7]), cost_loss_ratios=R, statistic_suffix='s1')),
      ('REV', 'pt2', lambda: prob.RelativeEconomicValue(probability_thresholds=np.array([0.2, 0.7]), cost_loss_ratios=R, statistic_suffix='s2')),
      ('REV', 'clr', lambda: prob.RelativeEconomicValue(ensemble_size=4, cost_loss_ratios=np.array([0.125, 0.375]))),
      ('Reliability', '10', lambda: cat.Reliability()),
      ('Reliability', '3', lambda: cat.Reliability(bin_values=(-np.inf, 0.4, 0.7, 1.))),
      ('Reliability', 'dim', lambda: cat.Reliability(bin_values=(-np.inf, 0.4, 0.7, 1.), bin_dim='rb')),
      ('Brier', '', det.MSE),
  ]
  F['cdf'] = [
      ('RPS', 'bins', lambda: cat.RankedProbabilityScore('bins')),
      ('RPS', 'bins2', lambda: cat.RankedProbabilityScore('bins2')),
      ('MSE', '', det.MSE),
  ]
  # variants whose parameters are close to each other, on data that tells them apart
  N, M = 101325.0625, 101325.125
  F['near'] = [
      ('CSI', 'a', W(cat.CSI, B('both', N, 'thr'))), ('CSI', 'b', W(cat.CSI, B('both', M, 'thr'))),
      ('CSI', 'list', W(cat.CSI, B('both', [N, M], 'thr'))), ('CSI', 'list2', W(cat.CSI, B('both', [N, 101325.25], 'thr'))),
      ('CSI', 'f32', W(cat.CSI, B('both', np.array([M, 101325.25], np.float32), 'thr'))),
      ('wMSE', 'cdf-a', W(det.MSE, wr.ContinuousToCDF('both', [N, 101326.], 'k'))),
      ('wMSE', 'cdf-b', W(det.MSE, wr.ContinuousToCDF('both', [M, 101326.], 'k'))),
      ('wMSE', 'bins-a', W(det.MSE, wr.ContinuousToBins('both', [101324., N, 101326.], 'b'))),
      ('wMSE', 'bins-b', W(det.MSE, wr.ContinuousToBins('both', [101324., M, 101326.], 'b'))),
      ('wMSE', 'bins-c', W(det.MSE, wr.ContinuousToBins('both', [101324., N, N + 2**-9, 101326.], 'b'))),
      ('wMSE', 'bins-d', W(det.MSE, wr.ContinuousToBins('both', [101324., N + 2**-10, N + 2**-9, 101326.], 'b'))),
      ('wMSE', 'sel-a', W(det.MSE, wr.Select('both', sel={'longitude': [90.]}))),
      ('wMSE', 'sel-b', W(det.MSE, wr.Select('both', sel={'longitude': [90.0000001]}))),
      ('ErrorExceedance', 'a', lambda: det.ErrorExceedance([.0625])), ('ErrorExceedance', 'b', lambda: det.ErrorExceedance([.0625 - 2**-30])),
      ('ErrorExceedance', 'c', lambda: det.ErrorExceedance([.0625 + 2**-20])), ('ErrorExceedance', 'd', lambda: det.ErrorExceedance(xr.DataArray([.0625], dims='error_exceedance_thresholds', coords={'error_exceedance_thresholds': [.0625 + 2**-30]}))),
      ('SEEPS', 'a', lambda: cat.SEEPS(['u'], seeps_clim(1, V, lat, lon) * 1e5, dry_threshold_mm=N * 1000)),
      ('SEEPS', 'b', lambda: cat.SEEPS(['u'], seeps_clim(1, V, lat, lon) * 1e5, dry_threshold_mm=M * 1000)),
      ('Stack', 'll', W(det.MSE, wr.StackToNewDimension('predictions', ['latitude', 'longitude'], 'x'), wr.StackToNewDimension('targets', ['latitude', 'longitude'], 'x'))),
      ('Stack', 'lol', W(det.MSE, wr.StackToNewDimension('predictions', ['latitude', 'longitude'], 'x'), wr.StackToNewDimension('targets', ['longitude', 'latitude'], 'x'))),
      ('Sub', 'u', lambda: wr.SubselectVariables(det.RMSE(), ['u'])), ('Sub', 'vu', lambda: wr.SubselectVariables(det.RMSE(), ['v', 'u'])),
      ('Sub', 'wrapped', W(det.RMSE, B('both', N, 'thr'))),
  ]
  # variables whose names can be put together in more than one way
  NV = VARS['names']
  WV = lambda *a: (lambda: det.WindVectorRMSE(*a))
  SE = lambda *v, **k: (lambda: cat.SEEPS(list(v), seeps_clim(1, NV, lat, lon), **k))
  F['names'] = [
      ('SEEPS', '1', SE('a', 'b_c')), ('SEEPS', '2', SE('a_b', 'c')), ('SEEPS', '3', SE('a_b_c')), ('SEEPS', '4', SE('a', 'b', 'c')),
      ('SEEPS', '5', SE('c', 'a_b')), ('SEEPS', 'dry', SE('a', 'b_c', dry_threshold_mm=[2., 1.])), ('SEEPS', 'dry2', SE('a', 'b_c', dry_threshold_mm=[1., 2.])),
      ('Sub', '1', lambda: wr.SubselectVariables(det.MSE(), ['a', 'b_c'])), ('Sub', '2', lambda: wr.SubselectVariables(det.MSE(), ['a_b', 'c'])),
      ('Sub', '3', lambda: wr.SubselectVariables(det.MSE(), ['a_b_c'])), ('Sub', '4', lambda: wr.SubselectVariables(det.MSE(), ['a', 'b', 'c'])),
      ('Wind', '1', WV(['a', 'b'], ['b_c', 'c'], ['w', 'x'])), ('Wind', '2', WV(['a', 'b'], ['b_c', 'c'], ['x', 'w'])), ('Wind', '3', WV(['a_b', 'b'], ['c', 'c'], ['w', 'x'])),
      ('Wind', '4', WV('a', 'b', 'c')), ('Wind', '5', WV('b', 'c', 'a')),
  ]
  return F


VARS = {'names': ['a', 'b', 'c', 'a_b', 'b_c', 'a_b_c']}


def rps(k, **kw):
  thr = {1: [-2., 0., 2.], 2: [-3., -1., 3.]}[k]
  return prob.EnsembleRankedProbabilityScore(thr, thr, 'k', f'thr{k}', **kw)


def data(family, rng, nan=0.15, mask=False):
  """Random inputs for a family: two variables u, v as dicts."""
  times = np.array(rng.sample([f'2020-{d}T{h:02d}' for d in ('02-28', '02-29', '12-31') for h in (0, 6, 12, 18)], 2), dtype='datetime64[ns]')
  leads = np.array([0, 18], dtype='timedelta64[h]').astype('timedelta64[ns]')
  co = {'init_time': times, 'lead_time': leads, 'latitude': [-10., 0., 10.], 'longitude': [0., 90., 180., 270.]}
  base = ['init_time', 'lead_time', 'latitude', 'longitude']
  pd, td = list(base), list(base)
  if family in ('ens', 'enst'):
    co.update(number=[0, 1, 2], member=[0, 1])
    pd = ['number', 'member'] + pd
    if family == 'enst':
      td = ['number', 'member'] + td
  if family == 'cdf':
    co.update(bins=[0, 1, 2], bins2=[0, 1])
    pd = pd + ['bins', 'bins2']
    td = pd
  if family == 'bin':
    co.update(latitude=[-20., -10., 0., 10., 20.], longitude=np.arange(6) * 60.)
  def arr(dims, kind):
    sh = [len(co[d]) for d in dims]
    n = int(np.prod(sh))
    if kind == 'near':
      a = [101325 + rng.randint(-5, 5) / 16 for _ in range(n)]
    elif kind == 'bin':
      a = [float(rng.randint(0, 1)) for _ in range(n)]
    elif kind == 'prob':
      a = [rng.randint(0, 8) / 8 for _ in range(n)]
    elif kind == 'cdf':
      a = [rng.randint(0, 4) / 4 for _ in range(n)]
    else:
      a = [float(rng.randint(-5, 5)) for _ in range(n)]
    a = [np.nan if rng.random() < nan else x for x in a]
    return xr.DataArray(np.array(a).reshape(sh), dims=dims, coords={d: co[d] for d in dims})
  P, T = {}, {}
  pk, tk = {'cont': ('c', 'c'), 'ens': ('c', 'c'), 'enst': ('c', 'c'), 'bin': ('bin', 'bin'), 'prob': ('prob', 'bin'), 'cdf': ('cdf', 'cdf'), 'near': ('near', 'near'), 'names': ('c', 'c')}[family]
  for v in VARS.get(family, ('u', 'v')):
    P[v], T[v] = arr(pd, pk), arr(td, tk)
    P[v].name = T[v].name = v
  if mask:
    for v in T:
      T[v].coords['mask'] = ~T[v].isnull()
  return P, T
