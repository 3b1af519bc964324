P("C24", "EMOS coefficients minimise the forecast score over the training data",
  """The score minimised is the mean CRPS of the chosen distribution, with location and spread built from the predictors as documented. The
  coefficients returned score no worse than the first guess, and about as well as an independent minimisation, over the days
  matching in forecasts and truths and the points inside the land-sea mask; a point without truths gets the first guess. The inputs are
  unchanged; mixed lead times, differing units and unmatched times are refused.""".replace("; a point", ", and a point"),
  "normal and truncated normal, mean or realizations, extra predictors, per point or together, masks, days missing and out of order",
  "Tests use one synthetic cube and stored coefficients.",
  "improver/calibration/ensemble_calibration.py improver/calibration/utilities.py",
  [("minimisation", "improver/calibration/ensemble_calibration.py:ContinuousRankedProbabilityScoreMinimisers"),
   ("estimation", "improver/calibration/ensemble_calibration.py:EstimateCoefficientsForEnsembleCalibration"),
   ("matching", "improver/calibration/utilities.py:filter_non_matching_cubes")],
  ["ContinuousRankedProbabilityScoreMinimisers", "EstimateCoefficientsForEnsembleCalibration"],
  """Closed-form CRPS (checked by quadrature) per point in float64 and a second minimisation; units, spatial extent, order, inputs and second
  use are monitored.""", "emos")
P("C25", "Calibrated forecasts follow the EMOS distribution and keep their form",
  """Location and spread follow the coefficients applied to the current predictors, per point where they were estimated so. The forecast comes
  back in the form it was given or asked for, each value drawn from the calibrated distribution, realizations in the order of
  the raw members, with the raw forecast where the land-sea mask is sea. Coefficients of another diagnostic, period,
  hour or domain, or without their extra predictors, are refused.""",
  "realizations, percentiles and probabilities in and out, both distributions, both predictors, masks, dimension orders",
  "Tests cover one input grid per form.",
  "improver/calibration/ensemble_calibration.py improver/ensemble_copula_coupling/ensemble_copula_coupling.py",
  [("parameters", "improver/calibration/ensemble_calibration.py:CalibratedForecastDistributionParameters"),
   ("application", "improver/calibration/ensemble_calibration.py:ApplyEMOS")],
  ["CalibratedForecastDistributionParameters", "ApplyEMOS"],
  """Parameters and quantiles computed point by point with scipy.stats; ranks of members, metadata, inputs and refusals are monitored.""", "emos")
