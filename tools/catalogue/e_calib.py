P("C20", "Reliability tables count every matched forecast and truth exactly once",
  """A reliability table holds, per threshold, probability bin and point, the number of forecasts, the sum of their probabilities and
  the number of observed events over the times common to forecasts and truths, leaving out only masked truths.  Tables over
  separate periods add up in any order, sums over space or periods lose nothing, and overlapping periods, other thresholds
  or mixed forecast periods are refused.""",
  "bins with and without single-valued ends, thresholds, times missing on either side, masks varying with time, spot and gridded data",
  "Tests use one small table of fixed probabilities.",
  "improver/calibration/reliability_calibration.py improver/calibration/utilities.py",
  [("construction", "improver/calibration/reliability_calibration.py:ConstructReliabilityCalibrationTables"),
   ("aggregation", "improver/calibration/reliability_calibration.py:AggregateReliabilityCalibrationTables")],
  ["ConstructReliabilityCalibrationTables", "AggregateReliabilityCalibrationTables"],
  """Each forecast is assigned to its bin and counted one by one; reference times, masks, inputs and second use are monitored.""", "calib")
P("C21", "Reliability calibration yields observed frequencies, monotone over thresholds",
  """Manipulated tables keep every forecast, contain no bin below the minimum count unless it is the only one, and never let the event frequency
  decrease with the probability.  Calibrated probabilities follow the observed frequencies linearly between bins, lie between
  0 and 1, stay in order over thresholds and keep masks and metadata; a threshold whose table has one bin is left
  alone with a warning, and a threshold without a table is refused.""",
  "sparse, empty and unbalanced bins, one to four thresholds, above and below, point by point, masks, dimension orders, tables in any order",
  "Tests cover a few hand-made tables.",
  "improver/calibration/reliability_calibration.py",
  [("bins", "improver/calibration/reliability_calibration.py:ManipulateReliabilityTable"),
   ("application", "improver/calibration/reliability_calibration.py:ApplyReliabilityCalibration")],
  ["ManipulateReliabilityTable", "ApplyReliabilityCalibration"],
  """Conservation and monotonicity are asserted on every table; calibrated values are interpolated independently per value.""", "calib")
P("C22", "Bias correction subtracts the mean forecast error",
  """The bias is, per point, the mean of forecast minus truth over the times and points valid in both; applying it subtracts the mean of
  the given biases from every member and keeps the result within the stated bounds.  Masked biases mask the forecast, or are
  taken as zero where requested; without a bias the forecast is returned with a warning and a comment.  Inputs that do not
  match in period, hour or number are refused and none is changed.""".replace("  Inputs", "; inputs"),
  "times missing on either side, masks, members, numbers and order of bias cubes, bounds",
  "Tests use constant fields.",
  "improver/calibration/simple_bias_correction.py improver/calibration/utilities.py improver/calibration/__init__.py",
  [("bias", "improver/calibration/simple_bias_correction.py:CalculateForecastBias"),
   ("correction", "improver/calibration/simple_bias_correction.py:ApplyBiasCorrection")],
  ["CalculateForecastBias", "ApplyBiasCorrection"],
  """Masked means in float64 from the generated history; reference times, metadata, inputs and second use are monitored.""", "calib")
P("C23", "Altitude rescaling uses the fitted slope and the right factor",
  """The scaling factor of a site is exp(-s dz), s being the least-squares slope of ln(forecast/truth) against dz over the sites and times
  known to all inputs, matched by identifier, within the bounds.  A forecast is multiplied by the factor of the next configured
  forecast period, or the longest, and of the matching hour within the leniency; other sites or hours are refused.""",
  "sites stored in any order and partly missing, zero values, bounds, periods and hours around midnight, percentiles",
  "Tests use three sites in one order.",
  "improver/calibration/dz_rescaling.py",
  [("fit", "improver/calibration/dz_rescaling.py:EstimateDzRescaling"),
   ("application", "improver/calibration/dz_rescaling.py:ApplyDzRescaling")],
  ["EstimateDzRescaling", "ApplyDzRescaling"],
  """Slope and factors computed per site from the generated history; metadata, inputs and refusals are monitored.""", "calib")
