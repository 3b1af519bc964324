P("C12", "Percentiles of an ensemble are those of its members",
  """Each percentile is the linear interpolation between the ordered values collapsed at that point, valid values only, with the
  collapsed coordinates replaced by one percentile coordinate.  Rebadging members as percentiles sorts them at each point and
  names them by the stated law, and rebadging percentiles as members keeps the data, leaves its input alone and refuses unevenly
  spaced percentiles.""",
  "member counts, collapsed coordinates, masks, both methods, dimension orders, percentile lists",
  "Tests use one ensemble of constant steps.",
  "improver/percentile.py improver/ensemble_copula_coupling/ensemble_copula_coupling.py improver/cli/generate_percentiles.py",
  [("collapse", "improver/percentile.py:PercentileConverter"),
   ("rebadging", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:RebadgeRealizationsAsPercentiles")],
  ["PercentileConverter", "RebadgeRealizationsAsPercentiles", "RebadgePercentilesAsRealizations"],
  """Order statistics recomputed in float64 per point, inverse relation, input and second-use monitors.""", "ecc")
P("C13", "Percentiles drawn from a distribution are its inverse at the percentages named",
  """Percentiles computed from probabilities or from other percentiles are the values at which the piecewise linear distribution,
  ended by the diagnostic's stated range, reaches the requested percentage, each value standing beside its own percentage whatever
  the order of the request.  Masked points stay masked wherever the percentile or threshold dimension lies, inputs are unchanged,
  and values beyond the range are refused or widen it as asked.""",
  "thresholds, percentiles, plateaus in the distribution, relations, masks, dimension orders, single requests, range options",
  "Tests request ordered percentiles of unmasked cubes whose leading dimension is the threshold.",
  "improver/ensemble_copula_coupling/ensemble_copula_coupling.py improver/ensemble_copula_coupling/utilities.py improver/ensemble_copula_coupling/numba_utilities.py improver/ensemble_copula_coupling/constants.py",
  [("interpolation and range", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:ConvertProbabilitiesToPercentiles"),
   ("cube of percentiles", "improver/ensemble_copula_coupling/utilities.py:create_cube_with_percentiles")],
  ["ResamplePercentiles", "ConvertProbabilitiesToPercentiles"],
  """A generalised inverse per point gives the interval of acceptable values (plateaus allow more than one); labels, masks,
  metadata and second use are monitored; compiled and plain interpolation are compared.""", "ecc",
  over=("inputs", "configurations"))
P("C14", "Ensemble copula coupling permutes values into the raw ensemble's order",
  """After reordering, every point and time holds exactly the multiset of values it held before, ordered across members as the raw
  ensemble is (recycled or cut to the number needed), with ties broken arbitrarily and repeatably for a given seed.  Members are
  numbered as in the raw ensemble, masked points stay masked, and inputs whose masks disagree are refused.""",
  "member numbers on either side, ties, several times, masks, dimension orders, seeds, the command line route from probabilities",
  "Tests reorder one small array at one time with equal numbers of members.",
  "improver/ensemble_copula_coupling/ensemble_copula_coupling.py improver/utilities/indexing_operations.py improver/cli/generate_realizations.py",
  [("ranking", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:EnsembleReordering.rank_ecc"),
   ("recycling", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:EnsembleReordering._recycle_raw_ensemble_realizations")],
  ["EnsembleReordering", "improver generate-realizations"],
  """Conservation of values per point and pairwise order against the raw members.""", "ecc", over=("inputs", "configurations"))
P("C15", "Fitted distributions give their own percentiles and probabilities",
  """Percentiles and exceedance probabilities computed from location, scale and shape are those of the named distribution, in the
  units and on the side of the threshold that the template states, however often the plugin is used.  Masks of either parameter
  carry over, a zero scale gives the location, and the parameters passed in are unchanged.""",
  "distributions, parameters, units, relations, masks, repeated use, numbers and orders of percentiles",
  "Tests use one field of parameters and one use of the plugin, in one unit.",
  "improver/ensemble_copula_coupling/ensemble_copula_coupling.py improver/ensemble_copula_coupling/_scipy_continuous_distns.py",
  [("distributions and shape", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:ConvertLocationAndScaleParameters"),
   ("units", "improver/ensemble_copula_coupling/ensemble_copula_coupling.py:ConvertLocationAndScaleParametersToProbabilities")],
  ["ConvertLocationAndScaleParametersToPercentiles", "ConvertLocationAndScaleParametersToProbabilities"],
  """Closed forms (normal, truncated normal, logistic) in float64.""", "ecc", over=("inputs", "histories"))
