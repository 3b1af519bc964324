P("C49", "Combining cubes applies the operation point by point and describes the result",
  """Sums, differences, products, extremes and means equal the operation applied in the order given to every point, masked where any input is (or all, for masked sums), over single
  and several members, broadcast coordinates and members in common. Name, attributes and thresholds come from the first cube or as asked, differing scalar coordinates are
  widened to cover every input, and a window's maximum records its period; mismatched grids and periods are refused and inputs unchanged.""",
  "every operation, one member, dimension orders, unsorted times, periods off the hour, masks, probabilities, a plugin used twice",
  "Tests combine two or three constant cubes.",
  "improver/cube_combiner.py",
  [("combine", "improver/cube_combiner.py:Combine"), ("operators", "improver/cube_combiner.py:CubeCombiner"),
   ("masked sum", "improver/cube_combiner.py:masked_add"), ("window", "improver/cube_combiner.py:MaxInTimeWindow")],
  ["Combine", "CubeCombiner", "MaxInTimeWindow"],
  """Expected arrays are folded left to right in float64; expected bounds are the extremes over the inputs.""", "combine")
P("C50", "Probabilities are inverted, differenced, averaged and bounded consistently",
  """Inverting a probability gives its complement with the complementary comparison and name, twice gives the original. Probabilities between thresholds are differences of those at
  the ends, expected values integrate the distribution and lie within the thresholds, combined visibility never makes low visibility less likely, and enforced forecasts lie
  within their bounds, moving no consistent value. Shares add up to the reference; contradictions, absent thresholds and wrong inputs are refused.""",
  "all comparisons, units, tiny thresholds, single thresholds, dimension orders, masks, names containing above or below, dry points",
  "Tests use one distribution each.",
  """improver/utilities/probability_manipulation.py improver/between_thresholds.py improver/expected_value.py improver/visibility/visibility_combine_cloud_base.py
  improver/utilities/forecast_reference_enforcement.py""",
  [("inversion", "improver/utilities/probability_manipulation.py:invert_probabilities"), ("between", "improver/between_thresholds.py:OccurrenceBetweenThresholds"),
   ("expected value", "improver/expected_value.py:ExpectedValue"), ("visibility", "improver/visibility/visibility_combine_cloud_base.py:VisibilityCombineCloudBase"),
   ("enforcement", "improver/utilities/forecast_reference_enforcement.py:EnforceConsistentForecasts"),
   ("shares", "improver/utilities/forecast_reference_enforcement.py:normalise_to_reference")],
  ["OccurrenceBetweenThresholds", "ExpectedValue", "VisibilityCombineCloudBase", "EnforceConsistentForecasts", "normalise_to_reference"],
  """Every value is recomputed in float64 from the thresholds and probabilities; ranges nested in one another, which cannot form a dimension, are not generated.""", "probops")
P("C51", "Precipitation is divided into its types point by point",
  """Freezing rain is the mean over shared members of the probability of rain or sleet times that of freezing, matching members, times and thresholds however the inputs are ordered. Snow
  and rain fractions, contributions and the convective ratio equal the ratios of their parts, filled from the nearest wet point or masked where nothing falls, and hail and shower
  conditions apply their limits at every point. Dimensions, names and attributes follow the inputs, hidden values never appear, and unsuitable inputs are refused.""",
  "members shared in part, one member, dimension orders, masks, units, dry and wet fields, values at the limits",
  "Tests use constant fields of one shape.",
  """improver/precipitation_type/freezing_rain.py improver/precipitation_type/hail_fraction.py improver/precipitation_type/snow_fraction.py
  improver/precipitation_type/snow_splitter.py improver/precipitation_type/convection.py improver/precipitation_type/shower_condition_probability.py
  improver/precipitation_type/utilities.py improver/precipitation_type/calculate_sleet_prob.py""",
  [("freezing rain", "improver/precipitation_type/freezing_rain.py:FreezingRain"), ("hail", "improver/precipitation_type/hail_fraction.py:HailFraction"),
   ("snow fraction", "improver/precipitation_type/snow_fraction.py:SnowFraction"), ("showers", "improver/precipitation_type/shower_condition_probability.py:ShowerConditionProbability"),
   ("contributions", "improver/precipitation_type/snow_splitter.py:SnowSplitter"), ("convective ratio", "improver/precipitation_type/convection.py:ConvectionRatioFromComponents")],
  ["FreezingRain", "HailFraction", "SnowFraction", "SnowSplitter", "ConvectionRatioFromComponents", "ShowerConditionProbability", "calculate_sleet_probability"],
  """All fields are recomputed in float64; filled points must carry the value of one of the nearest wet points.""", "preciptype")
P("C52", "Interpolation in time keeps to its inputs, totals, limits and the sun",
  """Fields at the times asked for lie linearly between those given, directions the short way round, with time coordinates and periods that say so and the later field last. Accumulations
  divided into shorter periods keep their total at every point, including where nothing fell, maxima and minima never pass those of the whole period, and solar quantities
  are zero at night. Intervals that do not divide, times outside and unsuitable periods are refused; inputs are unchanged and a plugin used again gives the same.""",
  "gaps from an hour to two days, regular and irregular times, consecutive pairs sharing a cube, dry points, masks, one member, day and night",
  "Tests use two constant fields a few hours apart.",
  "improver/utilities/temporal_interpolation.py",
  [("interpolate", "improver/utilities/temporal_interpolation.py:TemporalInterpolation.process"),
   ("times", "improver/utilities/temporal_interpolation.py:TemporalInterpolation.construct_time_list"),
   ("accumulations", "improver/utilities/temporal_interpolation.py:TemporalInterpolation._calculate_accumulation"),
   ("sun", "improver/utilities/temporal_interpolation.py:TemporalInterpolation.solar_interpolate")],
  ["TemporalInterpolation"],
  """Values are recomputed in float64, the solar ones with an independent elevation formula; points within a small margin of the horizon are not judged.""", "tempinterp")
P("C53", "Gaps, masks, lookups and indices are filled and computed point by point",
  """Filled gaps lie within the values or differences around them and within the limits given, known values are untouched. Masks are added exactly where asked, table lookups give the value
  at the nearest labels not above the inputs, texture is the share of members whose ratio of edges passes the threshold, and feels-like temperature and the UV index
  follow their formulae in any units. Dimensions, masks and metadata are kept, inputs unchanged and unsuitable inputs refused.""",
  "holes of every shape, everything missing, values on labels and limits, table rows and columns in any order, one member, masks, units",
  "Tests use one small field each.",
  """improver/utilities/interpolation.py improver/utilities/mask.py improver/utilities/extract_from_table.py improver/utilities/textural.py
  improver/feels_like_temperature.py improver/uv_index.py""",
  [("gaps", "improver/utilities/interpolation.py:interpolate_missing_data, InterpolateUsingDifference"), ("masks", "improver/utilities/mask.py:apply_mask"),
   ("tables", "improver/utilities/extract_from_table.py:ExtractValueFromTable"), ("texture", "improver/utilities/textural.py:FieldTexture"),
   ("feels like", "improver/feels_like_temperature.py:calculate_feels_like_temperature"), ("uv", "improver/uv_index.py:calculate_uv_index")],
  ["interpolate_missing_data", "InterpolateUsingDifference", "apply_mask", "ExtractValueFromTable", "FieldTexture", "calculate_feels_like_temperature", "calculate_uv_index"],
  """Planar fields must be recovered by linear filling; texture is recounted cell by cell; vapour pressure comes from an independent transcription of the formula.""", "gaps")
