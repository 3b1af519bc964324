P("C44", "Sun position, day-night mask, solar time and clear-sky radiation are as defined",
  """Elevation, hour angle, solar time and terminator follow the stated formulae everywhere on Earth and at every minute, and are never NaN; a point is day exactly where the sun
  is above the horizon at its time, or at the middle of its period. Local solar time lies within a day and clear-sky radiation is the Ineichen irradiance summed over the period,
  with default altitude and turbidity where none is given. Inputs and grids are kept, and days, hours, latitudes, spacings and grids out of range are refused.""",
  "leap days, midnight rounding, the sun overhead, several bounded times, sites and grids with one plugin, float32 coordinates",
  "Tests use a few hours and longitudes.",
  "improver/utilities/solar.py improver/generate_ancillaries/generate_derived_solar_fields.py",
  [("sun", "improver/utilities/solar.py:calc_solar_elevation"), ("mask", "improver/utilities/solar.py:DayNightMask"),
   ("solar time", "improver/generate_ancillaries/generate_derived_solar_fields.py:GenerateSolarTime"),
   ("radiation", "improver/generate_ancillaries/generate_derived_solar_fields.py:GenerateClearskySolarRadiation")],
  ["DayNightMask", "calc_solar_elevation", "GenerateSolarTime", "GenerateClearskySolarRadiation"],
  """Everything is recomputed in float64; points within 0.03 degrees of the horizon are not judged day or night.""", "solar")
P("C45", "Small helpers pick, round, truncate and profile exactly as stated",
  """choose takes each value from the level its index names; round_close returns the nearest whole numbers and refuses what is not whole; the truncated normal agrees with its
  definition on both sides of zero. A profiled command returns its own result or error, and the profile is written and its thread ended however the command ends.""",
  "one-dimensional and single-level arrays, values in either tail, infinite bounds, commands that fail or end at once",
  "Tests use one array each, and profiling has none.",
  """improver/utilities/indexing_operations.py improver/utilities/round.py improver/ensemble_copula_coupling/_scipy_continuous_distns.py improver/memprofile.py improver/profile.py
  improver/spotdata/utilities.py improver/synthetic_data/utilities.py""",
  [("choose", "improver/utilities/indexing_operations.py:choose"), ("round", "improver/utilities/round.py:round_close"),
   ("truncnorm", "improver/ensemble_copula_coupling/_scipy_continuous_distns.py:truncnorm_gen"),
   ("memory profile", "improver/memprofile.py:memory_profile_decorator")],
  ["choose", "round_close", "truncnorm", "memory_profile_decorator", "profile_hook_enable"],
  """The truncated normal is recomputed with the complementary error function, to 3 standard deviations of truncation above the mean; tracemalloc, absent here, is replaced by a recorder.""", "helpers")
P("C46", "Lead times, cycles and periods stay consistent with the times they describe",
  """Lead times are time minus reference time, bounds included, for every time of a cube; unifying cycles sets one scalar reference time, drops its bounds, recalculates lead
  times and keeps the rest; time-lagged ensembles hold every member once under unique numbers. Conversions between cycles, datetimes and coordinates are
  inverse to each other, extraction returns the time asked for or refuses, and integrating a rate multiplies each time by its own period, inputs unchanged.""",
  "several times with their own cycles, periods of different lengths, dimension orders, existing wrong lead times, masks",
  "Tests use a single time and cycle.",
  "improver/metadata/forecast_times.py improver/utilities/temporal.py improver/utilities/time_lagging.py",
  [("lead time", "improver/metadata/forecast_times.py:forecast_period_coord"), ("cycle", "improver/metadata/forecast_times.py:unify_cycletime"),
   ("extraction", "improver/utilities/temporal.py:extract_nearest_time_point"), ("integration", "improver/utilities/temporal.py:integrate_time"),
   ("lagging", "improver/utilities/time_lagging.py:GenerateTimeLaggedEnsemble")],
  ["forecast_period_coord", "unify_cycletime", "rebadge_forecasts_as_latest_cycle", "integrate_time", "GenerateTimeLaggedEnsemble"],
  """All expected times are whole seconds worked out with datetime alone.""", "timemeta")
P("C47", "Metadata helpers build, classify and amend metadata as stated",
  """A new diagnostic has the name, units, type, coordinates of its template and mandatory and optional attributes, and no argument changes; attributes are amended field by field
  and histories appended. Probability names convert to diagnostics, thresholds and comparisons and back; cubes of forbidden types or units are recognised and named.
  Coordinate checks order dimensions as the reference does, exceptions where they were, and refuse what does not match.""",
  "several fields in one attribute, missing attributes, vicinity names, aliases of comparisons, exceptions in any order, second use of the same dictionaries",
  "Tests use one attribute and one cube.",
  """improver/metadata/utilities.py improver/metadata/amend.py improver/metadata/check_datatypes.py improver/metadata/probabilistic.py
  improver/utilities/cube_checker.py""",
  [("new cube", "improver/metadata/utilities.py:create_new_diagnostic_cube"), ("amend", "improver/metadata/amend.py:amend_attributes"),
   ("names", "improver/metadata/probabilistic.py:get_threshold_coord_name_from_probability_name"),
   ("types", "improver/metadata/check_datatypes.py:check_mandatory_standards"),
   ("coordinates", "improver/utilities/cube_checker.py:check_cube_coordinates")],
  ["create_new_diagnostic_cube", "amend_attributes", "check_cube_coordinates", "check_mandatory_standards", "find_threshold_coordinate"],
  """Each expected attribute, name and order is worked out with plain dictionaries, strings and lists.""", "metadata")
P("C48", "Cubes are merged, collapsed, ordered and extracted without changing a value",
  """Merging, collapsing, sorting, clipping, reordering and adding dimensions keep each value, mask, bound and coordinate with its point, whatever the dimension order, and keep what cubes
  share. Constraints extract exactly the points whose values, ranges, steps, units or longitudes match, and nothing matching is refused or ignored as asked. Maxima in height, their levels and
  the level of a value are those of each column, and inputs stay unchanged.""",
  "dimension orders, masks, single points, negative ranges, nothing matching, steps, ties, missing levels, members absent at some times",
  "Tests use one cube each.",
  """improver/utilities/cube_manipulation.py improver/utilities/cube_extraction.py improver/utilities/cube_constraints.py""",
  [("merge", "improver/utilities/cube_manipulation.py:MergeCubes"), ("collapse", "improver/utilities/cube_manipulation.py:collapse_realizations"),
   ("heights", "improver/utilities/cube_manipulation.py:height_of_maximum"), ("extract", "improver/utilities/cube_extraction.py:ExtractSubCube"),
   ("ranges", "improver/utilities/cube_constraints.py:create_sorted_lambda_constraint"), ("levels", "improver/utilities/cube_extraction.py:ExtractLevel")],
  ["MergeCubes", "collapse_realizations", "enforce_coordinate_ordering", "extract_subcube", "ExtractLevel", "height_of_maximum", "filter_realizations"],
  """Values within rounding of a range end in converted units are not judged; every other point is selected in plain Python from the list of values.""", "manipulation")
