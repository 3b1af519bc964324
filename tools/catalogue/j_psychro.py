P("C37", "Moist air diagnostics satisfy their defining equations",
  """Saturation vapour pressures follow Goff-Gratch with the pressure correction; wet bulb temperatures conserve enthalpy at saturation and are
  never above the air temperature; condensation conserves water and heat and leaves unsaturated parcels alone; the condensation level lies on
  the dry adiabat at saturation. Vertical integrals add the positive values between the levels within the limits, from the chosen end, on any order of levels and units.""",
  "temperatures beyond the table, saturated air, units, levels and members in any order, limits at zero, the plugin used twice",
  "Tests use a handful of points.",
  """improver/psychrometric_calculations/psychrometric_calculations.py improver/psychrometric_calculations/wet_bulb_temperature.py
  improver/psychrometric_calculations/cloud_condensation_level.py improver/generate_ancillaries/generate_svp_table.py improver/utilities/mathematical_operations.py""",
  [("wet bulb", "improver/psychrometric_calculations/wet_bulb_temperature.py:WetBulbTemperature"),
   ("table", "improver/generate_ancillaries/generate_svp_table.py:SaturatedVapourPressureTable"),
   ("integral", "improver/utilities/mathematical_operations.py:Integration"),
   ("condensation", "improver/psychrometric_calculations/cloud_condensation_level.py:CloudCondensationLevel")],
  ["WetBulbTemperature", "WetBulbTemperatureIntegral", "Integration", "CloudCondensationLevel", "HumidityMixingRatio"],
  """Each equation is solved by bisection in float64 at every point; integrals are summed level by level.""", "psychro")
P("C38", "Precipitation changes phase at the level where the melting integral says",
  """The phase change level is where the wet bulb integral, from the top down, reaches the threshold of the phase, above the orography; the top of the
  profile if it is beyond, below the sea from a linear fit at sea points, and otherwise masked, or filled with levels within the ground. The phase at
  the surface compares the 80th (snow) or 20th (rain) percentile level with the altitude, and phase masks partition the points. Missing percentiles,
  differing models or grids and negative sleet are refused.""",
  "warm and cold profiles, one or more members, orders and units, levels equal to the altitude, sites and grids",
  "Tests use small uniform fields.",
  """improver/psychrometric_calculations/psychrometric_calculations.py improver/psychrometric_calculations/precip_phase_probability.py
  improver/psychrometric_calculations/significant_phase_mask.py improver/precipitation_type/calculate_sleet_prob.py""",
  [("level", "improver/psychrometric_calculations/psychrometric_calculations.py:PhaseChangeLevel"),
   ("probability", "improver/psychrometric_calculations/precip_phase_probability.py:PrecipPhaseProbability"),
   ("masks", "improver/psychrometric_calculations/significant_phase_mask.py:SignificantPhaseMask")],
  ["PhaseChangeLevel", "PrecipPhaseProbability", "SignificantPhaseMask", "calculate_sleet_probability"],
  """Columns are integrated and searched one by one in float64; filled points are only bounded. stratify is replaced by a linear stand-in.""", "psychro")
P("C39", "Hail size and cloud top follow the ascent of the parcel",
  """Hail size is read from the nomogram with the saturated ascent to -5C and the dry descent from there, is zero where the cloud base is colder or an
  index is negative, kept below a freezing level of 3350 m, reduced by the second table from there and zero from 4400 m above the ground. The convective
  cloud top is the parcel's temperature at the last level where it is not colder than its surroundings, masked if less than 4 K colder than the base.""",
  "freezing levels at the limits of the tables, shallow and deep clouds, members, orders, missing values",
  "Tests use uniform fields.",
  "improver/psychrometric_calculations/hail_size.py improver/psychrometric_calculations/cloud_top_temperature.py",
  [("hail", "improver/psychrometric_calculations/hail_size.py:HailSize"),
   ("cloud top", "improver/psychrometric_calculations/cloud_top_temperature.py:CloudTopTemperature")],
  ["HailSize", "CloudTopTemperature"],
  """Each column is ascended on its own in float64 with both tables copied from the paper; roundings that are close are not judged.""", "psychro")
