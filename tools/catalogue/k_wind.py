P("C40", "Wind components, mean direction, gust and updraught follow their definitions",
  """Components along the grid are the speed times the sine and cosine of the direction relative to grid north, pointing where the wind blows to; the mean direction
  is the circular mean of the members, replaced by the chosen backup where the members cancel; the gust is the larger of the two chosen percentiles; the
  updraught adds the CAPE and precipitation terms above their minima. Masks, orders, units and inputs are kept, and mismatched times, grids, percentiles and models are refused.""",
  "directions at north, opposed members, single percentiles, dimension of one time, masks over hidden values, the plugin used twice",
  "Tests use one small field each.",
  """improver/wind_calculations/wind_components.py improver/wind_calculations/wind_direction.py
  improver/wind_calculations/wind_gust_diagnostic.py improver/wind_calculations/vertical_updraught.py""",
  [("components", "improver/wind_calculations/wind_components.py:ResolveWindComponents"),
   ("direction", "improver/wind_calculations/wind_direction.py:WindDirection"),
   ("gust", "improver/wind_calculations/wind_gust_diagnostic.py:WindGustDiagnostic"),
   ("updraught", "improver/wind_calculations/vertical_updraught.py:VerticalUpdraught")],
  ["ResolveWindComponents", "WindDirection", "WindGustDiagnostic", "VerticalUpdraught"],
  """Every value is recomputed in float64 from arrays recorded before the call. The angle of grid north is replaced by a random field (it needs cartopy).""", "wind")
P("C41", "Wind downscaling applies the roughness and height corrections of each column",
  """Below the reference height of a land column the wind is the logarithmic profile through the wind at that height and the roughness length; everywhere on land the
  height correction exp(-kz) k u(1/k) times the orography difference is added; sea points are unchanged and winds are never negative. Times and columns are independent,
  orders of dimensions and inputs are kept, and ancillaries on another grid or with other units, invalid winds and other orders are refused.""",
  "several times or a dimension of one, heights in one or three dimensions, missing orography and roughness, the plugin used twice",
  "Tests use single columns and one time.",
  "improver/wind_calculations/wind_downscaling.py",
  [("columns", "improver/wind_calculations/wind_downscaling.py:RoughnessCorrectionUtilities"),
   ("plugin", "improver/wind_calculations/wind_downscaling.py:RoughnessCorrection")],
  ["RoughnessCorrection", "RoughnessCorrectionUtilities", "FrictionVelocity"],
  """Each column is corrected on its own in float64; columns with a level at the reference height are not judged.""", "wind")
