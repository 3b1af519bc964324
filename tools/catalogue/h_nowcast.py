P("C30", "Accumulations sum the rates of exactly their own period",
  """An accumulation is the trapezoidal sum of the rates over the requested period ending at each forecast period asked for, or by default over
  all rates, whatever the order and units of the rates, masked where any rate of the period is. Its time and forecast period end the
  period and their bounds span it; periods that are not complete are left out. Rates at uneven times, or periods that the steps do not divide, are refused.""",
  "two to nine rates in any order, any period, units and masks, the plugin used again on another run",
  "Tests use one set of minute rates.",
  "improver/nowcasting/accumulation.py improver/utilities/cube_manipulation.py",
  [("accumulation", "improver/nowcasting/accumulation.py:Accumulation"),
   ("bounds", "improver/utilities/cube_manipulation.py:expand_bounds")],
  ["Accumulation"],
  """Sums, masks, bounds and times are computed from the rates in float64; inputs and a second use are monitored.""", "nowcast")
P("C31", "Nowcasts move the analysis with the wind",
  """An advected field holds, at each point, the bilinear value of the analysis where the velocity came from, masked where that lies outside the
  domain or on missing data, at any lead time. The nowcast of precipitation subtracts the orographic enhancement before and adds that nearest in time after.
  Times, reference time, forecast period, units and attributes describe each forecast, and inputs stay as they were.""",
  "whole, fractional and varying displacements, masks, descending axes, lead times from zero, pysteps displacements",
  "Tests use 4x3 grids with one displacement.",
  "improver/nowcasting/forecasting.py improver/nowcasting/pysteps_advection.py improver/nowcasting/utilities.py",
  [("advection", "improver/nowcasting/forecasting.py:AdvectField"),
   ("forecast", "improver/nowcasting/forecasting.py:CreateExtrapolationForecast"),
   ("pysteps", "improver/nowcasting/pysteps_advection.py:PystepsExtrapolate")],
  ["AdvectField", "CreateExtrapolationForecast", "PystepsExtrapolate"],
  """Every point is traced back and interpolated in float64; sources between the outermost points and the edge, and masked neighbours of no weight,
  are not judged. pysteps is replaced by a stand-in that records the displacements.""", "nowcast")
P("C32", "Radar rates are masked, filled and enhanced where they should be",
  """Radar rates are masked exactly where the coverage is not valid. A hole is filled, with the geometric mean of its surroundings or zero, only where less than
  30% of its 9x9 neighbourhood is missing. Orographic enhancement nearest in time is added or subtracted where it rains at least 1/32 mm/h,
  never below that rate; masked points stay masked and metadata, units and inputs stay as they were.""",
  "coverage and masks at random, hidden values, units, several times, rates around the limits",
  "Tests use a few fixed fields.",
  "improver/nowcasting/utilities.py",
  [("coverage", "improver/nowcasting/utilities.py:ExtendRadarMask"), ("holes", "improver/nowcasting/utilities.py:FillRadarHoles"),
   ("enhancement", "improver/nowcasting/utilities.py:ApplyOrographicEnhancement")],
  ["ExtendRadarMask", "FillRadarHoles", "ApplyOrographicEnhancement"],
  """The three operations are computed point by point from their definitions; refusals for other grids, times and operations are monitored.""", "nowcast")
P("C33", "Optical flow finds the motion of the precipitation",
  """Fields that moved by a displacement give velocities close to it in m/s, whichever the time step. Exchanging the fields reverses
  the flow, mirroring the domain exchanges its components, and units, order of dimensions and values under masks do not matter. The mean flow of several
  fields is that of their pairs in order of time; dry fields give none, and fields of other grids, names or times are refused.""",
  "smooth rain fields moving by up to a third of the number of boxes, both smoothing methods, box sizes, time steps, orders",
  "Tests use fixed arrays of a few points.",
  "improver/nowcasting/optical_flow.py",
  [("flow", "improver/nowcasting/optical_flow.py:OpticalFlow"),
   ("mean", "improver/nowcasting/optical_flow.py:generate_optical_flow_components")],
  ["OpticalFlow", "generate_optical_flow_components"],
  """Known displacements bound the mean velocity of the interior; the symmetries are compared between runs, and single pairs give the mean of several fields.""", "nowcast")
P("C34", "Lightning follows from CAPE, precipitation and ice as documented",
  """Lightning is certain where both CAPE and precipitation exceed limits that vary linearly between 10 and 50 degrees of latitude, and the multivariate probability
  follows its regressions point by point, at most 0.95. The nowcast raises and limits the first guess
  by lightning rates, precipitation and ice at each lead time. Fields of other times, reference times, periods or grids are refused.""",
  "latitudes of both hemispheres, values at the limits, units, members, orders of input, lead times, ice",
  "Tests use uniform fields and a few values.",
  "improver/lightning.py improver/nowcasting/lightning.py improver/utilities/rescale.py",
  [("thresholds", "improver/lightning.py:LightningFromCapePrecip"),
   ("regression", "improver/lightning.py:LightningMultivariateProbability_USAF2024"),
   ("nowcast", "improver/nowcasting/lightning.py:NowcastLightning"), ("scaling", "improver/utilities/rescale.py:apply_double_scaling")],
  ["LightningFromCapePrecip", "LightningMultivariateProbability_USAF2024", "NowcastLightning"],
  """Limits, regressions and scalings are computed point by point in float64; the nowcast is decided on uniform fields.""", "nowcast")
