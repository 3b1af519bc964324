"""The CF standard names needed here, with canonical units (CF standard name table)."""

_TABLE = """
air_density kg m-3
air_potential_temperature K
air_pressure Pa
air_pressure_at_cloud_base Pa
air_pressure_at_cloud_top Pa
air_pressure_at_mean_sea_level Pa
air_pressure_at_sea_level Pa
air_temperature K
air_temperature_at_cloud_top K
air_temperature_lapse_rate K m-1
altitude m
area_type
atmosphere_convective_available_potential_energy J kg-1
atmosphere_convective_inhibition J kg-1
atmosphere_mass_content_of_water_vapor kg m-2
atmosphere_boundary_layer_thickness m
brightness_temperature K
cloud_area_fraction 1
cloud_area_fraction_in_atmosphere_layer 1
cloud_base_altitude m
cloud_top_altitude m
cloud_type
convective_cloud_area_fraction 1
convective_precipitation_amount kg m-2
convective_precipitation_flux kg m-2 s-1
convective_rainfall_amount kg m-2
convective_rainfall_flux kg m-2 s-1
convective_rainfall_rate m s-1
convective_snowfall_amount kg m-2
depth m
dew_point_depression K
dew_point_temperature K
eastward_wind m s-1
fog_area_fraction 1
forecast_period s
forecast_reference_time s
freezing_level_altitude m
geopotential m2 s-2
geopotential_height m
grid_latitude degrees
grid_longitude degrees
height m
high_type_cloud_area_fraction 1
humidity_mixing_ratio 1
institution
isccp_cloud_area_fraction 1
land_area_fraction 1
land_binary_mask 1
land_ice_area_fraction 1
large_scale_precipitation_amount kg m-2
large_scale_rainfall_amount kg m-2
large_scale_rainfall_rate m s-1
latitude degree_north
liquid_water_content_of_surface_snow kg m-2
longitude degree_east
low_type_cloud_area_fraction 1
lwe_convective_precipitation_rate m s-1
lwe_convective_snowfall_rate m s-1
lwe_large_scale_precipitation_rate m s-1
lwe_large_scale_snowfall_rate m s-1
lwe_precipitation_rate m s-1
lwe_snowfall_rate m s-1
lwe_stratiform_precipitation_rate m s-1
lwe_stratiform_snowfall_rate m s-1
lwe_thickness_of_atmosphere_mass_content_of_water_vapor m
lwe_thickness_of_convective_precipitation_amount m
lwe_thickness_of_convective_snowfall_amount m
lwe_thickness_of_large_scale_precipitation_amount m
lwe_thickness_of_precipitation_amount m
lwe_thickness_of_snowfall_amount m
lwe_thickness_of_stratiform_precipitation_amount m
lwe_thickness_of_surface_snow_amount m
magnitude_of_surface_downward_stress Pa
mass_fraction_of_cloud_ice_in_air 1
mass_fraction_of_cloud_liquid_water_in_air 1
medium_type_cloud_area_fraction 1
model_level_number 1
northward_wind m s-1
omega Pa s-1
platform_id
platform_name
precipitation_amount kg m-2
precipitation_flux kg m-2 s-1
probability_distribution_of_wind_from_direction_over_time 1
probability_distribution_of_wind_speed_over_time 1
projection_x_angular_coordinate radian
projection_x_coordinate m
projection_y_angular_coordinate radian
projection_y_coordinate m
rainfall_amount kg m-2
rainfall_flux kg m-2 s-1
rainfall_rate m s-1
realization 1
region
relative_humidity 1
sea_area_fraction 1
sea_binary_mask 1
sea_ice_area_fraction 1
sea_surface_height_above_sea_level m
sea_surface_temperature K
sea_surface_wave_significant_height m
snowfall_amount kg m-2
snowfall_flux kg m-2 s-1
soil_temperature K
solar_azimuth_angle degree
solar_elevation_angle degree
solar_zenith_angle degree
grid_eastward_wind m s-1
grid_northward_wind m s-1
source
specific_humidity 1
speed_of_sound_in_air m s-1
stratiform_precipitation_amount kg m-2
stratiform_rainfall_amount kg m-2
stratiform_rainfall_rate m s-1
stratiform_snowfall_amount kg m-2
surface_air_pressure Pa
surface_albedo 1
surface_altitude m
surface_downward_heat_flux_in_air W m-2
surface_downwelling_longwave_flux_in_air W m-2
surface_downwelling_shortwave_flux_in_air W m-2
surface_downwelling_shortwave_flux_in_air_assuming_clear_sky W m-2
surface_downwelling_spectral_photon_flux_in_air mol m-2 s-1 m-1
surface_net_downward_radiative_flux W m-2
surface_roughness_length m
surface_snow_amount kg m-2
surface_snow_area_fraction 1
surface_snow_thickness m
surface_temperature K
surface_upward_heat_flux_in_air W m-2
sunlit_binary_mask 1
thickness_of_convective_rainfall_amount m
thickness_of_convective_snowfall_amount m
thickness_of_rainfall_amount m
thickness_of_snowfall_amount m
thickness_of_stratiform_rainfall_amount m
time s
toa_incoming_shortwave_flux W m-2
toa_outgoing_longwave_flux W m-2
tropopause_altitude m
ultraviolet_index 1
upward_air_velocity m s-1
vertical_wind_speed m s-1
visibility_in_air m
volume_fraction_of_water_in_soil 1
wet_bulb_temperature K
wet_bulb_potential_temperature K
wind_direction degree
wind_from_direction degree
wind_gust_from_direction degree
wind_speed m s-1
wind_speed_of_gust m s-1
wind_speed_shear s-1
wind_to_direction degree
x_wind m s-1
x_wind_gust m s-1
y_wind m s-1
y_wind_gust m s-1
radiation_wavelength m
radiation_frequency s-1
scattering_angle radian
sensor_azimuth_angle degree
zenith_angle degree
grid_eastward_wind m s-1
grid_northward_wind m s-1
"""

STD_NAMES = {}
for _line in _TABLE.strip().splitlines():
    _name, _, _units = _line.strip().partition(" ")
    STD_NAMES[_name] = {"canonical_units": _units or "no_unit"}

_MODIFIERS = (
    "detection_minimum",
    "number_of_observations",
    "standard_error",
    "status_flag",
)


def get_valid_standard_name(name):
    if name is None:
        return None
    text = str(name)
    tokens = text.split()
    ok = bool(tokens) and tokens[0] in STD_NAMES
    if ok and len(tokens) > 1:
        ok = len(tokens) == 2 and tokens[1] in _MODIFIERS
    if not ok:
        raise ValueError("{!r} is not a valid standard_name".format(name))
    return name
