"""The functions whose summaries the properties are stated over, and where a summary stops."""
import re

AW = ['AirwayGraph::insert_or_update_segment', 'new:AirwayGraph@as@std::default::Default>::default']
CONV = ['Locations::convert_location', 'Locations::convert_designator']
ENTRIES = {
    # readers
    'prf': ('prf::Prf::parse', []),
    'topsky-maps': ('topsky::map::parse_topsky_maps', []),
    'topsky-symbols': ('topsky::symbol::parse_topsky_symbols', []),
    'topsky-settings': ('topsky::settings::parse_topsky_settings', []),
    'topsky': ('topsky::Topsky::parse', ['topsky::map::parse_topsky_maps', 'topsky::symbol::parse_topsky_symbols', 'topsky::settings::parse_topsky_settings']),
    'squawks': ('squawks::parse_squawks_json', []),
    'airlines': ('icao_airlines::parse_airlines', []),
    'airports': ('icao_airports::parse_airports', []),
    'aircraft': ('icao_aircraft::parse_aircraft', []),
    'navdata': ('navdata_airports::parse_navdata_airports', []),
    'isec': ('isec::parse_isec_txt', []),
    'airway': ('airway::parse_airway_txt', AW),
    'asr': ('asr::Asr::parse', []),
    'symbology': ('symbology::Symbology::parse', []),
    'ese': ('ese::Ese::parse', []),
    'sct': ('sct::Sct::parse', []),
    'decoder': ('crate::read_to_string', []),
    # writer
    'sct-write': ('sct::Sct as std::fmt::Display>::fmt', []),
    # adaptation
    'setup': ('adaptation::AdaptationSetup::parse', []),
    'locations': ('adaptation::locations::Locations::from_euroscope', []),
    'convert-location': ('adaptation::locations::Locations::convert_location', []),
    'convert-designator': ('adaptation::locations::Locations::convert_designator', []),
    'contains-designator': ('adaptation::locations::Locations::contains_designator', []),
    'contains-nav': ('adaptation::locations::Locations::contains_nav_element', []),
    'airway-insert': ('adaptation::locations::airways::AirwayGraph::insert_or_update_segment', []),
    'airway-expand': ('adaptation::locations::airways::AirwayGraph::expand_airway_segment', []),
    'airway-traverse': ('adaptation::locations::airways::AirwayGraph::traverse_airway', []),
    'symbols': ('adaptation::symbols::Symbols::from_euroscope', []),
    'symbols-get': ('adaptation::symbols::Symbols::get', []),
    'settings': ('adaptation::settings::Settings::from_euroscope', []),
    'coordination': ('adaptation::settings::CoordinationSettings::resolve', []),
    'ssr': ('adaptation::settings::SsrSettings::from_squawks_json', []),
    'line-settings': ('adaptation::settings::LineSettings::from_euroscope', []),
    'maps-settings': ('adaptation::settings::MapsSettings::from_euroscope', []),
    'colours': ('adaptation::colours::Colours::from_euroscope', []),
    'colours-get': ('adaptation::colours::Colours::get', []),
    'line-styles': ('adaptation::line_styles::line_styles_from_topsky', []),
    'constraints': ('adaptation::constraints::extract_constraints', []),
    'wtc': ('adaptation::icao::AircraftMap::wtc', []),
    'volume': ('adaptation::sectors::Volume::new', []),
    'sectors': ('adaptation::sectors::Sectors::from_ese', ['polygon_from_ese']),
    'sector-of-volume': ('adaptation::sectors::Sectors::find_id_by_volume', []),
    'maps': ('adaptation::maps::from_topsky', CONV),
    'sct-items': ('adaptation::sct_items::SctItems::from_sct', CONV),
    'find-sector': ('adaptation::Adaptation::find_sector', []),
    'volumes-at': ('adaptation::Adaptation::volumes_at', []),
    'volumes-near': ('adaptation::Adaptation::volumes_near_line', []),
    'rebuild-index': ('adaptation::Adaptation::rebuild_sector_index', []),
    'overlays': ('adaptation::Adaptation::apply_jsonnet_overlays', []),
    'prf-overlays': ('adaptation::Adaptation::from_prf_with_overlays', ['Adaptation::from_prf', 'Adaptation::apply_jsonnet_overlays']),
    'toml-overlays': ('adaptation::Adaptation::from_adaptation_toml', ['Adaptation::from_prf', 'Adaptation::apply_jsonnet_overlays', 'AdaptationSetup::parse']),
    'adaptation': ('adaptation::Adaptation::from_prf', ['sct::Sct::parse', 'ese::Ese::parse', 'parse_airway_txt', 'Sectors::from_ese', 'extract_constraints', 'Symbology::parse', 'Topsky::parse', 'Settings::from_euroscope', 'Colours::from_euroscope', 'parse_airports', 'parse_navdata_airports', 'Locations::from_euroscope', 'SctItems::from_sct', 'parse_aircraft', 'parse_airlines', 'maps::from_topsky', 'Symbols::from_euroscope', 'line_styles_from_topsky', 'SectorVolumeIndex::rebuild', 'Prf::sct_path', 'Prf::ese_path', 'Prf::airways_path', 'Prf::symbology_path', 'Prf::squawks_path', 'Prf::topsky_path', 'Prf::airports_path', 'Prf::navdata_airports_path', 'Prf::aircraft_path', 'Prf::airlines_path']),
    'index-rebuild': ('adaptation::sector_index::SectorVolumeIndex::rebuild', []),
    'prf-sct': ('prf::Prf::sct_path', []),
    'prf-ese': ('prf::Prf::ese_path', []),
    'prf-airways': ('prf::Prf::airways_path', []),
    'prf-isec': ('prf::Prf::isec_path', []),
    'prf-icao': ('prf::Prf::navdata_airports_path', []),
    'prf-airlines': ('prf::Prf::airlines_path', []),
    'prf-aircraft': ('prf::Prf::aircraft_path', []),
    'prf-airports': ('prf::Prf::airports_path', []),
    'prf-symbology': ('prf::Prf::symbology_path', []),
    'prf-squawks': ('prf::Prf::squawks_path', []),
    'prf-topsky': ('prf::Prf::topsky_path', []),
    'prf-recent': ('prf::Prf::recent_path', []),
    'dms-lat': ('geo::Coord as DegMinSecExt>::lat_deg_min_sec_fmt', []),
    'dms-lng': ('geo::Coord as DegMinSecExt>::lng_deg_min_sec_fmt', []),
    'constraint-key': ('ese::Constraint::key', []),
    'colour-from': ('adaptation::colours::Colour::from_euroscope', []),
    'colour-to': ('adaptation::colours::Colour::to_euroscope', []),
    'isec-write': ('<isec::IsecMap as std::fmt::Display>::fmt', []),
    'wtc-write': ('<adaptation::icao::Wtc as std::fmt::Display>::fmt', []),
    'ese-constraint-write': ('<ese::Constraint as std::fmt::Display>::fmt', []),
    'quantize': ('<geo::Coord as adaptation::Quantize>::quantize', []),
    'from-dms': ('<geo::Coord as DegMinSecExt>::from_deg_min_sec', []),
    'parse-default': ('topsky::settings::Settings::parse_with_default', []),
}
