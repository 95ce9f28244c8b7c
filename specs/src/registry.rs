// Written by vc/registry.py.
pub static ALL: &[(&str, &str, fn(&mut crate::gen::Src))] = &[
    ("P16", "iterative_verdicts", crate::gjk::iterative_verdicts::native),
    ("P17", "iterative_penetration", crate::gjk::iterative_penetration::native),
    ("P18", "iterative_distance", crate::gjk::iterative_distance::native),
    ("P19", "iterative_returns", crate::gjk::iterative_returns::native),
    ("P19", "iterative_returns_convex", crate::gjk::iterative_returns_convex::native),
    ("P09", "coherent_iterative", crate::gjk::coherent_iterative::native),
    ("P10", "mirror_iterative", crate::gjk::mirror_iterative::native),
    ("P11", "world_iterative", crate::gjk::world_iterative::native),
    ("P12", "queries_iterative", crate::gjk::queries_iterative::native),
    ("P25", "ledger_appends", crate::misc::ledger_appends::native),
    ("P25", "ledger_starts_empty", crate::misc::ledger_starts_empty::native),
    ("P25", "hashset_ledger_collects", crate::misc::hashset_ledger_collects::native),
    ("P25", "hashset_ledger_adds", crate::misc::hashset_ledger_adds::native),
    ("P25", "callbacks", crate::misc::callbacks::native),
    ("P25", "callbacks_are_called_once_in_order", crate::misc::callbacks_are_called_once_in_order::native),
    ("P26", "approx_number_is_reflexive", crate::misc::approx_number_is_reflexive::native),
    ("P26", "approx_number", crate::misc::approx_number::native),
    ("P26", "approx_number_default", crate::misc::approx_number_default::native),
    ("P26", "approx_number_near", crate::misc::approx_number_near::native),
    ("P26", "approx_nothing_equals_nan", crate::misc::approx_nothing_equals_nan::native),
    ("P26", "approx_vector", crate::misc::approx_vector::native),
    ("P26", "approx_vector3", crate::misc::approx_vector3::native),
    ("P26", "approx_vector_close", crate::misc::approx_vector_close::native),
    ("P26", "approx_vector3_close", crate::misc::approx_vector3_close::native),
    ("P26", "approx_vector_is_reflexive", crate::misc::approx_vector_is_reflexive::native),
    ("P26", "lerp_interpolates", crate::misc::lerp_interpolates::native),
    ("P26", "lerp_interpolates_vectors", crate::misc::lerp_interpolates_vectors::native),
    ("P09", "coherent_box_point", crate::queries::coherent_box_point::native),
    ("P09", "coherent_box_ball", crate::queries::coherent_box_ball::native),
    ("P09", "coherent_ball_point", crate::queries::coherent_ball_point::native),
    ("P09", "coherent_ball_ball", crate::queries::coherent_ball_ball::native),
    ("P09", "coherent_point_point", crate::queries::coherent_point_point::native),
    ("P09", "coherent_point_box", crate::queries::coherent_point_box::native),
    ("P09", "coherent_point_ball", crate::queries::coherent_point_ball::native),
    ("P09", "coherent_in_the_world", crate::queries::coherent_in_the_world::native),
    ("P10", "mirror_box_point", crate::queries::mirror_box_point::native),
    ("P10", "mirror_point_box", crate::queries::mirror_point_box::native),
    ("P10", "mirror_ball_point", crate::queries::mirror_ball_point::native),
    ("P10", "mirror_point_ball", crate::queries::mirror_point_ball::native),
    ("P10", "mirror_point_point", crate::queries::mirror_point_point::native),
    ("P10", "mirror_ball_ball", crate::queries::mirror_ball_ball::native),
    ("P11", "world_queries_use_the_relative_transform", crate::queries::world_queries_use_the_relative_transform::native),
    ("P11", "world_queries_follow_the_frame", crate::queries::world_queries_follow_the_frame::native),
    ("P12", "translation_as_vec2", crate::queries::translation_as_vec2::native),
    ("P12", "translation_as_translate2d", crate::queries::translation_as_translate2d::native),
    ("P12", "translation_as_axis", crate::queries::translation_as_axis::native),
    ("P12", "scaling_as_axis", crate::queries::scaling_as_axis::native),
    ("P12", "answers_as_vec2", crate::queries::answers_as_vec2::native),
    ("P12", "answers_as_translate2d", crate::queries::answers_as_translate2d::native),
    ("P12", "answers_as_axis", crate::queries::answers_as_axis::native),
    ("P12", "box_ball_as_vec2", crate::queries::box_ball_as_vec2::native),
    ("P12", "ball_ball_as_axis", crate::queries::ball_ball_as_axis::native),
    ("P12", "world_as_vec2", crate::queries::world_as_vec2::native),
    ("P16", "miss_collides", crate::search::miss_collides::native),
    ("P16", "miss_distance", crate::search::miss_distance::native),
    ("P16", "miss_penetrates", crate::search::miss_penetrates::native),
    ("P16", "miss_sdfv", crate::search::miss_sdfv::native),
    ("P19", "returns_collides", crate::search::returns_collides::native),
    ("P19", "returns_distance", crate::search::returns_distance::native),
    ("P19", "returns_penetrates", crate::search::returns_penetrates::native),
    ("P19", "returns_sdfv", crate::search::returns_sdfv::native),
    ("P17", "separates_penetrates", crate::search::separates_penetrates::native),
    ("P17", "separates_sdfv", crate::search::separates_sdfv::native),
    ("P18", "joins_distance", crate::search::joins_distance::native),
    ("P18", "joins_sdfv", crate::search::joins_sdfv::native),
    ("P05", "verdict_point_point", crate::shapes::verdict_point_point::native),
    ("P05", "verdict_box_point", crate::shapes::verdict_box_point::native),
    ("P05", "verdict_point_box", crate::shapes::verdict_point_box::native),
    ("P05", "verdict_ball_point", crate::shapes::verdict_ball_point::native),
    ("P05", "verdict_point_ball", crate::shapes::verdict_point_ball::native),
    ("P05", "verdict_ball_ball", crate::shapes::verdict_ball_ball::native),
    ("P05", "verdict_box_ball", crate::shapes::verdict_box_ball::native),
    ("P05", "verdict_world_ball_ball", crate::shapes::verdict_world_ball_ball::native),
    ("P05", "verdict_world_box_point", crate::shapes::verdict_world_box_point::native),
    ("P05", "verdict_world_point_box", crate::shapes::verdict_world_point_box::native),
    ("P06", "distance_box_point", crate::shapes::distance_box_point::native),
    ("P06", "distance_ball_point", crate::shapes::distance_ball_point::native),
    ("P06", "distance_point_point", crate::shapes::distance_point_point::native),
    ("P06", "distance_ball_ball", crate::shapes::distance_ball_ball::native),
    ("P06", "distance_box_ball", crate::shapes::distance_box_ball::native),
    ("P06", "distance_point_box", crate::shapes::distance_point_box::native),
    ("P06", "distance_point_ball", crate::shapes::distance_point_ball::native),
    ("P07", "penetration_box_point", crate::shapes::penetration_box_point::native),
    ("P07", "penetration_ball_point", crate::shapes::penetration_ball_point::native),
    ("P07", "penetration_ball_ball", crate::shapes::penetration_ball_ball::native),
    ("P07", "penetration_box_ball_outside", crate::shapes::penetration_box_ball_outside::native),
    ("P07", "penetration_box_ball_inside_ne", crate::shapes::penetration_box_ball_inside_ne::native),
    ("P07", "penetration_box_ball_inside_nw", crate::shapes::penetration_box_ball_inside_nw::native),
    ("P07", "penetration_box_ball_inside_se", crate::shapes::penetration_box_ball_inside_se::native),
    ("P07", "penetration_box_ball_inside_sw", crate::shapes::penetration_box_ball_inside_sw::native),
    ("P07", "penetration_point_box", crate::shapes::penetration_point_box::native),
    ("P07", "penetration_point_ball", crate::shapes::penetration_point_ball::native),
    ("P08", "signed_distance_point_point", crate::shapes::signed_distance_point_point::native),
    ("P08", "signed_distance_box_point", crate::shapes::signed_distance_box_point::native),
    ("P08", "signed_distance_ball_point", crate::shapes::signed_distance_ball_point::native),
    ("P08", "signed_distance_ball_ball", crate::shapes::signed_distance_ball_ball::native),
    ("P08", "signed_distance_box_ball", crate::shapes::signed_distance_box_ball::native),
    ("P08", "scalar_agrees_box_point", crate::shapes::scalar_agrees_box_point::native),
    ("P08", "scalar_agrees_box_ball", crate::shapes::scalar_agrees_box_ball::native),
    ("P08", "scalar_agrees_ball_ball", crate::shapes::scalar_agrees_ball_ball::native),
    ("P08", "scalar_agrees_ball_point", crate::shapes::scalar_agrees_ball_point::native),
    ("P08", "scalar_agrees_point_point", crate::shapes::scalar_agrees_point_point::native),
    ("P08", "world_signed_distance_ball_ball", crate::shapes::world_signed_distance_ball_ball::native),
    ("P08", "world_signed_distance_box_point", crate::shapes::world_signed_distance_box_point::native),
    ("P13", "support_box", crate::support::support_box::native),
    ("P13", "support_ball", crate::support::support_ball::native),
    ("P13", "support_point", crate::support::support_point::native),
    ("P13", "support_polygon", crate::support::support_polygon::native),
    ("P13", "support_polygon_shape", crate::support::support_polygon_shape::native),
    ("P13", "support_polygon_sampled", crate::support::support_polygon_sampled::native),
    ("P13", "support_placed", crate::support::support_placed::native),
    ("P13", "support_placed_axis", crate::support::support_placed_axis::native),
    ("P13", "support_placed_translated", crate::support::support_placed_translated::native),
    ("P13", "support_placed_ball", crate::support::support_placed_ball::native),
    ("P13", "support_placed_box", crate::support::support_placed_box::native),
    ("P13", "support_placed_sampled", crate::support::support_placed_sampled::native),
    ("P14", "difference_reaches", crate::support::difference_reaches::native),
    ("P14", "difference_reaches_unrotated", crate::support::difference_reaches_unrotated::native),
    ("P14", "difference_is_one", crate::support::difference_is_one::native),
    ("P14", "difference_is_one_axis", crate::support::difference_is_one_axis::native),
    ("P14", "difference_is_one_translated", crate::support::difference_is_one_translated::native),
    ("P14", "difference_of_boxes", crate::support::difference_of_boxes::native),
    ("P14", "difference_box_ball", crate::support::difference_box_ball::native),
    ("P14", "difference_sampled", crate::support::difference_sampled::native),
    ("P15", "bounds_box", crate::support::bounds_box::native),
    ("P15", "bounds_ball", crate::support::bounds_ball::native),
    ("P15", "bounds_point", crate::support::bounds_point::native),
    ("P15", "bounds_polygon", crate::support::bounds_polygon::native),
    ("P15", "bounds_polygon_tight", crate::support::bounds_polygon_tight::native),
    ("P15", "bounds_polygon_sampled", crate::support::bounds_polygon_sampled::native),
    ("P15", "cover", crate::support::cover::native),
    ("P15", "cover_history", crate::support::cover_history::native),
    ("P27", "polygon_new", crate::support::polygon_new::native),
    ("P27", "polygon_of_box", crate::support::polygon_of_box::native),
    ("P27", "union_constructors", crate::support::union_constructors::native),
    ("P27", "regular_polygons", crate::support::regular_polygons::native),
    ("P27", "strict_check_finds_every_vertex_farthest", crate::support::strict_check_finds_every_vertex_farthest::native),
    ("P27", "strict_check_accepts", crate::support::strict_check_accepts::native),
    ("P27", "strict_check_sampled", crate::support::strict_check_sampled::native),
    ("P20", "new_map_is_empty", crate::tiles::new_map_is_empty::native),
    ("P20", "set_tile_sets_one_tile", crate::tiles::set_tile_sets_one_tile::native),
    ("P20", "remove_tile_removes_one_tile", crate::tiles::remove_tile_removes_one_tile::native),
    ("P20", "tile_is_stored_in_its_chunk", crate::tiles::tile_is_stored_in_its_chunk::native),
    ("P20", "histories", crate::tiles::histories::native),
    ("P21", "set_tile_notifies", crate::tiles::set_tile_notifies::native),
    ("P21", "remove_tile_notifies", crate::tiles::remove_tile_notifies::native),
    ("P21", "operations_keep_earlier_events_and_other_chunks", crate::tiles::operations_keep_earlier_events_and_other_chunks::native),
    ("P21", "reading_does_not_notify", crate::tiles::reading_does_not_notify::native),
    ("P22", "tile_has_one_chunk_and_place", crate::tiles::tile_has_one_chunk_and_place::native),
    ("P22", "tile_to_world_and_back", crate::tiles::tile_to_world_and_back::native),
    ("P22", "world_position_belongs_to_the_nearest_tile", crate::tiles::world_position_belongs_to_the_nearest_tile::native),
    ("P22", "quantize_spans_the_corners", crate::tiles::quantize_spans_the_corners::native),
    ("P23", "point_collides_with_tiles", crate::tiles::point_collides_with_tiles::native),
    ("P23", "point_collides_by_its_nearest_tile", crate::tiles::point_collides_by_its_nearest_tile::native),
    ("P23", "resolve_box_moves_out_of_the_only_tile", crate::tiles::resolve_box_moves_out_of_the_only_tile::native),
    ("P23", "resolve_ball_moves_out_of_the_only_tile", crate::tiles::resolve_ball_moves_out_of_the_only_tile::native),
    ("P23", "resolve_box_north_east", crate::tiles::resolve_box_north_east::native),
    ("P23", "resolve_ball_north_east", crate::tiles::resolve_ball_north_east::native),
    ("P23", "resolve_box_south_east", crate::tiles::resolve_box_south_east::native),
    ("P23", "resolve_ball_south_east", crate::tiles::resolve_ball_south_east::native),
    ("P23", "resolve_box_south_west", crate::tiles::resolve_box_south_west::native),
    ("P23", "resolve_ball_south_west", crate::tiles::resolve_ball_south_west::native),
    ("P23", "resolve_box_north_west", crate::tiles::resolve_box_north_west::native),
    ("P23", "resolve_ball_north_west", crate::tiles::resolve_ball_north_west::native),
    ("P23", "tiles_out_of_reach_are_apart", crate::tiles::tiles_out_of_reach_are_apart::native),
    ("P23", "resolve_box_geometry", crate::tiles::resolve_box_geometry::native),
    ("P23", "resolve_ball_geometry", crate::tiles::resolve_ball_geometry::native),
    ("P24", "pad_moves_both_corners", crate::tiles::pad_moves_both_corners::native),
    ("P24", "empty_rects", crate::tiles::empty_rects::native),
    ("P24", "rect_iterate", crate::tiles::rect_iterate::native),
    ("P24", "iterate_all", crate::tiles::iterate_all::native),
    ("P24", "iterate_north_east_all", crate::tiles::iterate_north_east_all::native),
    ("P24", "iterate_south_east_all", crate::tiles::iterate_south_east_all::native),
    ("P24", "iterate_south_west_all", crate::tiles::iterate_south_west_all::native),
    ("P24", "iterate_north_west_all", crate::tiles::iterate_north_west_all::native),
    ("P24", "iterate_boxed_all", crate::tiles::iterate_boxed_all::native),
    ("P24", "iterate_with_direction_all", crate::tiles::iterate_with_direction_all::native),
    ("P28", "saved_and_loaded", crate::tiles::saved_and_loaded::native),
    ("P28", "no_file_no_map", crate::tiles::no_file_no_map::native),
    ("P01", "compose_similarities", crate::transforms::compose_similarities::native),
    ("P01", "compose_outer_uniform", crate::transforms::compose_outer_uniform::native),
    ("P01", "compose_inner_unrotated", crate::transforms::compose_inner_unrotated::native),
    ("P01", "compose_vec2", crate::transforms::compose_vec2::native),
    ("P01", "compose_translate2d", crate::transforms::compose_translate2d::native),
    ("P01", "compose_axis", crate::transforms::compose_axis::native),
    ("P01", "compose_associates", crate::transforms::compose_associates::native),
    ("P02", "invert_similarity", crate::transforms::invert_similarity::native),
    ("P02", "invert_unrotated", crate::transforms::invert_unrotated::native),
    ("P02", "unapply_general", crate::transforms::unapply_general::native),
    ("P02", "invert_vec2", crate::transforms::invert_vec2::native),
    ("P02", "invert_translate2d", crate::transforms::invert_translate2d::native),
    ("P02", "invert_axis", crate::transforms::invert_axis::native),
    ("P02", "identity_transform", crate::transforms::identity_transform::native),
    ("P03", "delta_similarities", crate::transforms::delta_similarities::native),
    ("P03", "delta_vec2", crate::transforms::delta_vec2::native),
    ("P03", "delta_translate2d", crate::transforms::delta_translate2d::native),
    ("P03", "delta_axis", crate::transforms::delta_axis::native),
    ("P03", "delta_is_frame_independent", crate::transforms::delta_is_frame_independent::native),
    ("P04", "rotor_from_angle", crate::transforms::rotor_from_angle::native),
    ("P04", "rotor_product", crate::transforms::rotor_product::native),
    ("P04", "rotor_from_quaternion", crate::transforms::rotor_from_quaternion::native),
    ("P04", "rotor_from_planar_quaternion", crate::transforms::rotor_from_planar_quaternion::native),
    ("P04", "rotor_angle", crate::transforms::rotor_angle::native),
    ("P04", "transform_builders", crate::transforms::transform_builders::native),
];
