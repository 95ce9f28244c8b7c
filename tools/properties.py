"""The properties: written out to properties.jsonl and MANIFEST.json by tools/mk.py."""

I, H, C, PR = 'inputs', 'histories', 'configurations', 'programs'
T = 'src/col2d/transformation2d/'
S = 'src/col2d/shape/'
D = 'src/col2d/detection/'
L = S + 'local_minkowski_diff/'

# id: (title, statement, quantifier over, quantifier text, why tests can't, files, mechanisms [(name, where)], observe_at)
P = {}


def p(id, title, statement, over, text, why, files, mech, observe):
    P[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe)


p('P01', 'Composing transforms applies the second, then the first',
  'For every 2D transform type and all finite transforms a and b with positive uniform scale, a.compose(b).apply(p) equals a.apply(b.apply(p)) for every point p, and the same holds for directions (apply_normal) and for the scaling factor, up to rounding. '
  'Composition is associative in effect and the identity transform is neutral. The origin maps to apply_origin().',
  [I], 'all pairs of transforms with positive uniform scale, all points and directions',
  'The doc test and unit tests compose a few axis-aligned transforms; every combination of rotation, scale and translation matters.',
  [T + 'transform2d.rs', T + 'axis_transform2d.rs', T + 'translate2d.rs', T + 'mod.rs'],
  [('Composable::compose of every type', T + 'transform2d.rs'), ('Transformation2d::apply*', T + 'mod.rs')], ['Composable::compose', 'Transformation2d::apply'])
p('P02', 'Inverses and unapply undo a transform exactly',
  'For every 2D transform type and every finite transform a with positive uniform scale, a.unapply(a.apply(p)) = p, a.apply(a.unapply(p)) = p and a.inverse().apply(p) = a.unapply(p) for every point p, up to rounding. '
  'The same holds for directions, and the scaling factor of the inverse is the reciprocal. Inverting twice gives a transform with the same effect.',
  [I], 'all transforms with positive uniform scale, all points and directions',
  'Tests invert a handful of transforms; AxisTransform2d::inverse was wrong for every scale other than one and no test noticed.',
  [T + 'transform2d.rs', T + 'axis_transform2d.rs', T + 'translate2d.rs', T + 'mod.rs'],
  [('Invertible::inverse of every type', T + 'transform2d.rs'), ('Transformation2d::unapply*', T + 'mod.rs')], ['Invertible::inverse', 'Transformation2d::unapply'])
p('P03', 'The relative transform maps b\'s space into a\'s space',
  'For all finite transforms a and b of one type with positive uniform scale, a.delta_transform(b).apply(p) equals a.unapply(b.apply(p)) for every point p, and likewise for directions, up to rounding. '
  'Its scaling factor is the quotient of the scaling factors, and the relative transform of a transform to itself has no effect.',
  [I], 'all pairs of transforms with positive uniform scale, all points',
  'Tests use relative transforms of translated or singly rotated colliders only.',
  ['src/col/transform.rs', T + 'mod.rs', T + 'transform2d.rs', T + 'axis_transform2d.rs', T + 'translate2d.rs'],
  [('DeltaTransform blanket impl', 'src/col/transform.rs')], ['DeltaTransform::delta_transform'])
p('P04', 'Rotors rotate: lengths, angles and composition are kept',
  'A rotor made from an angle, or from a quaternion that rotates about the z axis, rotates vectors by that angle: lengths, dot products and orientation are kept. '
  'Composing rotors adds the rotations, the inverse rotor undoes the rotation, and the identity does nothing. A rotor made from any unit quaternion is a unit rotor.',
  [I], 'all angles, all unit quaternions, all vectors',
  'Tests use right angles and a few others; the laws quantify over all angles and vectors.',
  [T + 'mod.rs', T + 'transform2d.rs'], [('Rotor2d', T + 'mod.rs')], ['Rotor2d'])
p('P05', 'Closed-form overlap verdicts are exact',
  'For points, balls and boxes in the pairs with a closed form (point-point, ball-point, ball-ball, box-point, box-ball and the reversed point-box and point-ball), under every relative transform with positive uniform scale, the shapes are reported as colliding if they overlap and as not colliding if they are apart. '
  'Shapes that merely touch may be reported either way.',
  [I], 'all sizes that are not negative, all relative positions, rotations and positive uniform scales',
  'Tests sample a few positions per pair, mostly unrotated and always at scale one; the relative scale of a ball was ignored and no test noticed.',
  [S + 'ball2d/v_ball2d.rs', S + 'ball2d/v_point.rs', S + 'box2d/v_ball.rs', S + 'box2d/v_point.rs', S + 'point2d.rs', D + 'sdfv_common.rs'],
  [('SdfvCommonRel2d impls of the pairs', S + 'box2d/v_ball.rs'), ('CollidesRel2d blanket impl', D + 'sdfv_common.rs')], ['CollidesRel2d::collides_rel', 'SdfvRel2d::sdfv_rel'])
p('P06', 'Closed-form distance vectors are the shortest separation',
  'For the closed-form pairs of points, balls and boxes that are apart, under every relative transform with positive uniform scale, the vector reported by distance_to_rel and sdfv_rel is as long as the distance between the two shapes. '
  'Moving the second shape back by that vector brings the two into contact without overlap.',
  [I], 'all sizes that are not negative, all relative positions, rotations and positive uniform scales at which the shapes are apart',
  'Tests sample a few positions; minimality is a statement about all pairs of points of the two shapes.',
  [S + 'ball2d/v_ball2d.rs', S + 'ball2d/v_point.rs', S + 'box2d/v_ball.rs', S + 'box2d/v_point.rs', S + 'point2d.rs'],
  [('SdfvCommonRel2d impls of the pairs', S + 'box2d/v_ball.rs')], ['DistanceToRel2d::distance_to_rel', 'SdfvRel2d::sdfv_rel'])
p('P07', 'Closed-form penetration vectors separate with the least move',
  'For the closed-form pairs of points, balls and boxes that overlap, under every relative transform with positive uniform scale, moving the second shape back by the vector reported by penetrates_rel and sdfv_rel leaves the two in contact without overlap. '
  'No shorter move separates them.',
  [I], 'all sizes that are not negative, all relative positions, rotations and positive uniform scales at which the shapes overlap',
  'Tests sample a few positions; minimality quantifies over every other way of separating the shapes.',
  [S + 'ball2d/v_ball2d.rs', S + 'ball2d/v_point.rs', S + 'box2d/v_ball.rs', S + 'box2d/v_point.rs', S + 'point2d.rs'],
  [('SdfvCommonRel2d impls of the pairs', S + 'box2d/v_ball.rs')], ['PenetratesRel2d::penetrates_rel', 'SdfvRel2d::sdfv_rel'])
p('P08', 'The scalar signed distance is the true signed distance',
  'For the pairs with a scalar signed distance (point-point, ball-point, ball-ball, box-point, box-ball), sdf_rel is the distance between the shapes when they are apart and minus the least separating move when they overlap, under every relative transform with positive uniform scale. '
  'It has the magnitude of the vector that sdfv_rel reports and is negative inside; sdf between colliders is the same in world units.',
  [I], 'all sizes that are not negative, all relative transforms and world transforms with positive uniform scale',
  'The tests that exist sample box-point and ball-ball; box-ball measured the wrong point of the ball and no test noticed.',
  [S + 'ball2d/v_ball2d.rs', S + 'ball2d/v_point.rs', S + 'box2d/v_ball.rs', S + 'box2d/v_point.rs', S + 'point2d.rs', D + 'sdf.rs'],
  [('SdfRel2d impls of the pairs', S + 'box2d/v_point.rs'), ('Sdf2d blanket impl', D + 'sdf.rs')], ['SdfRel2d::sdf_rel', 'Sdf2d::sdf'])
p('P09', 'collides, penetrates, distance_to and sdfv agree',
  'For every pair of shapes and every relative transform, penetrates answers with a vector exactly when collides is true, distance_to answers exactly when collides is false, and sdfv carries the same verdict; shapes within a rounding error of touching are excepted for the iterative pairs. '
  'The vector of sdfv is that of penetrates or distance_to (for iterative pairs: of the same length up to the iteration tolerance).',
  [I], 'all supported pairs of shapes and relative transforms; both the relative and the world-level queries',
  'Each test asks a single query; agreement relates four separately instantiated implementations on all inputs.',
  [D + 'sdfv_common.rs', D + 'collides.rs', D + 'penetrates.rs', D + 'distance_to.rs', D + 'sdfv.rs', L + 'v.rs'],
  [('blanket impls over SdfvCommonRel2d', D + 'sdfv_common.rs')], ['Collides2d', 'Penetrates2d', 'DistanceTo2d', 'Sdfv2d'])
p('P10', 'Swapping the two shapes mirrors the answer',
  'For every pair of shapes that is supported in both orders, asking about b relative to a and about a relative to b with the inverse transform gives the same verdict, shapes within a rounding error of touching excepted. '
  'Where the shortest vector is unique, the vectors are opposite to each other once both are brought into the same space (for iterative pairs: of the same length up to the iteration tolerance).',
  [I], 'all pairs supported in both orders, all relative transforms with positive uniform scale',
  'Tests do not compare the two orders outside of a few symmetric cases.',
  [S + 'point2d.rs', S + 'ball2d/v_ball2d.rs', S + 'box2d/v_ball.rs', L + 'mod.rs', L + 'v.rs'],
  [('impl_reverse_sdfv_common_rel', S + 'point2d.rs')], ['SdfvRel2d::sdfv_rel'])
p('P11', 'World queries are about the shapes as placed in the world',
  'For colliders with any transforms of positive uniform scale, collides, penetrates, distance_to, sdfv and sdf answer about the shapes as placed in the world, with vectors and distances in world coordinates and units. '
  'Moving, rotating or uniformly scaling the whole world moves, rotates and scales the answers along and keeps the verdict.',
  [I], 'all pairs of world transforms with positive uniform scale, and all further transforms of both',
  'Tests place the first collider at a few poses; penetrates and distance_to forgot to rotate their answer into the world and no test noticed.',
  [D + 'collides.rs', D + 'penetrates.rs', D + 'distance_to.rs', D + 'sdfv.rs', D + 'sdf.rs', 'src/col2d/collider2d.rs'],
  [('world-level blanket impls', D + 'sdfv.rs')], ['Collides2d', 'Penetrates2d', 'DistanceTo2d', 'Sdfv2d', 'Sdf2d'])
p('P12', 'Equal transforms of different types give equal answers',
  'A translation has the same effect, inverse, compositions and relative transforms whether it is a Vec2, a Translate2d, an AxisTransform2d of scale one or a Transform2d without rotation; a translation with uniform scale has the same effect as an AxisTransform2d and as a Transform2d. '
  'Queries on the same placement give the same answer whichever type describes it.',
  [I, C], 'all translations and positive uniform scales, all transform types that can express them',
  'Tests stay within one transform type at a time.',
  [T + 'mod.rs', T + 'translate2d.rs', T + 'axis_transform2d.rs', T + 'transform2d.rs'],
  [('Transformation2d impls', T + 'mod.rs')], ['Transformation2d', 'SdfvRel2d::sdfv_rel'])
p('P13', 'Support functions return a farthest point of the shape',
  'For every direction, extreme_point of a box, ball, point, convex polygon (with any number of vertices and coordinates within 1e18) or Shape2d is a point of that shape, and no point of the shape is farther along the direction (a polygon is the convex hull of its vertices; the zero direction only promises a point of the shape). '
  'The same holds for colliders and extreme_point_t of shapes placed by any transform with positive uniform scale.',
  [I], 'all shapes, all directions, all transforms with positive uniform scale',
  'Tests use axis directions on a few shapes; the guarantee quantifies over directions, vertex lists and every other point of the shape.',
  [S + 'box2d/mod.rs', S + 'ball2d/mod.rs', S + 'point2d.rs', S + 'poly2d/mod.rs', S + 'mod.rs', D + 'extreme_point.rs', 'src/col2d/collider2d.rs'],
  [('ExtremePoint2d impls', S + 'poly2d/mod.rs'), ('ExtremePointT2d::extreme_point_t', D + 'extreme_point.rs')], ['ExtremePoint2d::extreme_point', 'ExtremePointT2d::extreme_point_t'])
p('P14', 'The Minkowski difference supports the difference of the shapes',
  'For any two shapes and any relative transform with positive uniform scale, the farthest point of their Minkowski difference along a direction is a difference of a point of the first shape and a point of the transformed second shape, and no such difference is farther along the direction.',
  [I], 'all shapes given by support functions, all directions, all relative transforms with positive uniform scale',
  'Tests look at two boxes and one direction.',
  [L + 'mod.rs'], [('LocalMinkowskiDiff2d::extreme_point', L + 'mod.rs')], ['LocalMinkowskiDiff2d::extreme_point'])
p('P15', 'Bounding boxes contain the shape and are tight',
  'The symmetric bounding box of a point, ball, box or polygon (with any number of vertices) contains every point of the shape, and each of its extents is reached by some point of the shape. '
  'Covering a point with a box makes the box contain the point and what it contained before, and grows it no further than needed.',
  [I, H], 'all shapes, vertex lists of any length, sequences of covered points',
  'Tests check one or two shapes; containment quantifies over all points and lists.',
  ['src/col2d/mod.rs', S + 'box2d/mod.rs', S + 'ball2d/mod.rs', S + 'point2d.rs', S + 'poly2d/mod.rs'],
  [('SymmetricBoundingBox2d impls', S + 'poly2d/mod.rs'), ('Box2d::cover', S + 'box2d/mod.rs')], ['SymmetricBoundingBox2d::symmetric_bounding_box', 'Box2d::cover'])
p('P16', 'Iterative overlap verdicts are right for convex shapes',
  'For pairs of boxes, convex polygons and Shape2d values of moderate size, under relative transforms with positive uniform scale, all four iterative queries report a collision when the shapes overlap by clearly more than rounding and none when they are clearly apart. '
  'A reported collision always means that no line strictly separates the shapes, and shapes reported apart because a direction failed never share interior points.',
  [I], 'all convex shapes given by support functions; for the full verdict, sampled boxes, polygons and balls of up to twelve vertices',
  'Tests sample a few hundred poses of regular polygons; a wrong case of the simplex logic shows only in particular configurations.',
  [L + 'mod.rs', L + 'v.rs', D + 'sdfv_minkowski.rs'], [('Simplex2d::add_point', L + 'mod.rs'), ('sdfv_minkowski', L + 'v.rs')], ['CollidesRel2d::collides_rel', 'SdfvRel2d::sdfv_rel'])
p('P17', 'Iterative penetration vectors separate with a near-least move',
  'For overlapping boxes, convex polygons and Shape2d values of moderate size, moving the second shape back by the vector of penetrates_rel or sdfv_rel leaves the shapes without overlap, up to rounding. '
  'The vector is never zero or NaN for shapes that overlap by clearly more than rounding, and for polygonal shapes it is at most a few percent longer than the least separating move.',
  [I], 'all convex shapes given by support functions; for minimality, sampled polygons and balls',
  'Tests check a few symmetric poses; separation quantifies over all points of both shapes.',
  [L + 'mod.rs', L + 'v.rs'], [('EpaPoly2d::calculate_penetration', L + 'mod.rs')], ['PenetratesRel2d::penetrates_rel', 'SdfvRel2d::sdfv_rel'])
p('P18', 'Iterative distance vectors are near-shortest connections',
  'For boxes, convex polygons and Shape2d values of moderate size that are clearly apart, the vector of distance_to_rel and sdfv_rel joins a point of one shape to a point of the other, so that it is never shorter than the true distance. '
  'Its length exceeds the true distance by at most a few percent.',
  [I], 'all convex shapes given by support functions; for near-minimality, sampled polygons and balls',
  'Tests check a few poses; both directions quantify over all points of both shapes, and distance queries gave up early on many poses without a test noticing.',
  [L + 'mod.rs', L + 'v.rs'], [('Simplex2d::distance_to_origin', L + 'mod.rs'), ('sdfv_minkowski', L + 'v.rs')], ['DistanceToRel2d::distance_to_rel', 'SdfvRel2d::sdfv_rel'])
p('P19', 'Queries return on every input, without panicking',
  'Every query on finite shapes of moderate size under transforms with positive uniform scale returns, without panic, endless loop or unbounded memory; this includes shapes of zero size, coincident or touching shapes and repeated vertices.',
  [I], 'all shapes and relative transforms, including degenerate ones',
  'Tests rarely place shapes in degenerate contact, which is where the panicking branches of the iterative queries are.',
  [L + 'mod.rs', L + 'v.rs', D + 'sdfv_common.rs'], [('iteration limits and simplex cases', L + 'v.rs')], ['CollidesRel2d', 'PenetratesRel2d', 'DistanceToRel2d', 'SdfvRel2d'])
p('P20', 'The tilemap stores exactly the tiles that were set',
  'After any sequence of set_tile and remove_tile, get_tile returns for every position the tile last set there, and 0 where none was set or it was removed since. '
  'Every operation changes the tile at its own position only.',
  [H, I], 'all sequences of operations on all tile positions and tile values',
  'The only test sets one tile; positions straddle chunks and signs, and frames quantify over all other positions.',
  [S + 'tilemap.rs'], [('get_tile, set_tile, remove_tile', S + 'tilemap.rs')], ['Tilemap::get_tile'])
p('P21', 'Tilemap events mirror what happens to the chunks',
  'set_tile notifies ChunkCreated exactly when the chunk did not exist before and ChunkChanged exactly when it existed and the tile at the position took another value. '
  'remove_tile notifies ChunkRemoved exactly when it leaves the chunk without tiles and drops it, ChunkChanged exactly when the chunk stays and the tile changed, and nothing else ever notifies; each operation notifies at most once, with the position of the chunk.',
  [H, I], 'all sequences of operations on all tile positions and tile values',
  'No test looks at the events; remove_tile reported wrong ones.',
  [S + 'tilemap.rs', 'src/utils/publisher.rs'], [('set_tile, remove_tile', S + 'tilemap.rs')], ['Tilemap::events'])
p('P22', 'Tile, chunk and world coordinates convert consistently',
  'Every tile position has exactly one chunk and one local position within it, equal to the floored quotient and remainder by the chunk size, for negative positions as well. '
  'A world position belongs to the nearest tile, converting a tile to the world and back gives the tile, and quantizing a box gives exactly the range of tiles from that of its lowest to that of its highest corner.',
  [I], 'all 32-bit tile positions, all world positions within the range of tiles',
  'No test converts coordinates; the sign and boundary cases are where this goes wrong.',
  [S + 'tilemap.rs'], [('tile_to_chunk_and_local_pos, world_to_tile_pos, quantize', S + 'tilemap.rs')], ['Tilemap::tile_to_chunk_pos', 'Tilemap::quantize'])
p('P23', 'Tilemaps collide where there are tiles and push shapes out',
  'A point collides with a tilemap exactly when the tile at its position is not 0. '
  'simple_resolve_box and simple_resolve_ball leave the position unchanged when the shape overlaps no tile, and move it out of a single overlapped tile by that tile\'s least separating move.',
  [I, H], 'all tilemaps, positions and shapes',
  'No test resolves anything.',
  [S + 'tilemap.rs'], [('SdfvCommonRel2d for Tilemap', S + 'tilemap.rs'), ('simple_resolve_*', S + 'tilemap.rs')], ['Tilemap::simple_resolve_ball', 'CollidesRel2d'])
p('P24', 'Rect iteration visits each cell once, in the order asked for',
  'Iterating a rectangle visits every cell from min to max, both included, exactly once, row by row, in the x and y order that the variant names (north: y ascending, east: x ascending), and the direction-driven variants choose the same orders. '
  'A rectangle whose min exceeds its max has no cells; padding moves both corners outwards by the padding.',
  [I], 'all rectangles and paddings', 'No test iterates a rectangle; pad moved the maximum inwards.',
  ['src/utils/rect2.rs'], [('iterate_*', 'src/utils/rect2.rs'), ('pad', 'src/utils/rect2.rs')], ['Rect2i32::iterate', 'Rect2i32::pad'])
p('P25', 'Publishers keep and deliver every event, in order',
  'A Ledger holds exactly the notified events in their order; a HashsetLedger holds exactly the set of notified events. '
  'A CallbackPublisher calls every attached subscriber exactly once per event, in the order of attachment.',
  [H], 'all sequences of notifications and attachments', 'No test uses a publisher.',
  ['src/utils/publisher.rs'], [('Publisher::notify', 'src/utils/publisher.rs')], ['Publisher::notify'])
p('P26', 'Approximate equality is a tolerance relation; lerp interpolates',
  'approx_eq is reflexive on finite values, accepts values whose relative difference is within the tolerance and rejects those beyond it (vectors: relative to the longer one), never accepts NaN, and vectors compare symmetrically. '
  'lerp gives its first argument at 0, its second at 1, and moves linearly between.',
  [I], 'all numbers and vectors whose squares neither overflow nor underflow, all tolerances that are not negative',
  'Tests only use approx_eq as a helper; NaN vectors compared equal to zero.',
  ['src/utils/approx.rs', 'src/lib.rs'], [('Approx impls', 'src/utils/approx.rs'), ('Lerp', 'src/lib.rs')], ['Approx::approx_eq_tolerance', 'Lerp::lerp'])
p('P27', 'Polygon constructors and strict_check mean what they say',
  'Poly2d::new keeps the given points, the regular constructors give the requested number of vertices at equal angles on the circle of the radius (starting on the x axis, or upright on the y axis), and a box turns into the polygon of its four corners. '
  'strict_check is true exactly when every vertex is the farthest vertex along its own direction.',
  [I], 'all point lists, numbers of sides, radii and boxes', 'Tests construct two or three polygons.',
  [S + 'poly2d/mod.rs'], [('Poly2d constructors', S + 'poly2d/mod.rs')], ['Poly2d::new', 'Poly2d::regular', 'Poly2d::strict_check'])
p('P28', 'Saved tilemaps load back unchanged',
  'Loading a tilemap that was saved gives a tilemap with the same tile at every position and no events.',
  [H], 'all tilemaps', 'One test compares the number of chunks of one map.',
  [S + 'tilemap.rs'], [('save, load', S + 'tilemap.rs')], ['Tilemap::save', 'Tilemap::load'])
p('P29', '3D shapes and transforms obey the laws of the 2D ones',
  'The 3D module gives the same guarantees for boxes, balls, cylinders and points as the 2D module: exact verdicts, least separating moves and consistent transforms.',
  [I], 'all 3D shapes and transforms', 'The 3D feature has no tests that build.',
  ['src/col3d/mod.rs'], [('col3d', 'src/col3d/mod.rs')], ['col3d'])
