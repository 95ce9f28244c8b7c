//! The tilemap, its events and its coordinates; rectangles of tiles.
use crate::gen::*;
use crate::rt::*;
use auburn::col2d::*;
use auburn::utils::publisher::Ledger;
use glam::Vec2;
use auburn::utils::rect2::Rect2i32;
use lk_math::vector::V2i32;

input! { At { x: i32, y: i32 } }
impl At {
    pub fn v(self) -> V2i32 {
        V2i32::from_xy(self.x, self.y)
    }
    fn is(self, o: At) -> bool {
        (self.x == o.x) & (self.y == o.y)
    }
    /// The chunk and the place in it, by definition.
    fn chunk(self) -> (i32, i32) {
        (self.x.div_euclid(16), self.y.div_euclid(16))
    }
    fn local(self) -> (i32, i32) {
        (self.x.rem_euclid(16), self.y.rem_euclid(16))
    }
}
fn xy(v: V2i32) -> (i32, i32) {
    (v.x(), v.y())
}
/// A map after any operations. Its chunks have the shape of a new chunk.
pub struct Map {
    pub m: Tilemap,
}
impl Gen for Map {
    fn gen(s: &mut Src) -> Self {
        let mut m = Tilemap::default();
        let n = s.int(|s| s.below(16) as i64);
        for _ in 0..n {
            let (x, y) = (Near::gen(s), Near::gen(s));
            let t = s.int(|s| match s.below(8) {
                0 | 1 => 256,
                2 => s.below(256) as i64,
                _ => s.below(3) as i64,
            });
            let p = V2i32::from_xy(x.v, y.v);
            if t == 256 {
                m.remove_tile(p);
            } else {
                m.set_tile(p, t as u8);
            }
        }
        Map { m }
    }
}
/// A number that natively is close to the first chunks.
#[derive(Clone, Copy, Debug)]
pub struct Near {
    pub v: i32,
}
impl Gen for Near {
    fn gen(s: &mut Src) -> Self {
        let v = if s.below(32) == 0 { i32::gen(s) } else { s.int(|s| if s.flavour & 64 == 0 { s.below(4) as i64 - 1 } else { s.below(40) as i64 - 20 }) as i32 };
        Near { v }
    }
}
input! { Spot { x: Near, y: Near } }
impl Spot {
    fn at(self) -> At {
        At { x: self.x.v, y: self.y.v }
    }
}
fn shape_kept(m: &Tilemap, p: At) {
    if let Some(c) = m.get_chunk(&V2i32::from_xy(p.chunk().0, p.chunk().1)) {
        let new = Chunk::default();
        ensures("a chunk keeps its shape", (c.array2d.dims == new.array2d.dims) & (c.array2d.dim_strides == new.array2d.dim_strides) & (c.array2d.data.len() == new.array2d.data.len()));
    }
}

// ---------------------------------------------------------------- P20 the store
harness! { P20 new_map_is_empty(q: At) {
    ensures("no tile anywhere", Tilemap::default().get_tile(q.v()) == 0);
    ensures("no chunk anywhere", Tilemap::default().get_chunk(&q.v()).is_none());
    ensures("no events", Tilemap::default().events.events.is_empty());
    ensures("a new chunk has no tiles", Chunk::default().array2d.data.iter().all(|t| *t == 0));
}}
harness! { P20 set_tile_sets_one_tile(m: Map, p: Spot, t: u8, q: Spot) {
    let (mut m, p, q) = (m.m, p.at(), q.at());
    let before = m.get_tile(q.v());
    m.set_tile(p.v(), t);
    ensures("the tile is the one that was set, every other tile is as before", m.get_tile(q.v()) == if q.is(p) { t } else { before });
    shape_kept(&m, p);
    shape_kept(&m, q);
}}
harness! { P20 remove_tile_removes_one_tile(m: Map, p: Spot, q: Spot) {
    let (mut m, p, q) = (m.m, p.at(), q.at());
    let before = m.get_tile(q.v());
    m.remove_tile(p.v());
    ensures("the tile is gone, every other tile is as before", m.get_tile(q.v()) == if q.is(p) { 0 } else { before });
    shape_kept(&m, p);
    shape_kept(&m, q);
}}
harness! { P20 tile_is_stored_in_its_chunk(m: Map, p: Spot) {
    let p = p.at();
    let (c, l) = (p.chunk(), p.local());
    let t = m.m.get_tile(p.v());
    match m.m.get_chunk(&V2i32::from_xy(c.0, c.1)) {
        Some(k) => ensures("the tile at the place in the chunk", k.array2d.get(V2i32::from_xy(l.0, l.1)).is_some_and(|x| *x == t)),
        None => ensures("no chunk, no tile", t == 0),
    }
}}
bounded! { P20 histories(ops: Vec<Op>) {
    let mut m = Tilemap::default();
    let mut model = std::collections::HashMap::new();
    for o in &ops {
        let p = o.p.at();
        if o.remove {
            m.remove_tile(p.v());
            model.remove(&(p.x, p.y));
        } else {
            m.set_tile(p.v(), o.t);
            model.insert((p.x, p.y), o.t);
        }
    }
    for (k, t) in &model {
        ensures("every tile that was set", m.get_tile(V2i32::from_xy(k.0, k.1)) == *t);
    }
    for x in -20..20 {
        for y in -20..20 {
            ensures("every tile", m.get_tile(V2i32::from_xy(x, y)) == model.get(&(x, y)).copied().unwrap_or(0));
        }
    }
}}
input! { Op { p: Spot, t: u8, remove: bool } }

// ---------------------------------------------------------------- P21 events
fn fresh(m: Map) -> Tilemap {
    let mut m = m.m;
    m.events = Ledger::default();
    m
}
fn single(m: &Tilemap, kind: u8, c: (i32, i32)) -> bool {
    let e = &m.events.events;
    if e.len() != 1 {
        return false;
    }
    match &e[0] {
        TilemapEvent::ChunkCreated(k) => (kind == 0) & (xy(*k) == c),
        TilemapEvent::ChunkRemoved(k) => (kind == 1) & (xy(*k) == c),
        TilemapEvent::ChunkChanged(k) => (kind == 2) & (xy(*k) == c),
    }
}
harness! { P21 set_tile_notifies(m: Map, p: Spot, t: u8) {
    let (mut m, p) = (fresh(m), p.at());
    let c = p.chunk();
    let ck = V2i32::from_xy(c.0, c.1);
    let had = m.get_chunk(&ck).is_some();
    let old = m.get_tile(p.v());
    m.set_tile(p.v(), t);
    ensures("the chunk exists afterwards", m.get_chunk(&ck).is_some());
    if !had {
        ensures("a new chunk: ChunkCreated once", single(&m, 0, c));
    } else if old != t {
        ensures("another tile: ChunkChanged once", single(&m, 2, c));
    } else {
        ensures("the same tile: no event", m.events.events.is_empty());
    }
}}
harness! { P21 remove_tile_notifies(m: Map, p: Spot, q: Spot) {
    let (mut m, p, q) = (fresh(m), p.at(), q.at());
    let c = p.chunk();
    let ck = V2i32::from_xy(c.0, c.1);
    let had = m.get_chunk(&ck).is_some();
    let old = m.get_tile(p.v());
    let elsewhere = m.get_tile(q.v());
    m.remove_tile(p.v());
    match m.get_chunk(&ck) {
        Some(k) => {
            ensures("a chunk is not created", had);
            ensures("a chunk that stays has a tile", !k.array2d.data.iter().all(|t| *t == 0));
            if old != 0 {
                ensures("a tile went: ChunkChanged once", single(&m, 2, c));
            } else {
                ensures("no tile there: no event", m.events.events.is_empty());
            }
        }
        None => {
            ensures("a chunk that goes had no other tile", (q.chunk() != c) | q.is(p) | (elsewhere == 0));
            if had {
                ensures("the chunk went: ChunkRemoved once", single(&m, 1, c));
            } else {
                ensures("no chunk there: no event", m.events.events.is_empty());
            }
        }
    }
}}
harness! { P21 operations_keep_earlier_events_and_other_chunks(m: Map, p: Spot, q: Spot, t: u8, remove: bool, i: usize) {
    let (mut m, p, q) = (m.m, p.at(), q.at());
    requires!(q.chunk() != p.chunk());
    let n = m.events.events.len();
    requires!(i < n);
    let had = m.get_chunk(&V2i32::from_xy(q.chunk().0, q.chunk().1)).is_some();
    if remove {
        m.remove_tile(p.v());
    } else {
        m.set_tile(p.v(), t);
    }
    ensures("at most one event more", (m.events.events.len() == n) | (m.events.events.len() == n + 1));
    ensures("chunks elsewhere neither come nor go", m.get_chunk(&V2i32::from_xy(q.chunk().0, q.chunk().1)).is_some() == had);
}}
harness! { P21 reading_does_not_notify(m: Map, p: Spot, w: Vec2, h: Ext) {
    let m = fresh(m);
    let _ = m.get_tile(p.at().v());
    let _ = m.get_chunk(&p.at().v());
    let _ = m.world_to_tile_pos(&w);
    let _ = m.quantize(&Box2d::new(h.v()), &w);
    ensures("no event", m.events.events.is_empty());
}}

// ---------------------------------------------------------------- P22 coordinates
harness! { P22 tile_has_one_chunk_and_place(p: At) {
    let m = Tilemap::default();
    let (c, l) = m.tile_to_chunk_and_local_pos(&p.v());
    ensures("the place is inside of the chunk", (l.x() >= 0) & (l.x() < 16) & (l.y() >= 0) & (l.y() < 16));
    ensures("chunk and place make up the tile", (c.x() as i64 * 16 + l.x() as i64 == p.x as i64) & (c.y() as i64 * 16 + l.y() as i64 == p.y as i64));
    ensures("the chunk alone", xy(m.tile_to_chunk_pos(&p.v())) == xy(c));
}}
harness! { P22 tile_to_world_and_back(p: At) {
    requires!((p.x > -(1 << 23)) & (p.x < 1 << 23) & (p.y > -(1 << 23)) & (p.y < 1 << 23));
    let m = Tilemap::default();
    let w = m.tile_to_world_pos(&p.v());
    ensures("the tile's world position", (w.x == p.x as f32) & (w.y == p.y as f32));
    ensures("and back", xy(m.world_to_tile_pos(&w)) == (p.x, p.y));
}}
fn nearest(x: f32, t: i32) -> bool {
    (x - t as f32).abs() <= 0.5
}
harness! { P22 world_position_belongs_to_the_nearest_tile(w: Vec2, k: f32) {
    requires!((k >= 1.0) & (k <= 1000.0) & (w.x.abs() < 1000.0) & (w.y.abs() < 1000.0));
    let w = w * k;
    let t = Tilemap::default().world_to_tile_pos(&w);
    ensures("x", nearest(w.x, t.x()));
    ensures("y", nearest(w.y, t.y()));
}}
harness! { P22 quantize_spans_the_corners(h: Ext, w: Vec2) {
    requires!(h.ok() & (w.x.abs() < 1e6) & (w.y.abs() < 1e6) & (h.x.v < 1e6) & (h.y.v < 1e6));
    let m = Tilemap::default();
    let r = m.quantize(&Box2d::new(h.v()), &w);
    let (lo, hi) = (w - h.v(), w + h.v());
    ensures("the lowest tile", xy(r.min) == xy(m.world_to_tile_pos(&lo)));
    ensures("the highest tile", xy(r.max) == xy(m.world_to_tile_pos(&hi)));
    ensures("ordered", (r.min.x() <= r.max.x()) & (r.min.y() <= r.max.y()));
}}

// ---------------------------------------------------------------- P23 collision
harness! { P23 point_collides_with_tiles(m: Map, pos: Vec2) {
    let t = Transform2d::from_translation(pos);
    let tile = m.m.get_tile(m.m.world_to_tile_pos(&pos));
    ensures("collides where the tile is not 0", m.m.collides_rel(&Point, &t) == (tile != 0));
    ensures("whatever the type of the transform", m.m.collides_rel(&Point, &pos) == (tile != 0));
    ensures("penetrates where the tile is not 0", m.m.penetrates_rel(&Point, &pos).is_some() == (tile != 0));
}}
harness! { P23 point_collides_by_its_nearest_tile(m: Map, pos: Vec2, q: Spot) {
    let q = q.at();
    requires!(((pos.x - q.x as f32).abs() < 0.5) & ((pos.y - q.y as f32).abs() < 0.5));
    ensures("the nearest tile is the one around the point", xy(m.m.world_to_tile_pos(&pos)) == (q.x, q.y));
    ensures("the tile around the point decides", m.m.collides_rel(&Point, &pos) == (m.m.get_tile(q.v()) != 0));
}}
/// The only tile among those that the shape can reach, or any empty one of them.
fn only_tile(m: &Tilemap, h: Vec2, pos: Vec2, i: u8, j: u8) -> Option<At> {
    let r = m.quantize(&Box2d::new(h), &pos);
    let (x, y, w, h) = (r.min.x(), r.min.y(), r.max.x() - r.min.x(), r.max.y() - r.min.y());
    if (w > 1) | (h > 1) | (i as i32 > w) | (j as i32 > h) {
        return None;
    }
    for b in 0..=h {
        for a in 0..=w {
            if ((a != i as i32) | (b != j as i32)) && m.get_tile(V2i32::from_xy(x + a, y + b)) != 0 {
                return None;
            }
        }
    }
    Some(At { x: x + i as i32, y: y + j as i32 })
}
fn reach(h: Vec2, pos: Vec2) -> bool {
    (h.x < 0.5) & (h.y < 0.5) & (pos.x.abs() < 1e6) & (pos.y.abs() < 1e6)
}
fn resolved(m: &Tilemap, q: At, pos: Vec2, v: Option<Vec2>) -> Vec2 {
    match v {
        Some(v) if m.get_tile(q.v()) != 0 => pos + v,
        _ => pos,
    }
}
// The answers of penetrates_rel and get_tile may be any function of their arguments here:
// P07, P09 and P17 are about the former, P20 and P21 about the latter.
harness! { P23 resolve_box_moves_out_of_the_only_tile(m: Map, h: Ext, pos: Vec2, dir: Vec2, i: bool, j: bool) {
    let (i, j) = (i as u8, j as u8);
    uninterpreted("PenetratesRel2d");
    uninterpreted("get_tile");
    let m = m.m;
    let h = Ext { x: Len { v: h.x.v * 0.125 }, y: Len { v: h.y.v * 0.125 } };
    requires!(h.ok() & reach(h.v(), pos));
    let q = only_tile(&m, h.v(), pos, i, j);
    requires!(q.is_some());
    let q = q.unwrap_or(At { x: 0, y: 0 });
    let b = Box2d::new(h.v());
    let p = m.simple_resolve_box(&b, pos, &dir);
    let v = b.penetrates_rel(&Box2d::with_halfdims(0.5, 0.5), &(Vec2::new(q.x as f32, q.y as f32) - pos));
    ensures("the move out of the tile, or none", eqv(p, resolved(&m, q, pos, v), 64.0));
}}
harness! { P23 resolve_ball_moves_out_of_the_only_tile(m: Map, r: Len, pos: Vec2, dir: Vec2, i: bool, j: bool) {
    let (i, j) = (i as u8, j as u8);
    uninterpreted("PenetratesRel2d");
    uninterpreted("get_tile");
    let m = m.m;
    let r = Len { v: r.v * 0.125 };
    requires!(r.ok() & reach(Vec2::new(r.v, r.v), pos));
    let q = only_tile(&m, Vec2::new(r.v, r.v), pos, i, j);
    requires!(q.is_some());
    let q = q.unwrap_or(At { x: 0, y: 0 });
    let b = Ball::with_radius(r.v);
    let p = m.simple_resolve_ball(&b, pos, &dir);
    let v = b.penetrates_rel(&Box2d::with_halfdims(0.5, 0.5), &(Vec2::new(q.x as f32, q.y as f32) - pos));
    ensures("the move out of the tile, or none", eqv(p, resolved(&m, q, pos, v), 64.0));
}}
/// A map with a single tile and a shape of any size: what penetrates_rel answers for that tile
/// is what moves the shape, whatever the order in which the tiles in reach are visited.
fn single_tile(q: At, t: u8, h: Vec2, pos: Vec2, dir: Vec2, flip_x: bool, flip_y: bool, depth: impl Fn(&Vec2) -> Option<Vec2>, resolve: impl Fn(&Tilemap) -> Vec2) {
    let near = |a: i32| (a > -(1 << 22)) & (a < 1 << 22);
    requires!((h.x >= 0.0) & (h.y >= 0.0) & (h.x < 1e6) & (h.y < 1e6) & (pos.x.abs() < 1e6) & (pos.y.abs() < 1e6));
    requires!(near(q.x) & near(q.y) & (t > 0) & affordable((h.x < 100.0) & (h.y < 100.0)));
    requires!(((dir.x < 0.0) == flip_x) & ((dir.y < 0.0) == flip_y));
    let mut m = Tilemap::default();
    m.set_tile(q.v(), t);
    let r = m.quantize(&Box2d::new(h), &pos);
    let v = depth(&(Vec2::new(q.x as f32, q.y as f32) - pos));
    let within = (q.x >= r.min.x()) & (q.x <= r.max.x()) & (q.y >= r.min.y()) & (q.y <= r.max.y());
    let moved = match v {
        Some(v) if within => pos + v,
        _ => pos,
    };
    let later = move |flip: bool, a: i32, b: i32| if flip { a < b } else { a > b };
    invariant3("not yet there", move |p: Vec2, x: i32, y: i32| later(flip_y, y, q.y) | ((y == q.y) & later(flip_x, x, q.x)) | (p == pos));
    invariant3("behind it", move |p: Vec2, x: i32, y: i32| later(flip_y, q.y, y) | ((y == q.y) & !later(flip_x, x, q.x)) | (p == moved));
    let p = resolve(&m);
    ensures("out of the tile, or nowhere", eqv(p, moved, 64.0));
}
fn single_tile_box(q: At, t: u8, h: Ext, pos: Vec2, dir: Vec2, flip_x: bool, flip_y: bool) {
    uninterpreted("PenetratesRel2d");
    let b = Box2d::new(h.v());
    let tile = Box2d::with_halfdims(0.5, 0.5);
    single_tile(q, t, h.v(), pos, dir, flip_x, flip_y, |d| b.penetrates_rel(&tile, d), |m| m.simple_resolve_box(&b, pos, &dir));
}
fn single_tile_ball(q: At, t: u8, r: Len, pos: Vec2, dir: Vec2, flip_x: bool, flip_y: bool) {
    uninterpreted("PenetratesRel2d");
    let b = Ball::with_radius(r.v);
    let tile = Box2d::with_halfdims(0.5, 0.5);
    single_tile(q, t, Vec2::new(r.v, r.v), pos, dir, flip_x, flip_y, |d| b.penetrates_rel(&tile, d), |m| m.simple_resolve_ball(&b, pos, &dir));
}
harness! { P23 resolve_box_north_east(q: At, t: u8, h: Ext, pos: Vec2, dir: Vec2) {
    single_tile_box(q, t, h, pos, dir, false, false);
}}
harness! { P23 resolve_ball_north_east(q: At, t: u8, r: Len, pos: Vec2, dir: Vec2) {
    single_tile_ball(q, t, r, pos, dir, false, false);
}}
harness! { P23 resolve_box_south_east(q: At, t: u8, h: Ext, pos: Vec2, dir: Vec2) {
    single_tile_box(q, t, h, pos, dir, false, true);
}}
harness! { P23 resolve_ball_south_east(q: At, t: u8, r: Len, pos: Vec2, dir: Vec2) {
    single_tile_ball(q, t, r, pos, dir, false, true);
}}
harness! { P23 resolve_box_south_west(q: At, t: u8, h: Ext, pos: Vec2, dir: Vec2) {
    single_tile_box(q, t, h, pos, dir, true, true);
}}
harness! { P23 resolve_ball_south_west(q: At, t: u8, r: Len, pos: Vec2, dir: Vec2) {
    single_tile_ball(q, t, r, pos, dir, true, true);
}}
harness! { P23 resolve_box_north_west(q: At, t: u8, h: Ext, pos: Vec2, dir: Vec2) {
    single_tile_box(q, t, h, pos, dir, true, false);
}}
harness! { P23 resolve_ball_north_west(q: At, t: u8, r: Len, pos: Vec2, dir: Vec2) {
    single_tile_ball(q, t, r, pos, dir, true, false);
}}
// Shapes this far apart do not overlap: P16 and P17 say what penetrates_rel makes of that.
harness! { P23 tiles_out_of_reach_are_apart(h: Ext, pos: Vec2, q: At) {
    let h = h.v();
    requires!((h.x >= 0.0) & (h.y >= 0.0) & (h.x < 1e3) & (h.y < 1e3) & (pos.x.abs() < 1e3) & (pos.y.abs() < 1e3));
    requires!((q.x > -4000) & (q.x < 4000) & (q.y > -4000) & (q.y < 4000));
    let r = Tilemap::default().quantize(&Box2d::new(h), &pos);
    let d = (Vec2::new(q.x as f32, q.y as f32) - pos).abs();
    if (q.x < r.min.x()) | (q.x > r.max.x()) {
        ensures("apart in x", le(h.x + 0.5, d.x, 1e4));
    }
    if (q.y < r.min.y()) | (q.y > r.max.y()) {
        ensures("apart in y", le(h.y + 0.5, d.y, 1e4));
    }
}}
bounded! { P23 resolve_box_geometry(m: Map, h: Ext, pos: Vec2, dir: Vec2) {
    // boxes of a size at which several tiles are in reach, at most one of which is overlapped
    let (m, h) = (m.m, h.v() * 0.5);
    requires!((h.x > 0.01) & (h.y > 0.01) & (h.max_element() + pos.abs().max_element() < 7.5));
    let (mut hit, mut touching) = (None, 0);
    for x in -8..9 {
        for y in -8..9 {
            if m.get_tile(V2i32::from_xy(x, y)) != 0 {
                let o = Vec2::new(h.x + 0.5 - (pos.x - x as f32).abs(), h.y + 0.5 - (pos.y - y as f32).abs());
                if o.min_element() > 1e-3 {
                    requires!(hit.is_none());
                    hit = Some(o);
                } else if o.min_element() > -1e-3 {
                    touching += 1;
                }
            }
        }
    }
    let p = m.simple_resolve_box(&Box2d::new(h), pos, &dir);
    match hit {
        None => {
            requires!(touching == 0);
            ensures("no tile, no move", p == pos);
        }
        Some(o) => {
            requires!((touching == 0) & (p - pos).is_finite());
            let d = p - pos;
            let mut still = vec![];
            let mut others = 0;
            for x in -8..9 {
                for y in -8..9 {
                    if m.get_tile(V2i32::from_xy(x, y)) != 0 {
                        let s = Vec2::new(h.x + 0.5 - (p.x - x as f32).abs(), h.y + 0.5 - (p.y - y as f32).abs()).min_element();
                        let w = Vec2::new(h.x + 0.5 - (pos.x - x as f32).abs(), h.y + 0.5 - (pos.y - y as f32).abs()).min_element();
                        if w > 0.0 {
                            still.push(s);
                        } else if w > -1.1 * o.min_element() - 0.01 {
                            others += 1;
                        }
                    }
                }
            }
            requires!(others == 0);
            ensures("out of the tile", still.iter().all(|s| *s < 2e-3));
            ensures("by the least move", d.length() < o.min_element() * 1.05 + 2e-3);
        }
    }
}}
bounded! { P23 resolve_ball_geometry(m: Map, r: Len, pos: Vec2, dir: Vec2) {
    let (m, r) = (m.m, r.v * 0.3);
    requires!((r > 0.01) & (r + pos.abs().max_element() < 7.5));
    // how deep the ball is in a tile, by the distance of its centre from the tile
    let depth = |p: Vec2, x: i32, y: i32| {
        let d = (p - Vec2::new(x as f32, y as f32)).abs() - 0.5;
        r - if d.max_element() <= 0.0 { d.max_element() } else { d.max(Vec2::ZERO).length() }
    };
    let (mut hit, mut touching) = (None, 0);
    for x in -8..9 {
        for y in -8..9 {
            if m.get_tile(V2i32::from_xy(x, y)) != 0 {
                let o = depth(pos, x, y);
                if o > 1e-3 {
                    requires!(hit.is_none());
                    hit = Some((o, x, y));
                } else if o > -1e-3 {
                    touching += 1;
                }
            }
        }
    }
    requires!(touching == 0);
    let p = m.simple_resolve_ball(&Ball::with_radius(r), pos, &dir);
    match hit {
        None => ensures("no tile, no move", p == pos),
        Some((o, tx, ty)) => {
            let mut others = 0;
            for x in -8..9 {
                for y in -8..9 {
                    if (x != tx) | (y != ty) && m.get_tile(V2i32::from_xy(x, y)) != 0 && depth(pos, x, y) > -1.1 * o - 0.01 {
                        others += 1;
                    }
                }
            }
            requires!(others == 0);
            ensures("out of the tile", depth(p, tx, ty).abs() < 0.04 * (1.0 + o));
            ensures("by the least move", ((p - pos).length() - o).abs() < 0.04 * (1.0 + o));
        }
    }
}}

// ---------------------------------------------------------------- P24 rectangles
/// The tiles of a rectangle, row by row: every tile once and nothing else.
fn rows(mut it: impl Iterator<Item = V2i32>, min: At, w: i32, h: i32, flip_x: bool, flip_y: bool) {
    for j in 0..h {
        for i in 0..w {
            let x = if flip_x { min.x + (w - 1 - i) } else { min.x + i };
            let y = if flip_y { min.y + (h - 1 - j) } else { min.y + j };
            match it.next() {
                Some(p) => ensures("the next tile", (p.x() == x) & (p.y() == y)),
                None => ensures("no tile is left out", false),
            }
        }
    }
    ensures("nothing else", it.next().is_none());
}
fn rect(min: At, w: i32, h: i32) -> Rect2i32 {
    Rect2i32::min_max(min.v(), V2i32::from_xy(min.x - 1 + w, min.y - 1 + h))
}
fn fits(min: At, w: i32, h: i32) -> bool {
    (min.x as i64 + w as i64 - 1 <= i32::MAX as i64) & (min.y as i64 + h as i64 - 1 <= i32::MAX as i64) & (min.x > i32::MIN) & (min.y > i32::MIN)
}
harness! { P24 pad_moves_both_corners(min: At, max: At, p: At) {
    let within = |a: At, b: i32| (a.x <= b) & (a.x >= -b) & (a.y <= b) & (a.y >= -b);
    requires!(within(p, 1 << 20) & within(min, 1 << 30) & within(max, 1 << 30));
    let r = Rect2i32::min_max(min.v(), max.v());
    ensures("the corners as given", (xy(r.min) == (min.x, min.y)) & (xy(r.max) == (max.x, max.y)));
    let r = r.pad(p.v());
    ensures("the minimum goes down", xy(r.min) == (min.x - p.x, min.y - p.y));
    ensures("the maximum goes up", xy(r.max) == (max.x + p.x, max.y + p.y));
}}
harness! { P24 empty_rects(min: At, max: At, order: u8) {
    requires!((min.x > max.x) | (min.y > max.y));
    requires!((min.y > max.y) | affordable(max.y as i64 - (min.y as i64) < 300));
    let r = Rect2i32::min_max(min.v(), max.v());
    let none = if order == 0 {
        r.iterate_north_east().next().is_none()
    } else if order == 1 {
        r.iterate_south_east().next().is_none()
    } else if order == 2 {
        r.iterate_south_west().next().is_none()
    } else if order == 3 {
        r.iterate_north_west().next().is_none()
    } else {
        r.iterate().next().is_none()
    };
    ensures("no cells", none);
}}
bounded! { P24 rect_iterate(min: At, w: i32, h: i32, order: u8) {
    let (w, h) = (w.rem_euclid(40), h.rem_euclid(40));
    requires!(fits(min, w, h));
    let r = rect(min, w, h);
    let sign = order >> 6;
    match order % 7 {
        0 => rows(r.iterate_north_east(), min, w, h, false, false),
        1 => rows(r.iterate_south_east(), min, w, h, false, true),
        2 => rows(r.iterate_south_west(), min, w, h, true, true),
        3 => rows(r.iterate_north_west(), min, w, h, true, false),
        4 => rows(r.iterate(), min, w, h, false, false),
        5 => rows(r.iterate_boxed(sign & 1 != 0, sign & 2 != 0), min, w, h, sign & 1 != 0, sign & 2 != 0),
        _ => {
            let (dx, dy) = (if sign & 1 != 0 { -0.5 } else { 0.5 }, if sign & 2 != 0 { -1e-3 } else { 0.0 });
            rows(r.iterate_with_direction_f32(dx, dy), min, w, h, dx < 0.0, dy < 0.0)
        }
    }
}}
/// Runs an iteration to its end: row by row, from one corner to the one across.
fn walk(mut it: impl Iterator<Item = V2i32>, min: At, max: At, flip_x: bool, flip_y: bool) {
    let (first_x, last_x, step_x) = if flip_x { (max.x, min.x, -1) } else { (min.x, max.x, 1) };
    let (first_y, last_y, step_y) = if flip_y { (max.y, min.y, -1) } else { (min.y, max.y, 1) };
    let Some(p) = it.next() else {
        ensures("the first cell", false);
        return;
    };
    let (mut x, mut y) = xy(p);
    ensures("the first cell", (x, y) == (first_x, first_y));
    for p in it {
        ensures("nothing after the last cell", (x, y) != (last_x, last_y));
        if x != last_x {
            ensures("the next cell of the row", xy(p) == (x.wrapping_add(step_x), y));
        } else {
            ensures("the first cell of the next row", xy(p) == (first_x, y.wrapping_add(step_y)));
        }
        (x, y) = xy(p);
    }
    ensures("the last cell", (x, y) == (last_x, last_y));
}
fn cells(min: At, max: At) -> bool {
    let few = |a: i32, b: i32| b as i64 - (a as i64) < 300;
    (min.x <= max.x) & (min.y <= max.y) & affordable(few(min.x, max.x) & few(min.y, max.y))
}
harness! { P24 iterate_all(min: At, max: At) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate(), min, max, false, false);
}}
harness! { P24 iterate_north_east_all(min: At, max: At) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate_north_east(), min, max, false, false);
}}
harness! { P24 iterate_south_east_all(min: At, max: At) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate_south_east(), min, max, false, true);
}}
harness! { P24 iterate_south_west_all(min: At, max: At) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate_south_west(), min, max, true, true);
}}
harness! { P24 iterate_north_west_all(min: At, max: At) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate_north_west(), min, max, true, false);
}}
harness! { P24 iterate_boxed_all(min: At, max: At, flip_x: bool, flip_y: bool) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate_boxed(flip_x, flip_y), min, max, flip_x, flip_y);
}}
harness! { P24 iterate_with_direction_all(min: At, max: At, dx: f32, dy: f32) {
    requires!(cells(min, max));
    walk(Rect2i32::min_max(min.v(), max.v()).iterate_with_direction_f32(dx, dy), min, max, dx < 0.0, dy < 0.0);
}}

// ---------------------------------------------------------------- P28 saving and loading
/// A name for a file of this run.
fn scratch() -> &'static str {
    use std::sync::OnceLock;
    static NAME: OnceLock<String> = OnceLock::new();
    NAME.get_or_init(|| {
        let dir = std::env::var("NATIVE_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        dir.join(format!("auburn-specs-{}.json", std::process::id())).to_str().unwrap().to_string()
    })
}
bounded! { P28 saved_and_loaded(ops: Vec<Op>, before: Vec<Op>) {
    requires!((ops.len() < 100) & (before.len() < 100));
    let name = scratch();
    let build = |ops: &[Op]| {
        let mut m = Tilemap::default();
        for o in ops {
            if o.remove {
                m.remove_tile(o.p.at().v());
            } else {
                m.set_tile(o.p.at().v(), o.t);
            }
        }
        m
    };
    // what is in the file already does not matter
    let old = build(&before);
    let first = old.save(name).is_ok();
    let m = build(&ops);
    let events = m.events.events.len();
    let saved = m.save(name).is_ok();
    let back = Tilemap::load(name);
    let _ = std::fs::remove_file(name);
    ensures("saving succeeds", first & saved);
    ensures("saving leaves the events alone", m.events.events.len() == events);
    match back {
        Ok(n) => {
            ensures("a loaded map has no events", n.events.events.is_empty());
            let all = ops.iter().chain(&before).map(|o| o.p.at().v()).chain((-20..20).flat_map(|x| (-20..20).map(move |y| V2i32::from_xy(x, y))));
            for p in all {
                ensures("the same tile everywhere", n.get_tile(p) == m.get_tile(p));
                let c = V2i32::from_xy(p.x().div_euclid(16), p.y().div_euclid(16));
                ensures("the same chunks", n.get_chunk(&c).is_some() == m.get_chunk(&c).is_some());
            }
            // and goes on like the saved one
            let (mut m, mut n) = (m, n);
            for o in &before {
                n.set_tile(o.p.at().v(), o.t);
                m.set_tile(o.p.at().v(), o.t);
                ensures("the same after more changes", n.get_tile(o.p.at().v()) == o.t);
            }
            ensures("the same events after more changes", n.events.events.len() == m.events.events.len() - events);
        }
        Err(_) => ensures("loading succeeds", false),
    }
}}
bounded! { P28 no_file_no_map(x: bool) {
    ensures("loading what was not saved fails", x | Tilemap::load("/nonexistent/auburn-specs").is_err());
}}
