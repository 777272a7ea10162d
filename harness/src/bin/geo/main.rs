//! Bounding boxes, provided geometries and point types against exact integer geometry.
mod boxes;
mod shapes;
use harness::runner::{sc, Property};

fn main() {
    harness::runner::main(vec![
        Property {
            id: "C16",
            rule: "each case picks a point type (arrays of 1-9 dimensions, tuples, mint, user-defined; 12 scalar types), a grid and boxes that are degenerate, nested, touching, disjoint, equal, random or empty, and compares every box operation with integer geometry; non-trivial: the boxes differ and neither is empty; distinct by operands",
            scenarios: vec![sc("algebra", 30_000, 1_500_000, boxes::algebra), sc("sorting", 5_000, 200_000, boxes::sorting), sc("raw", 20_000, 1_000_000, boxes::raw)],
            required: &[("pairs", 100_000), ("touching_pairs", 5_000), ("empty_boxes", 5_000), ("sorted", 2_000), ("raw_pairs", 50_000), ("degenerate_boxes", 10_000)],
        },
        Property {
            id: "C17",
            rule: "each case picks a point type and shapes of it (points, rectangles, lines, also of zero size) and compares box, nearest point, distance, limited distance and containment with exact geometry (grid) or up to rounding (arbitrary floats); non-trivial: the query point is not on the shape; distinct by operands",
            scenarios: vec![sc("exact", 30_000, 1_500_000, shapes::exact), sc("lines", 30_000, 1_500_000, shapes::lines), sc("zero-length", 5_000, 100_000, shapes::zero)],
            required: &[("points", 20_000), ("rectangles", 20_000), ("grid_lines", 20_000), ("raw_lines", 50_000), ("zero_length", 5_000), ("contained", 10_000), ("limits", 100_000), ("on_line", 5_000)],
        },
    ]);
}
