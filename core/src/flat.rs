//! Flat (preorder) trees, the common form of observed and reference trees.

/// Trivia kinds, outside the grammar's symbol numbering.
pub const WS: u16 = 0xFFF0;
pub const CC: u16 = 0xFFF1;
pub const SC: u16 = 0xFFF2;
pub const ROOT: u16 = 0xFFF3;
pub const UNKNOWN: u16 = 0xFFFF;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct El {
    pub depth: u32,
    pub kind: u16,
    pub token: bool,
    pub start: u32,
    pub end: u32,
}

pub fn is_trivia(k: u16) -> bool {
    k == WS || k == CC || k == SC
}

/// Structure without trivia; node ranges are dropped (they depend on trivia placement), token ranges stay.
pub fn structure(v: &[El]) -> Vec<El> {
    v.iter()
        .filter(|e| !is_trivia(e.kind))
        .map(|e| if e.token { *e } else { El { start: 0, end: 0, ..*e } })
        .collect()
}

/// As `structure`, without any positions: kinds and nesting only.
pub fn shape(v: &[El]) -> Vec<(u32, u16)> {
    v.iter().filter(|e| !is_trivia(e.kind)).map(|e| (e.depth, e.kind)).collect()
}

/// Removes nodes that contain no token (the keep-empty build's extra nodes). Root is kept.
pub fn prune(v: &[El]) -> Vec<El> {
    let mut keep = vec![false; v.len()];
    // A node is kept when some token that is not trivia lies below it.
    let mut path: Vec<usize> = Vec::new();
    for (i, e) in v.iter().enumerate() {
        while path.last().is_some_and(|&p| v[p].depth >= e.depth) {
            path.pop();
        }
        if e.token {
            keep[i] = true;
            if !is_trivia(e.kind) {
                for &p in path.iter().rev() {
                    if keep[p] {
                        break;
                    }
                    keep[p] = true;
                }
            }
        } else {
            path.push(i);
        }
    }
    if !keep.is_empty() {
        keep[0] = true;
    }
    v.iter().zip(keep).filter(|(_, k)| *k).map(|(e, _)| *e).collect()
}

pub fn hash(v: &[El]) -> u64 {
    let mut h = 0x1234_5678u64;
    for e in v {
        h = crate::rng::mix(
            h ^ ((e.depth as u64) << 40) ^ ((e.kind as u64) << 24) ^ (e.token as u64) ^ ((e.start as u64) << 32 | e.end as u64).wrapping_mul(0x9E37_79B9),
        );
    }
    h
}
