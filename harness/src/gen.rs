//! Shared generators.
use crate::dict;
use proptest::prelude::*;

/// 64-bit values concentrated around every power of two, byte boundaries, the
/// ends of the signed and unsigned ranges, plus uniform ones.
pub fn edge_u64() -> BoxedStrategy<u64> {
    prop_oneof![
        3 => any::<u64>(),
        3 => (0u32..64, -3i64..=3, any::<bool>()).prop_map(|(k, d, neg)| {
            let v = (1u64 << k).wrapping_add(d as u64);
            if neg { v.wrapping_neg() } else { v }
        }),
        2 => 0u64..300,
        2 => (0u32..64).prop_flat_map(|bits| any::<u64>().prop_map(move |v| v >> bits)),
        1 => any::<u8>().prop_map(|b| u64::from_le_bytes([b; 8])),
        1 => Just(u64::MAX),
        1 => Just(0),
        1 => (any::<u64>(), 0usize..8).prop_map(|(v, k)| v & !(0xffu64 << (8 * k))),
        1 => dict::int(),
    ]
    .boxed()
}

pub fn edge_u32() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => any::<u32>(),
        3 => (0u32..32, -3i32..=3, any::<bool>()).prop_map(|(k, d, neg)| {
            let v = (1u32 << k).wrapping_add(d as u32);
            if neg { v.wrapping_neg() } else { v }
        }),
        2 => 0u32..300,
        2 => (0u32..32).prop_flat_map(|bits| any::<u32>().prop_map(move |v| v >> bits)),
        1 => any::<u8>().prop_map(|b| u32::from_le_bytes([b; 4])),
        1 => dict::int().prop_map(|v| v as u32),
        1 => Just(u32::MAX),
    ]
    .boxed()
}

pub fn edge_u16() -> BoxedStrategy<u16> {
    prop_oneof![
        3 => any::<u16>(),
        2 => (0u32..16, -2i16..=2).prop_map(|(k, d)| (1u16 << k).wrapping_add(d as u16)),
        1 => 0u16..300,
        1 => dict::int().prop_map(|v| v as u16),
        1 => Just(u16::MAX),
    ]
    .boxed()
}

/// Values worth trying for every 32-bit displacement / immediate.
pub fn edge_list_u32() -> Vec<u32> {
    let mut v: Vec<u32> = Vec::new();
    for k in 0..32 {
        for d in [-2i64, -1, 0, 1, 2] {
            let x = ((1i64 << k) + d) as u32;
            v.push(x);
            v.push(x.wrapping_neg());
        }
    }
    v.extend(dict::ints().iter().take(200).map(|v| *v as u32));
    v.extend([0x1234_5678, 0xdead_beef, 0x0102_0304, 0x8081_8283, 42]);
    v.sort();
    v.dedup();
    v
}
