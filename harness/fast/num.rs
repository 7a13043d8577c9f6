// Stand-in for the one item fast64 uses from the num crate
pub trait Bounded { fn min_value() -> Self; fn max_value() -> Self; }
impl Bounded for u32 { fn min_value() -> u32 { 0 } fn max_value() -> u32 { std::u32::MAX } }
impl Bounded for u64 { fn min_value() -> u64 { 0 } fn max_value() -> u64 { std::u64::MAX } }
