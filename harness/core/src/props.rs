//! Which discrepancies belong to which property.
use crate::sim::{Cat, Class};

pub const CLAIMED: [u32; 16] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18];

pub fn cat_of(cat: Cat) -> u32 {
    match cat {
        Cat::MapPoint => 1,
        Cat::SetPoint | Cat::SetSingle | Cat::SetJoint | Cat::SetMixed => 3,
        Cat::MapSingle => 5,
        Cat::MapJoint => 6,
        Cat::MapMixed => 7,
        Cat::Read => 4,
        Cat::Drop | Cat::None => 9,
    }
}

pub fn owns(prop: u32, class: Class, cat: Cat, faulted: bool) -> bool {
    match class {
        Class::Result => prop == cat_of(cat),
        Class::Inconsistent => prop == 4 || prop == cat_of(cat),
        Class::Isolation => prop == 2 || (faulted && prop == 10),
        Class::Reduce => prop == 8,
        Class::Mem => prop == 9 || (faulted && prop == 10),
        Class::EqUnsound => prop == 11,
        Class::Share => prop == 12,
        Class::Refs => prop == 13,
        Class::Hang | Class::Panic => prop == 14 || prop == cat_of(cat) || (faulted && prop == 10),
        Class::Strategy => prop == 15,
        Class::Retry => prop == 10,
        Class::Cost => prop == 18,
        Class::Signal => true,
    }
}
