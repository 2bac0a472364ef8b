use safe_arith::{ArithError, SafeArith};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::{Ord, Ordering, PartialEq, PartialOrd};
use std::fmt;
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Rem, RemAssign, Sub, SubAssign};

#[derive(Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd, Hash)]
#[repr(transparent)]
pub struct Slot(u64);
#[derive(Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd, Hash)]
#[repr(transparent)]
pub struct Epoch(u64);

macro_rules! math {
    ($main:ident, $other:ty) => {
        impl Add<$other> for $main {
            type Output = $main;
            fn add(self, o: $other) -> $main {
                $main(self.0.saturating_add(u64::from(o)))
            }
        }
        impl AddAssign<$other> for $main {
            fn add_assign(&mut self, o: $other) {
                *self = *self + o
            }
        }
        impl Sub<$other> for $main {
            type Output = $main;
            fn sub(self, o: $other) -> $main {
                $main(self.0.saturating_sub(u64::from(o)))
            }
        }
        impl SubAssign<$other> for $main {
            fn sub_assign(&mut self, o: $other) {
                *self = *self - o
            }
        }
        impl Mul<$other> for $main {
            type Output = $main;
            fn mul(self, o: $other) -> $main {
                $main(self.0.saturating_mul(u64::from(o)))
            }
        }
        impl MulAssign<$other> for $main {
            fn mul_assign(&mut self, o: $other) {
                *self = *self * o
            }
        }
        impl Div<$other> for $main {
            type Output = $main;
            fn div(self, o: $other) -> $main {
                let rhs: u64 = o.into();
                if rhs == 0 {
                    panic!("Cannot divide by zero-valued Slot/Epoch")
                }
                $main(self.0 / rhs)
            }
        }
        impl DivAssign<$other> for $main {
            fn div_assign(&mut self, o: $other) {
                *self = *self / o
            }
        }
        impl Rem<$other> for $main {
            type Output = $main;
            fn rem(self, o: $other) -> $main {
                let rhs: u64 = o.into();
                $main(self.0 % rhs)
            }
        }
        impl RemAssign<$other> for $main {
            fn rem_assign(&mut self, o: $other) {
                *self = *self % o
            }
        }
        impl SafeArith<$other> for $main {
            const ZERO: Self = $main(0);
            const ONE: Self = $main(1);
            fn safe_add(&self, o: $other) -> Result<Self, ArithError> {
                self.0.checked_add(u64::from(o)).map(Self).ok_or(ArithError::Overflow)
            }
            fn safe_sub(&self, o: $other) -> Result<Self, ArithError> {
                self.0.checked_sub(u64::from(o)).map(Self).ok_or(ArithError::Overflow)
            }
            fn safe_mul(&self, o: $other) -> Result<Self, ArithError> {
                self.0.checked_mul(u64::from(o)).map(Self).ok_or(ArithError::Overflow)
            }
            fn safe_div(&self, o: $other) -> Result<Self, ArithError> {
                self.0.checked_div(u64::from(o)).map(Self).ok_or(ArithError::DivisionByZero)
            }
            fn safe_rem(&self, o: $other) -> Result<Self, ArithError> {
                self.0.checked_rem(u64::from(o)).map(Self).ok_or(ArithError::DivisionByZero)
            }
            fn safe_shl(&self, o: u32) -> Result<Self, ArithError> {
                self.0.checked_shl(o).map(Self).ok_or(ArithError::Overflow)
            }
            fn safe_shr(&self, o: u32) -> Result<Self, ArithError> {
                self.0.checked_shr(o).map(Self).ok_or(ArithError::Overflow)
            }
            fn safe_add_assign(&mut self, o: $other) -> Result<(), ArithError> {
                *self = self.safe_add(o)?;
                Ok(())
            }
            fn safe_sub_assign(&mut self, o: $other) -> Result<(), ArithError> {
                *self = self.safe_sub(o)?;
                Ok(())
            }
            fn safe_mul_assign(&mut self, o: $other) -> Result<(), ArithError> {
                *self = self.safe_mul(o)?;
                Ok(())
            }
            fn safe_div_assign(&mut self, o: $other) -> Result<(), ArithError> {
                *self = self.safe_div(o)?;
                Ok(())
            }
            fn safe_rem_assign(&mut self, o: $other) -> Result<(), ArithError> {
                *self = self.safe_rem(o)?;
                Ok(())
            }
            fn safe_shl_assign(&mut self, o: u32) -> Result<(), ArithError> {
                self.0 = self.0.checked_shl(o).ok_or(ArithError::Overflow)?;
                Ok(())
            }
            fn safe_shr_assign(&mut self, o: u32) -> Result<(), ArithError> {
                self.0 = self.0.checked_shr(o).ok_or(ArithError::Overflow)?;
                Ok(())
            }
        }
    };
}

macro_rules! common {
    ($t:ident) => {
        math!($t, $t);
        math!($t, u64);

        impl From<u64> for $t {
            fn from(x: u64) -> $t {
                $t(x)
            }
        }
        impl From<$t> for u64 {
            fn from(x: $t) -> u64 {
                x.0
            }
        }
        impl PartialEq<u64> for $t {
            fn eq(&self, o: &u64) -> bool {
                self.0 == *o
            }
        }
        impl PartialOrd<u64> for $t {
            fn partial_cmp(&self, o: &u64) -> Option<Ordering> {
                self.0.partial_cmp(o)
            }
        }
        impl fmt::Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.0)
            }
        }
        impl fmt::Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}({:?})", stringify!($t), self.0)
            }
        }
        impl std::str::FromStr for $t {
            type Err = std::num::ParseIntError;
            fn from_str(s: &str) -> Result<Self, Self::Err> {
                s.parse().map($t)
            }
        }
        // as in lighthouse: a quoted decimal number
        impl Serialize for $t {
            fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_str(&self.0)
            }
        }
        impl<'de> Deserialize<'de> for $t {
            fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                crate::chain_spec::quoted_u64::deserialize(d).map($t)
            }
        }
        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn ssz_bytes_len(&self) -> usize {
                8
            }
            fn ssz_append(&self, b: &mut Vec<u8>) {
                self.0.ssz_append(b)
            }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool {
                true
            }
            fn ssz_fixed_len() -> usize {
                8
            }
            fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
                u64::from_ssz_bytes(b).map($t)
            }
        }
        impl tree_hash::TreeHash for $t {
            fn tree_hash_type() -> tree_hash::TreeHashType {
                tree_hash::TreeHashType::Basic
            }
            fn tree_hash_packed_encoding(&self) -> tree_hash::PackedEncoding {
                self.0.tree_hash_packed_encoding()
            }
            fn tree_hash_packing_factor() -> usize {
                4
            }
            fn tree_hash_root(&self) -> tree_hash::Hash256 {
                self.0.tree_hash_root()
            }
        }
        impl $t {
            pub const fn new(x: u64) -> $t {
                $t(x)
            }
            pub const fn as_u64(&self) -> u64 {
                self.0
            }
            pub fn as_usize(&self) -> usize {
                self.0 as usize
            }
            pub fn is_power_of_two(&self) -> bool {
                self.0.is_power_of_two()
            }
            pub fn saturating_add<T: Into<Self>>(&self, other: T) -> Self {
                $t(self.0.saturating_add(other.into().0))
            }
            pub fn saturating_sub<T: Into<Self>>(&self, other: T) -> Self {
                $t(self.0.saturating_sub(other.into().0))
            }
            pub fn saturating_mul<T: Into<Self>>(&self, other: T) -> Self {
                $t(self.0.saturating_mul(other.into().0))
            }
            pub fn saturating_div<T: Into<Self>>(&self, other: T) -> Self {
                $t(self.0.checked_div(other.into().0).unwrap_or(0))
            }
            pub fn saturating_pow(&self, exp: u32) -> Self {
                $t(self.0.saturating_pow(exp))
            }
            pub fn max_value() -> Self {
                $t(u64::MAX)
            }
        }
    };
}
common!(Slot);
common!(Epoch);

impl Slot {
    pub fn epoch(self, slots_per_epoch: u64) -> Epoch {
        Epoch::new(self.0).safe_div(slots_per_epoch).expect("slots_per_epoch is not 0")
    }
}

impl Epoch {
    pub fn start_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(self.0.saturating_mul(slots_per_epoch))
    }
    pub fn end_slot(self, slots_per_epoch: u64) -> Slot {
        Slot::new(self.0.saturating_mul(slots_per_epoch).saturating_add(slots_per_epoch.saturating_sub(1)))
    }
    pub fn position(self, slot: Slot, slots_per_epoch: u64) -> Option<usize> {
        let start = self.start_slot(slots_per_epoch);
        (slot >= start && slot <= self.end_slot(slots_per_epoch)).then(|| (slot.0 - start.0) as usize)
    }
    pub fn slot_iter(&self, slots_per_epoch: u64) -> impl DoubleEndedIterator<Item = Slot> {
        (self.start_slot(slots_per_epoch).0..=self.end_slot(slots_per_epoch).0).map(Slot)
    }
    pub fn sync_committee_period(&self, spec: &crate::ChainSpec) -> Result<u64, ArithError> {
        self.0.safe_div(spec.epochs_per_sync_committee_period.0)
    }
}
