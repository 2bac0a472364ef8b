//! Stand-in for lighthouse's `safe_arith`.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum ArithError {
    Overflow,
    DivisionByZero,
}

impl std::fmt::Display for ArithError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            ArithError::Overflow => write!(f, "arithmetic overflow"),
            ArithError::DivisionByZero => write!(f, "division by zero"),
        }
    }
}
impl std::error::Error for ArithError {}

pub type Result<T> = std::result::Result<T, ArithError>;

macro_rules! assign_method {
    ($name:ident, $op:ident, $doc_op:expr) => {
        assign_method!($name, $op, Self, $doc_op);
    };
    ($name:ident, $op:ident, $rhs_ty:ty, $doc_op:expr) => {
        fn $name(&mut self, other: $rhs_ty) -> Result<()>;
    };
}

pub trait SafeArith<Rhs = Self>: Sized + Copy {
    const ZERO: Self;
    const ONE: Self;
    fn safe_add(&self, other: Rhs) -> Result<Self>;
    fn safe_sub(&self, other: Rhs) -> Result<Self>;
    fn safe_mul(&self, other: Rhs) -> Result<Self>;
    fn safe_div(&self, other: Rhs) -> Result<Self>;
    fn safe_rem(&self, other: Rhs) -> Result<Self>;
    fn safe_shl(&self, other: u32) -> Result<Self>;
    fn safe_shr(&self, other: u32) -> Result<Self>;
    assign_method!(safe_add_assign, safe_add, Rhs, "+=");
    assign_method!(safe_sub_assign, safe_sub, Rhs, "-=");
    assign_method!(safe_mul_assign, safe_mul, Rhs, "*=");
    assign_method!(safe_div_assign, safe_div, Rhs, "/=");
    assign_method!(safe_rem_assign, safe_rem, Rhs, "%=");
    fn safe_shl_assign(&mut self, other: u32) -> Result<()>;
    fn safe_shr_assign(&mut self, other: u32) -> Result<()>;
}

macro_rules! impl_safe_arith {
    ($t:ty) => {
        impl SafeArith for $t {
            const ZERO: Self = 0;
            const ONE: Self = 1;
            fn safe_add(&self, other: Self) -> Result<Self> {
                self.checked_add(other).ok_or(ArithError::Overflow)
            }
            fn safe_sub(&self, other: Self) -> Result<Self> {
                self.checked_sub(other).ok_or(ArithError::Overflow)
            }
            fn safe_mul(&self, other: Self) -> Result<Self> {
                self.checked_mul(other).ok_or(ArithError::Overflow)
            }
            fn safe_div(&self, other: Self) -> Result<Self> {
                self.checked_div(other).ok_or(ArithError::DivisionByZero)
            }
            fn safe_rem(&self, other: Self) -> Result<Self> {
                self.checked_rem(other).ok_or(ArithError::DivisionByZero)
            }
            fn safe_shl(&self, other: u32) -> Result<Self> {
                self.checked_shl(other).ok_or(ArithError::Overflow)
            }
            fn safe_shr(&self, other: u32) -> Result<Self> {
                self.checked_shr(other).ok_or(ArithError::Overflow)
            }
            fn safe_add_assign(&mut self, o: Self) -> Result<()> {
                *self = self.safe_add(o)?;
                Ok(())
            }
            fn safe_sub_assign(&mut self, o: Self) -> Result<()> {
                *self = self.safe_sub(o)?;
                Ok(())
            }
            fn safe_mul_assign(&mut self, o: Self) -> Result<()> {
                *self = self.safe_mul(o)?;
                Ok(())
            }
            fn safe_div_assign(&mut self, o: Self) -> Result<()> {
                *self = self.safe_div(o)?;
                Ok(())
            }
            fn safe_rem_assign(&mut self, o: Self) -> Result<()> {
                *self = self.safe_rem(o)?;
                Ok(())
            }
            fn safe_shl_assign(&mut self, o: u32) -> Result<()> {
                *self = self.safe_shl(o)?;
                Ok(())
            }
            fn safe_shr_assign(&mut self, o: u32) -> Result<()> {
                *self = self.safe_shr(o)?;
                Ok(())
            }
        }
    };
}
impl_safe_arith!(u8);
impl_safe_arith!(u16);
impl_safe_arith!(u32);
impl_safe_arith!(u64);
impl_safe_arith!(u128);
impl_safe_arith!(usize);
impl_safe_arith!(i8);
impl_safe_arith!(i16);
impl_safe_arith!(i32);
impl_safe_arith!(i64);
impl_safe_arith!(i128);
impl_safe_arith!(isize);

pub trait SafeArithIter<T> {
    fn safe_sum(self) -> Result<T>;
}
impl<I, T> SafeArithIter<T> for I
where
    I: Iterator<Item = T> + Sized,
    T: SafeArith,
{
    fn safe_sum(mut self) -> Result<T> {
        self.try_fold(T::ZERO, |acc, x| acc.safe_add(x))
    }
}
