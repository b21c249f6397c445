//! Offline stand-in for `github.com/aldrin-exchange/solana-decimal` 0.4.0,
//! which this sandbox cannot fetch. It implements the API the two programs use
//! from its observable contract: 18 decimal places stored in an unsigned 192
//! bit integer, intermediates computed in full width, every result truncated
//! toward zero, every overflow/underflow/division by zero an error. It is
//! checked against every numeric expectation the repository's own unit tests
//! state (see /verif/bin/selftest).

use anchor_lang::prelude::*;
use std::cmp::Ordering;
use std::fmt;

#[error_code]
pub enum DecimalError {
    #[msg("Math operation with Decimal overflown")]
    MathOverflow,
}
pub use DecimalError as ErrorCode;

pub const SCALE: usize = 18;
pub const WAD: u64 = 1_000_000_000_000_000_000;
pub const HALF_WAD: u64 = 500_000_000_000_000_000;
pub const PERCENT_SCALER: u64 = 10_000_000_000_000_000;
pub const PERMILLION_SCALER: u64 = 1_000_000_000_000;

const W: usize = 8;
type Wide = [u64; W];

fn wide(v: &[u64; 3]) -> Wide {
    let mut w = [0; W];
    w[..3].copy_from_slice(v);
    w
}

fn wide_u64(v: u64) -> Wide {
    let mut w = [0; W];
    w[0] = v;
    w
}

fn narrow(w: &Wide) -> Option<U192> {
    if w[3..].iter().any(|l| *l != 0) {
        None
    } else {
        Some(U192([w[0], w[1], w[2]]))
    }
}

fn bits(w: &Wide) -> u32 {
    for i in (0..W).rev() {
        if w[i] != 0 {
            return i as u32 * 64 + 64 - w[i].leading_zeros();
        }
    }
    0
}

fn cmp(a: &Wide, b: &Wide) -> Ordering {
    for i in (0..W).rev() {
        match a[i].cmp(&b[i]) {
            Ordering::Equal => (),
            o => return o,
        }
    }
    Ordering::Equal
}

fn add(a: &Wide, b: &Wide) -> Wide {
    let mut out = [0; W];
    let mut carry = 0u128;
    for i in 0..W {
        let s = a[i] as u128 + b[i] as u128 + carry;
        out[i] = s as u64;
        carry = s >> 64;
    }
    out
}

fn sub(a: &Wide, b: &Wide) -> Wide {
    let mut out = [0; W];
    let mut borrow = 0i128;
    for i in 0..W {
        let mut d = a[i] as i128 - b[i] as i128 - borrow;
        borrow = 0;
        if d < 0 {
            d += 1i128 << 64;
            borrow = 1;
        }
        out[i] = d as u64;
    }
    out
}

/// The operands never have more than W limbs between them.
fn mul(a: &Wide, b: &Wide) -> Wide {
    let mut out = [0; W];
    for i in 0..W {
        if a[i] == 0 {
            continue;
        }
        let mut carry = 0u128;
        for j in 0..W - i {
            let t = a[i] as u128 * b[j] as u128 + out[i + j] as u128 + carry;
            out[i + j] = t as u64;
            carry = t >> 64;
        }
    }
    out
}

fn shl1(a: &Wide) -> Wide {
    let mut out = [0; W];
    let mut carry = 0;
    for i in 0..W {
        out[i] = (a[i] << 1) | carry;
        carry = a[i] >> 63;
    }
    out
}

fn bit(a: &Wide, i: u32) -> u64 {
    (a[(i / 64) as usize] >> (i % 64)) & 1
}

fn div_rem(a: &Wide, b: &Wide) -> Option<(Wide, Wide)> {
    let nb = bits(b);
    if nb == 0 {
        return None;
    }
    if nb <= 64 {
        let d = b[0] as u128;
        let mut out = [0; W];
        let mut rem = 0u128;
        for i in (0..W).rev() {
            let cur = (rem << 64) | a[i] as u128;
            out[i] = (cur / d) as u64;
            rem = cur % d;
        }
        return Some((out, wide_u64(rem as u64)));
    }
    let mut q = [0; W];
    let mut r = [0; W];
    for i in (0..bits(a)).rev() {
        r = shl1(&r);
        r[0] |= bit(a, i);
        if cmp(&r, b) != Ordering::Less {
            r = sub(&r, b);
            q[(i / 64) as usize] |= 1 << (i % 64);
        }
    }
    Some((q, r))
}

fn isqrt(a: &Wide) -> Wide {
    let n = bits(a);
    let mut root = [0; W];
    for i in (0..=(n / 2)).rev() {
        let mut cand = root;
        cand[(i / 64) as usize] |= 1 << (i % 64);
        if cmp(&mul(&cand, &cand), a) != Ordering::Greater {
            root = cand;
        }
    }
    root
}

fn to_dec_string(mut w: Wide) -> String {
    let ten = wide_u64(10);
    let mut digits = vec![];
    loop {
        let (q, r) = div_rem(&w, &ten).unwrap();
        digits.push(b'0' + r[0] as u8);
        w = q;
        if bits(&w) == 0 {
            break;
        }
    }
    digits.reverse();
    String::from_utf8(digits).unwrap()
}

/// Little endian limbs.
#[derive(Clone, Copy, Default, PartialEq, Eq, Hash)]
pub struct U192(pub [u64; 3]);

impl U192 {
    pub const MAX: Self = Self([u64::MAX; 3]);

    pub fn zero() -> Self {
        Self([0; 3])
    }

    pub fn one() -> Self {
        Self([1, 0, 0])
    }

    pub fn is_zero(&self) -> bool {
        self.0 == [0; 3]
    }

    pub fn as_u64(&self) -> u64 {
        if self.0[1] != 0 || self.0[2] != 0 {
            panic!("Integer overflow when casting to u64");
        }
        self.0[0]
    }

    pub fn as_u128(&self) -> u128 {
        if self.0[2] != 0 {
            panic!("Integer overflow when casting to u128");
        }
        self.low_u128()
    }

    pub fn low_u64(&self) -> u64 {
        self.0[0]
    }

    pub fn low_u128(&self) -> u128 {
        self.0[0] as u128 | ((self.0[1] as u128) << 64)
    }

    pub fn checked_add(self, rhs: Self) -> Option<Self> {
        narrow(&add(&wide(&self.0), &wide(&rhs.0)))
    }

    pub fn checked_sub(self, rhs: Self) -> Option<Self> {
        if self < rhs {
            None
        } else {
            narrow(&sub(&wide(&self.0), &wide(&rhs.0)))
        }
    }

    pub fn checked_mul(self, rhs: Self) -> Option<Self> {
        narrow(&mul(&wide(&self.0), &wide(&rhs.0)))
    }

    pub fn checked_div(self, rhs: Self) -> Option<Self> {
        narrow(&div_rem(&wide(&self.0), &wide(&rhs.0))?.0)
    }
}

impl PartialOrd for U192 {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for U192 {
    fn cmp(&self, other: &Self) -> Ordering {
        cmp(&wide(&self.0), &wide(&other.0))
    }
}

impl From<u64> for U192 {
    fn from(v: u64) -> Self {
        Self([v, 0, 0])
    }
}

impl From<u128> for U192 {
    fn from(v: u128) -> Self {
        Self([v as u64, (v >> 64) as u64, 0])
    }
}

impl fmt::Display for U192 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&to_dec_string(wide(&self.0)))
    }
}

impl fmt::Debug for U192 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

pub trait TryAdd<RHS>: Sized {
    type Output;
    fn try_add(self, rhs: RHS) -> Result<Self::Output>;
}
pub trait TrySub<RHS>: Sized {
    type Output;
    fn try_sub(self, rhs: RHS) -> Result<Self::Output>;
}
pub trait TryMul<RHS>: Sized {
    type Output;
    fn try_mul(self, rhs: RHS) -> Result<Self::Output>;
}
pub trait TryDiv<RHS>: Sized {
    type Output;
    fn try_div(self, rhs: RHS) -> Result<Self::Output>;
}
pub trait TryPow<RHS>: Sized {
    type Output;
    fn try_pow(self, rhs: RHS) -> Result<Self::Output>;
}
pub trait TrySqrt: Sized {
    type Output;
    fn try_sqrt(self) -> Result<Self::Output>;
}
pub trait TryRound<T>: Sized {
    fn try_round(self) -> Result<T>;
    fn try_ceil(self) -> Result<T>;
    fn try_floor(self) -> Result<T>;
}
pub trait ScaledVal {
    fn to_scaled_val(&self) -> Result<u128>;
}
pub trait AlmostEq {
    /// Whether the two differ by less than `10^precision` scaled units.
    fn almost_eq(&self, other: &Self, precision: u32) -> bool;
}

#[derive(Clone, Copy, Default, PartialEq, PartialOrd, Eq, Ord, Hash)]
pub struct Decimal(pub U192);

#[inline]
fn overflow<T>() -> Result<T> {
    msg!("Decimal math overflow");
    Err(error!(DecimalError::MathOverflow))
}

fn ok(v: Option<U192>) -> Result<Decimal> {
    match v {
        Some(v) => Ok(Decimal(v)),
        None => overflow(),
    }
}

impl Decimal {
    pub fn one() -> Self {
        Self(U192::from(WAD))
    }

    pub fn zero() -> Self {
        Self(U192::zero())
    }

    pub fn from_percent(percent: impl Into<u64>) -> Self {
        Self(U192::from(percent.into() as u128 * PERCENT_SCALER as u128))
    }

    pub fn from_permillion(permillion: impl Into<u64>) -> Self {
        Self(U192::from(
            permillion.into() as u128 * PERMILLION_SCALER as u128,
        ))
    }

    pub fn from_scaled_val(scaled_val: u128) -> Self {
        Self(U192::from(scaled_val))
    }

    pub fn to_scaled_val(&self) -> Result<u128> {
        ScaledVal::to_scaled_val(self)
    }
}

impl ScaledVal for Decimal {
    fn to_scaled_val(&self) -> Result<u128> {
        if self.0 .0[2] != 0 {
            return overflow();
        }
        Ok(self.0.low_u128())
    }
}

impl AlmostEq for Decimal {
    fn almost_eq(&self, other: &Self, precision: u32) -> bool {
        let precision = Decimal(
            (0..precision)
                .fold(Some(U192::one()), |acc, _| {
                    acc.and_then(|a| a.checked_mul(U192::from(10u64)))
                })
                .unwrap_or(U192::MAX),
        );
        let diff = if self > other {
            self.try_sub(*other)
        } else {
            other.try_sub(*self)
        };
        diff.map(|d| d < precision).unwrap_or(false)
    }
}

impl fmt::Display for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut s = to_dec_string(wide(&self.0 .0));
        while s.len() <= SCALE {
            s.insert(0, '0');
        }
        s.insert(s.len() - SCALE, '.');
        f.write_str(&s)
    }
}

impl fmt::Debug for Decimal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

impl From<u64> for Decimal {
    fn from(v: u64) -> Self {
        Self(U192::from(v as u128 * WAD as u128))
    }
}

impl From<u32> for Decimal {
    fn from(v: u32) -> Self {
        Self::from(v as u64)
    }
}

impl From<u128> for Decimal {
    fn from(v: u128) -> Self {
        // 128 + 60 bits always fit
        Self(U192::from(v).checked_mul(U192::from(WAD)).unwrap())
    }
}

impl From<LargeDecimal> for Decimal {
    fn from(v: LargeDecimal) -> Self {
        v.0
    }
}

impl TryAdd<Decimal> for Decimal {
    type Output = Decimal;
    fn try_add(self, rhs: Self) -> Result<Self> {
        ok(self.0.checked_add(rhs.0))
    }
}

impl TryAdd<u64> for Decimal {
    type Output = Decimal;
    fn try_add(self, rhs: u64) -> Result<Self> {
        self.try_add(Decimal::from(rhs))
    }
}

impl TrySub<Decimal> for Decimal {
    type Output = Decimal;
    fn try_sub(self, rhs: Self) -> Result<Self> {
        ok(self.0.checked_sub(rhs.0))
    }
}

impl TrySub<u64> for Decimal {
    type Output = Decimal;
    fn try_sub(self, rhs: u64) -> Result<Self> {
        self.try_sub(Decimal::from(rhs))
    }
}

impl TryMul<Decimal> for Decimal {
    type Output = Decimal;
    fn try_mul(self, rhs: Self) -> Result<Self> {
        let product = mul(&wide(&self.0 .0), &wide(&rhs.0 .0));
        ok(div_rem(&product, &wide_u64(WAD)).and_then(|(q, _)| narrow(&q)))
    }
}

impl TryMul<u64> for Decimal {
    type Output = Decimal;
    fn try_mul(self, rhs: u64) -> Result<Self> {
        ok(self.0.checked_mul(U192::from(rhs)))
    }
}

impl TryDiv<Decimal> for Decimal {
    type Output = Decimal;
    fn try_div(self, rhs: Self) -> Result<Self> {
        let scaled = mul(&wide(&self.0 .0), &wide_u64(WAD));
        ok(div_rem(&scaled, &wide(&rhs.0 .0)).and_then(|(q, _)| narrow(&q)))
    }
}

impl TryDiv<u64> for Decimal {
    type Output = Decimal;
    fn try_div(self, rhs: u64) -> Result<Self> {
        ok(self.0.checked_div(U192::from(rhs)))
    }
}

impl TryPow<u64> for Decimal {
    type Output = Decimal;
    fn try_pow(self, mut exp: u64) -> Result<Self> {
        let mut base = self;
        let mut ret = if exp % 2 != 0 { base } else { Self::one() };
        exp /= 2;
        while exp > 0 {
            base = base.try_mul(base)?;
            if exp % 2 != 0 {
                ret = ret.try_mul(base)?;
            }
            exp /= 2;
        }
        Ok(ret)
    }
}

impl TrySqrt for Decimal {
    type Output = Decimal;
    fn try_sqrt(self) -> Result<Self> {
        ok(narrow(&isqrt(&mul(&wide(&self.0 .0), &wide_u64(WAD)))))
    }
}

fn to_u64(w: &Wide) -> Result<u64> {
    if w[1..].iter().any(|l| *l != 0) {
        overflow()
    } else {
        Ok(w[0])
    }
}

impl TryRound<u64> for Decimal {
    fn try_round(self) -> Result<u64> {
        let v = add(&wide(&self.0 .0), &wide_u64(HALF_WAD));
        to_u64(&div_rem(&v, &wide_u64(WAD)).unwrap().0)
    }

    fn try_ceil(self) -> Result<u64> {
        let v = add(&wide(&self.0 .0), &wide_u64(WAD - 1));
        to_u64(&div_rem(&v, &wide_u64(WAD)).unwrap().0)
    }

    fn try_floor(self) -> Result<u64> {
        to_u64(&div_rem(&wide(&self.0 .0), &wide_u64(WAD)).unwrap().0)
    }
}

/// Neither program computes with it; amm re-exports the name.
#[derive(Clone, Copy, Debug, Default, PartialEq, PartialOrd, Eq, Ord)]
pub struct LargeDecimal(pub Decimal);

impl From<Decimal> for LargeDecimal {
    fn from(v: Decimal) -> Self {
        Self(v)
    }
}
