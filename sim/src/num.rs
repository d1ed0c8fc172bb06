//! Exact integer arithmetic for the reference model: independent of the contracts' own bignumber
//! package (it uses cosmwasm_std's Uint256/Uint512 only as plain wide integers).
use cosmwasm_std::{Uint128, Uint256, Uint512};

pub const E18: u128 = 1_000_000_000_000_000_000;

pub fn w(a: u128) -> Uint512 {
    Uint512::from(a)
}
pub fn mul(a: u128, b: u128) -> Uint512 {
    w(a) * w(b)
}
pub fn mul3(a: u128, b: u128, c: u128) -> Uint512 {
    w(a) * w(b) * w(c)
}
fn narrow(v: Uint512) -> Option<u128> {
    let r: Result<Uint128, _> = v.try_into();
    r.ok().map(|x| x.u128())
}
/// floor(a*b/c)
pub fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    narrow(mul(a, b) / w(c))
}
pub fn muldiv_ceil(a: u128, b: u128, c: u128) -> Option<u128> {
    if c == 0 {
        return None;
    }
    let p = mul(a, b);
    let q = p / w(c);
    let r = p - q * w(c);
    let q = if r.is_zero() { q } else { q + w(1) };
    narrow(q)
}
/// floor(a*b/c) without narrowing
pub fn muldiv_w(a: u128, b: u128, c: u128) -> Option<Uint512> {
    if c == 0 {
        return None;
    }
    Some(mul(a, b) / w(c))
}
/// floor(10^18 * a / b) in atomics
pub fn ratio18(a: u128, b: u128) -> Option<Uint512> {
    muldiv_w(a, E18, b)
}
pub fn to128(v: Uint512) -> Option<u128> {
    narrow(v)
}
pub fn isqrt_prod(a: u128, b: u128) -> u128 {
    // floor(sqrt(a*b)); a*b < 2^256 so the root fits 128 bits
    let p = mul(a, b);
    let mut lo: u128 = 0;
    let mut hi: u128 = u128::MAX;
    while lo < hi {
        let mid = lo + (hi - lo) / 2 + (hi - lo) % 2;
        if mul(mid, mid) <= p {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    lo
}
/// Parse a decimal string with at most 18 fractional digits into atomics.
pub fn dec18(s: &str) -> Option<u128> {
    let (a, b) = match s.split_once('.') {
        Some((a, b)) => (a, b),
        None => (s, ""),
    };
    if b.len() > 18 || a.is_empty() {
        return None;
    }
    let whole: u128 = a.parse().ok()?;
    let frac: u128 = if b.is_empty() {
        0
    } else {
        b.parse::<u128>().ok()? * 10u128.pow(18 - b.len() as u32)
    };
    whole.checked_mul(E18)?.checked_add(frac)
}
pub fn dec18_str(v: u128) -> String {
    let whole = v / E18;
    let frac = v % E18;
    if frac == 0 {
        format!("{}", whole)
    } else {
        let f = format!("{:018}", frac);
        format!("{}.{}", whole, f.trim_end_matches('0'))
    }
}
/// x1*y1 < x0*y0 ?
pub fn k_less(x1: u128, y1: u128, x0: u128, y0: u128) -> bool {
    mul(x1, y1) < mul(x0, y0)
}
/// K1/S1^2 < K0/S0^2 ?   (all S > 0)
pub fn backing_less(x1: u128, y1: u128, s1: u128, x0: u128, y0: u128, s0: u128) -> bool {
    // K1 * S0^2 < K0 * S1^2 ; each side < 2^512
    let l = mul(x1, y1) * mul(s0, s0);
    let r = mul(x0, y0) * mul(s1, s1);
    l < r
}
/// a/b < c/d ?
pub fn frac_less(a: u128, b: u128, c: u128, d: u128) -> bool {
    mul(a, d) < mul(c, b)
}
#[allow(dead_code)]
pub fn u256(a: u128) -> Uint256 {
    Uint256::from(a)
}

/// a sum of 128-bit amounts that cannot overflow
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Sum {
    hi: u64,
    lo: u128,
}
impl Sum {
    pub fn add(mut self, v: u128) -> Sum {
        let (l, c) = self.lo.overflowing_add(v);
        self.lo = l;
        self.hi += c as u64;
        self
    }
}

/// The constant-product swap, from the property's text: gross, commission, net.
pub struct SwapOut {
    pub gross: u128,
    pub comm: u128,
    pub net: u128,
    /// bounds of the spread (ideal output minus gross); None when it does not fit 128 bits
    pub spread_lo: Option<u128>,
    pub spread_hi: Option<u128>,
}
/// Bounds of the spread when `gross` is what a swap of `a` against `x`, `y` gave before the fee.
pub fn spread_of(x: u128, y: u128, a: u128, gross: u128) -> Option<(u128, u128)> {
    let g = w(gross);
    // exact: floor(a*y/x) - gross ; floored: floor(a*floor18(y/x)) - gross, saturating
    let hi = mul(a, y) / w(x);
    let hi = if hi > g { hi - g } else { w(0) };
    let lo = (w(a) * ratio18(y, x)?) / w(E18);
    let lo = if lo > g { lo - g } else { w(0) };
    Some((to128(lo)?, to128(hi)?))
}
pub fn swap_out(x: u128, y: u128, a: u128) -> Option<SwapOut> {
    let xa = x.checked_add(a)?;
    if x == 0 || xa == 0 {
        return None;
    }
    let gross = y.checked_sub(muldiv_ceil(x, y, xa)?)?;
    let comm = muldiv(gross, 3, 1000)?;
    let net = gross - comm;
    let g = w(gross);
    // exact: floor(a*y/x) - gross ; floored: floor(a*floor18(y/x)) - gross, saturating
    let hi = mul(a, y) / w(x);
    let hi = if hi > g { hi - g } else { w(0) };
    let lo = (w(a) * ratio18(y, x)?) / w(E18);
    let lo = if lo > g { lo - g } else { w(0) };
    Some(SwapOut {
        gross,
        comm,
        net,
        spread_lo: to128(lo),
        spread_hi: to128(hi),
    })
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basics() {
        assert_eq!(isqrt_prod(u128::MAX, u128::MAX), u128::MAX);
        assert_eq!(isqrt_prod(10, 10), 10);
        assert_eq!(isqrt_prod(2, 4), 2);
        assert_eq!(dec18("0.005").unwrap(), 5_000_000_000_000_000);
        assert_eq!(dec18_str(5_000_000_000_000_000), "0.005");
        let s = swap_out(1_000_000, 1_000_000, 1000).unwrap();
        assert_eq!(s.gross, 999);
        assert_eq!(s.comm, 2);
    }
}
