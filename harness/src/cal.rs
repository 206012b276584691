//! The proleptic Gregorian calendar, independent of the library under test (days <-> civil date).
pub const NS: i128 = 1_000_000_000;
pub const DAY: i128 = 86_400 * NS;

pub fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days since 1970-01-01.
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}
pub fn civil(z: i64) -> (i64, i64, i64) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + (m <= 2) as i64, m, d)
}
pub fn valid(y: i128, m: i128, d: i128) -> bool {
    y.abs() < 1 << 40 && (1..=12).contains(&m) && d >= 1 && d <= month_len(y as i64, m as i64) as i128
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Parts {
    pub y: i64,
    pub mo: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub ns: i64,
    /// Sunday = 0
    pub dow: i64,
}
pub fn split(t: i64) -> Parts {
    let day = (t as i128).div_euclid(DAY) as i64;
    let r = (t as i128).rem_euclid(DAY) as i64;
    let (y, mo, d) = civil(day);
    let s = r / 1_000_000_000;
    Parts { y, mo, d, h: s / 3600, mi: s / 60 % 60, s: s % 60, ns: r % 1_000_000_000, dow: (day + 4).rem_euclid(7) }
}
pub fn fit(v: i128) -> Option<i64> {
    i64::try_from(v).ok()
}
/// A point in time biased to calendar borders; the whole range of the type.
pub fn gen(r: &mut crate::Rng) -> i64 {
    match r.below(10) {
        0 => r.i64(),
        1 | 2 => {
            // around the start of a day, month, year, February 29th
            let y = match r.below(4) {
                0 => r.pick(&[1700, 1800, 1900, 2000, 2100, 2200, 1970, 1972, 1969, 1677, 1678, 2262, 2261, 2038, 1601, 2001]),
                _ => r.range(1678, 2261),
            };
            let m = if r.one_in(3) { 3 } else { r.range(1, 12) };
            let d = days(y, m, if r.coin() { 1 } else { r.range(1, month_len(y, m)) });
            let off = match r.below(5) {
                0 => 0,
                1 => -1,
                2 => 1,
                3 => r.range(-86_400, 86_400) as i128 * NS,
                _ => r.range(0, 86_400_000_000_000 - 1) as i128,
            };
            (d as i128 * DAY + off).clamp(i64::MIN as i128, i64::MAX as i128) as i64
        }
        3 => (i64::MIN).saturating_add(r.range(0, 2 * 86_400_000_000_000)),
        4 => (i64::MAX).saturating_sub(r.range(0, 2 * 86_400_000_000_000)),
        5 => r.range(0, 86_400_000_000_000 - 1),
        6 => r.range(-213_500, 213_500) * (86_400 * 1_000_000_000 / 2),
        7 => {
            // coarse granularity
            let u = r.pick(&[1_000i64, 1_000_000, 1_000_000_000, 60_000_000_000, 3_600_000_000_000]);
            r.range(i64::MIN / u, i64::MAX / u) * u
        }
        8 => {
            // fractions with zeros
            let s = r.range(-9_000_000_000, 9_000_000_000);
            let f = r.pick(&[0, 1, 999, 1000, 999_000, 1_000_000, 999_000_000, 999_999_000, 999_999_999, 100_000_000, 120_000_000, 123_000_000, 123_456_000, 5_000_000]);
            s * 1_000_000_000 + f
        }
        _ => r.next() as i64,
    }
}
