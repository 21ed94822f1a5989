//! K06: fixed width numbers against plain decimal arithmetic on the same characters.
use crate::guard::at_end;
use trading_engine::data::krx::krx_converter::*;
use trading_engine::types::id::isin_code::IsinCode;
use trading_engine::utils::numeric_converter::*;
use vf::*;

/// the characters in a buffer followed by random bytes (the parsers load whole machine words)
fn pad(src: &mut Src, s: &str) -> Vec<u8> {
    let mut b = s.as_bytes().to_vec();
    let mut x = src.u64();
    for _ in 0..20 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        b.push((x >> 40) as u8);
    }
    b
}
fn digits(src: &mut Src, n: usize) -> String {
    match src.draw(6) {
        0 => "9".repeat(n),
        1 => {
            let k = src.usize(0, n);
            let mut s = "0".repeat(n - k);
            s += &src.digits(k);
            s
        }
        2 => {
            // one non-zero digit
            let k = if n == 0 { 0 } else { src.usize(0, n - 1) };
            (0..n).map(|i| if i == k { '7' } else { '0' }).collect()
        }
        _ => src.digits(n),
    }
}
/// the parser on the field followed by other bytes, and on the field alone where readable memory ends
fn both<T: PartialEq + std::fmt::Debug>(b: &[u8], width: usize, e: T, f: impl Fn(&[u8]) -> T, what: &str) -> R {
    ensure_eq!(f(b), e, "{what}");
    let (v, beyond) = at_end(&b[..width], |b| f(b));
    ensure_eq!(v, e, "{what} with nothing behind it");
    ensure!(!beyond, "{what} reads beyond the {width} characters given");
    Ok(())
}
fn dec(s: &str) -> u128 {
    s.bytes().fold(0u128, |a, c| a * 10 + (c - b'0') as u128)
}

/// plain digit strings through every free parser that accepts their length
fn free(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(1, 32);
    let s = digits(src, n);
    let b = pad(src, &s);
    ctx.note(&s);
    let e = dec(&s);
    let width = n;
    ctx.nontrivial(e != 0);
    if n == 2 {
        both(&b, width, e, |b| parse_2digits(b) as u128, &format!("parse_2digits({s})"))?;
    }
    if n == 3 {
        both(&b, width, e, |b| parse_3digits(b) as u128, &format!("parse_3digits({s})"))?;
    }
    if n <= 8 {
        both(&b, width, e, |b| parse_under8(b, n) as u128, &format!("parse_under8({s})"))?;
        both(&b, width, e, |b| parse_under8_with_floating_point(b, n, 0) as u128, &format!("parse_under8_with_floating_point({s})"))?;
    }
    if n <= 16 {
        both(&b, width, e, |b| parse_under16(b, n), &format!("parse_under16({s})"))?;
        both(&b, width, e, |b| parse_under16_with_floating_point(b, n, 0) as u128, &format!("parse_under16_with_floating_point({s})"))?;
    }
    if n >= 16 {
        both(&b, width, e, |b| parse_under32(b, n), &format!("parse_under32({s})"))?;
        if n <= 19 {
            both(&b, width, e, |b| parse_under32_with_floating_point(b, n, 0) as u128, &format!("parse_under32_with_floating_point({s})"))?;
        }
    }
    if n == 8 {
        let c = u64::from_le_bytes(b[..8].try_into().unwrap());
        ensure_eq!(u8_chunk_to_u64_decimal(c) as u128, e, "u8_chunk_to_u64_decimal({s})");
    }
    if n == 16 {
        let c = u128::from_le_bytes(b[..16].try_into().unwrap());
        ensure_eq!(u8_chunk_to_u128_decimal(c), e, "u8_chunk_to_u128_decimal({s})");
    }
    if n == 6 {
        let (h, m, sec) = (src.draw(24), src.draw(60), src.draw(60));
        let t = format!("{h:02}{m:02}{sec:02}");
        let b = pad(src, &t);
        both(&b, width, (h * 3600 + m * 60 + sec) * 1_000_000_000, |b| parse_hhmmss_to_nanos(b), &format!("parse_hhmmss_to_nanos({t})"))?;
    }
    Ok(())
}

/// digit strings with a decimal point through every parser that accepts their width
fn point(src: &mut Src, ctx: &mut Ctx) -> R {
    let n = src.usize(1, 18);
    let s = digits(src, n);
    let k = src.usize(0, n); // decimals
    let t = format!("{}.{}", &s[..n - k], &s[n - k..]);
    let (len, pl) = (n + 1, k + 1);
    let b = pad(src, &t);
    ctx.note(&t);
    let width = len;
    let e = dec(&s);
    ctx.nontrivial(e != 0);
    if len <= 8 {
        both(&b, width, e, |b| parse_under8_with_floating_point(b, len, pl) as u128, &format!("parse_under8_with_floating_point({t})"))?;
    }
    if len <= 16 {
        both(&b, width, e, |b| parse_under16_with_floating_point(b, len, pl) as u128, &format!("parse_under16_with_floating_point({t})"))?;
    }
    if len >= 16 {
        both(&b, width, e, |b| parse_under32_with_floating_point(b, len, pl) as u128, &format!("parse_under32_with_floating_point({t})"))?;
    }
    Ok(())
}

fn rel(o: f64, e: f64) -> bool {
    (o - e).abs() <= 1e-12 * e.abs().max(1e-300)
}
/// a price as a double is the double nearest to the decimal (both operands of the division are exact below 2^53)
fn nearest(o: f64, e: f64, v: i64) -> bool {
    if v.unsigned_abs() < 1 << 53 { o == e } else { rel(o, e) }
}
fn check_cfg(src: &mut Src, ctx: &mut Ctx, c: &NumReprCfg, conv: &IntegerConverter) -> R {
    let dl = c.decimal_point_length.saturating_sub(1);
    let int = digits(src, c.digit_length);
    let frac = digits(src, dl);
    let neg = c.is_signed && src.chance(1, 3);
    let mut t: String = (0..c.unused_length).map(|_| char::from(b' ' + src.draw(60) as u8)).collect();
    if c.is_signed {
        // the sign is the first character of the field
        let sgn = if neg { '-' } else { '0' };
        if c.unused_length > 0 {
            t.remove(0);
            t.insert(0, sgn);
            t.push('0');
        } else {
            t.push(sgn);
        }
    }
    t += &int;
    if c.decimal_point_length > 0 {
        t.push('.');
        t += &frac;
    }
    let all = if c.drop_decimal_point { int.clone() } else { format!("{int}{frac}") };
    let e = dec(&all) as i128;
    let shown = if c.drop_decimal_point { 0 } else { dl };
    ctx.note(format!("{}{}.{}{} drop={} norm={:?} {t:?}", if c.is_signed { "s" } else { "" }, c.digit_length, c.decimal_point_length, if c.unused_length > 0 { format!(" unused {}", c.unused_length) } else { String::new() }, c.drop_decimal_point, c.float_normalizer));
    ctx.nontrivial(e != 0);
    let b = pad(src, &t);
    let width = t.len();
    both(&b, width, e, |b| conv.to_u64(b) as i128, &format!("to_u64 of {t:?}"))?;
    let v = if neg { -e } else { e };
    both(&b, width, v, |b| conv.to_i64(b) as i128, &format!("to_i64 of {t:?}"))?;
    let cl = conv.clone();
    both(&b, width, v, |b| cl.to_i64(b) as i128, &format!("to_i64 of {t:?} by a clone"))?;
    ensure_eq!(conv.get_config(), c, "configuration given back");
    if shown == 0 && (c.drop_decimal_point || c.decimal_point_length == 0) {
        // without a point the unchecked variants read the same digits
        let d = all.len();
        unsafe {
            if d <= 16 {
                both(&b, width, e, |b| conv.to_u64_unchecked(b) as i128, &format!("to_u64_unchecked of {t:?}"))?;
                both(&b, width, e, |b| conv.to_nonnegative_i64_unchecked(b) as i128, &format!("to_nonnegative_i64_unchecked of {t:?}"))?;
            } else {
                both(&b, width, e, |b| conv.to_long_u64_unchecked(b) as i128, &format!("to_long_u64_unchecked of {t:?}"))?;
            }
            if d <= 8 {
                both(&b, width, e, |b| conv.to_u32_unchecked(b) as i128, &format!("to_u32_unchecked of {t:?}"))?;
            }
        }
    }
    // back to a real number
    let txt = format!("{}{int}.{}0", if neg { "-" } else { "" }, if c.drop_decimal_point { "" } else { &frac });
    let real: f64 = txt.parse().unwrap();
    let iv = v as i64;
    ensure!(nearest(conv.to_f64_from_i64(iv), real, iv), "to_f64_from_i64({iv}): observed {}, expected {real}", conv.to_f64_from_i64(iv));
    if !neg {
        ensure!(nearest(conv.to_f64_from_u64(iv as u64), real, iv), "to_f64_from_u64({iv}): observed {}, expected {real}", conv.to_f64_from_u64(iv as u64));
        if iv <= u32::MAX as i64 {
            ensure!(nearest(conv.to_f64_from_u32(iv as u32), real, iv), "to_f64_from_u32({iv}) is not {real}");
        }
    }
    if iv.abs() <= i32::MAX as i64 {
        ensure!(nearest(conv.to_f64_from_i32(iv as i32), real, iv), "to_f64_from_i32({iv}) is not {real}");
    }
    let nr = real / 10f64.powi(c.float_normalizer.unwrap_or(0));
    ensure!(rel(conv.normalized_real_from_i64(iv), nr), "normalized_real_from_i64({iv}): observed {}, expected {nr}", conv.normalized_real_from_i64(iv));
    if !neg {
        ensure!(rel(conv.normalized_real_from_u64(iv as u64), nr), "normalized_real_from_u64({iv}): observed {}, expected {nr}", conv.normalized_real_from_u64(iv as u64));
    }
    Ok(())
}

/// any configuration
fn config(src: &mut Src, ctx: &mut Ctx) -> R {
    let signed = src.bool();
    let unused = src.usize(0, 3);
    let drop = src.chance(1, 4);
    let (int, dl) = loop {
        let int = src.usize(1, 18);
        let dl = if src.chance(1, 3) { 0 } else { src.usize(0, 10) };
        if drop || int + dl <= 18 {
            break (int, dl);
        }
        if int + dl > 18 {
            break (int, 18 - int);
        }
    };
    let total = int + dl + unused + signed as usize;
    let norm = if src.bool() { Some(src.int(0, 6) as i32) } else { None };
    let mut c = NumReprCfg { digit_length: int, decimal_point_length: dl, is_signed: signed, unused_length: unused, total_length: total, float_normalizer: norm, drop_decimal_point: drop };
    if src.chance(1, 12) {
        // an inconsistent or too wide layout must be refused
        if src.bool() {
            let w = src.usize(0, 40);
            if w == total {
                return discard();
            }
            c.total_length = w;
        } else {
            c.digit_length = src.usize(19, 40);
            c.total_length = c.digit_length + dl + unused + signed as usize;
        }
        ctx.note(format!("{c:?} must be refused"));
        ctx.nontrivial(true);
        ensure!(IntegerConverter::new(c).is_err(), "layout {c:?} accepted");
        return Ok(());
    }
    let conv = IntegerConverter::new(c).must("IntegerConverter::new")?;
    check_cfg(src, ctx, &c, &conv)
}

/// the layouts the exchange interface uses
fn krx(src: &mut Src, ctx: &mut Ctx) -> R {
    let cfg = |d: usize, dp: usize, s: bool, u: usize, n: Option<i32>| NumReprCfg {
        digit_length: d,
        decimal_point_length: dp,
        is_signed: s,
        unused_length: u,
        total_length: d + dp + u + s as usize,
        float_normalizer: n,
        drop_decimal_point: false,
    };
    let plain = IsinCode::new(b"KR4101V30008").unwrap();
    let rf = IsinCode::new(b"KR4169V30013").unwrap();
    let i = src.draw(17);
    let (conv, c): (&IntegerConverter, NumReprCfg) = match i {
        0 => (&get_krx_base_order_counter().order_count, cfg(5, 0, false, 0, None)),
        1 => (&get_krx_stock_order_converter().price, cfg(9, 0, false, 2, None)),
        2 => (&get_krx_stock_order_converter().quantity, cfg(12, 0, false, 0, None)),
        3 => (&get_krx_base_bond_order_converter().price, cfg(7, 3, false, 1, None)),
        4 => (&get_krx_base_bond_order_converter().quantity, cfg(12, 0, false, 0, None)),
        5 => (&get_krx_repo_order_converter().price, cfg(6, 4, true, 0, None)),
        6 => (&get_krx_repo_order_converter().quantity, cfg(15, 0, false, 0, None)),
        7 => (&get_krx_yield_converter().converter, cfg(5, 7, true, 0, None)),
        8 => (&get_krx_base_cum_qnt_converter().converter, cfg(12, 0, false, 0, Some(4))),
        9 => (&get_krx_bond_cum_qnt_converter().converter, cfg(15, 0, false, 0, Some(4))),
        10 => (&get_krx_derivative_converter(b"B601F", &plain).price, cfg(5, 3, true, 0, None)),
        11 => (&get_krx_derivative_converter(b"B601F", &plain).quantity, cfg(9, 0, false, 0, None)),
        12 => (&get_krx_derivative_converter(b"B606F", &rf).price, cfg(4, 4, true, 0, None)),
        13 => (&get_krx_derivative_converter(b"B604F", &plain).price, cfg(8, 0, true, 0, Some(1))),
        14 => (&get_krx_derivative_converter(b"G705F", &rf).price, cfg(8, 0, true, 0, Some(1))),
        15 => (&get_krx_derivative_converter(b"G710F", &plain).price, cfg(8, 0, true, 0, Some(1))),
        _ => {
            let c = CumQntConverter::krx_cum_trd_value_converter();
            let mut k = cfg(18, 4, false, 0, Some(8));
            k.drop_decimal_point = true;
            return check_cfg(src, ctx, &k, &c.converter);
        }
    };
    check_cfg(src, ctx, &c, conv)
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "K06",
        facets: vec![
            facet("digits", "the number is not zero", 1500000, 45000000, free),
            facet("point", "the number is not zero", 1500000, 45000000, point),
            facet("layouts", "the number is not zero, or the layout must be refused", 1500000, 45000000, config),
            facet("exchange", "the number is not zero", 1000000, 30000000, krx),
        ],
        assumptions: &["the characters are digits with the sign and the point where the layout has them"],
    }]
}
