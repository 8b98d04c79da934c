//! Line-oriented driver over the public API of f256: one operation per line,
//! one answer per line.  Values are written as <hi>:<lo> in hex.
use core::cmp::Ordering;
use core::num::FpCategory;
use f256::f256;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn pf(s: &str) -> f256 {
    let (h, l) = s.split_once(':').unwrap();
    f256::from_bits((
        u128::from_str_radix(h, 16).unwrap(),
        u128::from_str_radix(l, 16).unwrap(),
    ))
}
fn ff(x: f256) -> String {
    let (h, l) = x.to_bits();
    format!("{:x}:{:x}", h, l)
}
fn ord(o: Ordering) -> String {
    match o {
        Ordering::Less => "lt",
        Ordering::Equal => "eq",
        Ordering::Greater => "gt",
    }
    .into()
}
fn same(rs: &[f256]) -> String {
    for r in rs {
        if r.to_bits() != rs[0].to_bits() {
            return format!(
                "VARIANT {}",
                rs.iter().map(|x| ff(*x)).collect::<Vec<_>>().join(",")
            );
        }
    }
    ff(rs[0])
}
macro_rules! variants {
    ($x:ident $op:tt $y:ident, $asg:tt) => {{
        let mut a = $x; a $asg $y;
        let mut b = $x; b $asg &$y;
        same(&[$x $op $y, &$x $op $y, $x $op &$y, &$x $op &$y, a, b])
    }};
}

fn run(t: &[&str], line: &str) -> String {
    let f = |i: usize| pf(t[i]);
    match t[0] {
        "add" => { let (x, y) = (f(1), f(2)); variants!(x + y, +=) }
        "sub" => { let (x, y) = (f(1), f(2)); variants!(x - y, -=) }
        "mul" => { let (x, y) = (f(1), f(2)); variants!(x * y, *=) }
        "div" => { let (x, y) = (f(1), f(2)); variants!(x / y, /=) }
        "rem" => { let (x, y) = (f(1), f(2)); variants!(x % y, %=) }
        "neg" => { let x = f(1); same(&[-x, -&x]) }
        "abs" => ff(f(1).abs()),
        "sqrt" => ff(f(1).sqrt()),
        "trunc" => ff(f(1).trunc()),
        "ceil" => ff(f(1).ceil()),
        "floor" => ff(f(1).floor()),
        "round" => ff(f(1).round()),
        "rte" => ff(f(1).round_tie_even()),
        "fract" => ff(f(1).fract()),
        "split" => { let (a, b) = f(1).split(); format!("{} {}", ff(a), ff(b)) }
        "ulp" => ff(f(1).ulp()),
        "recip" => ff(f(1).recip()),
        "todeg" => ff(f(1).to_degrees()),
        "torad" => ff(f(1).to_radians()),
        "square" => ff(f(1).square()),
        "mul2" => ff(f(1).mul2()),
        "div2" => ff(f(1).div2()),
        "mulp2" => ff(f(1).mul_pow2(t[2].parse().unwrap())),
        "divp2" => ff(f(1).div_pow2(t[2].parse().unwrap())),
        "sos" => ff(f(1).sum_of_squares(f(2))),
        "max" => ff(f(1).max(f(2))),
        "min" => ff(f(1).min(f(2))),
        "clamp" => ff(f(1).clamp(f(2), f(3))),
        "fma" => ff(f(1).mul_add(f(2), f(3))),
        "vsq" => { let (x, a) = (f(1), f(2)); same(&[x.square_add(a), x.mul_add(x, a)]) }
        "sqadd" => ff(f(1).square_add(f(2))),
        "eq" => { let (x, y) = (f(1), f(2)); format!("{} {}", x == y, x != y) }
        "tcmp" => ord(f(1).total_cmp(&f(2))),
        "pcmp" => {
            let (x, y) = (f(1), f(2));
            format!("{} {} {} {} {}",
                x.partial_cmp(&y).map(ord).unwrap_or("none".into()),
                x < y, x <= y, x > y, x >= y)
        }
        "cls" => {
            let x = f(1);
            let c = match x.classify() {
                FpCategory::Nan => "nan", FpCategory::Infinite => "inf",
                FpCategory::Zero => "zero", FpCategory::Subnormal => "sub",
                FpCategory::Normal => "norm" };
            format!("{} {} {} {} {} {} {} {} {} {}", c, x.is_nan(), x.is_infinite(),
                x.is_finite(), x.is_subnormal(), x.is_normal(), x.eq_zero(),
                x.is_special(), x.is_sign_positive(), x.is_sign_negative())
        }
        "bytes" => {
            let x = f(1);
            let hx = |b: [u8; 32]| b.iter().map(|c| format!("{:02x}", c)).collect::<String>();
            format!("{} {} {} {} {}", hx(x.to_be_bytes()), hx(x.to_le_bytes()),
                ff(f256::from_be_bytes(x.to_be_bytes())), ff(f256::from_le_bytes(x.to_le_bytes())),
                ff(f256::from_ne_bytes(x.to_ne_bytes())))
        }
        "dec" => { let (s, e, c) = f(1).as_sign_exp_signif(); format!("{} {} {:x}:{:x}", s, e, c.0, c.1) }
        "enc" => {
            let c = pf(t[3]).to_bits();
            ff(f256::from_sign_exp_signif(t[1].parse().unwrap(), t[2].parse().unwrap(), c))
        }
        "fu8" => ff(f256::from(t[1].parse::<u8>().unwrap())),
        "fu16" => ff(f256::from(t[1].parse::<u16>().unwrap())),
        "fu32" => ff(f256::from(t[1].parse::<u32>().unwrap())),
        "fu64" => ff(f256::from(t[1].parse::<u64>().unwrap())),
        "fu128" => ff(f256::from(t[1].parse::<u128>().unwrap())),
        "fi8" => ff(f256::from(t[1].parse::<i8>().unwrap())),
        "fi16" => ff(f256::from(t[1].parse::<i16>().unwrap())),
        "fi32" => ff(f256::from(t[1].parse::<i32>().unwrap())),
        "fi64" => ff(f256::from(t[1].parse::<i64>().unwrap())),
        "fi128" => ff(f256::from(t[1].parse::<i128>().unwrap())),
        "ff32" => ff(f256::from(f32::from_bits(u32::from_str_radix(t[1], 16).unwrap()))),
        "ff64" => ff(f256::from(f64::from_bits(u64::from_str_radix(t[1], 16).unwrap()))),
        "parse" => {
            let s = line[6..].trim_end_matches('\n');
            match s.parse::<f256>() { Ok(v) => ff(v), Err(_) => "err".into() }
        }
        "radix" => {
            let s = line[7 + t[1].len()..].trim_end_matches('\n');
            match <f256 as num_traits::Num>::from_str_radix(s, t[1].parse().unwrap()) {
                Ok(v) => ff(v), Err(_) => "err".into() }
        }
        "nt" => {
            use num_traits::{Zero, One};
            let x = f(1);
            let mut z = x; z.set_zero(); let mut o = x; o.set_one();
            format!("{} {} {} {} {} {}", ff(<f256 as Zero>::zero()), ff(<f256 as One>::one()),
                Zero::is_zero(&x), One::is_one(&x), ff(z), ff(o))
        }
        "sin" => ff(f(1).sin()), "cos" => ff(f(1).cos()), "tan" => ff(f(1).tan()),
        "asin" => ff(f(1).asin()), "acos" => ff(f(1).acos()), "atan" => ff(f(1).atan()),
        "atan2" => ff(f(1).atan2(&f(2))),
        "sincos" => { let (a, b) = f(1).sin_cos(); format!("{} {}", ff(a), ff(b)) }
        "ln" => ff(f(1).ln()), "ln1p" => ff(f(1).ln_1p()), "log2" => ff(f(1).log2()),
        "log10" => ff(f(1).log10()), "log" => ff(f(1).log(f(2))),
        "trig" => {
            let x = f(1);
            let m = f256::from_bits((x.to_bits().0 ^ 1 << 127, x.to_bits().1));
            let (a, b) = x.sin_cos();
            [x.sin(), m.sin(), x.cos(), m.cos(), x.tan(), a, b, x.sin() / x.cos()].map(ff).join(" ")
        }
        "logs" => { let x = f(1); [x.ln(), x.log2(), x.log10()].map(ff).join(" ") }
        "consts" => {
            use ::f256::consts::*;
            [PI, TAU, FRAC_3_PI_2, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, FRAC_1_PI, FRAC_2_PI, SQRT_PI, FRAC_2_SQRT_PI, SQRT_2, FRAC_1_SQRT_2, SQRT_5, PHI, GAMMA, E].map(ff).join(" ")
        }
        _ => "BADOP".into(),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::with_capacity(1 << 16, out.lock());
    let mut line = String::new();
    let mut inp = stdin.lock();
    loop {
        line.clear();
        if inp.read_line(&mut line).unwrap() == 0 { break; }
        let t: Vec<&str> = line.trim_end_matches('\n').split(' ').collect();
        if t[0] == "flush" { out.flush().unwrap(); continue; }
        let r = catch_unwind(AssertUnwindSafe(|| run(&t, &line))).unwrap_or("PANIC".into());
        writeln!(out, "{}", r).unwrap();
    }
}
