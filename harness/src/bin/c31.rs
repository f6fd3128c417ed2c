//! C31: a histogram's report is that of the values added.
use level_db_rust::util::histogram::Histogram;
use mc::*;
use std::rc::Rc;

fn limits() -> Vec<f64> {
    let mut v: Vec<f64> = (1..=10).map(|i| i as f64).collect();
    let step = [12.0, 14.0, 16.0, 18.0, 20.0, 25.0, 30.0, 35.0, 40.0, 45.0, 50.0, 60.0, 70.0, 80.0, 90.0, 100.0];
    let mut scale = 1.0;
    loop {
        for s in step { if s * scale > 9e9 { v.push(1e200); return v } v.push(s * scale) }
        scale *= 10.0;
    }
}
/// The report LevelDB's algorithm gives for these values.
fn report(l: &[f64], vals: &[f64]) -> String {
    let n = vals.len() as f64;
    let (sum, sq) = (vals.iter().sum::<f64>(), vals.iter().map(|v| v * v).sum::<f64>());
    let min = vals.iter().copied().fold(1e200, f64::min);
    let max = vals.iter().copied().fold(0.0, f64::max);
    let mut b = vec![0.0; l.len()];
    for v in vals { b[l.iter().position(|x| x > v).unwrap_or(l.len() - 1)] += 1.0 }
    let (avg, dev) = if sum == 0.0 { (0.0, 0.0) } else { (sum / n, ((sq * n - sum * sum) / (n * n)).sqrt()) };
    let (half, mut acc, mut med) = (n * 0.5, 0.0, max);
    for i in 0..l.len() {
        acc += b[i];
        if acc >= half {
            let lo = if i == 0 { 0.0 } else { l[i - 1] };
            med = (lo + (l[i] - lo) * ((half - (acc - b[i])) / b[i])).max(min).min(max);
            break;
        }
    }
    let mut o = format!("Count: {n:.0} Average: {avg:.4} StdDev: {dev:.2} \nMin: {min:.4} Median: {med:.4} Max: {max:.4} \n------------------------------------------------------\n");
    acc = 0.0;
    for i in 0..l.len() {
        if b[i] == 0.0 { continue }
        acc += b[i];
        o += &format!("[ {:>7.0}, {:>7.0} ) {:>7.0} {:>7.3}% {:>7.3}% {:.0}#\n", if i == 0 { 0.0 } else { l[i - 1] }, l[i], b[i], 100.0 / n * b[i], 100.0 / n * acc, 20.0 * (b[i] / n));
    }
    o
}
/// Equal texts, numbers being allowed to differ in the last printed digit.
fn same(a: &str, b: &str) -> bool {
    if a == b { return true }
    let toks = |s: &str| -> Vec<String> {
        let mut v: Vec<String> = vec![];
        let mut num = false;
        for c in s.chars() {
            let n = c.is_ascii_digit() || c == '.';
            if n && num { v.last_mut().unwrap().push(c) } else if n { v.push(c.to_string()) } else if c != ' ' { v.push(c.to_string()) }
            num = n;
        }
        v
    };
    let (x, y) = (toks(a), toks(b));
    x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p == q || match (p.parse::<f64>(), q.parse::<f64>()) {
        (Ok(m), Ok(n)) => {
            let d = |s: &str| s.find('.').map_or(0, |i| s.len() - i - 1) as i32;
            d(p) == d(q) && d(p) > 0 && (m - n).abs() <= 10f64.powi(-d(p)) * 1.01 + n.abs() * 1e-12
        }
        _ => false,
    })
}
fn judge(l: &[f64], h: &Histogram, vals: &[f64], hist: &dyn std::fmt::Debug) {
    let g = sut("to_string", || h.to_string());
    step();
    if vals.is_empty() {
        ensure!(g.starts_with("Count: 0 Average: 0.0000 StdDev: 0.00 \n") && g.lines().count() == 3, "an empty histogram reads {g:?}; {hist:?}");
    } else {
        let w = report(l, vals);
        ensure!(same(&g, &w), "after {hist:?} the report is\n{g}, expected\n{w}");
    }
    state(&g);
}
/// As `judge`, but without the variance, which is rounded when the values are far apart.
fn buckets(l: &[f64], h: &Histogram, vals: &[f64], hist: &dyn std::fmt::Debug) {
    let g = sut("to_string", || h.to_string());
    step();
    let w = report(l, vals);
    let cut = |s: &str| -> String { let (a, b) = s.split_once(" StdDev: ").unwrap_or((s, "")); format!("{a} {}", b.split_once(' ').map_or("", |x| x.1)) };
    ensure!(same(&cut(&g), &cut(&w)), "after {hist:?} the report is\n{g}, expected\n{w}");
    state(&g);
}
fn main() {
    let l: Rc<Vec<f64>> = Rc::new(limits());
    assert_eq!(l.len(), 154);
    let (l8, l7, l1, l2, l3, l4, l5, l6) = (l.clone(), l.clone(), l.clone(), l.clone(), l.clone(), l.clone(), l.clone(), l.clone());
    Check::new("C31", "model_checking", "every bucket's ends and inside, every sequence of additions, merges and clears up to a depth over values in different buckets, against a reference; a state is a report")
        .assume("median of an empty histogram is not judged; values are such that sums are exact in floating point, so rounding of the variance plays no part, but for the scenarios sums, where the deviation is not judged, and rounding, where it is judged up to the rounding error of its sums")
        .scenario("buckets", "one value at the start, inside and just below the end of each of the 154 buckets, alone and with a second value", move || {
            let i = choose(154);
            let lo = if i == 0 { 0.0 } else { l1[i - 1] };
            let v = if i == 153 { *pick(&[lo, lo * 8.0, 1e12, 1e18, 2e19, 1e30, 1e100]) } else { match choose(3) { 0 => lo, 1 => (lo + l1[i]) / 2.0, _ => l1[i] - 1.0 / 1024.0 } };
            let mut h = sut("default", Histogram::default);
            sut("add", || h.add(v));
            judge(&l1, &h, &[v], &v);
            let w = *pick(&[3.0, 9000.0, 5e9]);
            sut("add", || h.add(w));
            // the variance of two values far apart is rounded; only near ones are compared
            if v < 1e6 && w < 1e6 { judge(&l1, &h, &[v, w], &(v, w)); }
        })
        .scenario("sequences", format!("every sequence of up to {} operations: 8 values, 3 merges, clear", by_tier(5, 6)), move || {
            let vals = [0.0, 0.5, 1.0, 2.0, 10.0, 11.0, 150.0, 1e6];
            let mut h = sut("default", Histogram::default);
            let mut m: Vec<f64> = vec![];
            let mut hist = vec![];
            for _ in 0..by_tier(5, 6) {
                let c = choose(13);
                if c == 0 { break }
                match c {
                    1..=8 => { sut("add", || h.add(vals[c - 1])); m.push(vals[c - 1]); hist.push(vals[c - 1]) }
                    12 => { sut("clear", || h.clear()); m.clear(); hist.push(-100.0) }
                    _ => {
                        let others: &[f64] = [&[][..], &[4.0], &[0.25, 300.0, 300.0]][c - 9];
                        let mut o = sut("default", Histogram::default);
                        for v in others { sut("add", || o.add(*v)); }
                        sut("merge", || h.merge(&o));
                        judge(&l2, &o, others, &"a histogram that was merged into another");
                        m.extend(others); hist.push(-(c as f64));
                    }
                }
            }
            judge(&l2, &h, &m, &hist);
        })
        .scenario("counts", "0..60 values in one bucket and 0..60 in another", move || {
            let (a, b) = (choose(61), choose(61));
            let mut h = sut("default", Histogram::default);
            let mut m = vec![];
            for _ in 0..a { sut("add", || h.add(7.0)); m.push(7.0) }
            for _ in 0..b { sut("add", || h.add(130.0)); m.push(130.0) }
            judge(&l3, &h, &m, &(a, b));
        })
        .scenario("merging", "merging the histograms of two halves of 8 values, split anyhow, is adding all", move || {
            let vals = [1.0, 3.0, 3.5, 19.0, 20.0, 250.0, 4096.0, 65536.0];
            let (mut a, mut b) = (sut("default", Histogram::default), sut("default", Histogram::default));
            for v in vals { if flag() { a.add(v) } else { b.add(v) } }
            sut("merge", || a.merge(&b));
            judge(&l4, &a, &vals, &"merging two histograms of");
        })
        .scenario("every-bucket", "two histograms with one value each, for every pair of the 154 buckets: one merged into the other, the result merged again, then cleared and used again", move || {
            let of = |i: usize| if i == 0 { 0.0 } else { l5[i - 1] };
            let i = choose(154);
            for j in 0..154 {
                let (v, w) = (of(i), of(j));
                let (mut a, mut b) = (sut("default", Histogram::default), sut("default", Histogram::default));
                sut("add", || { a.add(v); b.add(w); b.add(w) });
                sut("merge", || a.merge(&b));
                buckets(&l5, &a, &[v, w, w], &(v, w));
                judge(&l5, &b, &[w, w], &(v, w));
                sut("merge", || b.merge(&a));
                buckets(&l5, &b, &[v, w, w, w, w], &(v, w));
                sut("clear", || b.clear());
                judge(&l5, &b, &[], &(v, w));
                sut("add", || b.add(v));
                judge(&l5, &b, &[v], &(v, w));
            }
        })
        .scenario("doubling", "two histograms of 1 and 2 values merged into each other in turn, 0..50 times: counts up to 2^35", move || {
            let n = choose(51);
            let b = choose(3);
            let (lo, hi) = [(1.0, 1.0), (7.0, 7.0), (150.0, 150.0)][b];
            let mut h = [sut("default", Histogram::default), sut("default", Histogram::default)];
            sut("add", || { h[0].add(lo); h[1].add(lo); h[1].add(hi) });
            let mut c = [1u64, 2];
            for i in 0..n { let (x, y) = h.split_at_mut(1); if i % 2 == 0 { sut("merge", || x[0].merge(&y[0])); c[0] += c[1] } else { sut("merge", || y[0].merge(&x[0])); c[1] += c[0] } }
            for k in 0..2 {
                let g = sut("to_string", || h[k].to_string());
                step(); state(&g);
                // one value only: its bucket holds all
                let i = (0..154).find(|i| lo < l7[*i]).unwrap();
                let first = g.lines().next().unwrap_or("");
                ensure!(first.starts_with(&format!("Count: {} Average: {lo:.4} ", c[k])), "a histogram of {} values {lo} begins {first:?}", c[k]);
                let line = g.lines().nth(3).unwrap_or("");
                ensure!(g.lines().count() == 4 && line.starts_with(&format!("[ {:7}, {:7} ) {:7} 100.000% 100.000% ", l7[i - 1], l7[i], c[k])), "a histogram of {} values {lo} reads\n{g}", c[k]);
            }
        })
        .scenario("sums", format!("1..{} equal values, and the same with a value added to each of 154 buckets in order and in reverse", by_tier(300, 1200)), move || {
            let n = choose(by_tier(301, 1201));
            let mut h = sut("default", Histogram::default);
            let mut m = vec![];
            for _ in 0..n { sut("add", || h.add(20.0)); m.push(20.0) }
            judge(&l6, &h, &m, &n);
            let rev = flag();
            for i in 0..154 { let i = if rev { 153 - i } else { i }; let v = if i == 0 { 0.0 } else { l6[i - 1] }; sut("add", || h.add(v)); m.push(v) }
            buckets(&l6, &h, &m, &n);
        })
        .scenario("rounding", "1..80 equal values, and these and another, out of 16 values whose sums and squares are rounded: the deviation is a number, and right up to that rounding", move || {
            let of = [0.1, 0.2, 0.3, 0.7, 1.1, 1.9, 2.3, 9.99, 0.001, 1e-7, 3.3333, 123.456, 99999.99, 1234567.89, 1e9 / 3.0, 1e12 / 7.0];
            let (n, v, w) = (1 + choose(80), *pick(&of), choose(17));
            let mut m = vec![v; n];
            if w > 0 { m.push(of[w - 1]) }
            let mut h = sut("default", Histogram::default);
            sut("add", || for x in &m { h.add(*x) });
            buckets(&l8, &h, &m, &(v, n, w));
            let k = m.len() as f64;
            let mean = m.iter().sum::<f64>() / k;
            let dev = (m.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / k).sqrt();
            // rounding of the two sums, relative to the mean square
            let msq = m.iter().map(|x| x * x).sum::<f64>() / k;
            let off = 0.011 + if dev > 1e-5 * msq.sqrt() { (8.0 * k * f64::EPSILON * msq / dev).min((8.0 * k * f64::EPSILON * msq).sqrt()) } else { (8.0 * k * f64::EPSILON * msq).sqrt() };
            let g = sut("to_string", || h.to_string());
            let t = g.split("StdDev: ").nth(1).and_then(|t| t.split_whitespace().next()).unwrap_or("").to_string();
            ensure!(t.parse::<f64>().is_ok_and(|d| (d - dev).abs() <= off), "the standard deviation of {n} values {v}{} is {t:?}, expected {dev:.4}", if w > 0 { format!(" and {}", of[w - 1]) } else { String::new() });
            step();
        }).split(2)
        .run()
}
