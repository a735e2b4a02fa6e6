//! C40: the text of statistics.  How the digits of a number are made is core's part: encoded, a
//! number is written as its bits and its formatting options.
use crate::*;
use std::fmt::Write;

struct Text(Vec<u8>);

impl Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.extend_from_slice(s.as_bytes());
        Ok(())
    }
}

/// How a text is asked for.
#[derive(Clone, Copy)]
enum Way {
    Plain,
    Given,
    Fixed,
    String,
    Nested,
}
use Way::*;

fn show<D: std::fmt::Display>(d: &D, way: Way, p: usize) -> Vec<u8> {
    let mut t = Text(Vec::new());
    let ok = match way {
        Plain => write!(t, "{}", d),
        Given => write!(t, "{:.p$}", d, p = p),
        Fixed => write!(t, "{:.3}", d),
        Nested => write!(t, "{0:.1$}", d, p),
        String => {
            t.0 = d.to_string().into_bytes();
            Ok(())
        }
    };
    check(ok.is_ok(), "the text can be written");
    t.0
}

fn piece(t: &mut Text, name: &str, v: f64, way: Way, p: usize) {
    let _ = t.write_str(name);
    let _ = match way {
        Plain | String => write!(t, "{}", v),
        Given | Nested => write!(t, "{:.p$}", v, p = p),
        Fixed => write!(t, "{:.3}", v),
    };
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

fn expected(count: usize, v: [f64; 5], way: Way, p: usize) -> Vec<u8> {
    let mut t = Text(Vec::new());
    let _ = t.write_str("Samples: ");
    let _ = write!(t, "{}", count);
    piece(&mut t, "; Min: ", v[0], way, p);
    piece(&mut t, "; Max: ", v[1], way, p);
    piece(&mut t, "; Average: ", v[2], way, p);
    piece(&mut t, "; Variance: ", v[3], way, p);
    piece(&mut t, "; STD: ", v[4], way, p);
    t.0
}

fn text(samples: &[f64], way: Way, top: u16) {
    let p = vpq::u16();
    assume(p <= top);
    let p = p as usize;
    let mut s = Stats::default();
    for x in samples {
        s.record(*x);
    }
    let t = show(&s, way, p);
    let c: Stats = samples.iter().copied().collect();
    let u = show(&c, way, p);
    if samples.is_empty() {
        check(t.is_empty() & u.is_empty(), "no samples have no text");
        cover("displayed");
        return;
    }
    let of = |s: &Stats| [s.min().unwrap(), s.max().unwrap(), s.avg().unwrap(), s.var().unwrap(), s.std().unwrap()];
    check(same(&t, &expected(samples.len(), of(&s), way, p)), "the text has each statistic, at the precision asked for");
    check(same(&u, &expected(samples.len(), of(&c), way, p)), "the text of collected samples has each statistic");
    let n = s.snapshot().unwrap();
    let of = |n: &PopulatedStats| [n.min(), n.max(), n.avg(), n.var(), n.std()];
    check(same(&show(&n, way, p), &expected(samples.len(), of(&n), way, p)), "the text of statistics of a population has each statistic");
    cover("displayed");
}

fn any() -> f64 {
    let x = vpq::f64();
    assume(!x.is_nan());
    x
}

fn small() -> f64 {
    [-1.5, 0.0, 0.25, 3.0][below(4)]
}

entries! {
    quick c40_none => text(&[], Plain, 9);
    quick c40_none_given => text(&[], Given, u16::MAX);
    quick c40_one => text(&[any()], Plain, 9);
    quick c40_one_given => text(&[any()], Given, u16::MAX);
    quick c40_one_string => text(&[any()], String, 9);
    quick c40_two => text(&[any(), any()], Plain, 9);
    quick c40_two_given => text(&[any(), any()], Given, u16::MAX);
    quick c40_two_fixed => text(&[any(), any()], Fixed, 9);
    quick c40_two_nested => text(&[any(), any()], Nested, u16::MAX);
    quick c40_three_given => text(&[small(), small(), small()], Given, u16::MAX);
    quick c40_three => text(&[small(), any(), small()], Plain, 9);
    quick c40_many => text(&(0..130).map(|i| if i == 17 { small() } else { i as f64 / 8.0 }).collect::<Vec<_>>(), Plain, 9);
    quick c40_many_given => text(&(0..300).map(|i| if i == 255 { small() } else { i as f64 / 8.0 }).collect::<Vec<_>>(), Given, u16::MAX);
}
