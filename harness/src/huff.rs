//! Huffman calls.
use crate::json::{bytes, s, J};
use crate::obj;
use httlib_huffman::flattener::flatten;
use httlib_huffman::DecoderSpeed;

pub fn speed(n: i64) -> DecoderSpeed {
    match n {
        1 => DecoderSpeed::OneBit,
        2 => DecoderSpeed::TwoBits,
        3 => DecoderSpeed::ThreeBits,
        4 => DecoderSpeed::FourBits,
        5 => DecoderSpeed::FiveBits,
        _ => panic!("harness: no speed {}", n),
    }
}

fn name(s: DecoderSpeed) -> i64 {
    (1..=5).find(|n| speed(*n) == s).unwrap_or(0)
}

pub type Table = Vec<Vec<(Option<u8>, Option<u16>, u8)>>;

/// The published translation table for a speed.
pub fn published(n: i64) -> Table {
    use httlib_huffman::decoder as d;
    match n {
        1 => d::table1::DECODE_TABLE.iter().map(|r| r.to_vec()).collect(),
        2 => d::table2::DECODE_TABLE.iter().map(|r| r.to_vec()).collect(),
        3 => d::table3::DECODE_TABLE.iter().map(|r| r.to_vec()).collect(),
        4 => d::table4::DECODE_TABLE.iter().map(|r| r.to_vec()).collect(),
        _ => d::table5::DECODE_TABLE.iter().map(|r| r.to_vec()).collect(),
    }
}

/// Rows of cells <<next row or -1, symbol or -1, leftover>>.
pub fn table_json(t: &Table) -> J {
    J::A(t.iter()
        .map(|r| {
            J::A(r.iter()
                .map(|(n, a, l)| {
                    J::A(vec![
                        J::I(n.map(|x| x as i64).unwrap_or(-1)),
                        J::I(a.map(|x| x as i64).unwrap_or(-1)),
                        J::I(*l as i64),
                    ])
                })
                .collect())
        })
        .collect())
}

fn pre(op: &J) -> Vec<u8> {
    crate::world::prefix(op).unwrap_or_default()
}

/// One line of the listing in RFC 7541, Appendix B.
fn hline(i: usize, l: u8, v: u32) -> String {
    let mut bits = String::from("|");
    for k in 0..l {
        if k > 0 && k % 8 == 0 {
            bits.push('|');
        }
        bits.push(if (v >> (l - 1 - k)) & 1 == 1 { '1' } else { '0' });
    }
    format!("    ({:3})  {:<36}{:>12}  [{:2}]", i, bits, format!("{:x}", v), l)
}

/// <<length, value>> or <<length, high, low>>.
fn word(c: &[J]) -> u32 {
    if c.len() == 2 { c[1].int() as u32 } else { (c[1].int() as u32) << 16 | c[2].int() as u32 }
}

pub fn exec(op: &J) -> J {
    match op.at("op").str() {
        "henc" => {
            let p = pre(op);
            let mut dst = p.clone();
            let r = httlib_huffman::encode(&op.at("b").bytes(), &mut dst);
            let kept = dst.len() >= p.len() && dst[..p.len()] == p[..];
            let new = if kept { &dst[p.len()..] } else { &[][..] };
            let res = if r.is_ok() { "ok" } else { "err" };
            obj! {"res" => s(res), "bytes" => bytes(new), "kept" => J::B(kept)}
        }
        "hdec" => {
            let p = pre(op);
            let mut dst = p.clone();
            let r = httlib_huffman::decode(&op.at("b").bytes(), &mut dst, speed(op.at("s").int()));
            let kept = dst.len() >= p.len() && dst[..p.len()] == p[..];
            let new = if kept && r.is_ok() { &dst[p.len()..] } else { &[][..] };
            let res = if r.is_ok() { "ok" } else { "err" };
            obj! {"res" => s(res), "out" => bytes(new), "kept" => J::B(kept)}
        }
        "hflat" => {
            let codes: Vec<(u8, u32)> =
                op.at("codes").arr().iter().map(|c| (c.arr()[0].int() as u8, word(c.arr()))).collect();
            let t = flatten(&codes, speed(op.at("s").int()));
            obj! {"res" => s("ok"), "table" => table_json(&t)}
        }
        "hknown" => {
            let l = httlib_huffman::DecoderSpeed::known();
            obj! {"res" => s("ok"), "speeds" => J::A(l.iter().map(|x| J::A(vec![J::I(name(*x)), J::I(*x as i64)])).collect())}
        }
        "htab" => obj! {"res" => s("ok"), "table" => table_json(&published(op.at("s").int()))},
        "hcodes" => {
            let t = httlib_huffman::encoder::table::ENCODE_TABLE.iter();
            obj! {"res" => s("ok"), "codes" => J::A(t.map(|c| J::A(vec![J::I(c.0 as i64), J::I(c.1 as i64)])).collect())}
        }
        "hparse" => {
            let text = match op.get("asset") {
                Some(_) => match std::fs::read_to_string("/repo/huffman/assets/hpack-huffman.txt") {
                    Ok(t) => t,
                    Err(e) => panic!("harness: cannot read the RFC listing: {}", e),
                },
                None => {
                    let mut t = String::new();
                    for (i, c) in op.at("codes").arr().iter().enumerate() {
                        t.push_str(&hline(i, c.arr()[0].int() as u8, c.arr()[1].int() as u32));
                        t.push('\n');
                    }
                    t
                }
            };
            let codes = httlib_huffman::parser::parse(&text);
            obj! {"res" => s("ok"), "codes" => J::A(codes.iter().map(|c| J::A(vec![J::I(c.0 as i64), J::I(c.1 as i64)])).collect())}
        }
        x => panic!("harness: no operation {}", x),
    }
}
