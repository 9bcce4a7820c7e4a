//! Does with the library, built without its optional features, whatever the lines on standard
//! input ask for, and answers every line with one line. It also runs interpreted as a program for
//! machines of another byte order and word size.
use sourisdb::store::Store;
use sourisdb::types::binary::{BinaryCompression, BinaryData};
use sourisdb::types::integer::Integer;
use sourisdb::utilities::bits::Bits;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::utilities::huffman::Huffman;
use sourisdb::values::Value;
use std::io::{BufRead, Write};

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2 + 1);
    s.push('.');
    for x in b {
        s.push(char::from(D[usize::from(x >> 4)]));
        s.push(char::from(D[usize::from(x & 15)]));
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c - b'0' };
    s.as_bytes()[1..].chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).unwrap()
}
fn json(j: Option<sourisdb::serde_json::Value>) -> String {
    j.map_or("-".into(), |j| hex(j.to_string().as_bytes()))
}
fn int(s: &str) -> Integer {
    s.parse().unwrap()
}
fn all(i: Integer) -> String {
    let mut out = vec![hex(&i.ser().1), u8::from(i.ser().0).to_string(), i.to_string(), u8::from(i.is_negative()).to_string()];
    macro_rules! go { ($($t:ty)*) => { $( out.push(<$t>::try_from(i).map_or("-".into(), |x| x.to_string())); )* } }
    go!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
    out.push(f64::from(i).to_bits().to_string());
    out.push(f32::from(i).to_bits().to_string());
    out.join(" ")
}
fn answer(line: &str) -> String {
    let mut f = line.split(' ');
    let mut next = || f.next().unwrap_or_default();
    match next() {
        "hello" => format!("{} {}", if cfg!(target_endian = "big") { "big" } else { "little" }, usize::BITS),
        // a store from its bytes
        "store" => match Store::deser(&unhex(next())) {
            Err(_) => "refused".into(),
            Ok(s) => format!("{} {} {}", hex(&s.ser()), json(s.clone().to_json(true)), json(s.to_json(false))),
        },
        // a value from its bytes, with or without a tree
        "value" => {
            let bytes = unhex(next());
            let tree = Huffman::<char>::deser(&mut Cursor::new(&unhex(next()))).ok();
            let mut c = Cursor::new(&bytes);
            match Value::deser(&mut c, tree.as_ref()) {
                Err(_) => "refused".into(),
                Ok(v) => format!("{} {} {} {}", c.pos(), hex(&v.ser(tree.as_ref())), hex(v.to_string().as_bytes()), json(v.convert_to_json(true))),
            }
        }
        // a store from JSON
        "json" => match Store::from_json_bytes(&unhex(next())) {
            Err(_) => "refused".into(),
            Ok(s) => hex(&s.ser()),
        },
        "int" => all(int(next())),
        "word" => {
            let n = next();
            if n.starts_with('-') { all(Integer::from(n.parse::<isize>().unwrap())) } else { all(Integer::from(n.parse::<usize>().unwrap())) }
        }
        "calc" => {
            let (a, o, b) = (int(next()), next(), int(next()));
            match o {
                "+" => a + b,
                "-" => a - b,
                "*" => a * b,
                "/" => a / b,
                "=" => return (a == b).to_string(),
                _ => unreachable!(),
            }
            .to_string()
        }
        "f64" => Integer::try_from(f64::from_bits(next().parse().unwrap())).map_or("refused".into(), |i| i.to_string()),
        "f32" => Integer::try_from(f32::from_bits(next().parse().unwrap())).map_or("refused".into(), |i| i.to_string()),
        "pack" => {
            let (c, b) = BinaryData(unhex(next())).ser();
            format!("{} {}", u8::from(c), hex(&b))
        }
        "unpack" => {
            let c: u8 = next().parse().unwrap();
            let bytes = unhex(next());
            let mut cur = Cursor::new(&bytes);
            match BinaryCompression::try_from(c).and_then(|c| BinaryData::deser(c, &mut cur)) {
                Err(_) => "refused".into(),
                Ok(b) => format!("{} {}", cur.pos(), hex(&b.0)),
            }
        }
        // a tree of one text encodes another
        "tree" => {
            let tree = Huffman::new_str(text(next()));
            match tree.as_ref().map(|t| (t, t.encode_string(text(next())))) {
                Ok((t, Ok(b))) => format!("{} {} {}", hex(&t.ser()), hex(&b.ser()), t.decode_string(b).map_or("-".into(), |s| hex(s.as_bytes()))),
                Ok((t, Err(_))) => hex(&t.ser()),
                Err(_) => "refused".into(),
            }
        }
        // bits pushed, joined and written
        "bits" => {
            let mut b = Bits::default();
            for part in line.split(' ').skip(1) {
                b.push_many(Bits::from(part.bytes().skip(1).map(|c| c == b'1').collect::<Vec<bool>>()));
            }
            let ser = b.ser();
            let back = Bits::deser(&mut Cursor::new(&ser)).map_or(false, |x| x == b);
            format!("{b} {} {back}", hex(&ser))
        }
        o => panic!("unknown order {o}"),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let (input, mut output) = (std::io::stdin(), std::io::stdout());
    for line in input.lock().lines() {
        let Ok(line) = line else { break };
        let a = std::panic::catch_unwind(|| answer(&line)).unwrap_or_else(|p| {
            let m = p.downcast_ref::<String>().map(String::as_str).or(p.downcast_ref::<&str>().copied()).unwrap_or("?");
            format!("panicked {}", hex(m.as_bytes()))
        });
        if writeln!(output, "{a}").and_then(|()| output.flush()).is_err() {
            break;
        }
    }
}
