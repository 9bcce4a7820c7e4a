//! C27: values and stores as bodies of web requests and answers.
use crate::core::*;
use crate::ensure;
use crate::harness_err;
use crate::model::*;
use crate::p_codec::{c04_store_mut, hostile_value, v_err, Hostile};
use axum::body::{to_bytes, Body, Bytes};
use axum::extract::{FromRequest, Request};
use axum::response::{IntoResponse, Response};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use sourisdb::store::Store;
use sourisdb::utilities::cursor::Cursor;
use sourisdb::values::Value;

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().build().expect("a runtime");
}
fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    RT.with(|r| r.block_on(f))
}

/// How a body arrives.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Way {
    Whole,
    /// In pieces of these sizes, over and over.
    Pieces(Vec<u16>),
    /// In pieces, and then the connection breaks after so many bytes.
    Breaks(Vec<u16>, u32),
}
fn way() -> BoxedStrategy<Way> {
    let sizes = || vec(prop_oneof![0..4_u16, 0..40_u16, any::<u16>()], 1..6);
    prop_oneof![2 => Just(Way::Whole), 3 => sizes().prop_map(Way::Pieces)].boxed()
}
fn any_way() -> BoxedStrategy<Way> {
    let sizes = vec(prop_oneof![0..4_u16, 0..40_u16, any::<u16>()], 1..6);
    prop_oneof![3 => way(), 1 => (sizes, prop_oneof![0..40_u32, any::<u32>()]).prop_map(|(s, n)| Way::Breaks(s, n))].boxed()
}
fn request(bytes: &[u8], way: &Way) -> Request {
    let body = match way {
        Way::Whole => Body::from(bytes.to_vec()),
        Way::Pieces(s) | Way::Breaks(s, _) => {
            let end = if let Way::Breaks(_, n) = way { *n as usize % (bytes.len() + 1) } else { bytes.len() };
            let all = Bytes::copy_from_slice(&bytes[..end]);
            let mut at = 0;
            let mut i = 0;
            let s = s.clone();
            // tiny pieces of something huge would only take time
            let least = end / 5000;
            let mut breaks = matches!(way, Way::Breaks(..));
            Body::from_stream(futures_util::stream::iter(std::iter::from_fn(move || {
                if at < end {
                    let n = usize::from(s[i % s.len()]).max(usize::from(i % s.len() == 0)).max(least).min(end - at);
                    let part = all.slice(at..at + n);
                    at += n;
                    i += 1;
                    return Some(Ok(part));
                }
                std::mem::take(&mut breaks).then(|| Err(std::io::Error::from(std::io::ErrorKind::ConnectionReset)))
            })))
        }
    };
    Request::new(body)
}
/// Status, content type and body of an answer.
fn taken_apart(r: Response) -> Result<(u16, String, Vec<u8>), Fail> {
    let status = r.status().as_u16();
    let ty = r.headers().get("content-type").map(|h| String::from_utf8_lossy(h.as_bytes()).into_owned()).unwrap_or_default();
    let body = wait(to_bytes(r.into_body(), usize::MAX)).map_err(|e| harness_err!("the body of an answer: {e}"))?;
    Ok((status, ty, body.to_vec()))
}
fn answered(r: Response) -> Result<Vec<u8>, Fail> {
    let (status, ty, body) = taken_apart(r)?;
    ensure!(status == 200, "an answer has status {status}");
    ensure!(ty == "application/octet-stream", "an answer has the type {ty:?}");
    Ok(body)
}
/// The largest body that is taken when nothing else has been set.
const LIMIT: usize = 2_097_152;

fn c27_value(i: &(MV, Way), case: &mut Case) -> TestResult {
    let (m, way) = i;
    m.labels(case);
    case.label_if(matches!(way, Way::Pieces(_)), "in_pieces");
    let body = answered(m.build().into_response())?;
    if body.len() > 9 || m.is_container() {
        case.nontrivial();
    }
    let direct = Value::deser(&mut Cursor::new(&body), None).map_err(|e| v_err(format!("the body of an answer is not a value: {e}")))?;
    let mut tol = Tolerance::default();
    same(m, &direct, "answer", &mut tol).map_err(Fail::Violation)?;
    if body.len() > LIMIT {
        return Ok(());
    }
    let got = wait(Value::from_request(request(&body, way), &())).map_err(|e| v_err(format!("a request with a value is refused: {e}")))?;
    same(m, &got, "request", &mut tol).map_err(Fail::Violation)
}
fn c27_store(i: &(MStore, Way), case: &mut Case) -> TestResult {
    let (m, way) = i;
    if m.len() > 1 {
        case.nontrivial();
    }
    case.label_if(matches!(way, Way::Pieces(_)), "in_pieces");
    case.label_if(m.is_empty(), "empty_store");
    let body = answered(build_store(m).into_response())?;
    let direct = Store::deser(&body).map_err(|e| v_err(format!("the body of an answer is not a store: {e}")))?;
    let mut tol = Tolerance::default();
    same_store(m, &direct, &mut tol).map_err(Fail::Violation)?;
    if body.len() > LIMIT {
        return Ok(());
    }
    let got = wait(Store::from_request(request(&body, way), &())).map_err(|e| v_err(format!("a request with a store is refused: {e}")))?;
    same_store(m, &got, &mut tol).map_err(Fail::Violation)
}
/// Bodies that need not be what is wanted.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Odd {
    Bytes(Hostile),
    /// A value where a store is wanted, and the other way round.
    Value(MV),
    Store(MStore),
    /// A good body with its end cut off.
    Cut(MV, MStore, u32),
    /// A body of this many bytes more (or less) than is allowed.
    Long(i16),
}
fn odd(t: Tier) -> BoxedStrategy<Odd> {
    prop_oneof![
        8 => hostile_value(t).prop_map(Odd::Bytes),
        8 => c04_store_mut(t).prop_map(Odd::Bytes),
        2 => mv(t).prop_map(Odd::Value),
        2 => mstore(t).prop_map(Odd::Store),
        6 => (mv(t), mstore(t), any::<u32>()).prop_map(|(v, s, n)| Odd::Cut(v, s, n)),
    ]
    .boxed()
}
fn refused(rsp: Response, want: u16) -> TestResult {
    let (status, ty, text) = taken_apart(rsp)?;
    ensure!(status == want, "a refused request is answered with status {status} instead of {want}: {}", truncate(&String::from_utf8_lossy(&text), 200));
    ensure!(ty.starts_with("text/plain"), "a refusal has the type {ty:?}");
    ensure!(std::str::from_utf8(&text).is_ok_and(|t| !t.trim().is_empty()), "a refusal says nothing: {text:?}");
    Ok(())
}
fn c27_odd(i: &(Odd, Way), case: &mut Case) -> TestResult {
    let (odd, way) = i;
    let (vb, sb) = match odd {
        Odd::Bytes(h) => (h.bytes.clone(), h.bytes.clone()),
        Odd::Value(v) => (v.build().ser(None), v.build().ser(None)),
        Odd::Store(s) => (build_store(s).ser(), build_store(s).ser()),
        Odd::Cut(v, s, n) => {
            let (mut a, mut b) = (v.build().ser(None), build_store(s).ser());
            a.truncate(*n as usize % a.len().max(1));
            b.truncate(*n as usize % b.len().max(1));
            (a, b)
        }
        Odd::Long(n) => {
            let b = vec![b'S'; (LIMIT as i64 + i64::from(*n)) as usize];
            (b.clone(), b)
        }
    };
    case.label(match odd {
        Odd::Bytes(_) => "hostile_bytes",
        Odd::Value(_) => "a_value",
        Odd::Store(_) => "a_store",
        Odd::Cut(..) => "cut_off",
        Odd::Long(_) => "about_as_long_as_allowed",
    });
    // what anyone taking the bytes of the request would be told
    let raw = |b: &[u8]| wait(Bytes::from_request(request(b, way), &())).map_err(|e| e.into_response().status().as_u16());
    for store in [false, true] {
        let bytes = if store { &sb } else { &vb };
        let text;
        let rsp;
        let want;
        match raw(bytes) {
            Ok(all) => {
                ensure!(&all[..] == &bytes[..], "harness: the request holds other bytes");
                want = 400;
                if store {
                    let lib = Store::deser(bytes);
                    match (wait(Store::from_request(request(bytes, way), &())), lib) {
                        (Ok(a), Ok(b)) => {
                            let m: MStore = b.iter().map(|(k, v)| model_of(v).map(|v| (k.clone(), v))).collect::<Result<_, _>>().map_err(Fail::Violation)?;
                            same_store(&m, &a, &mut Tolerance::default()).map_err(|e| v_err(format!("a request is taken for another store than its bytes: {e}")))?;
                            case.label("store_taken");
                            continue;
                        }
                        (Ok(a), Err(e)) => return violation(format!("bytes that hold no store ({e}) are taken for {}", truncate(&format!("{a:?}"), 200))),
                        (Err(r), Ok(_)) => return violation(format!("a request whose bytes are a store is refused: {r}")),
                        (Err(r), Err(_)) => {
                            text = (r.to_string(), r.body_text(), r.status().as_u16());
                            rsp = r.into_response();
                        }
                    }
                } else {
                    let lib = Value::deser(&mut Cursor::new(bytes), None);
                    match (wait(Value::from_request(request(bytes, way), &())), lib) {
                        (Ok(a), Ok(b)) => {
                            let m = model_of(&b).map_err(Fail::Violation)?;
                            same(&m, &a, "request", &mut Tolerance::default()).map_err(|e| v_err(format!("a request is taken for another value than its bytes: {e}")))?;
                            case.label("value_taken");
                            continue;
                        }
                        (Ok(a), Err(e)) => return violation(format!("bytes that hold no value ({e}) are taken for {}", truncate(&format!("{a:?}"), 200))),
                        (Err(r), Ok(_)) => return violation(format!("a request whose bytes are a value is refused: {r}")),
                        (Err(r), Err(_)) => {
                            text = (r.to_string(), r.body_text(), r.status().as_u16());
                            rsp = r.into_response();
                        }
                    }
                }
                case.label("refused");
            }
            Err(status) => {
                want = status;
                case.label(if status == 413 { "too_long" } else { "broken_off" });
                let r = if store { wait(Store::from_request(request(bytes, way), &())).err() } else { wait(Value::from_request(request(bytes, way), &())).err() };
                let Some(r) = r else { return violation("a request that cannot be read is taken for a value") };
                text = (r.to_string(), r.body_text(), r.status().as_u16());
                rsp = r.into_response();
            }
        }
        case.nontrivial();
        ensure!(text.0 == text.1 && !text.1.is_empty(), "a refusal prints {:?} and says {:?}", text.0, text.1);
        ensure!(text.2 == want, "a refusal has status {} instead of {want}", text.2);
        refused(rsp, want)?;
    }
    Ok(())
}
pub fn c27p() -> Property {
    Property {
        id: "C27",
        rule: "values and stores as bodies of answers and of requests, whole or in pieces; and bodies that are hostile, cut off, broken off, too long or of the other kind; non-trivial: more than 9 bytes, a container, or a refused request",
        level: "exploration",
        assumptions: &["the extractors and answers are called as axum calls them, without a server around them", "what axum itself says of a request it cannot read is taken as right"],
        checks: vec![
            Pbt::boxed("value", 40_000, 200_000, |t| (mv(t), way()), c27_value),
            Pbt::boxed("store", 20_000, 150_000, |t| (mstore(t), way()), c27_store),
            Pbt::boxed("large_value", 200, 2_000, |_| (big_mv(), way()), c27_value),
            Pbt::boxed("large_store", 100, 1_000, |_| (big_store(), way()), c27_store),
            Pbt::boxed("odd_bodies", 30_000, 250_000, |t| (odd(t), any_way()), c27_odd),
            Pbt::boxed("long_bodies", 24, 200, |_| (prop_oneof![-3..4_i16, any::<i16>()].prop_map(Odd::Long), any_way()), c27_odd),
        ],
    }
}
