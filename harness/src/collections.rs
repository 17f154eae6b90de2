use id_newtypes::{BitSet, IdRange, IdToMany, IdToOne};
use serde_json::{Value, json};
use std::cmp::Ordering;
use std::num::NonZero;
use walker::Walk;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, id_derives::Id)]
struct ByteId(u8);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, id_derives::Id)]
struct OddId(NonZero<u8>);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize, id_derives::Id)]
struct NodeId(NonZero<u32>);

#[derive(id_derives::IndexedFields)]
struct Graph {
    #[indexed_by(NodeId)]
    nodes: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Node(u64);

impl<'g> Walk<&'g Graph> for NodeId {
    type Walker<'a>
        = Node
    where
        Self: 'a,
        &'g Graph: 'a;
    fn walk<'a>(self, ctx: impl Into<&'g Graph>) -> Node
    where
        Self: 'a,
        &'g Graph: 'a,
    {
        Node(ctx.into()[self])
    }
}

fn id(i: u64) -> NodeId {
    NodeId::from(i as usize)
}
fn no(i: NodeId) -> u64 {
    usize::from(i) as u64
}

fn bits(b: &BitSet<NodeId>) -> Value {
    let ones: Vec<u64> = b.ones().map(no).collect();
    let zeroes: Vec<u64> = b.zeroes().map(no).collect();
    // what is read one by one, also past the end
    let read: Vec<u64> = (0..(b.len() as u64 + 70)).filter(|i| b[id(*i)]).collect();
    // FixedBitSet writes the lowest bit first
    let text: Vec<u64> = format!("{b:b}")
        .bytes()
        .enumerate()
        .filter(|(_, c)| *c == b'1')
        .map(|(i, _)| i as u64)
        .collect();
    let consistent = read == ones && text == ones && b.is_empty() == (b.len() == 0);
    json!({"n": b.len(), "ones": ones, "zeroes": zeroes, "consistent": consistent})
}

pub fn run(req: &Value) -> Value {
    let graph = Graph {
        nodes: (0..64).map(|i| i * 10).collect(),
    };
    let mut a = BitSet::<NodeId>::new();
    let mut b = BitSet::<NodeId>::default();
    let mut r = IdRange::<NodeId>::empty().into_iter();
    // the range that the iterator still covers
    let mut ends = IdRange::<NodeId>::empty();
    let mut rel = IdToMany::<NodeId, u64>::default();
    let mut one = IdToOne::<NodeId, u64>::init(0, 0);
    let mut out = Vec::new();
    for op in req["ops"].as_array().unwrap() {
        let x = |k: &str| op["args"][k].as_u64().unwrap();
        let f = |k: &str| op["args"][k].as_bool().unwrap();
        let l = |k: &str| {
            op["args"][k]
                .as_array()
                .unwrap()
                .iter()
                .map(|v| id(v.as_u64().unwrap()))
                .collect::<Vec<_>>()
        };
        let pairs = || {
            op["args"]["l"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (id(p[0].as_u64().unwrap()), p[1].as_u64().unwrap()))
                .collect::<Vec<_>>()
        };
        let mut ret = json!([]);
        let mut fresh = None;
        match op["o"].as_str().unwrap() {
            "capacity" => a = BitSet::with_capacity(x("n") as usize),
            "grow" => a.grow(x("n") as usize),
            "set" => a.set(id(x("i")), f("v")),
            "put" => ret = json!([a.put(id(x("i")))]),
            "insert" => a.insert(id(x("i"))),
            "range" => a.set_range(IdRange::from_start_and_end(id(x("i")), id(x("j"))), f("v")),
            "all" => a.set_all(f("v")),
            "not" => a = !a,
            "or" => a |= b.clone(),
            "and" => a &= b.clone(),
            "xor" => a ^= b.clone(),
            "or2" => a = a | b.clone(),
            "and2" => a = a & b.clone(),
            "xor2" => a = a ^ b.clone(),
            "swap" => std::mem::swap(&mut a, &mut b),
            "fromlen" => fresh = Some(IdRange::from_start_and_length((id(x("lo")), x("len") as usize))),
            "fromends" => fresh = Some(IdRange::from(id(x("lo"))..id(x("hi")))),
            "single" => fresh = Some(IdRange::from_single(id(x("lo")))),
            "slice" => {
                fresh = IdRange::from_slice(&l("l"));
                ret = json!([fresh.is_some()]);
            }
            "front" => ret = json!(r.next().map(no).into_iter().collect::<Vec<_>>()),
            "back" => ret = json!(r.next_back().map(no).into_iter().collect::<Vec<_>>()),
            "nth" => ret = json!(r.nth(x("k") as usize).map(no).into_iter().collect::<Vec<_>>()),
            "relate" => {
                rel = if x_even(op) {
                    pairs().into_iter().collect()
                } else {
                    pairs().into()
                }
            }
            "sorted" => rel = IdToMany::from_sorted_vec(pairs()),
            "init" => one = IdToOne::init(x("v"), x("n") as usize),
            "assign" => {
                ret = json!([one[id(x("i"))]]);
                one[id(x("i"))] = x("v");
            }
            "compare" => {
                let (p, q) = (l("x"), l("y"));
                let (p, q) = (p.as_slice().walk(&graph), q.as_slice().walk(&graph));
                let c = Ord::cmp(&p, &q);
                let agree = PartialOrd::partial_cmp(&p, &q) == Some(c)
                    && Ord::cmp(&q, &p) == c.reverse()
                    && (p == q) == (c == Ordering::Equal)
                    && p.len() == l("x").len();
                ret = json!([
                    match c {
                        Ordering::Less => "less",
                        Ordering::Equal => "equal",
                        Ordering::Greater => "greater",
                    },
                    agree
                ]);
            }
            "id" => {
                let v = x("x") as usize;
                let hush = |f: &dyn Fn() -> Value| {
                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(json!(false))
                };
                ret = json!([
                    hush(&|| json!(
                        usize::from(ByteId::from(v)) == v
                            && u8::from(ByteId::from(v)) as usize == v
                            && ByteId::from(v as u8) == ByteId::from(v)
                            && ByteId::from(v).to_string() == format!("Byte#{v}")
                    )),
                    hush(&|| json!(
                        usize::from(OddId::from(v)) == v
                            && u8::from(OddId::from(v)) as usize == v
                            && OddId::from(v as u8) == OddId::from(v)
                            && OddId::from(v).to_string() == format!("Odd#{v}")
                    )),
                ]);
            }
            other => return json!({"harness_error": other}),
        }
        if let Some(range) = fresh {
            r = range.into_iter();
        }
        let left: Vec<u64> = r.clone().map(no).collect();
        if fresh.is_some() {
            ends = fresh.unwrap();
        } else if let (Some(x), Some(y)) = (left.first(), left.last()) {
            ends = IdRange::from_start_and_end(id(*x), id(*y + 1));
        } else {
            ends = IdRange::from_start_and_length((ends.end, 0));
        }
        let mut back: Vec<u64> = r.clone().rev().map(no).collect();
        back.reverse();
        let walked: Vec<u64> = ends.walk(&graph).map(|n| n.0 / 10).collect();
        let mut walked_back: Vec<u64> = ends.walk(&graph).rev().map(|n| n.0 / 10).collect();
        walked_back.reverse();
        let consistent = back == left
            && walked == left
            && walked_back == left
            && r.len() == left.len()
            && r.size_hint() == (left.len(), Some(left.len()))
            && ends.len() == left.len()
            && ends.is_empty() == left.is_empty()
            && ends.as_usize().map(|i| i as u64).eq(left.iter().copied())
            && graph[ends].iter().map(|v| v / 10).eq(left.iter().copied())
            && ends.walk(&graph).len() == left.len();
        let probe = op["probe"].as_u64().unwrap();
        let mut vals: Vec<u64> = rel.find_all(id(probe % 6)).copied().collect();
        vals.sort();
        let list: Vec<u64> = one.iter().map(|(_, v)| *v).collect();
        let positions = one
            .iter()
            .enumerate()
            .all(|(i, (k, v))| usize::from(k) == i && one[k] == *v);
        let moved = {
            let mut o = IdToOne::<NodeId, u64>::init(0, list.len());
            for (k, v) in one.iter() {
                o[k] = *v;
            }
            o.into_iter()
                .map(|(k, v)| (no(k), v))
                .eq(list.iter().enumerate().map(|(i, v)| (i as u64, *v)))
        };
        out.push(json!({"ret": ret, "a": bits(&a), "r": {"members": left, "consistent": consistent,
            "at": ends.get(probe as usize).map(no).into_iter().collect::<Vec<_>>(), "pos": ends.index_of(id(probe)).into_iter().collect::<Vec<_>>()},
            "ids": rel.ids().map(no).collect::<Vec<_>>(), "vals": vals, "one": list, "one_ok": positions && moved}));
    }
    json!({ "out": out })
}

fn x_even(op: &Value) -> bool {
    op["args"]["l"].as_array().unwrap().len() % 2 == 0
}
