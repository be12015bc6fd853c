//! Operations of an iterator, as a script: ["next"], ["nth", k], ["len"], ["take", k],
//! ["find", item], and - as the last one - ["rest"], ["count"], ["last"], ["fold"], ["step", k], ["for"].
use serde_json::{json, Value};

/// `show`: an item as a tuple; `many`: items as runs; `len`: the lengths reported.
pub fn script<I, S, L>(it: I, ops: &Value, limit: usize, show: S, len: L) -> Value
where
    I: Iterator,
    S: Fn(I::Item) -> Vec<Value> + Copy,
    L: Fn(&I) -> Value,
{
    let mut slot = Some(it);
    let mut out = Vec::new();
    for op in ops.as_array().unwrap() {
        let k = op.get(1).and_then(Value::as_u64).unwrap_or(0) as usize;
        let one = |v: Option<I::Item>| v.map_or_else(Vec::new, show);
        let name = op[0].as_str().unwrap();
        let res = match name {
            "len" => len(slot.as_ref().unwrap()),
            "next" => json!(one(slot.as_mut().unwrap().next())),
            "nth" => json!(one(slot.as_mut().unwrap().nth(k))),
            "skip" => json!(one(slot.as_mut().unwrap().by_ref().skip(k).next())),
            "take" => many(slot.as_mut().unwrap().by_ref().take(k).map(show)),
            "find" => {
                let want = op[1].as_array().unwrap();
                json!(slot.as_mut().unwrap().position(|p| &show(p) == want).map_or_else(Vec::new, |i| vec![i]))
            }
            "rest" => many(slot.take().unwrap().take(limit).map(show)),
            "count" => json!([slot.take().unwrap().count()]),
            "last" => json!(one(slot.take().unwrap().last())),
            "fold" => {
                let v = slot.take().unwrap().fold(Vec::new(), |mut v, p| {
                    v.push(show(p));
                    v
                });
                many(v.into_iter())
            }
            "for" => {
                let mut v = Vec::new();
                slot.take().unwrap().for_each(|p| v.push(show(p)));
                many(v.into_iter())
            }
            "collect" => many(slot.take().unwrap().collect::<Vec<_>>().into_iter().map(show)),
            "step" => many(slot.take().unwrap().step_by(k).take(limit).map(show)),
            o => panic!("unknown operation {o}"),
        };
        out.push(res);
    }
    json!(out)
}

/// Runs of equal items: the item's components, then how many.
pub fn many<I: Iterator<Item = Vec<Value>>>(it: I) -> Value {
    let mut out: Vec<Value> = Vec::new();
    let mut cur: Option<(Vec<Value>, u32)> = None;
    let push = |c: Option<(Vec<Value>, u32)>, out: &mut Vec<Value>| {
        if let Some((mut q, n)) = c {
            q.push(json!(n));
            out.push(json!(q));
        }
    };
    for p in it {
        match &mut cur {
            Some((q, n)) if *q == p => *n += 1,
            _ => push(cur.replace((p, 1)), &mut out),
        }
    }
    push(cur, &mut out);
    json!(out)
}
