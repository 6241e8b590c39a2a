//! combinations of trees that live in stores
use crate::gen::*;
use crate::h_att::stored;
use crate::h_comb::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::store::*;
use radixdb::*;

fn data<S: BlobStore>(v: &ValueRef<S>, s: &S) -> Bytes {
    load(&v.to_owned(), s)
}
fn detached_value(v: &[u8]) -> Value {
    RadixTree::single(b"", v).value().unwrap().to_owned()
}

/// the results of the three combinations as new trees. a and b may have different stores.
fn fresh<S1: BlobStore<Error = E1> + Clone, S2: BlobStore<Error = E2> + Clone, E1, E2>(
    op: Op,
    a: &RadixTree<S1>,
    b: &RadixTree<S2>,
    p: &Plan,
    new: &[u8],
) -> Result<RadixTree, Error>
where
    Error: From<E1> + From<E2>,
{
    let (sa, sb) = (&RadixTree::store(a).clone(), &RadixTree::store(b).clone());
    let f = |x: &ValueRef<S1>, y: &ValueRef<S2>| -> Result<Option<Value>, Error> {
        let (x, y) = (data(x, sa), data(y, sb));
        Ok(match p.call(&x, &y) {
            KEEP_A => Some(detached_value(&x)),
            TAKE_B => Some(detached_value(&y)),
            DROP => None,
            _ => Some(detached_value(new)),
        })
    };
    match op {
        Op::Outer => a.try_outer_combine::<S2, Error, _>(b, f),
        Op::Inner => a.try_inner_combine::<S2, Error, _>(b, f),
        Op::Left => a.try_left_combine::<S2, Error, _>(b, f),
    }
}
fn preds<S1: BlobStore<Error = E1> + Clone, S2: BlobStore<Error = E2> + Clone, E1, E2>(
    a: &RadixTree<S1>,
    b: &RadixTree<S2>,
    m1: &Map,
    m2: &Map,
    p: &Plan,
) where
    Error: From<E1> + From<E2>,
{
    let (sa, sb) = (&RadixTree::store(a).clone(), &RadixTree::store(b).clone());
    let (mut inner, mut left) = (false, false);
    for (_, x, y) in join(m1, m2) {
        match (x, y) {
            (Some(x), Some(y)) => {
                inner |= p.of(x, y) == 1;
                left |= p.of(x, y) == 1;
            }
            (Some(_), None) => left = true,
            _ => {}
        }
    }
    let f = |x: &ValueRef<S1>, y: &ValueRef<S2>| -> Result<bool, Error> { Ok(p.call(&data(x, sa), &data(y, sb)) == 1) };
    let r = ok(a.try_inner_combine_pred::<S2, Error, _>(b, f), "inner_combine_pred succeeds");
    check(r == inner, "inner_combine_pred on attached trees");
    let r = ok(a.try_left_combine_pred::<S2, Error, _>(b, f), "left_combine_pred succeeds");
    check(r == left, "left_combine_pred on attached trees");
    check(!p.wrong.get(), "the predicate is asked for pairs with the same key");
}
/// in place on an attached tree
fn in_place<S2: BlobStore<Error = E2> + Clone, E2, C: NodeConverter<S2, Store> + Clone>(
    op: Op,
    a: &mut RadixTree<Store>,
    b: &RadixTree<S2>,
    c: C,
    p: &Plan,
    new: &[u8],
    take: impl Fn(&mut Value<Store>, &ValueRef<S2>, &[u8]),
) -> Result<(), Error>
where
    Error: From<E2>,
{
    let (sa, sb) = (&RadixTree::store(a).clone(), &RadixTree::store(b).clone());
    let f = |x: &mut Value<Store>, y: &ValueRef<S2>| -> Result<(), Error> {
        let d = data(y, sb);
        match p.call(&load(x, sa), &d) {
            KEEP_A => {}
            TAKE_B => take(x, y, &d),
            DROP => x.set(None),
            _ => x.set(Some(RadixTree::single(b"", new).value().unwrap().downcast())),
        }
        Ok(())
    };
    match op {
        Op::Outer => a.try_outer_combine_with(b, c, f),
        Op::Inner => a.try_inner_combine_with(b, c, f),
        Op::Left => a.try_left_combine_with(b, c, f),
    }
}

/// params: entries left, entries right, ways left, ways right (each: ways of being stored),
/// decisions, id length, which (0 new trees, 1 in place, 2 predicates), shape
#[no_mangle]
pub fn h_att_comb() {
    let (n1, n2) = (param(0), param(1));
    let which = param(6);
    let s = shape(7);
    let live0 = live();
    {
        let m1 = tagged(&s, n1, A);
        let m2 = tagged(&s, n2, B);
        let s1 = Store::new(param(5));
        let s2 = Store::new(param(5));
        let op = match pick(if which == 2 { 1 } else { 3 }) {
            0 => Op::Outer,
            1 => Op::Inner,
            _ => Op::Left,
        };
        let how2 = pick(param(3) + 1);
        let plan = Plan::new(&m1, &m2, if which == 2 { 2 } else { param(4) });
        let new = new_value(s.vlen);
        let e = combined(op, &m1, &m2, &plan, &new);
        let p = &plan;
        if which == 1 {
            let how1 = pick(param(2));
            let mut a = stored(&m1, &s1, how1);
            if how2 == param(3) {
                let b = tree(&m2);
                ok(in_place(op, &mut a, &b, DowncastConverter, p, &new, |x, y, _| x.set(Some(y.downcast()))), "an in-place combination succeeds");
                check_content(&b, &m2, "the argument is unchanged");
            } else if pick(2) == 0 {
                // both in one store
                let b = stored(&m2, &s1, how2);
                ok(in_place(op, &mut a, &b, IdentityConverter, p, &new, |x, y, _| x.set(Some(y))), "an in-place combination succeeds");
                check_att(&b, &m2, "the argument is unchanged");
            } else {
                let b = stored(&m2, &s2, how2);
                ok(in_place(op, &mut a, &b, DetachConverter, p, &new, |x, _, d| x.set(Some(RadixTree::single(b"", d).value().unwrap().downcast()))), "an in-place combination succeeds");
                check_att(&b, &m2, "the argument is unchanged");
            }
            check_att(&a, &e, "an in-place combination holds exactly the right entries");
            check(p.once(), "the function is asked once per key on both sides");
            check(a.is_empty() == e.0.is_empty(), "is_empty after an in-place combination");
            let d = ok(a.try_detached(), "detaching succeeds");
            check(d == tree(&e), "detached, the result equals the tree built from its entries");
            ok(a.try_reattach(), "reattaching succeeds");
            check_att(&a, &e, "the result can be persisted");
        } else {
            let how1 = pick(param(2) + 1);
            macro_rules! go {
                ($a:expr, $b:expr) => {{
                    let (a, b) = ($a, $b);
                    if which == 2 {
                        preds(&a, &b, &m1, &m2, p);
                    } else {
                        let r = ok(fresh(op, &a, &b, p, &new), "a combination succeeds");
                        check_content(&r, &e, "a combination holds exactly the right entries");
                        check(p.once(), "the function is asked once per key on both sides");
                        check(r == tree(&e), "a combination equals the tree built from its entries");
                    }
                }};
            }
            match (how1 == param(2), how2 == param(3)) {
                (true, true) => assume(false),
                (true, false) => go!(tree(&m1), stored(&m2, &s2, how2)),
                (false, true) => go!(stored(&m1, &s1, how1), tree(&m2)),
                (false, false) => go!(stored(&m1, &s1, how1), stored(&m2, &s2, how2)),
            }
        }
        check(s1.inner().stray == 0 && s2.inner().stray == 0, "only ids that the store gave out are read");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// params: entries, prefixes, ways, ways, id length, shape, shape of prefixes
#[no_mangle]
pub fn h_att_by_prefixes() {
    let (n1, n2) = (param(0), param(1));
    let s = shape(5);
    let z = shape(5 + SHAPE);
    let live0 = live();
    {
        let m1 = tagged(&s, n1, A);
        let m2 = tagged(&z, n2, B);
        let s1 = Store::new(param(4));
        let s2 = Store::new(param(4));
        let mut on = [false; 8];
        for i in 0..m2.0.len() {
            on[i] = pick(2) == 1;
        }
        let o = &on;
        let retain = pick(2) == 1;
        let e = m1.filter(|k, _| {
            let mut r = false;
            for (p, v) in &m2.0 {
                if o[(v[0] - B) as usize] && is_prefix(p, k) {
                    r = true;
                    break;
                }
            }
            r == retain
        });
        let mut a = stored(&m1, &s1, pick(param(2)));
        let how2 = pick(param(3) + 1);
        macro_rules! go {
            ($b:expr) => {{
                let b = $b;
                let sb = &RadixTree::store(&b).clone();
                let f = |v: &ValueRef<_>| -> Result<bool, Error> { Ok(o[(data(v, sb)[0] - B) as usize]) };
                if retain {
                    ok(a.try_retain_prefix_with(&b, f), "retain_prefix_with succeeds");
                } else {
                    ok(a.try_remove_prefix_with(&b, f), "remove_prefix_with succeeds");
                }
            }};
        }
        if how2 == param(3) {
            go!(tree(&m2))
        } else {
            go!(stored(&m2, &s2, how2))
        }
        check_att(&a, &e, "retaining or removing by prefixes leaves exactly the right entries");
        check(a.is_empty() == e.0.is_empty(), "is_empty afterwards");
        let d = ok(a.try_detached(), "detaching succeeds");
        check(d == tree(&e), "detached, the result equals the tree built from its entries");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
