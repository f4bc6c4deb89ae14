// Client functions whose bodies are analysed statically (never run): one per public entry point of `trees`.
#![allow(unused, improper_ctypes, mutable_transmutes)]
extern crate trees;
use std::pin::Pin;
use trees::*;
use trees::walk::Visit;

pub mod tup {
    // A tuple of unknown nesting: every item is opaque, SIZE is recognised by its two numbers.
    use super::opq::Elem;
    use trees::{Size, TupleTree, TupleForest, tuple::Visit};
    pub struct Tup(u8);
    pub struct Shape;
    macro_rules! items { () => {
        const SIZE: Size = Size{ degree: 0x5EED_0000_0010, descendants: 0x5EED_0000_1000 };
        #[inline(never)] fn descendants(_: usize) -> usize { loop {} }
        #[inline(never)] fn height() -> usize { loop {} }
        #[inline(never)] fn preorder(self, _: &mut impl FnMut(Visit<Elem>)) { loop {} }
        #[inline(never)] fn preorder_with_size_hint(self, _: &mut impl FnMut(Visit<Elem>, Size)) { loop {} }
        #[inline(never)] fn postorder(self, _: &mut impl FnMut(Visit<Elem>)) { loop {} }
        #[inline(never)] fn postorder_with_size_hint(self, _: &mut impl FnMut(Visit<Elem>, Size)) { loop {} }
    }}
    impl TupleTree<Elem, Shape> for Tup { items!{} }
    impl TupleForest<Elem, Shape> for Tup { items!{} }
}
pub mod surrogate {
    pub fn deque_extend<T, I: IntoIterator<Item=T>>(v: &mut std::collections::VecDeque<T>, i: I) { for x in i { v.push_back(x) } }
    pub fn vec_extend<T, I: IntoIterator<Item=T>>(v: &mut Vec<T>, i: I) { for x in i { v.push(x) } }
}
pub mod opq {
    // Opaque element: nothing is known about its operations.
    pub struct Elem(u8);
    impl Drop for Elem { #[inline(never)] fn drop(&mut self) {} }
    impl Clone for Elem { #[inline(never)] fn clone(&self) -> Elem { loop {} } }
    use std::cmp::Ordering;
    use std::fmt;
    use std::hash::{Hash,Hasher};
    impl PartialEq for Elem {
        #[inline(never)] fn eq(&self, o: &Elem) -> bool { loop {} }
        #[inline(never)] fn ne(&self, o: &Elem) -> bool { loop {} }
    }
    impl Eq for Elem {}
    impl PartialOrd for Elem { #[inline(never)] fn partial_cmp(&self, o: &Elem) -> Option<Ordering> { loop {} } }
    impl Ord for Elem { #[inline(never)] fn cmp(&self, o: &Elem) -> Ordering { loop {} } }
    impl Hash for Elem { #[inline(never)] fn hash<H: Hasher>(&self, h: &mut H) {} }
    impl fmt::Display for Elem { #[inline(never)] fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { loop {} } }
    impl fmt::Debug for Elem { #[inline(never)] fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { loop {} } }
    pub struct QH(usize);
    impl Hasher for QH {
        #[inline(never)] fn finish(&self) -> u64 { loop {} }
        #[inline(never)] fn write(&mut self, b: &[u8]) {}
        #[inline(never)] fn write_u8(&mut self, i: u8) {}
        #[inline(never)] fn write_u16(&mut self, i: u16) {}
        #[inline(never)] fn write_u32(&mut self, i: u32) {}
        #[inline(never)] fn write_u64(&mut self, i: u64) {}
        #[inline(never)] fn write_usize(&mut self, i: usize) {}
        #[inline(never)] fn write_isize(&mut self, i: isize) {}
    }
    // a use of a datum by the client
    #[inline(never)] pub fn look(e: &Elem) {}
    #[inline(never)] pub fn poke(e: &mut Elem) {}
    // the client gets hold of a node, of a number
    #[inline(never)] pub fn see(n: &trees::Node<Elem>) {}
    #[inline(never)] pub fn see_rc(n: &trees::RcNode<Elem>) {}
    #[inline(never)] pub fn note(n: usize) {}
    #[inline(never)] pub fn note2(n: usize, m: usize) {}
    #[inline(never)] pub fn flag(n: bool) {}
    #[inline(never)] pub fn conv(e: Elem) -> Elem { loop {} }
    // opaque lists of opaque items, and an opaque stream of visits
    pub struct QI(usize);
    pub struct QN(usize);
    pub struct QV(usize);
    impl Iterator for QI { type Item = QN; #[inline(never)] fn next(&mut self) -> Option<QN> { loop {} } #[inline(never)] fn size_hint(&self) -> (usize, Option<usize>) { loop {} } }
    impl ExactSizeIterator for QI { #[inline(never)] fn len(&self) -> usize { loop {} } }
    impl trees::bfs::Split for QN { type Item = Elem; type Iter = QI; #[inline(never)] fn split(self) -> (Elem, QI, usize) { loop {} } }
    impl Iterator for QV { type Item = trees::bfs::Visit<Elem>; #[inline(never)] fn next(&mut self) -> Option<trees::bfs::Visit<Elem>> { loop {} } }
    // the caller's own iterator of trees
    pub struct QT(usize);
    impl Iterator for QT { type Item = trees::Tree<Elem>; #[inline(never)] fn next(&mut self) -> Option<trees::Tree<Elem>> { loop {} } }
    // anything may be waiting in the queue
    #[inline(never)] pub fn unknown(s: &mut trees::bfs::Splitted<QI>) {}
    // the only list in the queue
    #[inline(never)] pub fn only<I>(s: trees::bfs::Splitted<I>) -> I { loop {} }
    // the client does one thing or another
    #[inline(never)] pub fn choose() -> bool { loop {} }
}
use opq::*;

type N = Node<Elem>;
type T = Tree<Elem>;
type F = Forest<Elem>;
type R = RcNode<Elem>;
type W = WeakNode<Elem>;
type NM<'a> = Pin<&'a mut N>;

pub fn node_push_back(mut n: NM, t: T) { n.push_back(t) }
pub fn node_push_front(mut n: NM, t: T) { n.push_front(t) }
pub fn node_pop_front(mut n: NM) -> Option<T> { n.pop_front() }
pub fn node_pop_back(mut n: NM) -> Option<T> { n.pop_back() }
pub fn node_prepend(mut n: NM, f: F) { n.prepend(f) }
pub fn node_append(mut n: NM, f: F) { n.append(f) }
pub fn node_insert_prev_sib(mut n: NM, t: T) { n.insert_prev_sib(t) }
pub fn node_insert_next_sib(mut n: NM, t: T) { n.insert_next_sib(t) }
pub fn node_detach(mut n: NM) -> T { n.detach() }

pub fn tree_push_back(a: &mut T, t: T) { a.push_back(t) }
pub fn tree_push_front(a: &mut T, t: T) { a.push_front(t) }
pub fn tree_pop_front(a: &mut T) -> Option<T> { a.pop_front() }
pub fn tree_pop_back(a: &mut T) -> Option<T> { a.pop_back() }
pub fn tree_prepend(a: &mut T, f: F) { a.prepend(f) }
pub fn tree_append(a: &mut T, f: F) { a.append(f) }
pub fn tree_abandon(a: &mut T) -> F { a.abandon() }
pub fn tree_new(d: Elem) -> T { Tree::new(d) }
pub fn forest_push_back(a: &mut F, t: T) { a.push_back(t) }
pub fn forest_push_front(a: &mut F, t: T) { a.push_front(t) }
pub fn forest_pop_front(a: &mut F) -> Option<T> { a.pop_front() }
pub fn forest_pop_back(a: &mut F) -> Option<T> { a.pop_back() }
pub fn forest_prepend(a: &mut F, f: F) { a.prepend(f) }
pub fn forest_append(a: &mut F, f: F) { a.append(f) }
pub fn forest_new() -> F { Forest::new() }

pub fn drop_tree(t: T) { drop(t) }
pub fn drop_forest(f: F) { drop(f) }

// ---------------------------------------------------------------- RcNode, WeakNode
pub fn rc_from_tree(t: T) -> R { RcNode::from(t) }
pub fn rc_clone(r: &R) -> R { r.clone() }
pub fn rc_drop(r: R) { drop(r) }
pub fn rc_is_root(r: &R) -> bool { r.is_root() }
pub fn rc_has_no_child(r: &R) -> bool { r.has_no_child() }
pub fn rc_degree(r: &R) -> usize { r.degree() }
pub fn rc_node_count(r: &R) -> usize { r.node_count() }
pub fn rc_data(r: &R) { let d = r.data(); look(&*d); }
pub fn rc_data_mut(r: &R) { let mut d = r.data_mut(); poke(&mut *d); }
pub fn rc_node(r: &R) { let n = unsafe { r.node() }; look(n.data()); }
pub fn rc_node_mut(r: &R) { let mut n = unsafe { r.node_mut() }; poke(n.data_mut()); }
pub fn rc_front(r: &R) -> Option<R> { r.front() }
pub fn rc_back(r: &R) -> Option<R> { r.back() }
pub fn rc_parent(r: &R) -> Option<R> { r.parent() }
pub fn rc_push_back(r: &R, t: T) { r.push_back(t) }
pub fn rc_push_front(r: &R, t: T) { r.push_front(t) }
pub fn rc_pop_front(r: &R) -> Option<R> { r.pop_front() }
pub fn rc_pop_back(r: &R) -> Option<R> { r.pop_back() }
pub fn rc_prepend(r: &R, f: F) { r.prepend(f) }
pub fn rc_extend(r: &mut R, i: QT) { r.extend(i) }
pub fn rc_append(r: &R, f: F) { r.append(f) }
pub fn rc_insert_prev_sib(r: &R, t: T) { r.insert_prev_sib(t) }
pub fn rc_insert_next_sib(r: &R, t: T) { r.insert_next_sib(t) }
pub fn rc_detach(r: &R) { r.detach() }
pub fn rc_downgrade(r: &R) -> W { r.downgrade() }
pub fn rc_into_tree(r: R) -> T { unsafe { r.into_tree() } }
pub fn weak_upgrade(w: &W) -> Option<R> { w.upgrade() }
pub fn weak_drop(w: W) { drop(w) }

// ---------------------------------------------------------------- sibling iterators
macro_rules! drain { ($it:ident, $x:ident, $see:expr) => {{
    loop {
        note($it.len());
        match $it.next() { Some($x) => { $see }, None => break }
    }
    flag($it.next().is_none());
    flag($it.next().is_none());
    note($it.len());
}}}
macro_rules! drain_hint { ($it:ident, $x:ident, $see:expr) => {{
    loop {
        let (lo, hi) = $it.size_hint();
        note2(lo, hi.unwrap());
        match $it.next() { Some($x) => { $see }, None => break }
    }
    flag($it.next().is_none());
}}}
pub fn it_node(n: &N) { let mut it = n.iter(); drain!(it, x, see(x)) }
pub fn it_node_mut(mut n: NM) { let mut it = n.iter_mut(); drain!(it, x, see(&*x)) }
pub fn it_tree(n: &T) { let mut it = n.iter(); drain!(it, x, see(x)) }
pub fn it_tree_mut(n: &mut T) { let mut it = n.iter_mut(); drain!(it, x, see(&*x)) }
pub fn it_forest(n: &F) { let mut it = n.iter(); drain!(it, x, see(x)) }
pub fn it_forest_mut(n: &mut F) { let mut it = n.iter_mut(); drain!(it, x, see(&*x)) }
pub fn it_rc(n: &R) { let mut it = n.iter_rc(); drain_hint!(it, x, see_rc(&x)) }
pub fn it_into_forest(n: F) { let mut it = n.into_iter(); drain!(it, x, see(x.root())) }
pub fn it_into_tree(n: T) { let mut it = n.into_iter(); drain!(it, x, see(x.root())) }
pub fn it_once(n: &N) { let mut it = n.into_iter(); drain!(it, x, see(x)) }
pub fn it_once_mut(n: NM) { let mut it = n.into_iter(); drain!(it, x, see(&*x)) }
pub fn it_into_partial(n: F) { let mut it = n.into_iter(); while choose() { match it.next() { Some(x) => see(x.root()), None => break } } }

// ---------------------------------------------------------------- editing while iterating
// after any number of steps, edit at the node just yielded, then run to the end
macro_rules! edit_mut { ($n:ident, $it:ident, $x:ident, $edit:expr) => {{
    let mut $it = $n.iter_mut();
    while choose() { match $it.next() { Some(x) => see(&*x), None => return } }
    match $it.next() { Some(mut $x) => { see(&*$x); $edit }, None => return }
    flag(true);
    drain!($it, y, see(&*y))
}}}
pub fn ed_detach(mut n: NM) { edit_mut!(n, it, x, drop(x.detach())) }
pub fn ed_prev(mut n: NM, t: T) { edit_mut!(n, it, x, x.insert_prev_sib(t)) }
pub fn ed_next(mut n: NM, t: T) { edit_mut!(n, it, x, x.insert_next_sib(t)) }
pub fn ed_push_back(mut n: NM, t: T) { edit_mut!(n, it, x, x.push_back(t)) }
pub fn ed_push_front(mut n: NM, t: T) { edit_mut!(n, it, x, x.push_front(t)) }
pub fn ed_append(mut n: NM, t: F) { edit_mut!(n, it, x, x.append(t)) }
pub fn ed_pop(mut n: NM) { edit_mut!(n, it, x, drop(x.pop_front())) }
// every node yielded is taken out
pub fn ed_detach_all(mut n: NM) { let mut it = n.iter_mut(); while let Some(mut x) = it.next() { see(&*x); drop(x.detach()); } }
pub fn ed_detach_some(mut n: NM) { let mut it = n.iter_mut(); while let Some(mut x) = it.next() { if choose() { drop(x.detach()); } } }

macro_rules! edit_rc { ($n:expr, $it:ident, $x:ident, $edit:expr) => {{
    let mut $it = $n.iter_rc();
    while choose() { if $it.next().is_none() { return } }
    match $it.next() { Some($x) => { see_rc(&$x); $edit }, None => return }
    flag(true);
    drain_hint!($it, y, see_rc(&y))
}}}
pub fn edrc_detach(n: &R) { edit_rc!(n, it, x, x.detach()) }
pub fn edrc_prev(n: &R, t: T) { edit_rc!(n, it, x, x.insert_prev_sib(t)) }
pub fn edrc_next(n: &R, t: T) { edit_rc!(n, it, x, x.insert_next_sib(t)) }
pub fn edrc_push_back(n: &R, t: T) { edit_rc!(n, it, x, x.push_back(t)) }
// the parent's handle goes, the first or last child goes, the coming child goes
macro_rules! lose_rc { ($n:expr, $it:ident, $edit:expr) => {{
    let mut $it = $n.iter_rc();
    while choose() { match $it.next() { Some(x) => see_rc(&x), None => return } }
    $edit
    flag(true);
    while let Some(y) = $it.next() { see_rc(&y) }
    flag($it.next().is_none());
}}}
pub fn lose_parent(n: R) { lose_rc!(n, it, { drop(n); }) }
pub fn lose_front(n: &R) { lose_rc!(n, it, { drop(n.pop_front()); }) }
pub fn lose_back(n: &R) { lose_rc!(n, it, { drop(n.pop_back()); }) }
// a clone takes over, a clone goes, a clone goes on where the original was
pub fn lose_parent_over(n: R) { lose_rc!(n, it, { let j = it.clone(); it = j; drop(n); }) }
pub fn lose_parent_twin(n: R) { lose_rc!(n, it, { drop(it.clone()); drop(n); }) }
pub fn lose_next_over(n: &R) { lose_rc!(n, it, { let j = it.clone(); if let Some(y) = it.next() { y.detach(); } it = j; }) }
pub fn lose_next(n: &R) { lose_rc!(n, it, { let mut j = it.clone(); if let Some(y) = j.next() { y.detach(); } }) }
pub fn twin_rc(n: &R) { let mut it = n.iter_rc(); while choose() { if it.next().is_none() { return } }
    let mut j = it.clone();
    let a = it.next(); let b = j.next();
    match (&a, &b) { (Some(a), Some(b)) => { see_rc(a); see_rc(b); }, (None, None) => flag(true), _ => flag(false) } }

// ---------------------------------------------------------------- reading
pub fn visit_node(n: &N) { let v = match (choose(), choose()) { (true, _) => Visit::Begin(n), (_, true) => Visit::Leaf(n), _ => Visit::End(n) }; see(v.node()) }
pub fn node_parent(n: &N) -> Option<&N> { n.parent() }
pub fn node_degree(n: &N) -> usize { n.degree() }
pub fn node_count(n: &N) -> usize { n.node_count() }
pub fn node_no_child(n: &N) -> bool { n.has_no_child() }
pub fn node_data(n: &N) { look(n.data()) }
pub fn node_data_mut(mut n: NM) { poke(n.data_mut()) }
pub fn node_front(n: &N) -> Option<&N> { n.front() }
pub fn node_back(n: &N) -> Option<&N> { n.back() }
pub fn node_front_mut(n: &mut N) { match n.front_mut() { Some(x) => see(&*x), None => flag(false) } }
pub fn node_back_mut(n: &mut N) { match n.back_mut() { Some(x) => see(&*x), None => flag(false) } }
pub fn tree_root(n: &T) -> &N { n.root() }
pub fn tree_root_mut(n: &mut T) { see(&*n.root_mut()) }
pub fn tree_deref(n: &T) -> &N { &*n }
pub fn tree_front_mut(n: &mut T) { match n.front_mut() { Some(x) => see(&*x), None => flag(false) } }
pub fn tree_back_mut(n: &mut T) { match n.back_mut() { Some(x) => see(&*x), None => flag(false) } }
pub fn forest_degree(n: &F) -> usize { n.degree() }
pub fn forest_count(n: &F) -> usize { n.node_count() }
pub fn forest_no_child(n: &F) -> bool { n.has_no_child() }
pub fn forest_front(n: &F) -> Option<&N> { n.front() }
pub fn forest_back(n: &F) -> Option<&N> { n.back() }
pub fn forest_front_mut(n: &mut F) { match n.front_mut() { Some(x) => see(&*x), None => flag(false) } }
pub fn forest_back_mut(n: &mut F) { match n.back_mut() { Some(x) => see(&*x), None => flag(false) } }
// parent() of what was reached from a forest or a tree
pub fn forest_top_parent(n: &F) -> bool { match n.front() { Some(x) => x.parent().is_none(), None => true } }
pub fn node_child_parent(n: &N) -> Option<&N> { n.back().map(|x| x.parent().unwrap()) }
pub fn forest_child_parent(n: &F) { if let Some(x) = n.front() { see(x); if let Some(y) = x.front() { see(y); see(y.parent().unwrap()) } } }

// ---------------------------------------------------------------- depth-first cursors
pub fn vis(v: Option<Visit<Elem>>) {
    match v {
        None => note(0),
        Some(x) => {
            match &x { Visit::Begin(n) => { note(1); see(n) }, Visit::Leaf(n) => { note(2); see(n) }, Visit::End(n) => { note(3); see(n) } }
            see(x.node())
        },
    }
}
macro_rules! cursor { ($w:ident, $own:ty, $from:ident, $fwd:ident, $next:ident, $par:ident, $getp:ident, $child:ident, $sib:ident, $re:ident, $get:ident) => {
    pub fn $from(t: $own) -> $w<Elem> { $w::from(t) }
    pub fn $fwd(w: &mut $w<Elem>) { w.forward(); vis(w.get()) }
    pub fn $next(w: &mut $w<Elem>) { vis(w.next()); vis(w.get()) }
    pub fn $par(w: &mut $w<Elem>) { vis(w.to_parent()); vis(w.get()) }
    pub fn $getp(w: &mut $w<Elem>) { match w.get_parent() { Some(n) => see(n), None => note(0) } vis(w.get()) }
    pub fn $child(w: &mut $w<Elem>, n: usize) { vis(w.to_child(n)); vis(w.get()) }
    pub fn $sib(w: &mut $w<Elem>, n: usize) { vis(w.to_sib(n)); vis(w.get()) }
    pub fn $re(w: &mut $w<Elem>) { w.revisit(); vis(w.get()) }
    pub fn $get(w: &mut $w<Elem>) { vis(w.get()) }
}}
cursor!(TreeWalk, T, tw_from, tw_forward, tw_next, tw_to_parent, tw_get_parent, tw_to_child, tw_to_sib, tw_revisit, tw_get);
cursor!(ForestWalk, F, fw_from, fw_forward, fw_next, fw_to_parent, fw_get_parent, fw_to_child, fw_to_sib, fw_revisit, fw_get);

// ---------------------------------------------------------------- breadth-first iterators
fn qvis(v: Option<bfs::Visit<Elem>>) { match v { None => flag(false), Some(v) => { look(&v.data); note2(v.size.degree, v.size.descendants) } } }
pub fn q_step(l: QI) -> bfs::Splitted<QI> { let mut s = bfs::Splitted::from(l); unknown(&mut s); qvis(s.next()); s }
pub fn q_first(l: QI) -> bfs::Splitted<QI> { let mut s = bfs::Splitted::from(l); let v = s.next(); let end = v.is_none(); qvis(v); if end { qvis(s.next()) } s }
macro_rules! split { ($n:ident, $d:ident, $look:expr, $it:ident, $x:ident, $see:expr) => {{
    let ($d, mut $it, c) = bfs::Split::split($n); $look; note(c); drain!($it, $x, $see)
}}}
pub fn tt_tree(t: tup::Tup) -> T { T::from_tuple(t) }
pub fn tt_forest(t: tup::Tup) -> F { F::from_tuple(t) }
pub fn dc_node(n: &N) -> T { n.deep_clone() }
pub fn dc_node_forest(n: &N) -> F { n.deep_clone_forest() }
pub fn dc_tree(t: &T) -> T { t.clone() }
pub fn dc_forest(f: &F) -> F { f.clone() }
pub fn dc_rc(r: &R) -> T { r.deep_clone() }
pub fn split_ref(n: &N) { split!(n, d, look(d), it, x, see(x)) }
pub fn split_pin(n: NM) { split!(n, d, poke(d), it, x, see(&*x)) }
pub fn split_tree(n: T) { split!(n, d, look(&d), it, x, see(x.root())) }
macro_rules! start { ($b:expr, $it:ident, $x:ident, $see:expr) => {{ let b = $b; note2(b.size.degree, b.size.descendants); let mut $it = only(b.iter); drain!($it, $x, $see) }}}
pub fn bf_node(n: &N) { start!(n.bfs(), it, x, see(x)) }
pub fn bf_node_mut(n: &mut N) { start!(n.bfs_mut(), it, x, see(&*x)) }
pub fn bf_node_ch(n: &N) { start!(n.bfs_children(), it, x, see(x)) }
pub fn bf_node_ch_mut(n: &mut N) { start!(n.bfs_children_mut(), it, x, see(&*x)) }
pub fn bf_tree(n: &T) { start!(n.bfs(), it, x, see(x)) }
pub fn bf_tree_mut(n: &mut T) { start!(n.bfs_mut(), it, x, see(&*x)) }
pub fn bf_tree_ch(n: &T) { start!(n.bfs_children(), it, x, see(x)) }
pub fn bf_tree_ch_mut(n: &mut T) { start!(n.bfs_children_mut(), it, x, see(&*x)) }
pub fn bf_tree_into(n: T) { start!(n.into_bfs(), it, x, see(x.root())) }
pub fn bf_forest(n: &F) { start!(n.bfs(), it, x, see(x)) }
pub fn bf_forest_mut(n: &mut F) { start!(n.bfs_mut(), it, x, see(&*x)) }
pub fn bf_forest_into(n: F) { start!(n.into_bfs(), it, x, see(x.root())) }
fn stream<I: Iterator<Item = bfs::Visit<Elem>>>(mut i: I) { while let Some(v) = i.next() { look(&v.data); note2(v.size.degree, v.size.descendants) } }
pub fn map_tree(i: QV, d: usize, n: usize) { let b = bfs::BfsTree { iter: i, size: Size { degree: d, descendants: n } }; let b = b.map(|e| conv(e)); note2(b.size.degree, b.size.descendants); stream(b.iter) }
pub fn map_forest(i: QV, d: usize, n: usize) { let b = bfs::BfsForest { iter: i, size: Size { degree: d, descendants: n } }; let b = b.map(|e| conv(e)); note2(b.size.degree, b.size.descendants); stream(b.iter) }
pub fn wrap_tree(i: QV, d: usize, n: usize) { let b = bfs::BfsTree { iter: i, size: Size { degree: d, descendants: n } }; let (i, s) = b.wrap().iter_and_size(); note2(s.degree, s.descendants); stream(i) }
pub fn wrap_forest(i: QV, d: usize, n: usize) { let b = bfs::BfsForest { iter: i, size: Size { degree: d, descendants: n } }; let (i, s) = b.wrap().iter_and_size(); note2(s.degree, s.descendants); stream(i) }
pub fn wrap_tree_iter(i: QV, d: usize, n: usize) { let b = bfs::BfsTree { iter: i, size: Size { degree: d, descendants: n } }; if choose() { stream(b.wrap().iter()) } else { match b.wrap().tree_iter() { Some(i) => stream(i), None => flag(false) } } }
pub fn wrap_forest_iter(i: QV, d: usize, n: usize) { let b = bfs::BfsForest { iter: i, size: Size { degree: d, descendants: n } }; if choose() { stream(b.wrap().iter()) } else { match b.wrap().forest_iter() { Some(i) => stream(i), None => flag(false) } } }

// structural relations
pub fn node_eq(a: &N, b: &N) -> bool { a == b }
pub fn node_ne(a: &N, b: &N) -> bool { a != b }
pub fn node_pcmp(a: &N, b: &N) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
pub fn node_cmp(a: &N, b: &N) -> std::cmp::Ordering { Ord::cmp(a, b) }
pub fn node_hash(a: &N, h: &mut QH) { std::hash::Hash::hash(a, h) }
pub fn node_fmt(a: &N, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn node_dbg(a: &N, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }
pub fn tree_eq(a: &T, b: &T) -> bool { a == b }
pub fn tree_ne(a: &T, b: &T) -> bool { a != b }
pub fn tree_pcmp(a: &T, b: &T) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
pub fn tree_cmp(a: &T, b: &T) -> std::cmp::Ordering { Ord::cmp(a, b) }
pub fn tree_hash(a: &T, h: &mut QH) { std::hash::Hash::hash(a, h) }
pub fn tree_fmt(a: &T, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn tree_dbg(a: &T, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }
pub fn forest_eq(a: &F, b: &F) -> bool { a == b }
pub fn forest_ne(a: &F, b: &F) -> bool { a != b }
pub fn forest_pcmp(a: &F, b: &F) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
pub fn forest_cmp(a: &F, b: &F) -> std::cmp::Ordering { Ord::cmp(a, b) }
pub fn forest_hash(a: &F, h: &mut QH) { std::hash::Hash::hash(a, h) }
pub fn forest_fmt(a: &F, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn forest_dbg(a: &F, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }
pub fn rc_eq(a: &R, b: &R) -> bool { a == b }
pub fn rc_ne(a: &R, b: &R) -> bool { a != b }
pub fn rc_pcmp(a: &R, b: &R) -> Option<std::cmp::Ordering> { PartialOrd::partial_cmp(a, b) }
pub fn rc_cmp(a: &R, b: &R) -> std::cmp::Ordering { Ord::cmp(a, b) }
pub fn rc_hash(a: &R, h: &mut QH) { std::hash::Hash::hash(a, h) }
pub fn rc_fmt(a: &R, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Display::fmt(a, f) }
pub fn rc_dbg(a: &R, f: &mut std::fmt::Formatter) -> std::fmt::Result { std::fmt::Debug::fmt(a, f) }

// conversions
pub fn cv_walk_tree(t: T) -> T { Tree::from(TreeWalk::from(t)) }
pub fn cv_walk_forest(f: F) -> F { Forest::from(ForestWalk::from(f)) }
pub fn cv_step_tree(t: T) -> T { let mut w = TreeWalk::from(t); w.forward(); Tree::from(w) }
pub fn cv_step_forest(f: F) -> F { let mut w = ForestWalk::from(f); w.forward(); Forest::from(w) }
pub fn cv_drop_twalk(t: T) { let mut w = TreeWalk::from(t); w.forward(); }
pub fn cv_drop_fwalk(f: F) { let mut w = ForestWalk::from(f); w.forward(); }
pub fn cv_rc(t: T) -> T { unsafe { RcNode::from(t).into_tree() } }
pub fn cv_collect(f: F) -> F { let mut g = Forest::new(); for t in f { g.push_back(t) } g }
pub fn cv_abandon_all(mut t: T) -> F { t.abandon() }

// notation
pub fn op_neg_t(a: T) -> F { -a }
pub fn op_neg_rt(a: &T) -> F { -a }
pub fn op_sub_t_t(a: T, b: T) -> F { a - b }
pub fn op_sub_t_rt(a: T, b: &T) -> F { a - b }
pub fn op_sub_rt_t(a: &T, b: T) -> F { a - b }
pub fn op_sub_rt_rt(a: &T, b: &T) -> F { a - b }
pub fn op_sub_f_t(a: F, b: T) -> F { a - b }
pub fn op_sub_f_rt(a: F, b: &T) -> F { a - b }
pub fn op_sub_f_f(a: F, b: F) -> F { a - b }
pub fn op_sub_f_rf(a: F, b: &F) -> F { a - b }
pub fn op_sub_rf_t(a: &F, b: T) -> F { a - b }
pub fn op_sub_rf_rt(a: &F, b: &T) -> F { a - b }
pub fn op_sub_rf_f(a: &F, b: F) -> F { a - b }
pub fn op_sub_rf_rf(a: &F, b: &F) -> F { a - b }
pub fn op_div_t_t(a: T, b: T) -> T { a / b }
pub fn op_div_t_rt(a: T, b: &T) -> T { a / b }
pub fn op_div_t_f(a: T, b: F) -> T { a / b }
pub fn op_div_t_rf(a: T, b: &F) -> T { a / b }
pub fn op_div_t_u(a: T, b: ()) -> T { a / b }
pub fn op_div_rt_t(a: &T, b: T) -> T { a / b }
pub fn op_div_rt_rt(a: &T, b: &T) -> T { a / b }
pub fn op_div_rt_f(a: &T, b: F) -> T { a / b }
pub fn op_div_rt_rf(a: &T, b: &F) -> T { a / b }
pub fn op_div_rt_u(a: &T, b: ()) -> T { a / b }
pub fn op_tr(d: Elem) -> T { tr(d) }
pub fn op_fr() -> F { fr() }

pub fn rb_tree(i: QV, d: usize, n: usize) -> T { T::from(bfs::BfsTree { iter: i, size: Size { degree: d, descendants: n } }) }
pub fn rb_forest(i: QV, d: usize, n: usize) -> F { F::from(bfs::BfsForest { iter: i, size: Size { degree: d, descendants: n } }) }

// sizes
pub fn sz_add(a: Size, b: Size) -> Size { a + b }
pub fn sz_sub(a: Size, b: Size) -> Size { a - b }
pub fn sz_add_assign(a: &mut Size, b: Size) { *a += b }
pub fn sz_sub_assign(a: &mut Size, b: Size) { *a -= b }
pub fn sz_eq(a: &Size, b: &Size) -> bool { a == b }
pub fn sz_ne(a: &Size, b: &Size) -> bool { a != b }
pub fn sz_zero() -> Size { Size::default() }
pub fn sz_clone(a: &Size) -> Size { a.clone() }
