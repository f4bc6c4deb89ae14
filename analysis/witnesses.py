"""Compile-fail witnesses: each entry is a safe client that must be rejected, next to one that differs only in the
offending step and must be accepted.  Nothing is executed; rustc's verdict on every function is the decision."""
import json
import re
import subprocess

PRE = """#![allow(unused, deprecated)]
use trees::*; use trees::{TreeWalk, ForestWalk, IterRc, WeakNode}; use std::pin::Pin; use std::mem;
fn t() -> Tree<u8> { tr(0)/tr(1)/tr(2) }
fn f() -> Forest<u8> { -tr(1)-tr(2) }
fn u<X>(_: X) {}
struct D<'a>(&'a str); impl<'a> Drop for D<'a> { fn drop(&mut self) {} }
trait Dup: Clone {} fn dup<X: Clone>() {}
fn unp<X: Unpin>() {}
"""

# name, generics, parameters (or None), bad body, good body
W = []


def w(name, bad, good, gen="", args="", ret=""):
    W.append((name, gen, args, ret, bad, good))


for own, mk in (("tree", "t()"), ("forest", "f()")):
    X = "let mut x = %s; " % mk
    for m, use in (("iter", ".count()"), ("front", ""), ("back", "")):
        w("%s-%s-then-drop" % (own, m), X + "let i = x.%s(); drop(x); u(i%s);" % (m, use), X + "let i = x.%s(); u(i%s); drop(x);" % (m, use))
        for mut in ("push_back(tr(9))", "push_front(tr(9))", "pop_front()", "pop_back()", "append(f())", "prepend(f())"):
            w("%s-%s-then-%s" % (own, m, mut.split("(")[0]), X + "let i = x.%s(); x.%s; u(i%s);" % (m, mut, use), X + "let i = x.%s(); u(i%s); x.%s;" % (m, use, mut))
    w(own + "-item-outlives-tree", "let i = { %slet i = x.iter().next(); i }; u(i);" % X, "{ %slet i = x.iter().next(); u(i); }" % X)
    w(own + "-item-then-pop", X + "let i = x.iter().next(); x.pop_front(); u(i);", X + "let i = x.iter().next(); u(i); x.pop_front();")
    w(own + "-grandchild-then-pop", X + "let i = x.front().unwrap().front(); x.pop_front(); u(i);", X + "let i = x.front().unwrap().front(); u(i); x.pop_front();")
    w(own + "-data-then-drop", X + "let i = x.front().unwrap().data(); drop(x); u(i);", X + "let i = x.front().unwrap().data(); u(i); drop(x);")
    w(own + "-parent-then-drop", X + "let i = x.front().unwrap().parent(); drop(x); u(i);", X + "let i = x.front().unwrap().parent(); u(i); drop(x);")
    for a in ("iter_mut", "front_mut", "back_mut"):
        for b in ("iter_mut", "front_mut", "back_mut", "front", "iter", "degree"):
            w("%s-%s-while-%s" % (own, b, a), X + "let a = x.%s(); let b = x.%s(); u(a); u(b);" % (a, b), X + "{ let a = x.%s(); u(a); } let b = x.%s(); u(b);" % (a, b))
        w("%s-%s-then-drop" % (own, a), X + "let i = x.%s(); drop(x); u(i);" % a, X + "let i = x.%s(); u(i); drop(x);" % a)
    w(own + "-iter_mut-item-then-push", X + "let i = x.iter_mut().next(); x.push_back(tr(9)); u(i);", X + "let i = x.iter_mut().next(); u(i); x.push_back(tr(9));")
    w(own + "-iter_mut-items-then-drop", X + "let v: Vec<_> = x.iter_mut().collect(); drop(x); u(v);", X + "let v: Vec<_> = x.iter_mut().collect(); u(v); drop(x);")
    w(own + "-iter_mut-clone", X + "let i = x.iter_mut(); let j = i.clone(); u(i); u(j);", X + "let i = x.iter_mut(); u(i); let j = x.iter_mut(); u(j);")
    w(own + "-data_mut-through-shared", X + "*x.iter().next().unwrap().data_mut() = 1;", X + "*x.iter_mut().next().unwrap().data_mut() = 1;")
    w(own + "-data_mut-twice", X + "let mut n = x.front_mut().unwrap(); let a = n.data_mut(); let b = n.data_mut(); u(a); u(b);",
      X + "let mut n = x.front_mut().unwrap(); { let a = n.data_mut(); u(a); } let b = n.data_mut(); u(b);")
    w(own + "-data-while-data_mut", X + "let mut n = x.front_mut().unwrap(); let a = n.data_mut(); let b = n.data(); u(a); u(b);",
      X + "let mut n = x.front_mut().unwrap(); { let a = n.data_mut(); u(a); } let b = n.data(); u(b);")
    w(own + "-child-then-pop-parent-item", X + "let mut n = x.front_mut().unwrap(); let c = n.front(); n.push_back(tr(1)); u(c);",
      X + "let mut n = x.front_mut().unwrap(); let c = n.front(); u(c); n.push_back(tr(1));")
    w(own + "-child-then-detach", X + "let mut n = x.front_mut().unwrap(); let c = n.front(); drop(n.detach()); u(c);",
      X + "let mut n = x.front_mut().unwrap(); let c = n.front(); u(c); drop(n.detach());")
    w(own + "-node-used-after-detach", X + "let mut n = x.front_mut().unwrap(); drop(n.detach()); u(n.data());",
      X + "let mut n = x.front_mut().unwrap(); u(n.data()); drop(n.detach());")
    w(own + "-sibling-aliased-through-parent",
      X + "let mut i = x.iter_mut(); let a = i.next().unwrap(); let mut b = i.next().unwrap(); let alias = a.parent().unwrap().back().unwrap(); let d = b.data_mut(); u(alias.data()); *d = 1;" if own == "tree" else
      X + "x.push_front(t()); let mut n = x.front_mut().unwrap(); let mut i = n.iter_mut(); let a = i.next().unwrap(); let mut b = i.next().unwrap(); let alias = a.parent().unwrap().back().unwrap(); let d = b.data_mut(); u(alias.data()); *d = 1;",
      X + "let mut i = x.iter_mut(); let a = i.next().unwrap(); let mut b = i.next().unwrap(); let d = b.data_mut(); u(a.data()); *d = 1;")
    # breadth first
    w(own + "-bfs-then-drop", X + "let b = x.bfs(); drop(x); u(b.iter.count());", X + "let b = x.bfs(); u(b.iter.count()); drop(x);")
    w(own + "-bfs-then-push", X + "let b = x.bfs(); x.push_back(tr(9)); u(b.iter.count());", X + "let b = x.bfs(); u(b.iter.count()); x.push_back(tr(9));")
    w(own + "-bfs-item-then-drop", X + "let b = x.bfs().iter.next(); drop(x); u(b);", X + "let b = x.bfs().iter.next(); u(b); drop(x);")
    w(own + "-bfs_mut-twice", X + "let b = x.bfs_mut(); let c = x.bfs_mut(); u(b); u(c);", X + "{ let b = x.bfs_mut(); u(b); } let c = x.bfs_mut(); u(c);")
    w(own + "-bfs_mut-while-read", X + "let b = x.bfs_mut().iter.next(); let c = x.front(); u(b); u(c);", X + "{ let b = x.bfs_mut().iter.next(); u(b); } let c = x.front(); u(c);")
    w(own + "-bfs_mut-items-then-drop", X + "let b: Vec<_> = x.bfs_mut().iter.collect(); drop(x); u(b);", X + "let b: Vec<_> = x.bfs_mut().iter.collect(); u(b); drop(x);")
    w(own + "-into_bfs-then-use", X + "let b = x.into_bfs(); u(x.degree());", X + "u(x.degree()); let b = x.into_bfs();")
    w(own + "-into_iter-then-use", X + "let b = x.into_iter(); u(x.degree());" if own == "forest" else X + "let b = x.abandon().into_iter(); let c = x.front(); drop(x); u(c);",
      X + "u(x.degree()); let b = x.into_iter();" if own == "forest" else X + "let b = x.abandon().into_iter(); let c = x.front(); u(c); drop(x);")

for own, mk, ty in (("TreeWalk", "t()", "Tree"), ("ForestWalk", "f()", "Forest")):
    X = "let mut x = %s::from(%s); " % (own, mk)
    for m in ("forward()", "next()", "to_parent()", "to_child(0)", "to_sib(1)", "revisit()"):
        for g in ("get", "get_parent", "next"):
            w("%s-%s-then-%s" % (own, g, m.split("(")[0]), X + "let v = x.%s().is_some(); let v = x.%s(); x.%s; u(v);" % (g, g, m), X + "let v = x.%s(); u(v); x.%s;" % (g, m))
    w(own + "-visit-then-drop", X + "let v = x.get(); drop(x); u(v);", X + "let v = x.get(); u(v); drop(x);")
    w(own + "-visit-node-then-drop", X + "let v = x.get().unwrap(); let n = v.node(); drop(x); u(n);", X + "let v = x.get().unwrap(); let n = v.node(); u(n); drop(x);")
    w(own + "-visit-then-into", X + "let v = x.get(); let y: %s<u8> = x.into(); u(v);" % ty, X + "let v = x.get(); u(v); let y: %s<u8> = x.into();" % ty)
    w(own + "-data-mut-through-visit", X + "let v = x.get().unwrap(); *v.node().data_mut() = 1;", X + "let v = x.get().unwrap(); u(*v.node().data());")
    w(own + "-clone", "dup::<%s<u8>>();" % own, "dup::<Tree<u8>>();")

X = "let mut x = t(); "
for b in ("root_mut", "iter_mut", "front_mut", "back_mut", "bfs_mut", "root", "front"):
    w("tree-%s-while-root_mut" % b, X + "let a = x.root_mut(); let b = x.%s(); u(a); u(b);" % b, X + "{ let a = x.root_mut(); u(a); } let b = x.%s(); u(b);" % b)
w("tree-root-then-drop", X + "let a = x.root(); drop(x); u(a);", X + "let a = x.root(); u(a); drop(x);")
w("tree-root_mut-then-drop", X + "let a = x.root_mut(); drop(x); u(a);", X + "let a = x.root_mut(); u(a); drop(x);")
w("tree-root-then-move", X + "let a = x.root(); let r = RcNode::from(x); u(a);", X + "let a = x.root(); u(a); let r = RcNode::from(x);")
w("tree-root-then-push-into-other", X + "let a = x.root(); let mut y = t(); y.push_back(x); u(a);", X + "let a = x.root(); u(a); let mut y = t(); y.push_back(x);")
w("tree-child-then-abandon", X + "let a = x.front(); let y = x.abandon(); u(a);", X + "let a = x.front(); u(a); let y = x.abandon();")
w("tree-root_mut-data-then-abandon", X + "let mut r = x.root_mut(); let a = r.data_mut(); let y = x.abandon(); u(a);", X + "{ let mut r = x.root_mut(); let a = r.data_mut(); u(a); } let y = x.abandon();")
w("forest-child-then-append-away", "let mut x = f(); let a = x.front(); let mut y = t(); y.append(x); u(a);", "let mut x = f(); let a = x.front(); u(a); let mut y = t(); y.append(x);")
w("forest-child-then-walk", "let mut x = f(); let a = x.front(); let y = ForestWalk::from(x); u(a);", "let mut x = f(); let a = x.front(); u(a); let y = ForestWalk::from(x);")
w("tree-swap-linked-nodes", "let mut x = t(); let mut y = t(); mem::swap(&mut *x.root_mut(), &mut *y.root_mut());", "let mut x = t(); let mut y = t(); mem::swap(x.root_mut().data_mut(), y.root_mut().data_mut());")
w("node-unpin", "unp::<Node<u8>>();", "unp::<Tree<u8>>();")
w("node-on-the-stack", "let mut n: Node<u8> = Default::default(); n.push_back(tr(1)); let m = n; u(m.front().unwrap().parent());", "let mut n: Tree<u8> = tr(0); n.push_back(tr(1)); let m = n; u(m.front().unwrap().parent());")
w("node-clone", "dup::<Node<u8>>();", "dup::<Tree<u8>>();")
w("itermut-clone", "dup::<IterMut<u8>>();", "dup::<Tree<u8>>();")
w("tree-clone-without-clone", "dup::<Tree<mem::ManuallyDrop<std::cell::RefCell<Box<dyn Fn()>>>>>();", "dup::<Tree<u8>>();")
w("node-once-iter_mut-while-node", X + "let mut r = x.root_mut(); let i = r.as_mut().into_iter(); u(r.degree()); u(i);", X + "let mut r = x.root_mut(); { let i = r.as_mut().into_iter(); u(i); } u(r.degree());")

R = "let mut x = RcNode::from(t()); "
w("rc-data-then-drop", R + "let d = x.data(); drop(x); u(d);", R + "let d = x.data(); u(d); drop(x);")
w("rc-data_mut-then-drop", R + "let d = x.data_mut(); drop(x); u(d);", R + "let d = x.data_mut(); u(d); drop(x);")
w("rc-data-outlives", "let d = { %slet d = x.data(); d }; u(d);" % R, R + "let d = { let d = x.data(); d }; u(d); drop(x);")
w("rc-node-is-unsafe", R + "u(x.node().degree());", R + "u(unsafe { x.node() }.degree());")
w("rc-node_mut-is-unsafe", R + "u(x.node_mut().degree());", R + "u(unsafe { x.node_mut() }.degree());")
w("rc-into_tree-is-unsafe", R + "let t: Tree<u8> = x.into_tree();", R + "let t: Tree<u8> = unsafe { x.into_tree() };")
w("rc-into-tree-by-conversion", R + "let t: Tree<u8> = x.into();", R + "let t: Tree<u8> = x.deep_clone();")
w("rc-into-walk-by-conversion", R + "let t: TreeWalk<u8> = x.into();", R + "let t: TreeWalk<u8> = x.deep_clone().into();")
w("rc-deref-to-node", R + "let n: &Node<u8> = &x;", R + "let n: &RcNode<u8> = &x;")
w("weak-deref-to-node", R + "let y = x.downgrade(); let n: &Node<u8> = &y;", R + "let y = x.downgrade(); let n: &WeakNode<u8> = &y;")
w("rc-from-borrowed-tree", "let x = t(); let r = RcNode::from(&x);", "let x = t(); let r = RcNode::from(x);")
w("walk-from-borrowed-tree", "let x = t(); let r = TreeWalk::from(&x);", "let x = t(); let r = TreeWalk::from(x);")
w("rc-item-data-outlives", R + "let d = { let c = x.front().unwrap(); let d = c.data(); d }; u(d);", R + "let c = x.front().unwrap(); let d = { let d = c.data(); d }; u(d); drop(c);")

for ty in ("RcNode", "WeakNode", "IterRc"):
    w(ty + "-shorten-element", "x", "loop {}", gen="<'a>", args="x: %s<&'static str>" % ty, ret="-> %s<&'a str>" % ty)
for ty in ("Tree", "Forest", "RcNode", "WeakNode", "TreeWalk", "ForestWalk", "IntoIter"):
    w(ty + "-extend-element", "x", "loop {}", gen="<'a>", args="x: %s<&'a str>" % ty, ret="-> %s<&'static str>" % ty)
w("IterMut-shorten-element", "x", "loop {}", gen="<'a, 'b>", args="x: IterMut<'b, &'static str>", ret="-> IterMut<'b, &'a str>")
w("node-mut-shorten-element", "x", "loop {}", gen="<'a, 'b>", args="x: Pin<&'b mut Node<&'static str>>", ret="-> Pin<&'b mut Node<&'a str>>")
w("Iter-extend-borrow", "x", "loop {}", gen="<'a>", args="x: Iter<'a, u8>", ret="-> Iter<'static, u8>")
w("IterMut-extend-borrow", "x", "loop {}", gen="<'a>", args="x: IterMut<'a, u8>", ret="-> IterMut<'static, u8>")
w("iter_mut-lengthen", "x.iter_mut()", "loop {}", gen="<'a>", args="x: &'a mut Tree<u8>", ret="-> IterMut<'static, u8>")

for ty, mk in (("Tree", "tr(D(&s))"), ("Forest", "-tr(D(&s))"), ("RcNode", "RcNode::from(tr(D(&s)))"), ("TreeWalk", "TreeWalk::from(tr(D(&s)))"),
               ("ForestWalk", "ForestWalk::from(-tr(D(&s)))"), ("IntoIter", "(-tr(D(&s))).into_iter()"), ("IterRc", "RcNode::from(tr(D(&s))).iter_rc()")):
    w(ty + "-drops-data-after-its-borrow", "let y: %s<D>; let s = String::new(); y = %s;" % (ty, mk), "let s = String::new(); let y: %s<D>; y = %s;" % (ty, mk))
w("bfs-drops-data-after-its-borrow", "let y; let s = String::new(); y = tr(D(&s)).into_bfs();", "let s = String::new(); let y; y = tr(D(&s)).into_bfs();")
w("clone-outlives-data", "let y; { let s = String::new(); let x = tr(D2(&s)); y = x.clone(); } u(y);", "let s = String::new(); let y; { let x = tr(D2(&s)); y = x.clone(); } u(y);")
PRE += "#[derive(Clone)] struct D2<'a>(&'a str);\n"


def source(good):
    lines = [x for x in PRE.strip().split("\n")]
    where = {}
    for i, (name, gen, args, ret, bad, ok) in enumerate(W):
        lines.append("fn w%d%s(%s) %s { %s }" % (i, gen, args, ret, ok if good else bad))
        where[len(lines)] = name
    return "\n".join(lines) + "\n", where


def compile_(ws, lib, good):
    src, where = source(good)
    p = ws.path("witness_%s.rs" % ("good" if good else "bad"))
    with open(p, "w") as f:
        f.write(src)
    r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "--crate-type", "rlib", "--crate-name", "w", "--error-format=json",
                        "--extern", "trees=" + lib, p, "--emit=metadata", "-o", ws.path("libw.rmeta")], capture_output=True, text=True)
    hit, stray = {}, []
    for l in r.stderr.split("\n"):
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if d.get("level") != "error":
            continue
        ls = [s["line_start"] for s in d["spans"] if s["is_primary"] and s["file_name"] == p]
        if not ls:
            if "aborting" not in d["message"]:
                stray.append(d["message"])
            continue
        code = (d.get("code") or {}).get("code") or "lifetime"
        hit.setdefault(where.get(ls[0], "line %d" % ls[0]), []).append((code, d["message"]))
    return hit, stray


def run(ws, lib):
    bad, s1 = compile_(ws, lib, False)
    good, s2 = compile_(ws, lib, True)
    viol, codes = [], {}
    for m in s1 + s2:
        viol.append(("witness|compile", "the witnesses could not be compiled: %s" % m))
    for name, _, _, _, b, g in W:
        if name in good:
            viol.append(("witness|%s|twin" % name, "the harmless twin of the witness %s is rejected: %s" % (name, good[name][0])))
        if name not in bad:
            viol.append(("witness|%s" % name, "a safe client that must be rejected compiles: { %s }" % b))
        else:
            for c, _ in bad[name]:
                codes[c] = codes.get(c, 0) + 1
    for k in list(bad) + list(good):
        if k.startswith("line "):
            viol.append(("witness|compile|%s" % k, "unexpected error in the witnesses' common part: %s" % (bad.get(k) or good.get(k))))
    return {"witnesses_rejected": len(W) - sum(1 for x in W if x[0] not in bad), "witness_twins_accepted": len(W) - len([x for x in W if x[0] in good]),
            "rejections_by_error": codes}, viol, [x[0] for x in W]
