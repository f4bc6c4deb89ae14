From 203d7e277dc2144544aaa50a21208354da167bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 01/10] fix: count every piled RcNode/WeakNode handle in the
 node buffer's reference count

Cloning, downgrading or upgrading a piled handle did not increase
NodeVec::ref_cnt, while dropping the handle decreased it, so the buffer was
freed while still in use.
---
 src/rc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index c8e7be2..81f3536 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -113,7 +113,9 @@ impl<T> Clone for RcNode<T> {
             RcNode::Scattered( ScatteredRcNode( rc )) => RcNode::Scattered( ScatteredRcNode( rc.clone() )),
             RcNode::Piled( PiledRcNode( node_vec, index )) => {
                 unsafe {
-                    let node = node_vec.as_ref().buf.get_unchecked( *index );
+                    let node_vec = node_vec.as_ref();
+                    node_vec.ref_cnt.incr();
+                    let node = node_vec.buf.get_unchecked( *index );
                     node.count.incr();
                 }
                 RcNode::Piled( PiledRcNode( node_vec.clone(), *index ))
@@ -455,7 +457,10 @@ impl<T> RcNode<T> {
     pub fn downgrade( &self ) -> WeakNode<T> {
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => WeakNode::Scattered( ScatteredWeakNode( Rc::downgrade( &rc ))),
-            RcNode::Piled( PiledRcNode( node_vec, index )) => WeakNode::Piled( PiledWeakNode( *node_vec, *index )),
+            RcNode::Piled( PiledRcNode( node_vec, index )) => {
+                unsafe{ node_vec.as_ref().ref_cnt.incr(); }
+                WeakNode::Piled( PiledWeakNode( *node_vec, *index ))
+            },
         }
     }
 
@@ -544,6 +549,7 @@ impl<T> WeakNode<T> {
                 if node.count.get() == 0 {
                     None
                 } else {
+                    node_vec.as_ref().ref_cnt.incr();
                     node.count.incr();
                     Some( RcNode::Piled( PiledRcNode( *node_vec, *index )))
                 }
-- 
2.43.0


From b188d9b4b5447d2c1ce3a2e6c7f67a609012db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 02/10] fix: place nodes after nested branches correctly in
 tuple notations

Closing a branch whose last child is itself a branch neither advanced the
offset of its level nor restored the parent, so a following sibling
overwrote an already constructed node.
---
 src/node_vec.rs | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index 022e7a8..a3a52b1 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -81,7 +81,6 @@ impl<T> NodeVec<T> {
         use crate::tuple::Visit;
 
         let mut is_root = true;
-        let mut leaf = false;
         let mut parent = 0;
         let mut depth = 1;
         let mut f = |visit, size| {
@@ -103,16 +102,12 @@ impl<T> NodeVec<T> {
                     Visit::Leaf( data ) => {
                         self.append_child( parent, offsets[ depth ], data, size );
                         offsets[ depth ] += 1;
-                        if !leaf { leaf = true; }
                     },
                     Visit::Frame => {
                         depth -= 1;
-                        if leaf {
-                            leaf = false;
-                            offsets[ depth ] += 1;
-                            if depth > 0 {
-                                parent = offsets[ depth-1 ];
-                            }
+                        offsets[ depth ] += 1;
+                        if depth > 0 {
+                            parent = offsets[ depth-1 ];
                         }
                     },
                 }
@@ -141,7 +136,6 @@ impl<T> NodeVec<T> {
 
         let mut parent = 0;
         let mut depth = 1;
-        let mut leaf = false;
         let mut f = |visit, size| {
             use crate::tuple::Visit;
             match visit {
@@ -153,15 +147,11 @@ impl<T> NodeVec<T> {
                 Visit::Leaf( data ) => {
                     self.append_child( parent, offsets[ depth ], data, size );
                     offsets[ depth ] += 1;
-                    if !leaf { leaf = true; }
                 },
                 Visit::Frame => {
                     depth -= 1;
-                    if leaf {
-                        leaf = false;
-                        offsets[ depth ] += 1;
-                        parent = offsets[ depth-1 ];
-                    }
+                    offsets[ depth ] += 1;
+                    parent = offsets[ depth-1 ];
                 },
             }
         };
-- 
2.43.0


From e0a2cf96cf11be7944e2a4f9224c414fb920f21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 03/10] fix: visit branches after their children in
 postorder_with_size_hint

It emitted the preorder sequence; postorder() and its documentation put the
frame first and the branch last.
---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index eb20ab2..3cb995c 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -103,9 +103,9 @@ macro_rules! impl_tuple_tree {
                 if size.degree == 0 {
                     f( Visit::Leaf( self.0 ), size );
                 } else {
-                    f( Visit::Branch( self.0 ), size );
-                    $( (self.$n).postorder_with_size_hint( f ); )*
                     f( Visit::Frame, size );
+                    $( (self.$n).postorder_with_size_hint( f ); )*
+                    f( Visit::Branch( self.0 ), size );
                 }
             }
         }
-- 
2.43.0


From 6f8699cae2e2dbd39abb2c0368775893f693eada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 04/10] fix: keep the walk cursor usable after to_sib/to_child
 run past the last sibling

---
 src/walk.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/walk.rs b/src/walk.rs
index dc87c8c..427a212 100644
--- a/src/walk.rs
+++ b/src/walk.rs
@@ -94,7 +94,10 @@ impl<T> Walk<T> {
     fn revisit( &mut self ) {
         if self.origin.is_some() {
             match self.visit_type {
-                VisitType::None => self.path.push( Nodes::sibs( self.origin )),
+                VisitType::None => {
+                    self.path.clear();
+                    self.path.push( Nodes::sibs( self.origin ));
+                },
                 _ => (),
             }
             self.direction = Direction::Down;
@@ -206,10 +209,14 @@ impl<T> Walk<T> {
     /// Returns the current node if n == 0.
     fn to_sib( &mut self, n: usize ) -> Option<Visit<T>> {
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node == nodes.sentinel {
+                return None; // The siblings have been exhausted.
+            }
             for _ in 0..n {
                 nodes.node = unsafe{ nodes.node.unwrap().as_ref().next };
                 if nodes.node == nodes.sentinel {
                     self.direction = Direction::Up;
+                    self.visit_type = VisitType::None;
                     return None;
                 }
             }
@@ -230,6 +237,9 @@ impl<T> Walk<T> {
     fn to_child( &mut self, n: usize ) -> Option<Visit<T>> {
         let new_nodes;
         if let Some( nodes ) = self.path.last_mut() {
+            if nodes.node == nodes.sentinel {
+                return None; // The siblings have been exhausted.
+            }
             unsafe {
                 let node = nodes.node.unwrap();
                 if node.as_ref().has_no_child() {
-- 
2.43.0


From 5735835331584e1b9e380565c93e20879b11a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 05/10] fix: let IterRc share ownership of the node it will
 visit next

---
 src/iter.rs    |  5 +++++
 src/iter_rc.rs | 20 +++++++++++++-------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/iter.rs b/src/iter.rs
index f057186..0fddae3 100644
--- a/src/iter.rs
+++ b/src/iter.rs
@@ -52,6 +52,11 @@ impl<T> CountedRawIter<T> {
     pub(crate) fn once( curr: Option<NonNull<Node<T>>> ) -> CountedRawIter<T> {
         CountedRawIter::<T>::new( curr, 1 )
     }
+
+    /// Returns the node that will be returned by the coming call of `next()`, without advancing the iterator.
+    pub(crate) fn peek( &self ) -> Option<NonNull<Node<T>>> {
+        if self.len == 0 { None } else { self.iter.curr }
+    }
 }
 
 impl<T> Copy for CountedRawIter<T> {}
diff --git a/src/iter_rc.rs b/src/iter_rc.rs
index 2f819fd..30eedef 100644
--- a/src/iter_rc.rs
+++ b/src/iter_rc.rs
@@ -12,14 +12,18 @@ use super::{CountedRawIter, Node, RcNode};
 /// [`RcNode::iter_rc`]: ../rc/enum.RcNode.html#method.iter_rc
 pub struct IterRc<T> {
     iter : CountedRawIter<T>,
-    mark : PhantomData<RcNode<T>>,
+    hold : Option<RcNode<T>>, // keeps the coming node alive, no matter what happens to its siblings and parent.
 }
 
 impl<T> Iterator for IterRc<T> {
     type Item = RcNode<T>;
 
     fn next( &mut self ) -> Option<RcNode<T>> {
-        self.iter.next().map( |node| unsafe{ node.as_ref().rc() })
+        self.iter.next().map( |node| {
+            let item = unsafe{ node.as_ref().rc() };
+            self.hold = Self::hold( &self.iter );
+            item
+        })
     }
 
     fn size_hint( &self ) -> ( usize, Option<usize> ) { self.iter.size_hint() }
@@ -27,15 +31,17 @@ impl<T> Iterator for IterRc<T> {
 
 impl<T> IterRc<T> {
     pub(crate) fn new( curr: Option<NonNull<Node<T>>>, len: usize ) -> Self {
-        IterRc {
-            iter: CountedRawIter::new( curr, len ),
-            mark: PhantomData,
-        }
+        let iter = CountedRawIter::new( curr, len );
+        IterRc{ hold: Self::hold( &iter ), iter }
+    }
+
+    fn hold( iter: &CountedRawIter<T> ) -> Option<RcNode<T>> {
+        iter.peek().map( |node| unsafe{ node.as_ref().rc() })
     }
 }
 
 impl<T> Clone for IterRc<T> {
     fn clone( &self ) -> Self {
-        IterRc { ..*self }
+        IterRc{ iter: self.iter, hold: self.hold.clone() }
     }
 }
-- 
2.43.0


From 7baa2437815b6a7482c0e8a428b1b29e0ce952ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:02 +0000
Subject: [PATCH 06/10] fix: check node buffer's bounds against sizes provided
 by users' BFS iterators

---
 src/node_vec.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/node_vec.rs b/src/node_vec.rs
index a3a52b1..e4d6fb4 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -30,7 +30,7 @@ impl<T> NodeVec<T> {
 
     pub(crate) fn non_null_node( &self, index: usize ) -> NonNull<Node<T>> {
         unsafe {
-            NonNull::new_unchecked( self.buf.get_unchecked( index ).try_borrow_unguarded().unwrap() as *const Node<T> as *mut Node<T> )
+            NonNull::new_unchecked( self.buf[ index ].try_borrow_unguarded().unwrap() as *const Node<T> as *mut Node<T> )
         }
     }
 
@@ -42,15 +42,12 @@ impl<T> NodeVec<T> {
     }
 
     pub(crate) fn make_node( &mut self, parent: Option<NonNull<Node<T>>>, index: usize, data: Data<T>, size: Size ) -> NonNull<Node<T>> {
-        unsafe {
-            let node = self.buf.get_unchecked_mut( index );
-            let mut node = node.deref().borrow_mut();
-            node.up = parent;
-            node.size = size;
-            node.data = data;
+        let mut node = self.buf[ index ].deref().borrow_mut();
+        node.up = parent;
+        node.size = size;
+        node.data = data;
 
-            node.non_null()
-        }
+        node.non_null()
     }
 
     pub(crate) fn append_child( &mut self, parent: usize, child: usize, data: T, size: Size ) {
-- 
2.43.0


From cf8565b819132566fccff022c9de50e3f61d24a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 07/10] fix: count alive piled nodes atomically, as detached
 trees may be sent to different threads

---
 src/lib.rs      |  2 ++
 src/node_vec.rs |  4 ++--
 src/rc.rs       | 19 +++++++++++++++++++
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 733a6bf..70b1bba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -97,6 +97,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::pin::Pin;
     #[cfg(not(feature="no_std"))] pub use std::ptr::{self, NonNull, null, null_mut};
     #[cfg(not(feature="no_std"))] pub use std::rc::{Rc, Weak};
+    #[cfg(not(feature="no_std"))] pub use std::sync::atomic::{self, AtomicUsize};
     #[cfg(not(feature="no_std"))] pub use std::vec::Vec;
 
     #[cfg(feature="no_std")] extern crate core;
@@ -123,6 +124,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
     #[cfg(feature="no_std")] pub use core::pin::Pin;
     #[cfg(feature="no_std")] pub use core::ptr::{self, NonNull, null, null_mut};
+    #[cfg(feature="no_std")] pub use core::sync::atomic::{self, AtomicUsize};
 }
 
 #[macro_use]
diff --git a/src/node_vec.rs b/src/node_vec.rs
index e4d6fb4..0d8e02b 100644
--- a/src/node_vec.rs
+++ b/src/node_vec.rs
@@ -9,7 +9,7 @@ use crate::rust::*;
 /// Buffer for storing nodes in contiguous memory allocation.
 pub(crate) struct NodeVec<T> {
     pub(crate) buf     : Vec<Shared<RefCell<Node<T>>>>,
-    pub(crate) ref_cnt : Cell<usize>, // alive node count
+    pub(crate) ref_cnt : AtomicUsize, // alive node count
 }
 
 impl<T> NodeVec<T> {
@@ -17,7 +17,7 @@ impl<T> NodeVec<T> {
         unsafe {
             NonNull::new_unchecked( Box::into_raw( Box::new( NodeVec::<T> {
                 buf: (0..cap).map( |_| Shared::new( RefCell::new( Node::default() ))).collect::<Vec<_>>(),
-                ref_cnt: Cell::new( cap ),
+                ref_cnt: AtomicUsize::new( cap ),
             })))
         }
     }
diff --git a/src/rc.rs b/src/rc.rs
index 81f3536..c206786 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -48,6 +48,25 @@ impl RefCount for Cell<usize> {
     }
 }
 
+// For `NodeVec::ref_cnt`, which is shared by all the trees/forests detached from it, possibly in different threads.
+impl RefCount for AtomicUsize {
+    fn incr( &self ) {
+        #[cfg(      feature = "no_std"  )] use core::usize::MAX;
+        #[cfg( not( feature = "no_std" ))] use  std::usize::MAX;
+        let count = self.fetch_add( 1, atomic::Ordering::Relaxed );
+        if count == 0 || count == MAX {
+            panic!();
+        }
+    }
+
+    fn decr( &self ) -> usize {
+        match self.fetch_sub( 1, atomic::Ordering::AcqRel ).checked_sub( 1 ) {
+            Some( count ) => count,
+            None => panic!(),
+        }
+    }
+}
+
 /// Reference-counting node which stored scatteredly.
 pub struct ScatteredRcNode<T>( Rc<RefCell<Node<T>>> );
 
-- 
2.43.0


From b8435f67553d074f832e1ae519fe9af41ea53ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 08/10] fix: respect dynamic borrows of descendants in
 RcNode::deep_clone

---
 src/lib.rs |  4 ++--
 src/rc.rs  | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 70b1bba..f58a9b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -90,7 +90,7 @@ pub mod rust {
     #[cfg(not(feature="no_std"))] pub use std::cmp::Ordering::{self, *};
     #[cfg(not(feature="no_std"))] pub use std::fmt::{self, Debug, Display, Formatter};
     #[cfg(not(feature="no_std"))] pub use std::hash::{Hasher, Hash};
-    #[cfg(not(feature="no_std"))] pub use std::iter::{Iterator, FromIterator, IntoIterator, FusedIterator};
+    #[cfg(not(feature="no_std"))] pub use std::iter::{from_fn, Iterator, FromIterator, IntoIterator, FusedIterator};
     #[cfg(not(feature="no_std"))] pub use std::marker::{PhantomData, Unpin};
     #[cfg(not(feature="no_std"))] pub use std::mem::{self, forget, transmute, MaybeUninit};
     #[cfg(not(feature="no_std"))] pub use std::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
@@ -118,7 +118,7 @@ pub mod rust {
     #[cfg(feature="no_std")] pub use core::cmp::Ordering::{self, *};
     #[cfg(feature="no_std")] pub use core::fmt::{self, Debug, Display, Formatter};
     #[cfg(feature="no_std")] pub use core::hash::{Hasher, Hash};
-    #[cfg(feature="no_std")] pub use core::iter::{Iterator, FromIterator, IntoIterator, FusedIterator};
+    #[cfg(feature="no_std")] pub use core::iter::{from_fn, Iterator, FromIterator, IntoIterator, FusedIterator};
     #[cfg(feature="no_std")] pub use core::marker::{PhantomData, Unpin};
     #[cfg(feature="no_std")] pub use core::mem::{self, forget, transmute, MaybeUninit};
     #[cfg(feature="no_std")] pub use core::ops::{Add, AddAssign, Deref, DerefMut, Div, Neg, Sub, SubAssign};
diff --git a/src/rc.rs b/src/rc.rs
index c206786..a64dbec 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -1,5 +1,8 @@
 //! Reference-counting nodes.
 
+use crate::Size;
+use crate::bfs::{BfsTree, Visit};
+
 use crate::rust::*;
 
 use super::{Data, Forest, Node, NodeVec, IterRc, Tree};
@@ -529,7 +532,21 @@ impl<T:Clone> RcNode<T> {
     /// let new_tree = root.front().unwrap().deep_clone();
     /// assert_eq!( new_tree, tr(1) /tr(2) );
     /// ```
-    pub fn deep_clone( &self ) -> Tree<T> { self.node_borrow().deep_clone() }
+    pub fn deep_clone( &self ) -> Tree<T> {
+        let size = Size{ degree: 1, descendants: self.node_borrow().size.descendants };
+
+        let mut nodes = VecDeque::new();
+        nodes.push_back( self.clone() );
+
+        // Every node's data is dynamically borrowed while being cloned.
+        let iter = from_fn( move || nodes.pop_front().map( |rc| {
+            for child in rc.iter_rc() { nodes.push_back( child ); }
+            let node = rc.node_borrow();
+            Visit{ data: node.data().clone(), size: node.size }
+        }));
+
+        Tree::from( BfsTree{ iter, size })
+    }
 }
 
 impl<T> Extend<Tree<T>> for RcNode<T> {
-- 
2.43.0


From 1672e59bd248ecbd7d5e009555a0d09976a9c585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:49 +0000
Subject: [PATCH 09/10] fix: reject a breadth-first stream with more visits
 than its degrees announce

In release builds the counter of missing children wrapped around, so that a node
got more children than the degree recorded for it.
---
 src/bfs_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bfs_impls.rs b/src/bfs_impls.rs
index 36ba351..6f97679 100644
--- a/src/bfs_impls.rs
+++ b/src/bfs_impls.rs
@@ -290,7 +290,7 @@ impl<T,Iter> From<BfsTree<Iter>> for Tree<T>
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
-            remains -= 1;
+            remains = remains.checked_sub( 1 ).expect( "more visits than degrees" );
             while remains == 0 {
                 parent += 1;
                 unsafe {
@@ -339,7 +339,7 @@ impl<T,Iter> From<BfsForest<Iter>> for Forest<T>
             unsafe {
                 node_vec.as_mut().append_child( parent, child, visit.data, visit.size );
             }
-            remains -= 1;
+            remains = remains.checked_sub( 1 ).expect( "more visits than degrees" );
             while remains == 0 {
                 parent += 1;
                 unsafe {
-- 
2.43.0


From 051d1a3796dfcf26ea388ae33d76b2f8eba895cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:26 +0000
Subject: [PATCH 10/10] fix: a panicking Drop of a child left the other
 children of a released RcNode pointing to it

---
 src/rc.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index a64dbec..ab3525a 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -146,20 +146,38 @@ impl<T> Clone for RcNode<T> {
     }
 }
 
+// Unlinks all the children of a node to be released, even if dropping one of them panics: the rest may have other owners
+// and must not keep on pointing to their released parent.
+struct Unlink<'a,T>( &'a RcNode<T> );
+
+impl<'a,T> Unlink<'a,T> {
+    fn children( node: &'a RcNode<T> ) {
+        let unlink = Unlink( node );
+        while let Some(_) = unlink.0.pop_front() {}
+        mem::forget( unlink );
+    }
+}
+
+impl<'a,T> Drop for Unlink<'a,T> {
+    fn drop( &mut self ) {
+        while let Some(_) = self.0.pop_front() {}
+    }
+}
+
 impl<T> Drop for RcNode<T> {
     fn drop( &mut self ) {
         let mut drop_piled = false;
         match self {
             RcNode::Scattered( ScatteredRcNode( rc )) => {
                 if Rc::strong_count( &rc ) == 1 {
-                    while let Some(_) = self.pop_front() {}
+                    Unlink::children( self );
                 }
             },
             RcNode::Piled( PiledRcNode( node_vec, index )) => unsafe {
                 let node = node_vec.as_ref().buf.get_unchecked( *index );
                 if node.count.decr() == 0 {
                     drop_piled = true;
-                    while let Some(_) = self.pop_front() {}
+                    Unlink::children( self );
                 }
             },
         }
-- 
2.43.0

